//! Contracts written with the script macro of the library, as its users write them, with the
//! signatories that spend them. Part of the application side of the chain world.
use bitcoin_cash::{
    BitcoinDataType, ByteArray, Hash160, Op, Opcode::*, Ops, Pubkey, Script, Sha256, SigHashFlags, Signatory, SignatoryKindMultiple, TxOutput,
    TxPreimage,
};

/// Paid to whoever knows a secret and holds one key, or after a delay to the holder of another.
#[derive(Clone)]
pub struct Htlc {
    pub receiver: Pubkey,
    pub sender: Pubkey,
    pub hash: Sha256,
    pub delay: i32,
}

#[bitcoin_cash::script(HtlcInputs, Claim = "claim", Refund = "!claim")]
pub fn htlc(p: &Htlc, sig: ByteArray, #[variant(Claim)] secret: ByteArray, claim: bool) {
    OP_IF(claim);
    {
        let h = OP_SHA256(secret);
        let want = p.hash;
        OP_EQUALVERIFY(h, want);
        let pk = p.receiver;
    }
    OP_ELSE;
    {
        let delay = p.delay;
        OP_CHECKSEQUENCEVERIFY(delay);
        OP_DROP(delay);
        let pk = p.sender;
    }
    OP_ENDIF;
    OP_CHECKSIG(sig, pk);
}

/// Cannot be spent before a height or time.
#[derive(Clone)]
pub struct Vault {
    pub owner: Pubkey,
    pub until: i32,
}

#[bitcoin_cash::script(VaultInputs)]
pub fn vault(p: &Vault, sig: ByteArray) {
    let until = p.until;
    OP_CHECKLOCKTIMEVERIFY(until);
    OP_DROP(until);
    let pk = p.owner;
    let ok = OP_CHECKSIG(sig, pk);
    OP_VERIFY(ok);
    let done = true;
}

/// Can be spent by one key only, and only to agreed outputs.
#[derive(Clone)]
pub struct Covenant {
    pub owner: Hash160,
    pub outputs: ByteArray,
}

#[bitcoin_cash::script(CovenantInputs)]
pub fn covenant(p: &Covenant, preimage: TxPreimage, sig: ByteArray, pubkey: ByteArray) {
    OP_DUP(pubkey);
    let owner = OP_HASH160(pubkey);
    let expected = p.owner;
    OP_EQUALVERIFY(owner, expected);
    OP_2DUP(sig, pubkey);
    OP_CODESEPARATOR();
    OP_CHECKSIGVERIFY(sig, pubkey);
    // the same signature, over the preimage as given
    let pubkey = OP_TOALTSTACK(pubkey);
    let (sig, size) = OP_SIZE(sig);
    let size = OP_1SUB(size);
    let (sig, hash_type) = OP_SPLIT(sig, size);
    OP_DROP(hash_type);
    OP_SWAP(preimage, sig);
    OP_DUP(preimage);
    let preimage = OP_TOALTSTACK(preimage);
    let message = OP_SHA256(preimage);
    let preimage = OP_FROMALTSTACK(preimage);
    let pubkey = OP_FROMALTSTACK(pubkey);
    OP_SWAP(preimage, pubkey);
    let preimage = OP_TOALTSTACK(preimage);
    OP_CHECKDATASIGVERIFY(sig, message, pubkey);
    let preimage = OP_FROMALTSTACK(preimage);
    // which commits to these outputs
    let (preimage, size) = OP_SIZE(preimage);
    let tail = 40;
    let at = OP_SUB(size, tail);
    let (head, tail) = OP_SPLIT(preimage, at);
    OP_NIP(head, tail);
    let n = 32;
    let (hash, tail) = OP_SPLIT(tail, n);
    OP_DROP(tail);
    let agreed = p.outputs.clone();
    let agreed = OP_HASH256(agreed);
    OP_EQUAL(hash, agreed);
}

/// An oracle reports a price; who wins depends on it.
#[derive(Clone)]
pub struct Bet {
    pub oracle: Pubkey,
    pub long: Pubkey,
    pub short: Pubkey,
    pub price: i32,
    pub not_before: i32,
}

#[bitcoin_cash::script(BetInputs)]
pub fn bet(p: &Bet, sig: ByteArray, oracle_sig: ByteArray, message: ByteArray) {
    OP_DUP(message);
    let message = OP_TOALTSTACK(message);
    let oracle = p.oracle;
    OP_CHECKDATASIGVERIFY(oracle_sig, message, oracle);
    let message = OP_FROMALTSTACK(message);
    let width = 4;
    let (price, time) = OP_SPLIT(message, width);
    let time = OP_BIN2NUM(time);
    let not_before = p.not_before;
    let late = OP_GREATERTHANOREQUAL(time, not_before);
    OP_VERIFY(late);
    let price = OP_BIN2NUM(price);
    let limit = p.price;
    let up = OP_GREATERTHANOREQUAL(price, limit);
    OP_IF(up);
    {
        let pk = p.long;
    }
    OP_ELSE;
    {
        let pk = p.short;
    }
    OP_ENDIF;
    OP_CHECKSIG(sig, pk);
}

/// Two parties at once, one of them after some date, or an heir after some silence.
#[derive(Clone)]
pub struct Will {
    pub first: Pubkey,
    pub second: Pubkey,
    pub heir: Pubkey,
    pub until: i32,
    pub delay: i32,
}

#[bitcoin_cash::script(WillInputs, Both = "now&&both", One = "now&&!both", Heir = "!now")]
pub fn will(p: &Will, sig: ByteArray, #[variant(Both)] other: ByteArray, #[variant(Both, One)] both: bool, now: bool) {
    OP_IF(now);
    {
        OP_IF(both);
        {
            let pk = p.second;
            OP_CHECKSIGVERIFY(other, pk);
            let mark = 0;
        }
        OP_ELSE;
        {
            let until = p.until;
            let mark = OP_CHECKLOCKTIMEVERIFY(until);
        }
        OP_ENDIF;
        OP_DROP(mark);
        let pk = p.first;
    }
    OP_ELSE;
    {
        let delay = p.delay;
        OP_CHECKSEQUENCEVERIFY(delay);
        OP_DROP(delay);
        let pk = p.heir;
    }
    OP_ENDIF;
    OP_CHECKSIG(sig, pk);
}

/// Divides a sum between two parties by the price an oracle reports; anybody may trigger it.
#[derive(Clone)]
pub struct Margin {
    pub oracle: Pubkey,
    pub base: i32,
    pub cap: i32,
    pub not_before: i32,
    /// everything of the outputs after their amounts
    pub long: ByteArray,
    pub short: ByteArray,
}

#[bitcoin_cash::script(MarginInputs)]
pub fn margin(p: &Margin, preimage: TxPreimage, sig: ByteArray, pubkey: ByteArray, oracle_sig: ByteArray, message: ByteArray) {
    OP_DUP(message);
    let message = OP_TOALTSTACK(message);
    let oracle = p.oracle;
    OP_CHECKDATASIGVERIFY(oracle_sig, message, oracle);
    OP_2DUP(sig, pubkey);
    OP_CODESEPARATOR();
    OP_CHECKSIGVERIFY(sig, pubkey);
    let depth = depth_of(preimage);
    OP_PICK(depth);
    let hash = OP_SHA256(preimage);
    OP_SWAP(pubkey, hash);
    let depth = depth_of(sig);
    OP_ROLL(depth);
    let (sig, size) = OP_SIZE(sig);
    let size = OP_1SUB(size);
    let (sig, hash_type) = OP_SPLIT(sig, size);
    OP_DROP(hash_type);
    OP_ROT(hash, pubkey, sig);
    OP_ROT(pubkey, sig, hash);
    OP_CHECKDATASIGVERIFY(sig, hash, pubkey);
    let (preimage, size) = OP_SIZE(preimage);
    let tail = 40;
    let at = OP_SUB(size, tail);
    let (head, tail) = OP_SPLIT(preimage, at);
    OP_NIP(head, tail);
    let n = 32;
    let (hash, tail) = OP_SPLIT(tail, n);
    OP_DROP(tail);
    let message = OP_FROMALTSTACK(message);
    let width = 4;
    let (price, time) = OP_SPLIT(message, width);
    let time = OP_BIN2NUM(time);
    let not_before = p.not_before;
    let early = OP_LESSTHAN(time, not_before);
    let fine = OP_NOT(early);
    OP_VERIFY(fine);
    let price = OP_BIN2NUM(price);
    let base = p.base;
    let gain = OP_SUB(price, base);
    let zero = 0;
    let gain = OP_MAX(gain, zero);
    let cap = p.cap;
    let gain = OP_MIN(gain, cap);
    OP_DUP(gain);
    let least = 1000;
    let amount = OP_ADD(gain, least);
    let width = 8;
    let amount = OP_NUM2BIN(amount, width);
    let script = p.long.clone();
    let long = OP_CAT(amount, script);
    OP_SWAP(gain, long);
    let cap = p.cap + 1000;
    OP_SWAP(gain, cap);
    let amount = OP_SUB(cap, gain);
    let width = 8;
    let amount = OP_NUM2BIN(amount, width);
    let script = p.short.clone();
    let short = OP_CAT(amount, script);
    let outputs = OP_CAT(long, short);
    let outputs = OP_HASH256(outputs);
    OP_EQUAL(hash, outputs);
}

/// Input script from preimages, signatures with their hash types, and the locking script.
pub type Maker<I> = Box<dyn Fn(&[TxPreimage], Vec<ByteArray>, &[TxOutput]) -> I + Send + Sync>;

/// Spends any of the above.
pub struct Spender<I> {
    pub flags: Vec<SigHashFlags>,
    pub p2sh: bool,
    pub make: Maker<I>,
}

fn byte(f: SigHashFlags) -> ByteArray {
    ByteArray::new("hash_type", vec![f.bits() as u8])
}

impl<I: Ops> Signatory for Spender<I> {
    type Script = I;
    type Signatures = Vec<ByteArray>;
    type Kind = SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<SigHashFlags> {
        self.flags.clone()
    }
    fn placeholder_signatures(&self) -> Vec<ByteArray> {
        vec![ByteArray::new("sig", vec![0; bitcoin_cash::MAX_SIGNATURE_SIZE]); self.flags.len()]
    }
    fn build_script(&self, pre: &[TxPreimage], _size: Option<usize>, sigs: Vec<ByteArray>, _lock: &Script, outs: &[TxOutput]) -> I {
        let sigs = sigs.into_iter().zip(&self.flags).map(|(s, f)| s.concat(byte(*f))).collect();
        (self.make)(pre, sigs, outs)
    }
    fn is_p2sh(&self) -> bool {
        self.p2sh
    }
}

/// Scripts the macro has no form for.
pub fn pay_to_pubkey(pk: &Pubkey) -> Script {
    Script::from_ops(vec![pk.as_byte_array().into(), Op::Code(OP_CHECKSIG)])
}

pub fn pay_to_bytes(key: Vec<u8>) -> Script {
    Script::from_ops(vec![ByteArray::new("pubkey", key).into(), Op::Code(OP_CHECKSIG)])
}

pub fn some_of(need: u8, pks: &[Pubkey]) -> Script {
    let mut ops = vec![(need as i32).to_pushop()];
    ops.extend(pks.iter().map(|p| Op::from(p.as_byte_array())));
    ops.push((pks.len() as i32).to_pushop());
    ops.push(Op::Code(OP_CHECKMULTISIG));
    Script::from_ops(ops)
}
