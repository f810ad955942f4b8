//! C16, C22, C25: wallets that use the library, a node with an independent validator, a chain with
//! a clock, a token indexer, and a network between them, in one simulation.
use super::deal::{self, c_ecc, rust_ecc};
use super::World;
use crate::contracts::*;
use crate::ev;
use crate::model::{hash160, ripemd, sha256, sha256d, var_int};
use crate::rng::Rng;
use crate::sim::{hex, Ctx};
use crate::vm::{self, WIn, WTx};
use bitcoin_cash::{
    script_destination, script_p2pkh_spend, Address, BitcoinCode, BitcoinDataType, ByteArray, CsvTimedelta, Destination, Hash160, Hashed,
    InputReference, Integer, Op, Ops, P2PKHSignatory, Pubkey, Script, Sha256, Sha256d, SigHashFlags, Signatory, TaggedOp, TaggedScript, Tx,
    TxBuilder, TxOutpoint, TxOutput, UnhashedTx, UnsignedTx, UnsignedTxInput, ECC,
};
use bitcoin_cash_slp::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};

const P: &[&str] = &["C16"];
const PT: &[&str] = &["C22"];
const PD: &[&str] = &["C25", "C16"];
const ALL: &[&str] = &["C16", "C22", "C25"];

type Key = u64;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Delay {
    B(u16),
    S(u16),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Wait {
    /// final sequence
    No,
    /// lock time active
    Lock,
    D(Delay),
}

/// Who may spend an output, and when.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Kind {
    Pkh(Key),
    Pk(Key),
    /// to an uncompressed key
    Old(Key),
    Multi { keys: Vec<Key>, need: u8, p2sh: bool },
    Htlc { to: Key, from: Key, secret: u64, delay: Delay },
    Vault { owner: Key, until: u32 },
    Cov { owner: Key, outs: Vec<(u64, Key)> },
    Bet { oracle: Key, long: Key, short: Key, price: i32, from: i32 },
    Will { first: Key, second: Key, heir: Key, until: u32, delay: Delay },
    Margin { oracle: Key, long: Key, short: Key, base: i32, cap: i32, from: i32 },
    Data,
    /// anyone's
    Free,
    /// nobody's, though it may look like somebody's
    Junk(Vec<u8>),
}

/// How an input is spent.
#[derive(Clone, Debug, PartialEq)]
enum How {
    Sign(Vec<Key>),
    Claim(Key, u64),
    Refund(Key),
    Settle { key: Key, oracle: Key, price: i32, time: i32 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct TokenS {
    ty: u8,
    ticker: String,
    name: String,
    url: String,
    doc: String,
    decimals: u8,
    baton: Option<u8>,
    qty: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    /// to one or several addresses
    Pay { w: u8, seed: u64 },
    /// into a contract with another party
    Agree { w: u8, seed: u64, delay: Option<Delay>, vault: bool },
    /// out of contracts, entitled or not (`cheat` != 0)
    Spend { w: u8, coin: u64, cheat: u8, seed: u64 },
    /// coins that have to wait as declared by their spender
    Late { w: u8, delay: Delay, seed: u64 },
    /// somebody else's coin
    Steal { w: u8, coin: u64, seed: u64 },
    /// somebody with other software pays, or seems to
    Foreign { seed: u64 },
    /// a second transaction with a coin already spent
    Double { w: u8, tx: u64, seed: u64 },
    /// two wallets pay together
    Joint { a: u8, b: u8, delay: Option<Delay>, seed: u64 },
    Issue { w: u8, token: TokenS, seed: u64 },
    Send { w: u8, token: u64, amounts: Vec<u64>, all: bool, seed: u64 },
    /// messages of any size, kept for later
    Draft { token: TokenS, of: u64, amounts: Vec<u64>, form: u8 },
    Mine { n: u32, dt: u32, skip: u8 },
    /// until a rejected or waiting transaction could be accepted, or just not
    Ripen { tx: u64, off: i8 },
    Reorg { depth: u8, dt: u32, prefer: bool, skip: u8 },
    Net { pick: u64, act: u8 },
    /// the node forgets what is not in a block
    Restart,
    Crash { w: u8 },
    Save { w: u8, form: u8 },
    Sync { w: u8 },
    Resend { w: u8 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanS {
    /// curve per wallet: false C, true Rust
    wallets: Vec<bool>,
    prefix: u8,
    start: u32,
    rate: u64,
    funds: Vec<u64>,
    /// anyone's
    #[serde(default)]
    free: Vec<u64>,
    steps: Vec<Step>,
}

// ---------------------------------------------------------------- model

#[derive(Clone, Debug)]
struct MIn {
    /// transaction and output number
    coin: (usize, usize),
    how: How,
    wait: Wait,
    flags: Vec<u8>,
}

#[derive(Clone, Debug)]
enum TokenAct {
    Genesis(TokenS),
    /// (token, type, amounts)
    Send(usize, u8, Vec<u64>),
}

#[derive(Clone, Debug)]
struct MTx {
    wire: Vec<u8>,
    version: i32,
    lock: u32,
    ins: Vec<MIn>,
    outs: Vec<(u64, Kind)>,
    act: Option<TokenAct>,
    by: usize,
}

impl MTx {
    /// Whether what input `n` signs are these outputs and nothing else.
    fn pays_only(&self, n: usize, flags: u8, outs: &[(u64, Key)]) -> bool {
        let real: Vec<Vec<u8>> = self.outs.iter().map(|(v, k)| if let Kind::Pkh(k) = k { deal::out_bytes(&(*v, pkh_script(*k))) } else { vec![] }).collect();
        let covered = match flags & 0x1f {
            1 => real.concat(),
            3 if n < real.len() => real[n].clone(),
            _ => vec![],
        };
        covered == cov_outs(outs) && !covered.is_empty()
    }
}

/// Tokens of an output: token, type, amount, baton
#[derive(Clone, Debug, PartialEq, Default)]
struct Held {
    token: Vec<u8>,
    ty: u8,
    amount: u64,
    baton: bool,
}

#[derive(Default)]
struct Node {
    times: Vec<u32>,
    /// (transaction, height) in chain order
    chain: Vec<(usize, u32)>,
    pool: Vec<usize>,
    /// bytes view: outpoint -> value, script, height
    utxo: BTreeMap<Vec<u8>, (u64, Vec<u8>, Option<u32>)>,
    /// model view
    coins: BTreeMap<(usize, usize), Option<u32>>,
    spent: BTreeMap<(usize, usize), usize>,
}

impl Node {
    fn next(&self) -> u32 {
        self.times.len() as u32
    }
    fn mtp(&self, height: u32) -> u32 {
        let h = height as usize;
        let mut v = self.times[(h + 1).saturating_sub(11)..=h].to_vec();
        v.sort_unstable();
        v[v.len() / 2]
    }
    fn tip_mtp(&self) -> u32 {
        self.mtp(self.next() - 1)
    }
    fn apply(&mut self, txs: &[MTx], i: usize, height: Option<u32>) {
        let t = vm::parse(&txs[i].wire).expect("accepted");
        let id = sha256d(&txs[i].wire);
        for x in &t.ins {
            self.utxo.remove(&x.out);
        }
        for x in &txs[i].ins {
            self.coins.remove(&x.coin);
            self.spent.insert(x.coin, i);
        }
        for (j, o) in t.outs.iter().enumerate() {
            self.utxo.insert(outpoint(&id, j), (o.0, o.1.clone(), height));
        }
        for (j, o) in txs[i].outs.iter().enumerate() {
            let _ = o;
            self.coins.insert((i, j), height);
        }
    }
    fn rebuild(&mut self, txs: &[MTx]) {
        self.utxo.clear();
        self.coins.clear();
        self.spent.clear();
        for (i, h) in self.chain.clone() {
            self.apply(txs, i, Some(h));
        }
    }
}

fn outpoint(id: &[u8], j: usize) -> Vec<u8> {
    let mut v = id.to_vec();
    v.extend(&(j as u32).to_le_bytes());
    v
}

// ---------------------------------------------------------------- wallets

#[derive(Clone)]
struct Coin {
    input: UnsignedTxInput,
    kind: Kind,
}

#[derive(Serialize, Deserialize)]
struct Saved {
    coins: Vec<(UnsignedTxInput, String)>,
    pending: Vec<UnhashedTx>,
    tokens: Vec<(TokenId, SlpUtxo)>,
}

struct Wallet {
    rust: bool,
    coins: BTreeMap<Vec<u8>, Coin>,
    pending: Vec<UnhashedTx>,
    tokens: Vec<(TokenId, SlpUtxo)>,
    disk: Option<(u8, Vec<u8>)>,
    /// address or script -> contract this wallet takes part in
    book: BTreeMap<String, Kind>,
    /// the same by address
    known: Table<Address<'static>, Kind>,
    /// the coins by the transaction they are from
    from: Table<(Sha256d, u32), Vec<u8>>,
}

/// A hash table whose order does not depend on anything outside the simulation.
type Table<K, V> = std::collections::HashMap<K, V, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>;

#[derive(Clone)]
enum Msg {
    /// to the node
    Submit(Vec<u8>),
    /// to a wallet
    Notice(usize, Vec<u8>),
    /// to a wallet: everything the node knows, in order
    History(usize, Vec<Vec<u8>>),
}

struct Sim<'a> {
    p: &'a PlanS,
    prefix: &'static str,
    txs: Vec<MTx>,
    by_wire: BTreeMap<Vec<u8>, usize>,
    node: Node,
    wallets: Vec<Wallet>,
    net: Vec<Msg>,
    /// per accepted transaction: tokens of its outputs by the model and by the indexer
    held: BTreeMap<usize, Vec<Option<Held>>>,
    seen: BTreeMap<Vec<u8>, Vec<Option<Held>>>,
    rejected: Vec<usize>,
    dead: bool,
}

const PREFIXES: [&str; 3] = ["bitcoincash", "bchtest", "bchreg"];

fn wallet_of(k: Key) -> usize {
    (k >> 8) as usize
}
fn key(w: usize, k: u64) -> Key {
    (w as u64) << 8 | k
}
fn secret_key(k: Key) -> Vec<u8> {
    deal::key_bytes(k << 12)
}
fn pk_bytes(k: Key) -> Vec<u8> {
    thread_local! {
        static KNOWN: std::cell::RefCell<BTreeMap<u64, Vec<u8>>> = std::cell::RefCell::default();
    }
    if let Some(k) = KNOWN.with(|m| m.borrow().get(&k).cloned()) {
        return k;
    }
    let sk = secp256k1::SecretKey::from_slice(&secret_key(k)).expect("key");
    let v = secp256k1::PublicKey::from_secret_key(deal::curve(), &sk).serialize().to_vec();
    KNOWN.with(|m| m.borrow_mut().insert(k, v.clone()));
    v
}
fn pk(k: Key) -> Pubkey {
    let mut b = [0; 33];
    b.copy_from_slice(&pk_bytes(k));
    Pubkey::new(b)
}
fn secret_bytes(s: u64) -> Vec<u8> {
    crate::model::fill(1 + (s % 60) as u32, s | 256)
}
fn number(d: Delay) -> u32 {
    match d {
        Delay::B(n) => CsvTimedelta::Blockheight(n).sequence(),
        Delay::S(n) => CsvTimedelta::Seconds512(n).sequence(),
    }
}
fn sequence(w: Wait) -> u32 {
    match w {
        Wait::No => u32::MAX,
        Wait::Lock => u32::MAX - 1,
        Wait::D(d) => number(d),
    }
}
fn participants(k: &Kind) -> Vec<Key> {
    match k {
        Kind::Pkh(k) | Kind::Pk(k) | Kind::Old(k) => vec![*k],
        Kind::Will { first, second, heir, .. } => vec![*first, *second, *heir],
        Kind::Margin { long, short, .. } => vec![*long, *short],
        Kind::Multi { keys, .. } => keys.clone(),
        Kind::Htlc { to, from, .. } => vec![*to, *from],
        Kind::Vault { owner, .. } | Kind::Cov { owner, .. } => vec![*owner],
        Kind::Bet { long, short, .. } => vec![*long, *short],
        Kind::Data | Kind::Free | Kind::Junk(_) => vec![],
    }
}
fn takes_part(k: &Kind, w: usize) -> bool {
    participants(k).iter().any(|k| wallet_of(*k) == w)
}

/// The locking script behind an output (the redeem script if paid to its hash).
enum Lock {
    P2pkh,
    Plain(Script, bool),
    Htlc(TaggedScript<HtlcInputs>),
    Vault(TaggedScript<VaultInputs>),
    Cov(TaggedScript<CovenantInputs>),
    Bet(TaggedScript<BetInputs>),
    Will(TaggedScript<WillInputs>),
    Margin(TaggedScript<MarginInputs>),
}

fn old_bytes(k: Key) -> Vec<u8> {
    secp256k1::PublicKey::from_slice(&pk_bytes(k)).expect("key").serialize_uncompressed().to_vec()
}

/// An output without its amount.
fn rest_of_out(k: Key) -> Vec<u8> {
    deal::out_bytes(&(0, pkh_script(k)))[8..].to_vec()
}

const LEAST: u64 = 1000;

fn margin_outs(price: i32, base: i32, cap: i32, long: Key, short: Key) -> Option<Vec<(u64, Key)>> {
    let gain = price as i64 - base as i64;
    if gain.abs() > i32::MAX as i64 {
        return None;
    }
    let gain = gain.max(0).min(cap as i64) as u64;
    Some(vec![(gain + LEAST, long), (cap as u64 + LEAST - gain, short)])
}

fn pkh_script(k: Key) -> Vec<u8> {
    [&[0x76, 0xa9, 20][..], &hash160(&pk_bytes(k)), &[0x88, 0xac]].concat()
}

/// The script of an output as other software makes it.
fn wire_script(k: &Kind) -> Vec<u8> {
    let push = |b: Vec<u8>| [vec![b.len() as u8], b].concat();
    match k {
        Kind::Pkh(k) => pkh_script(*k),
        Kind::Pk(k) => [push(pk_bytes(*k)), vec![0xac]].concat(),
        Kind::Old(k) => [push(old_bytes(*k)), vec![0xac]].concat(),
        Kind::Free => vec![0x51],
        Kind::Junk(s) => s.clone(),
        Kind::Data => vec![0x6a],
        _ => {
            let (s, p2sh) = redeem(lock(k));
            let s = s.ser_ops().to_vec();
            if p2sh {
                [vec![0xa9], push(hash160(&s)), vec![0x87]].concat()
            } else {
                s
            }
        }
    }
}

/// A script which is not `of`, but not far from it.
fn lookalike(of: &Kind, r: &mut Rng) -> Option<Kind> {
    let s = wire_script(of);
    // the one push of the script
    let at = match of {
        Kind::Pkh(_) => 2,
        Kind::Pk(_) | Kind::Old(_) => 0,
        _ if s.len() == 23 => 1,
        _ => return None,
    };
    let n = s[at] as usize;
    let data = s[at + 1..at + 1 + n].to_vec();
    let with = |p: Vec<u8>| [&s[..at], &p, &s[at + 1 + n..]].concat();
    let push = |b: &[u8]| [&[b.len() as u8], b].concat();
    let b = match r.usize(16) {
        0 => with([vec![0x4c, n as u8], data].concat()),
        1 => with([vec![0x4d, n as u8, 0], data].concat()),
        2 => with([vec![0x4e, n as u8, 0, 0, 0], data].concat()),
        3 => {
            let mut d = data;
            let k = r.usize(n);
            d[k] ^= 1 << r.usize(8);
            with(push(&d))
        }
        4 => with(push(&data[1..])),
        5 => with(push(&data[..n - 1])),
        6 => with(push(&[&data[..], &[0]].concat())),
        7 => with(push(&[&[0], &data[..]].concat())),
        8 => [&s[..], &[*r.pick(&[0x61, 0x51, 0x75, 0x00, 0xac])]].concat(),
        9 => [&[*r.pick(&[0x61, 0x51, 0x75, 0x00, 0x6a])], &s[..]].concat(),
        10 => s[1..].to_vec(),
        11 => s[..s.len() - 1].to_vec(),
        12 => with(vec![]),
        13 => {
            let mut b = s.clone();
            let k = if at > 0 && r.chance(1, 2) { r.usize(at) } else { at + 1 + n + r.usize(s.len() - at - 1 - n) };
            b[k] = *r.pick(&[0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0x87, 0x88, 0xac, 0xad, 0x76, 0x61, 0x69, 0xba, 0xbc, 0xff]);
            b
        }
        14 => push(&data),
        _ => push(&s),
    };
    // what cannot be read at all is not read
    vm::ops(&b)?;
    if b == s {
        None
    } else {
        Some(Kind::Junk(b))
    }
}

fn cov_outs(outs: &[(u64, Key)]) -> Vec<u8> {
    outs.iter().flat_map(|(v, k)| deal::out_bytes(&(*v, pkh_script(*k)))).collect()
}

fn lock(k: &Kind) -> Lock {
    match k {
        Kind::Pkh(_) | Kind::Data | Kind::Free | Kind::Junk(_) => Lock::P2pkh,
        Kind::Pk(k) => Lock::Plain(pay_to_pubkey(&pk(*k)), false),
        Kind::Old(k) => Lock::Plain(pay_to_bytes(old_bytes(*k)), false),
        Kind::Multi { keys, need, p2sh } => Lock::Plain(some_of(*need, &keys.iter().map(|k| pk(*k)).collect::<Vec<_>>()), *p2sh),
        Kind::Will { first, second, heir, until, delay } => {
            Lock::Will(Will { first: pk(*first), second: pk(*second), heir: pk(*heir), until: *until as i32, delay: number(*delay) as i32 }.will())
        }
        Kind::Margin { oracle, long, short, base, cap, from } => Lock::Margin(
            Margin {
                oracle: pk(*oracle),
                base: *base,
                cap: *cap,
                not_before: *from,
                long: ByteArray::new("long", rest_of_out(*long)),
                short: ByteArray::new("short", rest_of_out(*short)),
            }
            .margin(),
        ),
        Kind::Htlc { to, from, secret, delay } => Lock::Htlc(
            Htlc { receiver: pk(*to), sender: pk(*from), hash: Sha256::digest(secret_bytes(*secret)), delay: number(*delay) as i32 }.htlc(),
        ),
        Kind::Vault { owner, until } => Lock::Vault(Vault { owner: pk(*owner), until: *until as i32 }.vault()),
        Kind::Cov { owner, outs } => Lock::Cov(
            Covenant { owner: Hash160::digest(pk(*owner).as_byte_array()), outputs: ByteArray::new("outputs", cov_outs(outs)) }.covenant(),
        ),
        Kind::Bet { oracle, long, short, price, from } => {
            Lock::Bet(Bet { oracle: pk(*oracle), long: pk(*long), short: pk(*short), price: *price, not_before: *from }.bet())
        }
    }
}

fn redeem(l: Lock) -> (Script, bool) {
    match l {
        Lock::P2pkh => unreachable!(),
        Lock::Plain(s, p2sh) => (s, p2sh),
        Lock::Htlc(s) => (s.into(), true),
        Lock::Vault(s) => (s.into(), true),
        Lock::Cov(s) => (s.into(), true),
        Lock::Bet(s) => (s.into(), true),
        Lock::Will(s) => (s.into(), true),
        Lock::Margin(s) => (s.into(), true),
    }
}

/// What the address book of a participant files this output under.
fn entry(k: &Kind, prefix: &'static str) -> String {
    match k {
        Kind::Pkh(k) => Address::from_pk(prefix, &pk(*k)).cash_addr().to_string(),
        Kind::Pk(k) => hex(&pk_bytes(*k)),
        Kind::Old(k) => hex(&old_bytes(*k)),
        _ => {
            let (s, p2sh) = redeem(lock(k));
            if p2sh {
                Address::from_redeem_script(prefix, s).expect("redeem script").cash_addr().to_string()
            } else {
                hex(&s.ser_ops())
            }
        }
    }
}

fn output_script(k: &Kind, prefix: &'static str, how: u64) -> Script {
    match k {
        Kind::Pkh(k) => {
            let a = Address::from_pk(prefix, &pk(*k));
            if how % 4 == 3 {
                return a.into();
            }
            // the address as another party was told it
            let told = match how % 4 {
                1 => a.with_prefix("simpleledger").cash_addr().to_string(),
                2 => a.cash_addr().to_ascii_uppercase(),
                _ => a.cash_addr().to_string(),
            };
            let a = Address::from_cash_addr(told).expect("own address");
            (&a).into()
        }
        _ => {
            let (s, p2sh) = redeem(lock(k));
            if p2sh {
                let a = Address::from_redeem_script(prefix, s).expect("redeem script");
                Address::from_cash_addr(a.cash_addr().to_string()).expect("own address").into()
            } else {
                s
            }
        }
    }
}

fn oracle_message(price: i32, time: i32) -> ByteArray {
    let n = |i: i32| ByteArray::from_int(Integer::new(i).expect("number"), Integer::new(4).expect("four")).expect("four bytes");
    n(price).named("price").concat(n(time).named("time"))
}

fn sign(rust: bool, k: Key, digest: ByteArray) -> ByteArray {
    let sk = secret_key(k);
    if rust { rust_ecc().sign(&sk, digest) } else { c_ecc().sign(&sk, digest) }.expect("signature")
}

/// The input script the signers of `how` make.
enum Filler {
    P2pkh(P2PKHSignatory),
    Plain(Spender<Script>, TaggedScript<Script>),
    Htlc(Spender<HtlcInputs>, TaggedScript<HtlcInputs>),
    Vault(Spender<VaultInputs>, TaggedScript<VaultInputs>),
    Cov(Spender<CovenantInputs>, TaggedScript<CovenantInputs>),
    Bet(Spender<BetInputs>, TaggedScript<BetInputs>),
    Will(Spender<WillInputs>, TaggedScript<WillInputs>),
    Margin(Spender<MarginInputs>, TaggedScript<MarginInputs>),
}

fn lib_flags(f: &[u8]) -> Vec<SigHashFlags> {
    f.iter().map(|f| crate::model::hash_type(*f)).collect()
}

fn filler(rust: bool, kind: &Kind, how: &How, flags: &[u8]) -> Filler {
    let flags = lib_flags(flags);
    match (lock(kind), how) {
        (Lock::P2pkh, How::Sign(k)) => Filler::P2pkh(P2PKHSignatory { pubkey: pk(k[0]), sig_hash_flags: flags[0] }),
        (Lock::Plain(s, p2sh), _) => {
            let dummy = matches!(kind, Kind::Multi { .. });
            let make = move |_: &[_], sigs: Vec<ByteArray>, _: &[TxOutput]| {
                let mut ops = vec![];
                if dummy {
                    ops.push(0i32.to_pushop());
                }
                ops.extend(sigs.into_iter().map(Op::from));
                Script::new(ops.into_iter().map(TaggedOp::from_op).collect::<Vec<_>>())
            };
            Filler::Plain(Spender { flags, p2sh, make: Box::new(make) }, TaggedScript::new(s.ops().into_owned()))
        }
        (Lock::Htlc(s), How::Claim(_, secret)) => {
            let secret = ByteArray::new("secret", secret_bytes(*secret));
            let make = move |_: &[_], sigs: Vec<ByteArray>, _: &[TxOutput]| HtlcInputs::Claim { sig: sigs[0].clone(), secret: secret.clone(), claim: true };
            Filler::Htlc(Spender { flags, p2sh: true, make: Box::new(make) }, s)
        }
        (Lock::Htlc(s), _) => {
            let make = move |_: &[_], sigs: Vec<ByteArray>, _: &[TxOutput]| HtlcInputs::Refund { sig: sigs[0].clone(), claim: false };
            Filler::Htlc(Spender { flags, p2sh: true, make: Box::new(make) }, s)
        }
        (Lock::Vault(s), _) => {
            let make = move |_: &[_], sigs: Vec<ByteArray>, _: &[TxOutput]| VaultInputs { sig: sigs[0].clone() };
            Filler::Vault(Spender { flags, p2sh: true, make: Box::new(make) }, s)
        }
        (Lock::Cov(s), How::Sign(k)) => {
            let pubkey = pk(k[0]).as_byte_array();
            let make = move |pre: &[bitcoin_cash::TxPreimage], sigs: Vec<ByteArray>, _: &[TxOutput]| CovenantInputs {
                preimage: pre[0].clone(),
                sig: sigs[0].clone(),
                pubkey: pubkey.clone(),
            };
            Filler::Cov(Spender { flags, p2sh: true, make: Box::new(make) }, s)
        }
        (Lock::Bet(s), How::Settle { oracle, price, time, .. }) => {
            let message = oracle_message(*price, *time);
            let oracle_sig = sign(rust, *oracle, Sha256::digest(message.clone()).into_byte_array());
            let make = move |_: &[_], sigs: Vec<ByteArray>, _: &[TxOutput]| BetInputs {
                sig: sigs[0].clone(),
                oracle_sig: oracle_sig.clone(),
                message: message.clone(),
            };
            Filler::Bet(Spender { flags, p2sh: true, make: Box::new(make) }, s)
        }
        (Lock::Will(s), how) => {
            let n = if let How::Sign(k) = how { k.len() } else { 0 };
            let make = move |_: &[_], sigs: Vec<ByteArray>, _: &[TxOutput]| match n {
                0 => WillInputs::Heir { sig: sigs[0].clone(), now: false },
                1 => WillInputs::One { sig: sigs[0].clone(), both: false, now: true },
                _ => WillInputs::Both { sig: sigs[0].clone(), other: sigs[1].clone(), both: true, now: true },
            };
            Filler::Will(Spender { flags, p2sh: true, make: Box::new(make) }, s)
        }
        (Lock::Margin(s), How::Settle { oracle, price, time, key }) => {
            let message = oracle_message(*price, *time);
            let oracle_sig = sign(rust, *oracle, Sha256::digest(message.clone()).into_byte_array());
            let pubkey = pk(*key).as_byte_array();
            let make = move |pre: &[bitcoin_cash::TxPreimage], sigs: Vec<ByteArray>, _: &[TxOutput]| MarginInputs {
                preimage: pre[0].clone(),
                sig: sigs[0].clone(),
                pubkey: pubkey.clone(),
                oracle_sig: oracle_sig.clone(),
                message: message.clone(),
            };
            Filler::Margin(Spender { flags, p2sh: true, make: Box::new(make) }, s)
        }
        (_, h) => panic!("{:?} cannot be spent by {:?}", kind, h),
    }
}

fn signers(h: &How) -> Vec<Key> {
    match h {
        How::Sign(k) => k.clone(),
        How::Claim(k, _) | How::Refund(k) => vec![*k],
        How::Settle { key, .. } => vec![*key],
    }
}

/// An input to be spent, as its wallet knows it.
#[derive(Clone)]
struct Use {
    by: usize,
    input: UnsignedTxInput,
    kind: Kind,
    how: How,
    wait: Wait,
    flags: Vec<u8>,
}

fn add(b: &mut TxBuilder<'static>, rust: bool, u: &Use) {
    let mut input = u.input.clone();
    input.sequence = sequence(u.wait);
    match filler(rust, &u.kind, &u.how, &u.flags) {
        Filler::P2pkh(s) => {
            let a = match u.kind {
                Kind::Pkh(k) => Address::from_pk("bitcoincash", &pk(k)),
                _ => unreachable!(),
            };
            let _ = b.add_input(input, a.p2pkh_script().expect("script"), s);
        }
        Filler::Plain(s, l) => {
            b.add_input(input, l, s);
        }
        Filler::Htlc(s, l) => {
            b.add_input(input, l, s);
        }
        Filler::Vault(s, l) => {
            b.add_input(input, l, s);
        }
        Filler::Cov(s, l) => {
            b.add_input(input, l, s);
        }
        Filler::Bet(s, l) => {
            b.add_input(input, l, s);
        }
        Filler::Will(s, l) => {
            b.add_input(input, l, s);
        }
        Filler::Margin(s, l) => {
            b.add_input(input, l, s);
        }
    }
}

/// Signs input `i`; `imported` inputs have lost their signatory on the way.
fn complete(t: &mut UnsignedTx<'static>, i: usize, rust: bool, u: &Use, imported: bool) {
    let keys = signers(&u.how);
    let sigs: Vec<ByteArray> = t.preimages()[i].iter().zip(&keys).map(|(p, k)| sign(rust, *k, Sha256d::digest(p.ser()).into_byte_array())).collect();
    fn by<S: Signatory>(t: &mut UnsignedTx<'static>, i: usize, s: S, sigs: S::Signatures, imported: bool) {
        if imported {
            t.sign_input_signatory(InputReference::<S>::new(i), s, sigs).expect("unsigned");
        } else if i % 2 == 0 {
            t.sign_input(InputReference::<S>::new(i), sigs).expect("unsigned");
        } else {
            t.sign_input_dyn(i, Box::new(sigs) as Box<dyn Any>).expect("unsigned");
        }
    }
    match filler(rust, &u.kind, &u.how, &u.flags) {
        Filler::P2pkh(s) => by(t, i, s, sigs[0].clone(), imported),
        Filler::Plain(s, _) => by(t, i, s, sigs, imported),
        Filler::Htlc(s, _) => by(t, i, s, sigs, imported),
        Filler::Vault(s, _) => by(t, i, s, sigs, imported),
        Filler::Cov(s, _) => by(t, i, s, sigs, imported),
        Filler::Bet(s, _) => by(t, i, s, sigs, imported),
        Filler::Will(s, _) => by(t, i, s, sigs, imported),
        Filler::Margin(s, _) => by(t, i, s, sigs, imported),
    }
}

// ---------------------------------------------------------------- tokens, from bytes

#[derive(Debug, PartialEq)]
enum SlpMsg {
    Genesis { ty: u8, baton: Option<u8>, qty: u64 },
    Send { ty: u8, token: Vec<u8>, amounts: Vec<u64> },
}

/// The pushes of a token message.
fn slp_fields(s: &[u8]) -> Option<Vec<&[u8]>> {
    if s.first() != Some(&0x6a) {
        return None;
    }
    let mut at = 1;
    let mut v: Vec<&[u8]> = vec![];
    while at < s.len() {
        let (n, h) = match s[at] {
            n @ 1..=0x4b => (n as usize, 1),
            0x4c => (*s.get(at + 1)? as usize, 2),
            0x4d => (*s.get(at + 1)? as usize | (*s.get(at + 2)? as usize) << 8, 3),
            0x4e => (s.get(at + 1..at + 5)?.iter().rev().fold(0, |a, b| a << 8 | *b as usize), 5),
            _ => return None,
        };
        v.push(s.get(at + h..at + h + n)?);
        at += h + n;
    }
    Some(v)
}

/// Simple Ledger Protocol, read strictly.
fn slp_read(s: &[u8]) -> Option<SlpMsg> {
    let v = slp_fields(s)?;
    let be = |b: &[u8]| -> Option<u64> { if b.len() == 8 { Some(b.iter().fold(0, |a, x| a << 8 | *x as u64)) } else { None } };
    if v.len() < 4 || v[0] != b"SLP\0" || !(1..=2).contains(&v[1].len()) {
        return None;
    }
    let ty = match v[1].iter().fold(0u32, |a, b| a << 8 | *b as u32) {
        t @ (1 | 0x41 | 0x81) => t as u8,
        _ => return None,
    };
    match v[2] {
        b"GENESIS" => {
            if v.len() != 10 || !matches!(v[6].len(), 0 | 32) || v[7].len() != 1 || v[7][0] > 9 {
                return None;
            }
            let baton = match v[8] {
                [] => None,
                [b] if *b >= 2 => Some(*b),
                _ => return None,
            };
            let qty = be(v[9])?;
            if ty == 0x41 && (v[7][0] != 0 || baton.is_some() || qty != 1) {
                return None;
            }
            Some(SlpMsg::Genesis { ty, baton, qty })
        }
        b"SEND" => {
            if v[3].len() != 32 || !(5..=23).contains(&v.len()) {
                return None;
            }
            let amounts = v[4..].iter().map(|b| be(b)).collect::<Option<Vec<_>>>()?;
            Some(SlpMsg::Send { ty, token: v[3].to_vec(), amounts })
        }
        _ => None,
    }
}

/// Pushes of a token message as its maker means them.
fn slp_pushes(act: &TokenAct, id: impl Fn(usize) -> Vec<u8>) -> Vec<Vec<u8>> {
    match act {
        TokenAct::Genesis(t) => vec![
            b"SLP\0".to_vec(),
            vec![t.ty],
            b"GENESIS".to_vec(),
            t.ticker.clone().into_bytes(),
            t.name.clone().into_bytes(),
            t.url.clone().into_bytes(),
            t.doc.clone().into_bytes(),
            vec![t.decimals],
            t.baton.iter().copied().collect(),
            t.qty.to_be_bytes().to_vec(),
        ],
        TokenAct::Send(token, ty, amounts) => {
            let mut v = vec![b"SLP\0".to_vec(), vec![*ty], b"SEND".to_vec(), id(*token)];
            v.extend(amounts.iter().map(|a| a.to_be_bytes().to_vec()));
            v
        }
    }
}

fn token_type(ty: u8) -> SlpTokenType {
    match ty {
        0x41 => SlpTokenType::Nft1Child,
        0x81 => SlpTokenType::Nft1Group,
        _ => SlpTokenType::Fungible,
    }
}

// ---------------------------------------------------------------- simulation

/// An output to be made.
type Out = (u64, Kind);

impl Sim<'_> {
    fn id(&self, i: usize) -> Vec<u8> {
        sha256d(&self.txs[i].wire)
    }
    /// As shown to people.
    fn shown(&self, i: usize) -> Vec<u8> {
        let mut v = self.id(i);
        v.reverse();
        v
    }
    fn value(&self, c: (usize, usize)) -> u64 {
        self.txs[c.0].outs[c.1].0
    }
    fn kind(&self, c: (usize, usize)) -> &Kind {
        &self.txs[c.0].outs[c.1].1
    }
    fn coin_at(&self, out: &[u8]) -> Option<(usize, usize)> {
        let vout = u32::from_le_bytes([out[32], out[33], out[34], out[35]]) as usize;
        (0..self.txs.len()).find(|i| self.id(*i) == out[..32]).map(|i| (i, vout))
    }
    /// A coin as somebody who only knows where it is would describe it.
    fn describe(&self, c: (usize, usize)) -> UnsignedTxInput {
        let mut h = [0; 32];
        h.copy_from_slice(&self.id(c.0));
        UnsignedTxInput { prev_out: TxOutpoint { tx_hash: Sha256d::new(h), vout: c.1 as u32 }, sequence: 0, value: self.value(c) }
    }

    fn learn(&mut self, ctx: &mut Ctx, k: &Kind) -> Option<()> {
        for w in 0..self.wallets.len() {
            if takes_part(k, w) {
                let prefix = self.prefix;
                let (e, a) = ctx.call(P, "address", || {
                    let e = entry(k, prefix);
                    let a = if e.contains(':') { Some(Address::from_cash_addr(e.clone()).expect("own address").into_owned_address()) } else { None };
                    (e, a)
                })?;
                if let Some(a) = a {
                    self.wallets[w].known.insert(a, k.clone());
                }
                self.wallets[w].book.insert(e, k.clone());
            }
        }
        Some(())
    }

    /// Builds, signs and registers a transaction.
    fn make(&mut self, ctx: &mut Ctx, uses: Vec<Use>, outs: Vec<Out>, change: Option<Kind>, version: i32, lock: u32, act: Option<TokenAct>, seed: u64) -> Option<usize> {
        let by = uses.first()?.by;
        let mut coins = vec![];
        for u in &uses {
            let o = ctx.call(P, "outpoint", || u.input.prev_out.ser().to_vec())?;
            coins.push(self.coin_at(&o)?);
        }
        if coins.iter().collect::<BTreeSet<_>>().len() != coins.len() {
            return None;
        }
        for (_, k) in &outs {
            self.learn(ctx, k)?;
        }
        if let Some(k) = &change {
            self.learn(ctx, k)?;
        }
        let (rate, prefix) = (self.p.rate, self.prefix);
        let data = match &act {
            Some(TokenAct::Genesis(t)) => {
                let t = t.clone();
                Some(ctx.call(PT, "slp_genesis_output", || {
                    slp_genesis_output(SlpGenesisParams {
                        slp_token_type: token_type(t.ty),
                        token_ticker: &t.ticker,
                        token_name: &t.name,
                        token_document_url: &t.url,
                        token_document_hash: &t.doc,
                        decimals: t.decimals,
                        mint_baton_vout: t.baton,
                        initial_token_mint_quantity: t.qty,
                    })
                })?)
            }
            Some(TokenAct::Send(token, ty, amounts)) => {
                let shown = self.shown(*token);
                let id = match self.wallets[by].tokens.iter().find(|(id, _)| id.to_vec() == shown) {
                    Some((id, _)) => id.clone(),
                    None => return None,
                };
                Some(ctx.call(PT, "slp_send_output", || slp_send_output(token_type(*ty), &id, amounts))?)
            }
            None => None,
        };
        let total: u128 = uses.iter().map(|u| u.input.value as u128).sum();
        let known: u128 = outs.iter().map(|o| o.0 as u128).sum();
        let rust: Vec<bool> = uses.iter().map(|u| self.wallets[u.by].rust).collect();
        let mine = rust[0];
        let joint = uses.iter().any(|u| u.by != by);
        let r = ctx.call(ALL, "make a transaction", || {
            let mut b = if rate == 1000 && seed % 3 == 0 { TxBuilder::new(version, lock) } else { TxBuilder::new_with_fee(version, lock, rate) };
            for u in &uses {
                add(&mut b, mine, u);
            }
            b.add_outputs(data.iter().cloned());
            for (v, k) in &outs {
                b.add_output(TxOutput { value: *v, script: output_script(k, prefix, seed) });
            }
            if let Some(k) = &change {
                b.add_leftover_output(output_script(k, prefix, seed >> 3));
            }
            let mut t = match b.build() {
                Ok(t) => t,
                Err(e) => return Err(e.to_string()),
            };
            for (i, u) in uses.iter().enumerate() {
                if u.by == by {
                    complete(&mut t, i, mine, u, false);
                }
            }
            if joint {
                // the rest is signed elsewhere
                let j = serde_json::to_string(&t.partial_tx()).expect("export");
                let u: UnhashedTx = serde_json::from_str(&j).expect("import");
                t = TxBuilder::from_tx(u).build_without_estimation().expect("import");
                for (i, u) in uses.iter().enumerate() {
                    if u.by != by {
                        complete(&mut t, i, rust[i], u, true);
                    }
                }
            }
            Ok(t.complete_tx())
        })?;
        let tx = match r {
            Ok(t) => t,
            Err(e) => {
                ctx.check(known > total, P, "refused-to-build", || format!("{} with {} in, {} out", e, total, known));
                return None;
            }
        };
        let wire = ctx.call(P, "ser", || tx.ser().to_vec())?;
        let parsed = match vm::parse(&wire) {
            Some(t) => t,
            None => {
                ctx.violate(P, "not-a-transaction", hex(&wire));
                return None;
            }
        };
        if parsed.outs.is_empty() {
            // all that was left was dust: nothing to send
            ctx.check(total <= 546 + (wire.len() + 16 * uses.len() * 2 + 64) as u128 * rate as u128 / 1000, P, "change-lost", || format!("{} in, no change", total));
            return None;
        }
        // as agreed?
        let mut all: Vec<Out> = vec![];
        if data.is_some() {
            all.push((0, Kind::Data));
        }
        all.extend(outs);
        let paid: u128 = parsed.outs.iter().map(|o| o.0 as u128).sum();
        let spare = total.saturating_sub(known);
        let least = wire.len() as u128 * rate as u128 / 1000;
        let sigs: usize = uses.iter().map(|u| u.flags.len()).sum();
        let most = (wire.len() + 16 * sigs + 64) as u128 * rate as u128 / 1000;
        if let Some(k) = change {
            if parsed.outs.len() == all.len() + 1 {
                let v = parsed.outs[all.len()].0;
                let fee = total.saturating_sub(paid);
                ctx.check(v > 546 && fee >= least && fee <= most && paid <= total, P, "change", || {
                    format!("{} in, {} agreed out, {} change, {} fee for {} bytes at {} per kB", total, known, v, fee, wire.len(), rate)
                });
                all.push((v, k));
            } else {
                ctx.check(spare <= 546 + most, P, "change-lost", || format!("{} spare, no change ({} bytes at {})", spare, wire.len(), rate));
            }
        }
        let same = parsed.version == version
            && parsed.lock == lock
            && parsed.ins.len() == uses.len()
            && parsed.outs.len() == all.len()
            && parsed.ins.iter().zip(&coins).zip(&uses).all(|((i, c), u)| i.out == outpoint(&self.id(c.0), c.1) && (matches!(u.wait, Wait::D(_)) || i.seq == sequence(u.wait)))
            && parsed.outs.iter().zip(&all).all(|(o, (v, k))| o.0 == *v && if let Kind::Pkh(k) = k { o.1 == pkh_script(*k) } else { true });
        // is it about waiting?
        let late = uses.iter().any(|u| u.wait != Wait::No)
            && (parsed.version != version || parsed.lock != lock || parsed.ins.iter().zip(&uses).any(|(i, u)| !matches!(u.wait, Wait::D(_)) && i.seq != sequence(u.wait)));
        if !ctx.check(same, if late { PD } else { P }, "not-what-was-agreed", || format!("{:?} for {:?} {:?} version {} lock {}", parsed, coins, all, version, lock)) {
            return None;
        }
        let i = match self.by_wire.get(&wire) {
            Some(i) => *i,
            None => {
                let ins = uses
                    .iter()
                    .zip(&coins)
                    .map(|(u, c)| MIn { coin: *c, how: u.how.clone(), wait: u.wait, flags: u.flags.clone() })
                    .collect();
                let i = self.txs.len();
                self.by_wire.insert(wire.clone(), i);
                self.txs.push(MTx { wire: wire.clone(), version, lock, ins, outs: all, act, by });
                i
            }
        };
        ev!(ctx, "tx {} by {}: {:?} -> {:?} version {} lock {}", i, by, self.txs[i].ins, self.txs[i].outs, version, lock);
        self.wallets[by].pending.push(tx);
        self.net.push(Msg::Submit(wire));
        Some(i)
    }

    // ------------------------------------------------------------ node

    fn model_verdict(&self, i: usize) -> Result<(), String> {
        let t = &self.txs[i];
        let (next, mtp) = (self.node.next(), self.node.tip_mtp());
        let mut heights = vec![];
        for x in &t.ins {
            match self.node.coins.get(&x.coin) {
                Some(h) => heights.push(h.unwrap_or(next)),
                None => return Err("coin".into()),
            }
        }
        if t.lock != 0 && t.ins.iter().any(|x| x.wait != Wait::No) {
            let now = if t.lock < 500_000_000 { next } else { mtp };
            if now <= t.lock {
                return Err(format!("wait: locked until {} (now {})", t.lock, now));
            }
        }
        for (n, (x, h)) in t.ins.iter().zip(&heights).enumerate() {
            if t.version >= 2 {
                match x.wait {
                    Wait::D(Delay::B(n)) if next - h < n as u32 => return Err(format!("wait: {} blocks of {}", next - h, n)),
                    Wait::D(Delay::S(n)) if (mtp - self.node.mtp(h - 1)) < 512 * n as u32 => {
                        return Err(format!("wait: {} s of {}", mtp - self.node.mtp(h - 1), 512 * n as u32))
                    }
                    _ => {}
                }
            }
            let k = self.kind(x.coin);
            let ok = match (k, &x.how) {
                (Kind::Pkh(k), How::Sign(s)) | (Kind::Pk(k), How::Sign(s)) | (Kind::Old(k), How::Sign(s)) => s == &vec![*k],
                (Kind::Free, _) => true,
                (Kind::Multi { keys, need, .. }, How::Sign(s)) => {
                    let at: Vec<Option<usize>> = s.iter().map(|k| keys.iter().position(|x| x == k)).collect();
                    s.len() == *need as usize && at.iter().all(|a| a.is_some()) && at.windows(2).all(|a| a[0] < a[1])
                }
                (Kind::Htlc { to, secret, .. }, How::Claim(k, s)) => k == to && secret_bytes(*s) == secret_bytes(*secret),
                (Kind::Htlc { from, delay, .. }, How::Refund(k)) | (Kind::Will { heir: from, delay, .. }, How::Refund(k)) => {
                    k == from
                        && t.version >= 2
                        && match (delay, x.wait) {
                            (Delay::B(a), Wait::D(Delay::B(n))) | (Delay::S(a), Wait::D(Delay::S(n))) => n >= *a,
                            _ => false,
                        }
                }
                (Kind::Vault { owner, until }, How::Sign(s)) => {
                    s == &vec![*owner] && x.wait != Wait::No && (t.lock < 500_000_000) == (*until < 500_000_000) && t.lock >= *until
                }
                (Kind::Will { first, second, until, .. }, How::Sign(s)) => {
                    s == &vec![*first, *second] || (s == &vec![*first] && x.wait != Wait::No && (t.lock < 500_000_000) == (*until < 500_000_000) && t.lock >= *until)
                }
                (Kind::Cov { owner, outs }, How::Sign(s)) => s == &vec![*owner] && t.pays_only(n, x.flags[0], outs),
                (Kind::Margin { oracle, long, short, base, cap, from }, How::Settle { oracle: o, price: p, time, .. }) => {
                    o == oracle && time >= from && margin_outs(*p, *base, *cap, *long, *short).map_or(false, |outs| t.pays_only(n, x.flags[0], &outs))
                }
                (Kind::Bet { oracle, long, short, price, from }, How::Settle { key, oracle: o, price: p, time }) => {
                    o == oracle && time >= from && key == if p >= price { long } else { short }
                }
                _ => false,
            };
            if !ok {
                return Err(format!("input {} is not entitled: {:?} by {:?}", n, k, x.how));
            }
        }
        Ok(())
    }

    fn node_verdict(&self, i: usize) -> Result<(), String> {
        let wire = &self.txs[i].wire;
        let t = vm::parse(wire).ok_or("not a transaction")?;
        let (next, mtp) = (self.node.next(), self.node.tip_mtp());
        if t.ins.is_empty() || t.outs.is_empty() {
            return Err("empty".into());
        }
        let mut coins = vec![];
        for x in &t.ins {
            coins.push(self.node.utxo.get(&x.out).ok_or("missing or spent")?);
        }
        let paid: u128 = t.outs.iter().map(|o| o.0 as u128).sum();
        if coins.iter().map(|c| c.0 as u128).sum::<u128>() < paid {
            return Err("money".into());
        }
        if t.lock != 0 && t.ins.iter().any(|x| x.seq != u32::MAX) && (if t.lock < 500_000_000 { next } else { mtp }) <= t.lock {
            return Err("not final".into());
        }
        for (n, (x, c)) in t.ins.iter().zip(&coins).enumerate() {
            let h = c.2.unwrap_or(next);
            if t.version as u32 >= 2 && x.seq >> 31 == 0 {
                let v = x.seq & 0xffff;
                if x.seq >> 22 & 1 == 1 {
                    if (mtp as u64) < self.node.mtp(h - 1) as u64 + ((v as u64) << 9) {
                        return Err(format!("input {}: relative lock time", n));
                    }
                } else if next < h + v {
                    return Err(format!("input {}: relative height", n));
                }
            }
            vm::verify(&t, n, &c.1, c.0).map_err(|e| format!("input {}: {}", n, e))?;
        }
        for o in &t.outs {
            if o.1.first() == Some(&0x6a) && o.1.len() > 223 {
                return Err("data output is too long".into());
            }
        }
        Ok(())
    }

    /// Offers a transaction to the node.
    fn submit(&mut self, ctx: &mut Ctx, wire: &[u8]) {
        let i = match self.by_wire.get(wire) {
            Some(i) => *i,
            None => {
                ctx.violate(P, "changed-on-the-way", format!("a wallet sent what it never made: {}", hex(wire)));
                return;
            }
        };
        if self.node.pool.contains(&i) || self.node.chain.iter().any(|c| c.0 == i) {
            ctx.probe("known transaction offered again");
            return;
        }
        ctx.eval();
        let (m, n) = (self.model_verdict(i), self.node_verdict(i));
        ev!(ctx, "node at height {} mtp {}: tx {} {:?} / {:?}", self.node.next() - 1, self.node.tip_mtp(), i, n, m);
        let t = &self.txs[i];
        if m.is_ok() != n.is_ok() {
            let waits = t.ins.iter().any(|x| x.wait != Wait::No || matches!(self.kind(x.coin), Kind::Htlc { .. } | Kind::Vault { .. } | Kind::Will { .. }));
            let (mut props, mut class) = (P.to_vec(), "refused");
            if waits && m.as_ref().err().map_or(true, |e| e.starts_with("wait") || e.contains("Refund") || e.contains("Vault") || e.contains("Will")) {
                props = PD.to_vec();
            }
            if t.act.is_some() {
                props.push("C22");
            }
            if n.is_ok() {
                class = "taken-without-right";
            }
            let kinds: Vec<_> = t.ins.iter().map(|x| (self.kind(x.coin).clone(), x.clone())).collect();
            ctx.violate(&props, class, format!("tx {} node {:?} model {:?} inputs {:?} height {} wire {}", i, n, m, kinds, self.node.next() - 1, hex(&t.wire)));
            self.dead = true;
            return;
        }
        match m {
            Ok(()) => {
                for x in &t.ins {
                    ctx.probe(&format!("spent: {}", name_of(self.kind(x.coin), &x.how)));
                    if let Wait::D(_) = x.wait {
                        ctx.probe("spent after a relative wait");
                    }
                }
                if t.lock > 0 && t.ins.iter().any(|x| x.wait != Wait::No) {
                    ctx.probe("spent after a lock time");
                }
                self.rejected.retain(|r| *r != i);
                self.node.pool.push(i);
                let txs = std::mem::take(&mut self.txs);
                self.node.apply(&txs, i, None);
                self.txs = txs;
                self.index(ctx, i);
                let wire = wire.to_vec();
                for w in 0..self.wallets.len() {
                    self.net.push(Msg::Notice(w, wire.clone()));
                }
            }
            Err(e) => {
                if e == "coin" {
                    ctx.probe("refused: coin is spent or unknown");
                } else if e.starts_with("wait") {
                    ctx.probe("refused: too early");
                } else {
                    ctx.probe("refused: not entitled");
                }
                if !self.rejected.contains(&i) {
                    self.rejected.push(i);
                }
            }
        }
    }

    /// Tokens of a transaction, by its maker's intent and by its bytes.
    fn index(&mut self, ctx: &mut Ctx, i: usize) {
        let id = self.id(i);
        if self.held.contains_key(&i) {
            return;
        }
        let t = &self.txs[i];
        let mut model: Vec<Option<Held>> = vec![None; t.outs.len()];
        let inputs: Vec<Option<Held>> = t.ins.iter().map(|x| self.held[&x.coin.0][x.coin.1].clone()).collect();
        let give = |v: &mut Vec<Option<Held>>, j: usize, h: Held| {
            if j < v.len() && (h.amount > 0 || h.baton) {
                v[j] = Some(h);
            }
        };
        match &t.act {
            Some(TokenAct::Genesis(g)) => {
                let plain = matches!(g.doc.len(), 0 | 32) && g.decimals <= 9 && g.baton.map_or(true, |b| b >= 2);
                let group = inputs.first().map_or(None, |h| h.as_ref()).map_or(false, |h| h.ty == 0x81 && h.amount > 0 && !h.baton);
                let child = g.ty != 0x41 || (g.decimals == 0 && g.baton.is_none() && g.qty == 1 && group);
                if plain && child {
                    let shown = self.shown(i);
                    give(&mut model, 1, Held { token: shown.clone(), ty: g.ty, amount: g.qty, baton: false });
                    if let Some(b) = g.baton {
                        give(&mut model, b as usize, Held { token: shown, ty: g.ty, amount: 0, baton: true });
                    }
                }
            }
            Some(TokenAct::Send(token, ty, amounts)) => {
                let shown = self.shown(*token);
                let have: u128 = inputs.iter().flatten().filter(|h| h.token == shown && h.ty == *ty && !h.baton).map(|h| h.amount as u128).sum();
                if amounts.iter().map(|a| *a as u128).sum::<u128>() <= have {
                    for (j, a) in amounts.iter().enumerate() {
                        give(&mut model, j + 1, Held { token: shown.clone(), ty: *ty, amount: *a, baton: false });
                    }
                }
            }
            None => {}
        }
        // the indexer
        let p = vm::parse(&t.wire).expect("accepted");
        let mut seen: Vec<Option<Held>> = vec![None; p.outs.len()];
        let vins: Vec<Option<Held>> = p
            .ins
            .iter()
            .map(|x| self.seen.get(&x.out[..32]).and_then(|v| v.get(u32::from_le_bytes([x.out[32], x.out[33], x.out[34], x.out[35]]) as usize).cloned().flatten()))
            .collect();
        match p.outs.first().and_then(|o| slp_read(&o.1)) {
            Some(SlpMsg::Genesis { ty, baton, qty }) => {
                let group = matches!(vins.first(), Some(Some(h)) if h.ty == 0x81 && !h.baton && h.amount > 0);
                if ty != 0x41 || group {
                    let mut shown = id.clone();
                    shown.reverse();
                    give(&mut seen, 1, Held { token: shown.clone(), ty, amount: qty, baton: false });
                    if let Some(b) = baton {
                        give(&mut seen, b as usize, Held { token: shown, ty, amount: 0, baton: true });
                    }
                }
            }
            Some(SlpMsg::Send { ty, token, amounts }) => {
                let have: u128 = vins.iter().flatten().filter(|h| h.token == token && h.ty == ty && !h.baton).map(|h| h.amount as u128).sum();
                if amounts.iter().map(|a| *a as u128).sum::<u128>() <= have {
                    for (j, a) in amounts.iter().enumerate() {
                        give(&mut seen, j + 1, Held { token: token.clone(), ty, amount: *a, baton: false });
                    }
                }
            }
            None => {}
        }
        if t.act.is_some() {
            ctx.eval();
            ctx.probe(match (&t.act, model.iter().any(|h| h.is_some())) {
                (Some(TokenAct::Genesis(_)), true) => "token issued",
                (Some(TokenAct::Genesis(_)), false) => "invalid token",
                (_, true) => "tokens sent",
                (_, false) => "tokens burnt by an invalid message",
            });
        } else if inputs.iter().any(|h| h.is_some()) {
            ctx.probe("tokens burnt in a plain payment");
        }
        if model != seen {
            ctx.violate(PT, "tokens", format!("tx {} {:?}: meant {:?}, indexed {:?}; message {}", i, t.act, model, seen, hex(&p.outs[0].1)));
            self.dead = true;
        }
        self.held.insert(i, model);
        self.seen.insert(id, seen);
    }

    fn block(&mut self, time: u32, skip: usize) {
        let h = self.node.next();
        let n = self.node.pool.len().saturating_sub(skip);
        self.node.times.push(time);
        for i in self.node.pool.drain(..n).collect::<Vec<_>>() {
            self.node.chain.push((i, h));
            let id = self.id(i);
            for j in 0..self.txs[i].outs.len() {
                if let Some(c) = self.node.utxo.get_mut(&outpoint(&id, j)) {
                    c.2 = Some(h);
                }
                if let Some(c) = self.node.coins.get_mut(&(i, j)) {
                    *c = Some(h);
                }
            }
        }
    }

    fn mine(&mut self, n: u32, dt: u32, skip: usize) {
        for k in 0..n {
            if self.node.times.len() > 400_000 {
                return;
            }
            let last = *self.node.times.last().expect("blocks");
            let t = last.saturating_add(dt).min(2_000_000_000).max(self.node.tip_mtp() + 1);
            self.block(t, if k == 0 { skip } else { 0 });
        }
    }

    /// Mines until these are the next height and the median time, if possible.
    fn advance(&mut self, height: u32, mtp: u32) {
        if mtp > 2_000_000_000 || height > self.node.next() + 70_000 {
            return;
        }
        for _ in 0..12 {
            if self.node.tip_mtp() >= mtp {
                break;
            }
            self.block(mtp, 0);
        }
        while self.node.next() < height {
            let t = self.node.tip_mtp() + 1;
            self.block(t, 0);
        }
    }

    fn ripen(&mut self, ctx: &mut Ctx, i: usize, off: i8) {
        let t = self.txs[i].clone();
        let (mut height, mut mtp) = (0u32, 0u32);
        for x in &t.ins {
            let h = match self.node.coins.get(&x.coin) {
                Some(Some(h)) => *h,
                Some(None) => {
                    self.mine(1, 600, 0);
                    self.node.coins[&x.coin].expect("mined")
                }
                None => return,
            };
            if t.version >= 2 {
                match x.wait {
                    Wait::D(Delay::B(n)) => height = height.max(h + n as u32),
                    Wait::D(Delay::S(n)) => mtp = mtp.max(self.node.mtp(h - 1).saturating_add(512 * n as u32)),
                    _ => {}
                }
            }
        }
        if t.ins.iter().any(|x| x.wait != Wait::No) {
            if t.lock >= 500_000_000 {
                mtp = mtp.max(t.lock + 1);
            } else {
                height = height.max(t.lock + 1);
            }
        }
        // just short of it first
        if off < 0 {
            ctx.probe("offered just too early");
        }
        let back = if off < 0 { 1 } else { 0 };
        let target = |v: u32| if v > 0 { v - back } else { 0 };
        if mtp > self.node.tip_mtp() {
            self.advance(0, target(mtp));
        }
        if height > self.node.next() && height - self.node.next() > 70_000 {
            return;
        }
        if height > self.node.next() {
            self.advance(target(height), 0);
        }
        let wire = t.wire.clone();
        self.submit(ctx, &wire);
        if off < 0 && !self.dead {
            self.advance(height, mtp);
            self.submit(ctx, &wire);
        }
    }

    fn reorg(&mut self, ctx: &mut Ctx, depth: u32, dt: u32, prefer: bool, skip: usize) {
        let base = 21;
        let depth = depth.min(self.node.next() - base);
        if depth == 0 {
            return;
        }
        ctx.fault("reorganisation");
        let keep = self.node.next() - depth;
        let gone: Vec<usize> = self.node.chain.iter().filter(|c| c.1 >= keep).map(|c| c.0).collect();
        self.node.chain.retain(|c| c.1 < keep);
        self.node.times.truncate(keep as usize);
        let pool = std::mem::take(&mut self.node.pool);
        let txs = std::mem::take(&mut self.txs);
        self.node.rebuild(&txs);
        self.txs = txs;
        let mut todo = vec![];
        if prefer {
            todo.extend(self.rejected.clone());
        }
        todo.extend(gone);
        todo.extend(pool);
        for i in todo {
            let wire = self.txs[i].wire.clone();
            self.submit(ctx, &wire);
            if self.dead {
                return;
            }
        }
        self.mine(depth + 1, dt, skip);
    }
}

fn name_of(k: &Kind, h: &How) -> &'static str {
    match (k, h) {
        (Kind::Pkh(_), _) => "public key hash",
        (Kind::Pk(_), _) => "public key",
        (Kind::Old(_), _) => "uncompressed public key",
        (Kind::Multi { keys, .. }, _) if keys.len() > 3 => "some of many",
        (Kind::Multi { .. }, _) => "some of three",
        (Kind::Will { .. }, How::Sign(k)) if k.len() == 2 => "will, both",
        (Kind::Will { .. }, How::Sign(_)) => "will, one in time",
        (Kind::Will { .. }, _) => "will, heir",
        (Kind::Margin { .. }, _) => "margin",
        (Kind::Htlc { .. }, How::Claim(..)) => "hash lock",
        (Kind::Htlc { .. }, _) => "refund after a delay",
        (Kind::Vault { .. }, _) => "vault",
        (Kind::Cov { .. }, _) => "covenant",
        (Kind::Bet { .. }, _) => "bet on an oracle",
        (Kind::Data, _) => "data",
        (Kind::Free, _) => "anyone's",
        (Kind::Junk(_), _) => "nobody's",
    }
}

// ---------------------------------------------------------------- wallets

/// What a wallet reads out of a transaction, through the library only.
struct Read {
    id: Vec<u8>,
    spends: Vec<(Vec<u8>, Option<(Vec<u8>, u32)>, (Sha256d, u32))>,
    outs: Vec<(u64, Found, UnsignedTxInput)>,
    hash: Sha256d,
    tx: UnhashedTx,
}

enum Found {
    /// to an address or script this wallet could have in its book
    At(String, Option<Address<'static>>),
    Data(Vec<Option<Vec<u8>>>),
}

fn read(wire: &[u8], prefix: &'static str) -> Result<Read, String> {
    let tx = Tx::deser(ByteArray::new_unnamed(wire.to_vec())).map_err(|e| e.to_string())?;
    let spends = tx
        .inputs()
        .iter()
        .map(|i| (i.prev_out.ser().to_vec(), script_p2pkh_spend(&i.script).map(|s| (s.pubkey.as_slice().to_vec(), s.sig_hash_flags.bits())), (i.prev_out.tx_hash.clone(), i.prev_out.vout)))
        .collect();
    let mut outs = vec![];
    for (j, o) in tx.outputs().iter().enumerate() {
        let d = script_destination(prefix, &o.script);
        let f = match (&d, d.address()) {
            (_, Some(a)) => Found::At(a.cash_addr().to_string(), Some(a.clone().into_owned_address())),
            (Destination::Address(a), None) => return Err(format!("no address in {}", a.cash_addr())),
            (Destination::P2PK(pk), _) => Found::At(hex(pk), None),
            (Destination::Nulldata(ops), _) => Found::Data(
                ops.iter()
                    .map(|o| match o {
                        Op::PushByteArray { array, .. } => Some(array.to_vec()),
                        _ => None,
                    })
                    .collect(),
            ),
            (Destination::Unknown(s), _) => Found::At(hex(&s.ser_ops()), None),
        };
        let input = UnsignedTxInput { prev_out: TxOutpoint { tx_hash: tx.hash().clone(), vout: j as u32 }, sequence: bitcoin_cash::DEFAULT_SEQUENCE, value: o.value };
        outs.push((o.value, f, input));
    }
    Ok(Read { id: tx.hash().as_slice().to_vec(), spends, outs, hash: tx.hash().clone(), tx: tx.into_unhashed_tx() })
}

impl Sim<'_> {
    /// A wallet learns of a transaction.
    fn observe(&mut self, ctx: &mut Ctx, w: usize, wire: &[u8]) -> Option<()> {
        let prefix = self.prefix;
        let i = self.by_wire[wire];
        let r = match ctx.call(P, "read a transaction", || read(wire, prefix))? {
            Ok(r) => r,
            Err(e) => {
                ctx.violate(P, "unreadable", format!("{}: {}", e, hex(wire)));
                return None;
            }
        };
        ctx.eval();
        let t = self.txs[i].clone();
        let id = self.id(i);
        ctx.check(r.id == id, P, "transaction-id", || format!("{} for {}", hex(&r.id), hex(&id)));
        let real: Vec<Vec<u8>> = t.ins.iter().map(|x| outpoint(&self.id(x.coin.0), x.coin.1)).collect();
        if i > 0 {
            let spent: Vec<_> = r.spends.iter().map(|s| s.0.clone()).collect();
            ctx.check(spent == real, P, "spends-other-coins", || format!("{:?} for {:?}", spent, real));
            for (s, x) in r.spends.iter().zip(&t.ins) {
                let want = match (self.kind(x.coin), &x.how) {
                    (Kind::Pkh(_), How::Sign(k)) => Some((pk_bytes(k[0]), x.flags[0] as u32)),
                    _ => None,
                };
                ctx.check(s.1 == want, P, "sender-misread", || format!("{:?} read as {:?}, made as {:?}", x, s.1, want));
            }
            for (s, r) in real.iter().zip(&r.spends) {
                let x = &mut self.wallets[w];
                let (a, b) = (x.coins.remove(s).is_some(), x.from.remove(&r.2).is_some());
                ctx.check(a == b, P, "coin-not-found", || format!("{}: {} {}", hex(s), a, b));
            }
        }
        ctx.check(r.outs.len() == t.outs.len(), P, "outputs-misread", || format!("{} of {}", r.outs.len(), t.outs.len()));
        for (j, ((v, f, input), (value, kind))) in r.outs.into_iter().zip(&t.outs).enumerate() {
            ctx.check(v == *value, P, "amount-misread", || format!("{} for {}", v, value));
            let found = match &f {
                Found::At(e, a) => {
                    let k = self.wallets[w].book.get(e).cloned();
                    if let Some(a) = a {
                        let same = self.wallets[w].known.get(a) == k.as_ref();
                        ctx.check(same, P, "address-not-found", || format!("{} is {:?}", e, k));
                    }
                    k
                }
                Found::Data(d) => {
                    if let (Some(act), true) = (&t.act, j == 0) {
                        let want: Vec<_> = slp_pushes(act, |i| self.shown(i)).into_iter().map(Some).collect();
                        ctx.check(*d == want, PT, "message-misread", || format!("{:?} for {:?}", d, want));
                    } else if !matches!(kind, Kind::Junk(s) if s.first() == Some(&0x6a)) {
                        ctx.violate(P, "payment-read-as-data", format!("{:?}", kind));
                    }
                    None
                }
            };
            let mine = if takes_part(kind, w) { Some(kind.clone()) } else { None };
            ctx.check(found == mine, P, "output-misread", || format!("output {} of tx {}: wallet {} found {:?}, is {:?}", j, i, w, found, mine));
            if let Some(kind) = found {
                self.wallets[w].from.insert((r.hash.clone(), j as u32), outpoint(&id, j));
                self.wallets[w].coins.insert(outpoint(&id, j), Coin { input: input.clone(), kind });
            }
            // token ids, as a token wallet keeps them
            if let Some(Some(h)) = self.held.get(&i).and_then(|h| h.get(j)).cloned() {
                let token = match &t.act {
                    Some(TokenAct::Genesis(_)) => Some(TokenId::from_hash(r.hash.clone())),
                    _ => self.wallets.iter().flat_map(|w| w.tokens.iter()).find(|(t, _)| t.to_vec() == h.token).map(|x| x.0.clone()),
                };
                if let Some(token) = token {
                    let shown = ctx.call(PT, "token id", || token.to_vec())?;
                    ctx.check(shown == h.token, PT, "token-id", || format!("{} for {}", hex(&shown), hex(&h.token)));
                    let u = SlpUtxo {
                        input,
                        slp_token: SlpToken { amount: h.amount, is_mint_baton: h.baton, action: if h.ty == 1 { SlpAction::SlpV1Send } else { SlpAction::SlpNft1GroupSend } },
                        slp_data: Some(SlpData { token_id: token.clone() }),
                    };
                    if takes_part(&t.outs[j].1, w) && !self.wallets[w].tokens.iter().any(|x| x.0 == token) {
                        self.wallets[w].tokens.push((token, u));
                    }
                }
            }
        }
        if t.act.is_some() && i > 0 {
            let held = self.held.get(&i).cloned().unwrap_or_default();
            let hash = r.hash.clone();
            let tx = r.tx.clone();
            let kept = |h: Option<Held>| {
                h.map_or(SlpToken::default(), |h| SlpToken { amount: h.amount, is_mint_baton: h.baton, action: if h.ty == 1 { SlpAction::SlpV1Send } else { SlpAction::SlpNft1GroupSend } })
            };
            let from: Vec<(SlpToken, Vec<u8>)> = t
                .ins
                .iter()
                .map(|x| {
                    let s = vm::parse(&self.txs[x.coin.0].wire).expect("accepted").outs[x.coin.1].1.clone();
                    (kept(self.held.get(&x.coin.0).and_then(|h| h[x.coin.1].clone())), s)
                })
                .collect();
            let back = ctx.call(PT, "token transaction", || {
                let s = SlpTx {
                    version: tx.version,
                    inputs: tx.inputs.iter().enumerate().map(|(index, i)| SlpTxInput { index, token: from[index].0.clone(), input: i.clone(), prev_script: Script::deser_ops(ByteArray::new_unnamed(from[index].1.clone())).expect("own script") }).collect(),
                    outputs: tx
                        .outputs
                        .iter()
                        .enumerate()
                        .map(|(j, o)| SlpTxOutput {
                            token: kept(held.get(j).cloned().flatten()),
                            output: o.clone(),
                        })
                        .collect(),
                    lock_time: tx.lock_time,
                    slp_data: Some(SlpData { token_id: TokenId::from_hash(hash.clone()) }),
                    tx_hash: hash,
                };
                let b: SlpTx = match (i + w) % 3 {
                    0 => serde_json::from_str(&serde_json::to_string(&s).expect("stored")).expect("read"),
                    1 => bincode::deserialize(&bincode::serialize(&s).expect("stored")).expect("read"),
                    _ => {
                        let mut v = vec![];
                        ciborium::ser::into_writer(&s, &mut v).expect("stored");
                        ciborium::de::from_reader(&v[..]).expect("read")
                    }
                };
                let same = b.inputs.iter().zip(&s.inputs).all(|(a, b)| a.index == b.index && a.token == b.token && a.prev_script == b.prev_script)
                    && b.outputs.iter().zip(&s.outputs).all(|(a, b)| a.token == b.token)
                    && b.tx_hash == s.tx_hash
                    && b.slp_data.as_ref().map(|d| &d.token_id) == s.slp_data.as_ref().map(|d| &d.token_id);
                let amounts: Vec<u64> = b.outputs.iter().map(|o| o.token.amount).collect();
                (b.into_unhashed_tx().ser().to_vec(), amounts, same)
            })?;
            let amounts: Vec<u64> = (0..t.outs.len()).map(|j| held.get(j).cloned().flatten().map_or(0, |h| h.amount)).collect();
            ctx.check(back == (wire.to_vec(), amounts, true), PT, "token-transaction", || format!("{:?} for {}", back, hex(wire)));
        }
        Some(())
    }

    fn save(&mut self, ctx: &mut Ctx, w: usize, form: u8) -> Option<()> {
        let prefix = self.prefix;
        let x = &self.wallets[w];
        let s = Saved {
            coins: x.coins.values().map(|c| (c.input.clone(), entry(&c.kind, prefix))).collect(),
            pending: x.pending.clone(),
            tokens: x.tokens.clone(),
        };
        let b = ctx.call(P, "save", || match form % 3 {
            0 => serde_json::to_vec(&s).map_err(|e| e.to_string()),
            1 => bincode::serialize(&s).map_err(|e| e.to_string()),
            _ => {
                let mut v = vec![];
                ciborium::ser::into_writer(&s, &mut v).map_err(|e| e.to_string()).map(|_| v)
            }
        })?;
        match b {
            Ok(b) => self.wallets[w].disk = Some((form % 3, b)),
            Err(e) => ctx.violate(P, "save", e),
        }
        Some(())
    }

    /// A wallet starts again from what it saved last.
    fn crash(&mut self, ctx: &mut Ctx, w: usize) -> Option<()> {
        ctx.fault("wallet crash");
        self.wallets[w].coins.clear();
        self.wallets[w].from.clear();
        self.wallets[w].pending.clear();
        self.wallets[w].tokens.clear();
        let (form, b) = match self.wallets[w].disk.clone() {
            Some(d) => d,
            None => return Some(()),
        };
        let s = ctx.call(P, "load", || -> Result<Saved, String> {
            match form {
                0 => serde_json::from_slice(&b).map_err(|e| e.to_string()),
                1 => bincode::deserialize(&b).map_err(|e| e.to_string()),
                _ => ciborium::de::from_reader(&b[..]).map_err(|e| e.to_string()),
            }
        })?;
        let s = match s {
            Ok(s) => s,
            Err(e) => {
                ctx.violate(P, "load", e);
                return None;
            }
        };
        ctx.probe("wallet restored");
        for (input, e) in s.coins {
            let o = ctx.call(P, "outpoint", || input.prev_out.ser().to_vec())?;
            let kind = self.wallets[w].book.get(&e).cloned();
            let real = self.coin_at(&o).map(|c| (self.value(c), self.kind(c).clone()));
            ctx.check(real.is_some() && real == kind.clone().map(|k| (input.value, k)), P, "coin-changed-in-storage", || format!("{:?} {} is {:?}", input, e, real));
            if let Some(kind) = kind {
                self.wallets[w].from.insert((input.prev_out.tx_hash.clone(), input.prev_out.vout), o.clone());
                self.wallets[w].coins.insert(o, Coin { input, kind });
            }
        }
        for t in &s.pending {
            let wire = ctx.call(P, "ser", || t.ser().to_vec())?;
            ctx.check(self.by_wire.contains_key(&wire), P, "changed-in-storage", || hex(&wire));
        }
        self.wallets[w].pending = s.pending;
        for (t, u) in &s.tokens {
            let same = u.slp_data.as_ref().map(|d| d.token_id.to_vec()) == Some(t.to_vec());
            ctx.check(same, PT, "token-changed-in-storage", || format!("{:?} {:?}", t, u));
        }
        self.wallets[w].tokens = s.tokens;
        Some(())
    }

    fn history(&self) -> Vec<Vec<u8>> {
        self.node.chain.iter().map(|c| c.0).chain(self.node.pool.iter().copied()).map(|i| self.txs[i].wire.clone()).collect()
    }

    fn receive(&mut self, ctx: &mut Ctx, m: Msg) {
        match m {
            Msg::Submit(wire) => self.submit(ctx, &wire),
            Msg::Notice(w, wire) => {
                self.observe(ctx, w, &wire);
            }
            Msg::History(w, all) => {
                self.wallets[w].coins.clear();
                self.wallets[w].from.clear();
                for wire in all {
                    if self.observe(ctx, w, &wire).is_none() {
                        return;
                    }
                }
            }
        }
    }

    fn resend(&mut self, ctx: &mut Ctx, w: usize) -> Option<()> {
        for t in self.wallets[w].pending.clone() {
            let wire = ctx.call(P, "ser", || t.ser().to_vec())?;
            self.net.push(Msg::Submit(wire));
        }
        Some(())
    }

    // ------------------------------------------------------------ acts

    /// Plain coins of a wallet it believes it has.
    fn plain(&self, w: usize, r: &mut Rng, tokens: bool) -> Vec<Use> {
        let mut v: Vec<Use> = self.wallets[w]
            .coins
            .iter()
            .filter(|(_, c)| matches!(c.kind, Kind::Pkh(_)))
            .filter(|(o, _)| tokens || self.coin_at(o).and_then(|c| self.held.get(&c.0).map(|h| h[c.1].is_none())).unwrap_or(true))
            .map(|(_, c)| Use { by: w, input: c.input.clone(), kind: c.kind.clone(), how: How::Sign(participants(&c.kind)), wait: Wait::No, flags: vec![0x41] })
            .collect();
        r.shuffle(&mut v);
        // the money first
        v.sort_by_key(|u| u.input.value < 3000);
        for u in v.iter_mut() {
            u.flags = vec![gen_flags(r)];
        }
        v
    }

    fn some_time(&self, r: &mut Rng) -> u32 {
        match r.usize(4) {
            0 => self.node.next() + r.below(10) as u32,
            1 => *r.pick(&[1, 16, 17, 127, 128, 255, 256, 32767, 32768]),
            2 => self.node.tip_mtp() + r.below(5000) as u32,
            _ => *r.pick(&[500_000_000, 500_000_001, 1_600_000_000]),
        }
    }

    fn lock_time(&self, r: &mut Rng) -> (u32, Wait) {
        match r.usize(10) {
            0 => (self.node.next() - 1 + r.below(3) as u32, Wait::Lock),
            1 => ((self.node.tip_mtp() as i64 - 1 + r.below(3) as i64) as u32, Wait::Lock),
            2 => (self.node.next() + r.below(5) as u32, Wait::No),
            _ => (0, Wait::No),
        }
    }

    fn step(&mut self, ctx: &mut Ctx, s: &Step) -> Option<()> {
        let nw = self.wallets.len();
        let w_of = |w: u8| w as usize % nw;
        match s {
            Step::Pay { w, seed } => {
                let (w, r) = (w_of(*w), &mut Rng::new(*seed));
                let n = 1 + r.usize(3);
                let mut uses = self.plain(w, r, r_bool(*seed));
                uses.truncate(n);
                let total: u64 = uses.iter().map(|u| u.input.value).sum();
                let mut outs = vec![];
                for _ in 0..r.usize(4) {
                    let to = key(r.usize(nw), r.below(4));
                    let v = match r.usize(6) {
                        0 => total,
                        1 => 546,
                        _ => 546 + r.below(total / 3 + 1),
                    };
                    outs.push((v, Kind::Pkh(to)));
                }
                let change = if outs.is_empty() || r.chance(7, 8) { Some(Kind::Pkh(key(w, r.below(4)))) } else { None };
                if change.is_none() && total > outs.iter().map(|o| o.0).sum::<u64>() + 20_000 {
                    return None;
                }
                let (lock, wait) = self.lock_time(r);
                for u in uses.iter_mut() {
                    u.wait = wait;
                }
                if change.is_none() && !self.pays_fee(&uses, &outs) {
                    return None;
                }
                self.make(ctx, uses, outs, change, 1 + r.below(2) as i32, lock, None, *seed)?;
            }
            Step::Agree { w, seed, delay, vault } => {
                let (w, r) = (w_of(*w), &mut Rng::new(*seed));
                let o = r.usize(nw);
                let (a, b) = (key(w, r.below(4)), key(o, r.below(4)));
                let kind = match if delay.is_some() { 3 + 6 * r.usize(2) } else if *vault { 5 + 4 * r.usize(2) } else { r.usize(12) } {
                    0 => Kind::Pk(b),
                    8 => Kind::Old(b),
                    1 | 2 => {
                        let n = if r.chance(1, 3) { 1 + r.usize(15) } else { 1 + r.usize(3) };
                        let mut keys = vec![a, b];
                        for k in 0..13 {
                            keys.push(key(r.usize(nw), 4 + k));
                        }
                        keys.truncate(n);
                        keys.dedup();
                        r.shuffle(&mut keys);
                        Kind::Multi { need: 1 + r.usize(keys.len()) as u8, p2sh: keys.len() > 3 || r.chance(1, 2), keys }
                    }
                    9 => {
                        let delay = delay.unwrap_or(Delay::B(r.below(20) as u16));
                        let until = self.some_time(r);
                        Kind::Will { first: b, second: a, heir: key(r.usize(nw), r.below(4)), until, delay }
                    }
                    10 => Kind::Margin {
                        oracle: key(9, r.below(3)),
                        long: a,
                        short: b,
                        base: if r.chance(1, 6) { *r.pick(&[0, -1, i32::MAX, -i32::MAX, 127, -128]) } else { r.below(100_000) as i32 },
                        cap: if r.chance(1, 6) { *r.pick(&[0, 1, 127, 128, 255, 32_767]) } else { 1 + r.below(50_000) as i32 },
                        from: 1_000_000 + r.below(1000) as i32,
                    },
                    3 | 4 => Kind::Htlc { to: b, from: a, secret: r.u64(), delay: delay.unwrap_or(Delay::B(r.below(20) as u16)) },
                    5 => {
                        let until = self.some_time(r);
                        Kind::Vault { owner: b, until }
                    }
                    6 => Kind::Cov { owner: b, outs: (0..1 + if r.chance(1, 4) { r.usize(8) } else { r.usize(3) }).map(|_| (546 + r.below(5000), key(r.usize(nw), r.below(4)))).collect() },
                    _ => {
                        let price = match r.usize(5) {
                            0 => 0,
                            1 => -(r.below(100) as i32),
                            2 => *r.pick(&[127, 128, 255, 256, 32768, 8388607, 8388608, i32::MAX, -i32::MAX]),
                            _ => r.below(1_000_000) as i32,
                        };
                        Kind::Bet { oracle: key(9, r.below(3)), long: a, short: b, price, from: 1_000_000 + r.below(1000) as i32 }
                    }
                };
                let mut uses = self.plain(w, r, false);
                uses.truncate(1 + r.usize(2));
                let v = match &kind {
                    Kind::Cov { outs, .. } => outs.iter().map(|o| o.0).sum::<u64>() + 5000,
                    Kind::Margin { cap, .. } => *cap as u64 + 2 * LEAST + 5000,
                    _ => 3000 + r.below(50_000),
                };
                ctx.probe("agreement");
                self.make(ctx, uses, vec![(v, kind)], Some(Kind::Pkh(key(w, r.below(4)))), 1 + r.below(2) as i32, 0, None, *seed)?;
            }
            Step::Spend { w, coin, cheat, seed } => {
                let (w, r) = (w_of(*w), &mut Rng::new(*seed));
                let coins: Vec<Coin> = self.wallets[w].coins.values().filter(|c| !matches!(c.kind, Kind::Pkh(_))).cloned().collect();
                if coins.is_empty() {
                    return None;
                }
                let c = coins[*coin as usize % coins.len()].clone();
                self.spend(ctx, w, c, *cheat, r, *seed)?;
            }
            Step::Steal { w, coin, seed } => {
                let (w, r) = (w_of(*w), &mut Rng::new(*seed));
                let coins: Vec<(usize, usize)> = self.node.coins.keys().filter(|c| !matches!(self.kind(**c), Kind::Data | Kind::Free | Kind::Junk(_))).copied().collect();
                if coins.is_empty() {
                    return None;
                }
                let c = coins[*coin as usize % coins.len()];
                let x = Coin { input: self.describe(c), kind: self.kind(c).clone() };
                ctx.fault("theft attempt");
                let cheat = 1 + r.usize(7) as u8;
                self.spend(ctx, w, x, cheat, r, *seed)?;
            }
            Step::Foreign { seed } => {
                let r = &mut Rng::new(*seed);
                let free: Vec<(usize, usize)> = self.node.coins.keys().filter(|c| self.kind(**c) == &Kind::Free).copied().collect();
                if free.is_empty() {
                    return None;
                }
                let coin = free[r.usize(free.len())];
                let kinds: Vec<Kind> = self.wallets.iter().flat_map(|w| w.book.values()).cloned().collect();
                let (mut left, mut outs) = (self.value(coin), vec![]);
                for _ in 0..1 + r.usize(5) {
                    let v = 546 + r.below(4000);
                    let mut k = kinds[r.usize(kinds.len())].clone();
                    if r.chance(2, 3) {
                        k = match lookalike(&k, r) {
                            Some(k) => k,
                            None => continue,
                        };
                    }
                    if v + 3000 < left {
                        left -= v;
                        outs.push((v, k));
                    }
                }
                if left > 2000 {
                    let k = r.usize(outs.len() + 1);
                    outs.insert(k, (left - 1000, Kind::Free));
                }
                let version = *r.pick(&[1, 2, 0, -1, i32::MAX, i32::MIN]);
                let t = WTx {
                    version,
                    ins: vec![WIn { out: outpoint(&self.id(coin.0), coin.1), script: vec![], seq: u32::MAX }],
                    outs: outs.iter().map(|(v, k)| (*v, wire_script(k))).collect(),
                    lock: r.u32(),
                };
                let wire = vm::enc(&t);
                if self.by_wire.contains_key(&wire) || outs.is_empty() {
                    return None;
                }
                ctx.fault("foreign payment");
                let i = self.txs.len();
                ev!(ctx, "tx {} foreign: {:?}", i, outs);
                self.by_wire.insert(wire.clone(), i);
                self.txs.push(MTx { wire: wire.clone(), version, lock: t.lock, ins: vec![MIn { coin, how: How::Sign(vec![]), wait: Wait::No, flags: vec![] }], outs, act: None, by: 0 });
                self.net.push(Msg::Submit(wire));
            }
            Step::Late { w, delay, seed } => {
                let (w, r) = (w_of(*w), &mut Rng::new(*seed));
                let mut uses = self.plain(w, r, false);
                uses.truncate(1 + r.usize(2));
                let n = uses.len();
                if n == 0 {
                    return None;
                }
                uses[r.usize(n)].wait = Wait::D(*delay);
                let version = if r.chance(1, 8) { 1 } else { 2 };
                self.make(ctx, uses, vec![], Some(Kind::Pkh(key(r.usize(nw), r.below(4)))), version, 0, None, *seed)?;
            }
            Step::Double { w, tx, seed } => {
                let (w, r) = (w_of(*w), &mut Rng::new(*seed));
                let all: Vec<(usize, usize)> =
                    self.txs.iter().flat_map(|t| t.ins.iter().map(|x| x.coin)).filter(|c| matches!(self.kind(*c), Kind::Pkh(k) if wallet_of(*k) == w)).collect();
                if all.is_empty() {
                    return None;
                }
                let c = all[*tx as usize % all.len()];
                let kind = self.kind(c).clone();
                let u = Use { by: w, input: self.describe(c), how: How::Sign(participants(&kind)), kind, wait: Wait::No, flags: vec![gen_flags(r)] };
                ctx.fault("double spend");
                self.make(ctx, vec![u], vec![], Some(Kind::Pkh(key(r.usize(nw), r.below(4)))), 1, 0, None, *seed)?;
            }
            Step::Joint { a, b, delay, seed } => {
                let (a, b, r) = (w_of(*a), w_of(*b), &mut Rng::new(*seed));
                let mut uses = self.plain(a, r, false);
                uses.truncate(1);
                if uses.is_empty() {
                    return None;
                }
                let mut more = self.plain(b, r, false);
                more.truncate(1 + r.usize(2));
                let (mut version, mut lock) = (1 + r.below(2) as i32, 0);
                // out of a contract into the joint payment
                let coins: Vec<Coin> = self.wallets[b].coins.values().filter(|c| !matches!(c.kind, Kind::Pkh(_) | Kind::Cov { .. } | Kind::Margin { .. })).cloned().collect();
                if !coins.is_empty() && r.chance(1, 2) {
                    let cheat = if r.chance(2, 3) { 0 } else { 1 + r.usize(7) as u8 };
                    if let Some(x) = way_out(b, r.pick(&coins).clone(), cheat, r) {
                        version = x.version;
                        lock = x.lock;
                        more.insert(0, x.u);
                    }
                } else if r.chance(1, 3) {
                    let (l, wait) = self.lock_time(r);
                    lock = l;
                    let n = more.len().max(1);
                    if let Some(u) = more.get_mut(r.usize(n)) {
                        u.wait = wait;
                    }
                }
                if a == b {
                    // one wallet with all it has got
                    more.retain(|u| u.input.prev_out != uses[0].input.prev_out);
                }
                uses.extend(more);
                if let (Some(d), n @ 1..) = (delay, uses.len()) {
                    version = if r.chance(1, 8) { 1 } else { 2 };
                    let all = r.chance(1, 2);
                    let i = r.usize(n);
                    for (j, u) in uses.iter_mut().enumerate() {
                        if matches!(u.kind, Kind::Pkh(_)) && (all || j == i) {
                            u.wait = Wait::D(*d);
                        }
                    }
                }
                if uses.is_empty() {
                    return None;
                }
                if r.chance(1, 3) {
                    uses[1..].reverse();
                }
                ctx.probe("joint payment");
                self.make(ctx, uses, vec![(1000, Kind::Pkh(key(b, r.below(4))))], Some(Kind::Pkh(key(a, r.below(4)))), version, lock, None, *seed)?;
            }
            Step::Issue { w, token, seed } => {
                let (w, r) = (w_of(*w), &mut Rng::new(*seed));
                let mut uses = self.plain(w, r, false);
                uses.truncate(1);
                if token.ty == 0x41 {
                    let group: Vec<Use> = self.plain(w, r, true).into_iter().filter(|u| self.token_of(u).map_or(false, |h| h.ty == 0x81 && !h.baton)).collect();
                    for u in group.into_iter().take(1) {
                        uses.insert(0, u);
                    }
                }
                for u in uses.iter_mut() {
                    u.flags = vec![0x41];
                }
                let n = 1 + token.baton.map_or(0, |b| (b as usize).min(4));
                let outs = (0..n).map(|_| (546, Kind::Pkh(key(w, r.below(4))))).collect();
                self.make(ctx, uses, outs, Some(Kind::Pkh(key(w, r.below(4)))), 1, 0, Some(TokenAct::Genesis(token.clone())), *seed)?;
            }
            Step::Send { w, token, amounts, all, seed } => {
                let (w, r) = (w_of(*w), &mut Rng::new(*seed));
                let plain = self.plain(w, r, true);
                let mut have: Vec<(Held, Use)> = plain.iter().filter_map(|u| self.token_of(u).filter(|h| !h.baton).map(|h| (h, u.clone()))).collect();
                if have.is_empty() {
                    return None;
                }
                let first = have[*token as usize % have.len()].0.clone();
                have.retain(|h| h.0.token == first.token);
                if !*all {
                    have.truncate(1);
                }
                let total: u128 = have.iter().map(|h| h.0.amount as u128).sum();
                let mut left = total;
                let mut amounts: Vec<u64> = amounts
                    .iter()
                    .map(|a| {
                        // parts of what there is; rarely more than that
                        let v = if a % 16 == 15 { *a } else { (left.min(u64::MAX as u128) as u64) / (1 + a % 7) };
                        left = left.saturating_sub(v as u128);
                        v
                    })
                    .collect();
                amounts.truncate(19);
                if amounts.is_empty() {
                    return None;
                }
                let t = self.by_shown(&first.token)?;
                let mut uses: Vec<Use> = have.into_iter().map(|h| h.1).collect();
                uses.extend(plain.into_iter().filter(|u| self.token_of(u).is_none()).take(1));
                if r.chance(1, 2) {
                    r.shuffle(&mut uses);
                }
                for u in uses.iter_mut() {
                    u.flags = vec![0x41];
                }
                let outs = (0..amounts.len().min(1 + r.usize(20))).map(|_| (546, Kind::Pkh(key(r.usize(nw), r.below(4))))).collect();
                self.make(ctx, uses, outs, Some(Kind::Pkh(key(w, r.below(4)))), 1, 0, Some(TokenAct::Send(t, first.ty, amounts)), *seed)?;
            }
            Step::Draft { token, of, amounts, form } => self.draft(ctx, token, *of, amounts, *form)?,
            Step::Mine { n, dt, skip } => self.mine(*n, *dt, *skip as usize),
            Step::Ripen { tx, off } => {
                let waiting: Vec<usize> = self.rejected.iter().copied().filter(|i| self.model_verdict(*i).err().map_or(false, |e| e.starts_with("wait"))).collect();
                if waiting.is_empty() {
                    return None;
                }
                self.ripen(ctx, waiting[*tx as usize % waiting.len()], *off);
            }
            Step::Reorg { depth, dt, prefer, skip } => self.reorg(ctx, *depth as u32, *dt, *prefer, *skip as usize),
            Step::Net { pick, act } => {
                if self.net.is_empty() {
                    return None;
                }
                let i = *pick as usize % self.net.len();
                if i > 0 {
                    ctx.fault("reordering");
                }
                match act {
                    0 => {
                        self.net.remove(i);
                        ctx.fault("message loss");
                    }
                    1 => {
                        let m = self.net[i].clone();
                        ctx.fault("duplication");
                        self.receive(ctx, m);
                    }
                    _ => {
                        let m = self.net.remove(i);
                        self.receive(ctx, m);
                    }
                }
            }
            Step::Restart => {
                ctx.fault("node restart");
                self.node.pool.clear();
                let txs = std::mem::take(&mut self.txs);
                self.node.rebuild(&txs);
                self.txs = txs;
            }
            Step::Crash { w } => self.crash(ctx, w_of(*w))?,
            Step::Save { w, form } => self.save(ctx, w_of(*w), *form)?,
            Step::Sync { w } => {
                let h = self.history();
                self.net.push(Msg::History(w_of(*w), h));
            }
            Step::Resend { w } => self.resend(ctx, w_of(*w))?,
        }
        Some(())
    }

    fn draft(&mut self, ctx: &mut Ctx, g: &TokenS, of: u64, amounts: &[u64], form: u8) -> Option<()> {
        let of = of as usize % self.txs.len();
        let (id, shown) = (self.id(of), self.shown(of));
        let ty = g.ty;
        let acts = [TokenAct::Genesis(g.clone()), TokenAct::Send(of, ty, amounts.to_vec())];
        ctx.eval();
        ctx.probe("token message drafted");
        let got = ctx.call(PT, "draft", || {
            let genesis = slp_genesis_output(SlpGenesisParams {
                slp_token_type: token_type(ty),
                token_ticker: &g.ticker,
                token_name: &g.name,
                token_document_url: &g.url,
                token_document_hash: &g.doc,
                decimals: g.decimals,
                mint_baton_vout: g.baton,
                initial_token_mint_quantity: g.qty,
            });
            #[allow(deprecated)]
            let token = if form % 2 == 0 { TokenId::from_hash(Sha256d::from_slice(&id).expect("id")) } else { TokenId::from_slice(&shown).expect("id") };
            let send = slp_send_output(token_type(ty), &token, amounts);
            let alone: Vec<u8> = Script::new(slp_amount_ops(amounts.iter()).into_iter().map(TaggedOp::from_op).collect::<Vec<_>>()).ser_ops().to_vec();
            let ids = (token.to_vec(), token.as_slice_be().to_vec(), token.hash().as_slice().to_vec());
            // to disk and back
            let out: Vec<TxOutput> = vec![genesis, send];
            let back: Vec<TxOutput> = match form / 2 % 3 {
                0 => out,
                1 => serde_json::from_slice(&serde_json::to_vec(&out).expect("stored")).expect("read"),
                _ => bincode::deserialize(&bincode::serialize(&out).expect("stored")).expect("read"),
            };
            (back.iter().map(|o| o.ser().to_vec()).collect::<Vec<_>>(), ids, alone)
        })?;
        let (outs, ids, alone) = got;
        ctx.check(ids == (shown.clone(), id.clone(), id.clone()), PT, "token-id", || format!("{:?} for {}", ids, hex(&id)));
        for (o, act) in outs.iter().zip(&acts) {
            // value, length, script
            let want = slp_pushes(act, |_| shown.clone());
            let body = vm::out(o);
            let ok = match &body {
                Some((0, s)) => slp_fields(s).map_or(false, |v| v == want),
                _ => false,
            };
            ctx.check(ok, PT, "message", || format!("{} for {:?}", hex(o), act));
        }
        let all = [&[0x6a][..], &alone].concat();
        let want: Vec<Vec<u8>> = amounts.iter().map(|a| a.to_be_bytes().to_vec()).collect();
        ctx.check(slp_fields(&all).map_or(false, |v| v == want), PT, "amounts", || format!("{} for {:?}", hex(&alone), amounts));
        Some(())
    }

    fn by_shown(&self, shown: &[u8]) -> Option<usize> {
        (0..self.txs.len()).find(|i| self.shown(*i) == shown)
    }

    fn token_of(&self, u: &Use) -> Option<Held> {
        let o: Vec<u8> = u.input.prev_out.ser().to_vec();
        let c = self.coin_at(&o)?;
        self.held.get(&c.0)?.get(c.1)?.clone()
    }

    /// Without change, what is left over must be the fee.
    fn pays_fee(&self, uses: &[Use], outs: &[Out]) -> bool {
        let total: u128 = uses.iter().map(|u| u.input.value as u128).sum();
        let out: u128 = outs.iter().map(|o| o.0 as u128).sum();
        !outs.is_empty() && total <= out || total - out > 0
    }

    /// Out of one coin, rightfully or with some condition not met.
    fn spend(&mut self, ctx: &mut Ctx, w: usize, c: Coin, cheat: u8, r: &mut Rng, seed: u64) -> Option<()> {
        let x = way_out(w, c, cheat, r)?;
        self.make(ctx, vec![x.u], x.outs, x.change, x.version, x.lock, None, seed)?;
        Some(())
    }
}

struct WayOut {
    u: Use,
    outs: Vec<Out>,
    change: Option<Kind>,
    version: i32,
    lock: u32,
}

fn way_out(w: usize, c: Coin, cheat: u8, r: &mut Rng) -> Option<WayOut> {
        let own = |k: &Key| wallet_of(*k) == w;
        let foreign = key(w, 5);
        let (mut version, mut lock, mut wait) = (2, 0, Wait::No);
        let mut flags = vec![gen_flags(r)];
        let mut outs: Vec<Out> = vec![];
        let mut change = Some(Kind::Pkh(key(w, r.below(4))));
        let how = match &c.kind {
            Kind::Data | Kind::Free | Kind::Junk(_) => return None,
            Kind::Pkh(k) | Kind::Pk(k) | Kind::Old(k) => How::Sign(vec![if cheat > 0 || !own(k) { foreign } else { *k }]),
            Kind::Will { first, second, heir, until, delay } => {
                wait = Wait::Lock;
                lock = *until;
                match if cheat > 0 { cheat as usize } else { 8 + r.usize(3) } {
                    1 | 2 | 8 => {
                        flags.push(gen_flags(r));
                        if r.chance(1, 2) {
                            lock = 0;
                        }
                        How::Sign(match cheat {
                            1 => vec![*second, *first],
                            2 => vec![*first, foreign],
                            _ => vec![*first, *second],
                        })
                    }
                    x @ 3 | x @ 4 | x @ 7 | x @ 9 => {
                        let mut k = *first;
                        match x {
                            3 => lock = until.saturating_sub(1),
                            4 => wait = Wait::No,
                            7 => k = if heir == first { foreign } else { *heir },
                            _ => {}
                        }
                        How::Sign(vec![k])
                    }
                    x => {
                        lock = 0;
                        wait = Wait::D(match (x, delay) {
                            (5, Delay::B(n)) => Delay::B(n.saturating_sub(1)),
                            (5, Delay::S(n)) => Delay::S(n.saturating_sub(1)),
                            _ => *delay,
                        });
                        How::Refund(if x == 6 { foreign } else { *heir })
                    }
                }
            }
            Kind::Margin { oracle, long, short, base, cap, from } => {
                change = None;
                flags = vec![*r.pick(&[0x41, 0x41, 0x41, 0xc1])];
                let mut p = match r.usize(5) {
                    0 => *r.pick(&[0, i32::MAX, -i32::MAX]),
                    1 => *base,
                    2 => (*base as i64 - 1 - r.below(1000) as i64).max(-(i32::MAX as i64)) as i32,
                    _ => (*base as i64 + r.below(*cap as u64 + 100) as i64).min(i32::MAX as i64) as i32,
                };
                let (mut o, mut time) = (*oracle, from + r.below(2) as i32);
                // (those who trigger it without right are bound to pay something)
                outs = margin_outs(p, *base, *cap, *long, *short).unwrap_or_else(|| vec![(LEAST, *long)]).into_iter().map(|(v, k)| (v, Kind::Pkh(k))).collect();
                match cheat {
                    1 => outs[0].0 += 1,
                    2 => outs[0].1 = Kind::Pkh(foreign),
                    3 => change = Some(Kind::Pkh(key(w, 1))),
                    4 => o = foreign,
                    5 => time = from - 1,
                    6 => p = p.checked_add(1).unwrap_or(0),
                    7 => flags = vec![*r.pick(&[0x42, 0x43])],
                    _ => {}
                }
                How::Settle { key: if r.chance(1, 2) { foreign } else { key(w, r.below(4)) }, oracle: o, price: p, time }
            }
            Kind::Multi { keys, need, .. } => {
                let mut s = keys.clone();
                while s.len() > *need as usize {
                    let i = r.usize(s.len());
                    s.remove(i);
                }
                let n = s.len();
                match cheat {
                    0 => {}
                    1 => s.reverse(),
                    2 => s[n - 1] = s[0],
                    3 => s[0] = foreign,
                    4 => s[n - 1] = foreign,
                    5 if n > 1 => {
                        s.pop();
                    }
                    _ => s[r.usize(n)] = foreign,
                }
                flags = s.iter().map(|_| gen_flags(r)).collect();
                How::Sign(s)
            }
            Kind::Htlc { to, from, secret, delay } => match cheat {
                1 => How::Claim(*to, secret.wrapping_add(61)),
                2 => How::Claim(if own(to) { foreign } else { key(w, 4) }, *secret),
                3 => {
                    wait = Wait::D(*delay);
                    How::Refund(foreign)
                }
                4..=7 => {
                    let other = |d: Delay, by: i32| match d {
                        Delay::B(n) => Delay::B((n as i32 + by).clamp(0, 65535) as u16),
                        Delay::S(n) => Delay::S((n as i32 + by).clamp(0, 65535) as u16),
                    };
                    wait = match cheat {
                        4 => Wait::D(other(*delay, -1)),
                        5 => Wait::D(other(*delay, 1 + r.below(300) as i32)),
                        6 => *r.pick(&[Wait::No, Wait::Lock]),
                        _ => Wait::D(match delay {
                            Delay::B(n) => Delay::S(*n),
                            Delay::S(n) => Delay::B(*n),
                        }),
                    };
                    if r.chance(1, 6) {
                        version = 1;
                    }
                    How::Refund(*from)
                }
                _ if own(to) && (!own(from) || r.chance(1, 2)) => How::Claim(*to, *secret),
                _ => {
                    wait = Wait::D(*delay);
                    How::Refund(*from)
                }
            },
            Kind::Vault { owner, until } => {
                wait = Wait::Lock;
                lock = *until;
                let mut k = *owner;
                match cheat {
                    1 => lock = until.saturating_sub(1),
                    2 => wait = Wait::No,
                    3 => lock = if *until < 500_000_000 { 1_500_000_000 } else { 100 },
                    4 => k = foreign,
                    5 => lock = until + r.below(5) as u32,
                    6 => lock = 0,
                    _ => {}
                }
                How::Sign(vec![k])
            }
            Kind::Cov { owner, outs: agreed } => {
                outs = agreed.iter().map(|(v, k)| (*v, Kind::Pkh(*k))).collect();
                change = None;
                flags = vec![*r.pick(&[0x41, 0x41, 0x41, 0xc1])];
                let mut k = *owner;
                match cheat {
                    1 => outs[0].0 += 1,
                    2 => outs[0].1 = Kind::Pkh(foreign),
                    3 => change = Some(Kind::Pkh(key(w, 1))),
                    4 => k = foreign,
                    5 => flags = vec![gen_flags(r)],
                    6 => {
                        flags = vec![0x43];
                        change = Some(Kind::Pkh(key(w, 1)));
                    }
                    7 => outs.reverse(),
                    _ => {}
                }
                How::Sign(vec![k])
            }
            Kind::Bet { oracle, long, short, price, from } => {
                let up = if own(long) && own(short) { r.chance(1, 2) } else { own(long) };
                let mut p = if up { (*price as i64 + r.below(3) as i64).min(i32::MAX as i64) } else { (*price as i64 - 1 - r.below(3) as i64).max(-(i32::MAX as i64)) } as i32;
                let mut k = if up { *long } else { *short };
                let (mut o, mut time) = (*oracle, from + r.below(2) as i32);
                match cheat {
                    1 => k = if up { *short } else { *long },
                    2 => o = foreign,
                    3 => time = from - 1,
                    4 => p = *price,
                    5 => k = foreign,
                    6 => p = -p,
                    7 => time = -time,
                    _ => {}
                }
                How::Settle { key: k, oracle: o, price: p, time }
            }
        };
        let u = Use { by: w, input: c.input, kind: c.kind, how, wait, flags };
        Some(WayOut { u, outs, change, version, lock })
}

fn r_bool(seed: u64) -> bool {
    seed % 8 == 1
}

fn gen_flags(r: &mut Rng) -> u8 {
    match r.usize(12) {
        0 => 0x42,
        1 => 0x43,
        2 => 0xc1,
        3 => 0xc2,
        4 => 0xc3,
        _ => 0x41,
    }
}

fn run(ctx: &mut Ctx, _prop: &str, v: &Value) {
    let p: PlanS = match serde_json::from_value(v.clone()) {
        Ok(p) => p,
        Err(_) => return,
    };
    let mut sim = Sim {
        p: &p,
        prefix: PREFIXES[p.prefix as usize % 3],
        txs: vec![],
        by_wire: BTreeMap::new(),
        node: Node::default(),
        wallets: p
            .wallets
            .iter()
            .map(|rust| Wallet { rust: *rust, coins: BTreeMap::new(), pending: vec![], tokens: vec![], disk: None, book: BTreeMap::new(), known: Table::default(), from: Table::default() })
            .collect(),
        net: vec![],
        held: BTreeMap::new(),
        seen: BTreeMap::new(),
        rejected: vec![],
        dead: false,
    };
    // own addresses
    for (w, x) in p.wallets.iter().enumerate() {
        for k in 0..4 {
            let k = key(w, k);
            let sk = secret_key(k);
            let rust = *x;
            let got = ctx.call(ALL, "derive_pubkey", || if rust { rust_ecc().derive_pubkey(&sk) } else { c_ecc().derive_pubkey(&sk) }.map(|p| p.as_slice().to_vec()).ok());
            ctx.check(got == Some(Some(pk_bytes(k))), P, "public-key", || format!("{:?}", got));
            if sim.learn(ctx, &Kind::Pkh(k)).is_none() {
                return;
            }
        }
    }
    // funding, in block 5
    let mut outs: Vec<(u64, Kind)> = p.funds.iter().enumerate().map(|(i, v)| (*v, Kind::Pkh(key(i % p.wallets.len(), (i / p.wallets.len()) as u64 % 4)))).collect();
    outs.extend(p.free.iter().map(|v| (*v, Kind::Free)));
    let fund = WTx {
        version: 1,
        ins: vec![WIn { out: [vec![0; 32], vec![255; 4]].concat(), script: vec![1, 5], seq: u32::MAX }],
        outs: outs.iter().map(|(v, k)| (*v, wire_script(k))).collect(),
        lock: 0,
    };
    let wire = vm::enc(&fund);
    sim.by_wire.insert(wire.clone(), 0);
    sim.held.insert(0, vec![None; outs.len()]);
    sim.txs.push(MTx { wire: wire.clone(), version: 1, lock: 0, ins: vec![], outs, act: None, by: 0 });
    for i in 0..21 {
        sim.node.times.push(p.start + 600 * i);
    }
    sim.node.chain.push((0, 5));
    let txs = sim.txs.clone();
    sim.node.rebuild(&txs);
    for w in 0..p.wallets.len() {
        sim.observe(ctx, w, &wire);
    }
    let mut state = String::new();
    for s in &p.steps {
        ev!(ctx, "{:?}", s);
        let _ = sim.step(ctx, s);
        if sim.dead || !ctx.out.violations.is_empty() {
            return;
        }
        state.push_str(&format!("{}.{}.{};", sim.node.chain.len(), sim.node.pool.len(), sim.net.len()));
    }
    // faults stop: everything made is offered until nothing new is accepted, mined, and seen by all
    let net = std::mem::take(&mut sim.net);
    for m in net {
        sim.receive(ctx, m);
        if sim.dead || !ctx.out.violations.is_empty() {
            return;
        }
    }
    loop {
        let before = sim.node.pool.len();
        for i in 1..sim.txs.len() {
            if sim.node.pool.contains(&i) || sim.node.chain.iter().any(|c| c.0 == i) {
                continue;
            }
            let wire = sim.txs[i].wire.clone();
            sim.submit(ctx, &wire);
            if sim.dead {
                return;
            }
        }
        if sim.node.pool.len() == before {
            break;
        }
    }
    sim.net.clear();
    sim.mine(1, 600, 0);
    let all = sim.history();
    for w in 0..p.wallets.len() {
        sim.receive(ctx, Msg::History(w, all.clone()));
        if !ctx.out.violations.is_empty() {
            return;
        }
        let mine: BTreeSet<Vec<u8>> = sim.wallets[w].coins.keys().cloned().collect();
        let real: BTreeSet<Vec<u8>> = sim.node.coins.keys().filter(|c| takes_part(sim.kind(**c), w)).map(|c| outpoint(&sim.id(c.0), c.1)).collect();
        ctx.check(mine == real, P, "balance", || format!("wallet {} has {} coins, the chain {}", w, mine.len(), real.len()));
        let sum: u128 = sim.wallets[w].coins.values().map(|c| c.input.value as u128).sum();
        let want: u128 = sim.node.coins.keys().filter(|c| takes_part(sim.kind(**c), w)).map(|c| sim.value(*c) as u128).sum();
        ctx.check(sum == want, P, "balance", || format!("wallet {} has {}, the chain {}", w, sum, want));
    }
    // nothing out of nothing
    let funded: u128 = p.funds.iter().chain(&p.free).map(|f| *f as u128).sum();
    let left: u128 = sim.node.utxo.values().map(|u| u.0 as u128).sum();
    let fees: u128 = sim.node.chain.iter().skip(1).map(|(i, _)| sim.txs[*i].ins.iter().map(|x| sim.value(x.coin) as u128).sum::<u128>() - sim.txs[*i].outs.iter().map(|o| o.0 as u128).sum::<u128>()).sum();
    ctx.check(left + fees == funded, P, "money", || format!("{} left, {} fees, {} funded", left, fees, funded));
    ctx.out.sim_time = (*sim.node.times.last().expect("blocks") - p.start) as u64;
    ctx.out.nontrivial = sim.node.chain.len() > 1;
    for (i, h) in &sim.node.chain {
        state.push_str(&format!("{}@{};", i, h));
    }
    ctx.mark(&state);
}

// ---------------------------------------------------------------- plans

fn gen_delay(r: &mut Rng) -> Delay {
    let n = match r.usize(4) {
        0 => r.below(4) as u16,
        1 => r.below(40) as u16,
        2 => *r.pick(&[15, 16, 17, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535]),
        _ => (r.u64() >> (48 + r.below(8))) as u16,
    };
    if r.chance(1, 2) {
        Delay::B(n)
    } else {
        Delay::S(n)
    }
}

fn gen_text(r: &mut Rng, max: u64) -> String {
    let n = match r.usize(5) {
        0 => 0,
        1 => 1,
        _ => r.below(max + 1),
    };
    let mut s = String::new();
    while (s.len() as u64) < n {
        s.push(*r.pick(&['A', 'z', '0', ' ', '/', ':', 'é', '₿', '\u{1}', '\u{10}', 'ß']));
    }
    s
}

fn gen_token(r: &mut Rng) -> TokenS {
    let ty = *r.pick(&[1, 1, 1, 0x81, 0x81, 0x41, 0x41]);
    let doc = match r.usize(8) {
        0..=4 => String::new(),
        5 => gen_text(r, 20),
        _ => "0123456789abcdef0123456789abcdef".into(),
    };
    let odd = r.chance(1, 10);
    TokenS {
        ty,
        ticker: gen_text(r, 12),
        name: if r.chance(1, 10) { gen_text(r, 80) } else { gen_text(r, 20) },
        url: gen_text(r, 25),
        doc,
        decimals: if ty == 0x41 && !odd { 0 } else { r.below(if odd { 12 } else { 10 }) as u8 },
        baton: if ty == 0x41 && !odd || r.chance(1, 2) { None } else { Some(*r.pick(&[2, 2, 3, 4, 5, 16, 17, 76, 128, 255])) },
        qty: match r.usize(5) {
            _ if ty == 0x41 && !odd => 1,
            0 => r.below(3),
            1 => u64::MAX - r.below(2),
            2 => 1 << r.below(64),
            _ => r.below(1_000_000),
        },
    }
}

fn gen(r: &mut Rng, prop: &str, thorough: bool) -> Value {
    prepare();
    let nw = 2 + r.usize(3);
    let n = if thorough { 20 + r.usize(80) } else { 12 + r.usize(40) };
    let mut steps = vec![];
    let lossy = r.below(4);
    let mut acts = 0;
    while acts < n {
        acts += 1;
        let w = r.u8();
        let seed = r.u64();
        let weights: [u64; 20] = match prop {
            "C22" => [4, 2, 3, 1, 1, 2, 1, 22, 40, 6, 2, 2, 30, 1, 2, 4, 4, 4, 10, 0],
            "C25" => [4, 22, 22, 16, 1, 2, 8, 1, 1, 8, 30, 4, 30, 1, 1, 2, 3, 3, 0, 0],
            _ => [14, 16, 26, 3, 5, 4, 4, 3, 4, 10, 10, 4, 30, 2, 3, 4, 4, 4, 0, 5],
        };
        let made = steps.len();
        match r.weighted(&weights) {
            0 => steps.push(Step::Pay { w, seed }),
            1 => {
                let delay = if prop == "C25" && r.chance(3, 4) { Some(gen_delay(r)) } else { None };
                let vault = prop == "C25" && delay.is_none() && r.chance(3, 4);
                steps.push(Step::Agree { w, seed, delay, vault })
            }
            2 => {
                let cheat = if prop == "C25" { *r.pick(&[0, 0, 0, 0, 0, 1, 2, 3, 4, 4, 5, 5, 6, 7]) } else { (r.below(12) as u8).saturating_sub(4) };
                steps.push(Step::Spend { w, coin: r.u64(), cheat, seed })
            }
            3 => steps.push(Step::Late { w, delay: gen_delay(r), seed }),
            4 => steps.push(Step::Steal { w, coin: r.u64(), seed }),
            5 => steps.push(Step::Double { w, tx: r.u64(), seed }),
            6 => {
                let delay = if r.chance(1, if prop == "C25" { 2 } else { 5 }) { Some(gen_delay(r)) } else { None };
                steps.push(Step::Joint { a: w, b: r.u8(), delay, seed })
            }
            7 => steps.push(Step::Issue { w, token: gen_token(r), seed }),
            8 => {
                let n = if r.chance(1, 8) { 19 } else { 1 + r.usize(4) };
                steps.push(Step::Send { w, token: r.u64(), amounts: (0..n).map(|_| r.u64()).collect(), all: r.chance(2, 3), seed })
            }
            9 => steps.push(Step::Mine { n: if r.chance(1, 4) { r.below(30) as u32 } else { 1 }, dt: *r.pick(&[1, 300, 600, 600, 5000, 100_000]), skip: if r.chance(1, 4) { 1 } else { 0 } }),
            10 => steps.push(Step::Ripen { tx: r.u64(), off: if r.chance(1, 2) { -1 } else { 0 } }),
            11 => steps.push(Step::Reorg { depth: 1 + r.below(6) as u8, dt: *r.pick(&[1, 600, 2000]), prefer: r.chance(1, 2), skip: r.below(2) as u8 }),
            12 => {}
            13 => steps.push(Step::Restart),
            14 => steps.push(Step::Crash { w }),
            15 => steps.push(Step::Save { w, form: r.u8() % 3 }),
            16 => steps.push(Step::Sync { w }),
            17 => steps.push(Step::Resend { w }),
            19 => steps.push(Step::Foreign { seed }),
            _ => {
                let mut token = gen_token(r);
                let max = *r.pick(&[10, 80, 300, 70_000]);
                match r.usize(4) {
                    0 => token.name = gen_text(r, max),
                    1 => token.url = gen_text(r, max),
                    2 => token.ticker = gen_text(r, max),
                    _ => token.doc = gen_text(r, max),
                }
                let n = 1 + r.usize(19);
                steps.push(Step::Draft { token, of: r.u64(), amounts: (0..n).map(|_| r.u64() >> r.below(64)).collect(), form: r.u8() })
            }
        }
        // what was sent arrives, mostly
        if steps.len() > made || r.chance(1, 2) {
            for _ in 0..r.usize(5) {
                let act = if r.below(12) < lossy { r.below(2) as u8 } else { 2 };
                let pick = if r.below(8) < lossy { r.below(8) } else { 0 };
                steps.push(Step::Net { pick, act });
            }
        }
    }
    serde_json::to_value(PlanS {
        wallets: (0..nw).map(|_| r.chance(1, 2)).collect(),
        prefix: r.u8() % 3,
        start: 1_600_000_000 + r.below(100_000) as u32,
        rate: *r.pick(&[1000, 1000, 1000, 1001, 1500, 3333]),
        funds: (0..nw * (2 + r.usize(3))).map(|_| *r.pick(&[60_000, 100_000, 1_000_000, 99_999_999, 2_100_000_000_000_000, 5000])).collect(),
        free: (0..r.usize(4)).map(|_| 30_000 + r.below(30_000)).collect(),
        steps,
    })
    .expect("plan")
}

fn valid(v: &Value) -> bool {
    serde_json::from_value::<PlanS>(v.clone()).map_or(false, |p| {
        (1..=8).contains(&p.wallets.len())
            && !p.funds.is_empty()
            && p.start >= 1_000_000
            && p.start < 1_900_000_000
            && p.rate >= 1000
            && p.funds.iter().chain(&p.free).all(|f| *f > 546 && *f < 1 << 60)
    })
}

fn prepare() {
    let _ = (c_ecc(), rust_ecc(), deal::curve());
}

pub fn world(_prop: &str) -> World {
    World {
        name: "chain",
        gen,
        run,
        valid,
        after: None,
        quick_runs: 14_000,
        thorough_runs: 300_000,
        recheck: 200,
        cpu_s: 20,
        rule: "a run is a schedule of wallet acts, message deliveries, faults, blocks and reorganisations; non-trivial if something was mined besides the funding; distinct by the sizes of chain, mempool and network after every step and the order in which transactions were mined",
        time_unit: "seconds of chain time",
        real: &["bitcoin-cash: builder, signatories, scripts, addresses, destinations, codecs, storage", "the script macro (contracts of the wallets)", "bitcoin-cash-slp", "both back ends of bitcoin-cash-ecc"],
        stub: &["network", "node, chain and clock", "script interpreter and consensus rules (independent reference)", "token indexer (independent reference)", "wallet application, oracle, thieves"],
        assumptions: &["the reference validator follows the 2020 consensus and standardness rules for the operations the contracts use"],
    }
}
