//! Specifications of transactions (what a plan says), the library objects built from them, and an
//! independent reference: wire codec, signature-hash preimages, digests, snapshots for comparison.
use crate::rng::Rng;
use bitcoin_cash::{
    ByteArray, Function, Hash160, Hashed, Integer, Op, Opcode, Ripemd160, Script, Sha256, Sha256d, SigHashFlags,
    TaggedOp, TxInput, TxOutpoint, TxOutput, UnhashedTx,
};
use num_traits::FromPrimitive;
use serde::{Deserialize, Serialize};
use sha2::Digest;
use std::sync::Arc;

// ------------------------------------------------------------------ data

pub const NAMES: [&str; 36] = [
    "sig", "", "na\u{ef}ve \u{2603} \u{1f600}", "quote\"back\\slash/", "line\nbreak\ttab\r", "\u{0}nul\u{1f}", "size",
    "hashOutputs", "pk\u{2028}sep", "<unknown>", "src/main.rs", "OP_DUP(pubkey);", "0", "null", "preimage", "a rather long name that goes on for quite a while, so that it does not fit any short-string optimisation and has spaces  in it",
    // further strings of the kinds above, so that one transaction has several of each
    "OP_PUSH(\n    sig,\n    pk,\n)", "{\n\n}", "\n", "\r\n", "a\nb", "two\nlines", "  indented", "trailing ", "\t", "\u{e9}", "\u{1f600}\u{1f600}", "\u{feff}bom",
    "Sig", "SIG", "sig ", "sig2", "'single'", "\\", "true", "another rather long name that goes on for quite a while, longer than the one above it was, and is otherwise rather like it",
];

pub fn name(i: u8) -> &'static str {
    NAMES[i as usize % NAMES.len()]
}

/// `n` bytes: constant if `f` < 256, otherwise pseudo-random from `f`.
pub fn fill(n: u32, f: u64) -> Vec<u8> {
    if f < 256 {
        vec![f as u8; n as usize]
    } else {
        Rng::new(f).bytes(n as usize)
    }
}

pub fn sha256(b: &[u8]) -> Vec<u8> {
    sha2::Sha256::digest(b).to_vec()
}
pub fn sha256d(b: &[u8]) -> Vec<u8> {
    sha256(&sha256(b))
}
pub fn ripemd(b: &[u8]) -> Vec<u8> {
    use ripemd160::Digest as _;
    ripemd160::Ripemd160::digest(b).to_vec()
}
pub fn hash160(b: &[u8]) -> Vec<u8> {
    ripemd(&sha256(b))
}

/// A byte array with its provenance.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Ba {
    /// length, fill, name
    Raw(u32, u64, Option<u8>),
    Cat(Vec<Ba>, Option<u8>),
    /// digest (0 sha256, 1 sha256d, 2 hash160, 3 ripemd160), message, name
    Dig(u8, Box<Ba>, Option<u8>),
    /// arbitrary: length, fill, name, function, preimage
    Pre(u32, u64, Option<u8>, u8, Option<Vec<Ba>>),
    /// split at per-mille, keep the left part?
    Cut(Box<Ba>, u16, bool),
    /// an array shared by several operations
    Shared(u8),
    /// a hash chain: rounds, first value
    Chain(u16, Box<Ba>),
}

/// The deepest provenance the rich export is required to restore.
pub const MAX_CHAIN: u16 = 950;

pub const FUNCTIONS: [Function; 12] = [
    Function::Plain, Function::Sha1, Function::Ripemd160, Function::Sha256, Function::Hash256, Function::Hash160,
    Function::Num2Bin, Function::EcdsaSign, Function::SchnorrSign, Function::ToDataSig, Function::UnexpectedSplit,
    Function::Reverse,
];

impl Ba {
    pub fn bytes(&self, pool: &[Ba]) -> Vec<u8> {
        match self {
            Ba::Raw(n, f, _) => fill(*n, *f),
            Ba::Cat(v, _) => v.iter().flat_map(|b| b.bytes(pool)).collect(),
            Ba::Dig(k, b, _) => {
                let m = b.bytes(pool);
                match k % 4 {
                    0 => sha256(&m),
                    1 => sha256d(&m),
                    2 => hash160(&m),
                    _ => ripemd(&m),
                }
            }
            Ba::Pre(n, f, _, _, _) => fill(*n, *f),
            Ba::Chain(n, b) => {
                let mut m = b.bytes(pool);
                for _ in 0..(*n).min(MAX_CHAIN) {
                    m = sha256(&m);
                }
                m
            }
            Ba::Cut(b, at, left) => {
                let m = b.bytes(pool);
                let at = m.len() * (*at as usize).min(1000) / 1000;
                if *left {
                    m[..at].to_vec()
                } else {
                    m[at..].to_vec()
                }
            }
            Ba::Shared(i) => match pool.get(*i as usize) {
                // the pool only refers to earlier entries
                Some(b) => b.bytes(&pool[..*i as usize]),
                None => vec![],
            },
        }
    }
    pub fn build(&self, pool: &[ByteArray]) -> ByteArray {
        let nm = |b: ByteArray, n: &Option<u8>| match n {
            Some(n) => b.named(name(*n)),
            None => b,
        };
        match self {
            Ba::Raw(n, f, Some(nam)) => {
                if f % 2 == 0 {
                    ByteArray::new(name(*nam), fill(*n, *f))
                } else {
                    ByteArray::from_slice(name(*nam).to_string(), &fill(*n, *f))
                }
            }
            Ba::Raw(n, f, None) => ByteArray::new_unnamed(fill(*n, *f)),
            Ba::Cat(v, n) => nm(ByteArray::from_parts(v.iter().map(|b| b.build(pool))), n),
            Ba::Dig(k, b, n) => {
                let m = b.build(pool);
                let d = match k % 4 {
                    0 => Sha256::digest(m).into_byte_array(),
                    1 => Sha256d::digest(m).into_byte_array(),
                    2 => Hash160::digest(m).into_byte_array(),
                    _ => Ripemd160::digest(m).into_byte_array(),
                };
                nm(d, n)
            }
            Ba::Chain(n, b) => {
                let mut m = b.build(pool);
                for _ in 0..(*n).min(MAX_CHAIN) {
                    m = Sha256::digest(m).into_byte_array();
                }
                m
            }
            Ba::Pre(n, f, nam, fun, pre) => ByteArray::from_preimage(
                fill(*n, *f).into(),
                nam.map(|x| Arc::new(name(x).into())),
                FUNCTIONS[*fun as usize % 12],
                pre.as_ref().map(|v| v.iter().map(|b| b.build(pool)).collect::<Vec<_>>().into()),
            ),
            Ba::Cut(b, at, left) => {
                let m = b.build(pool);
                let at = m.len() * (*at as usize).min(1000) / 1000;
                let (l, r) = m.split(at).expect("split inside");
                if *left {
                    l
                } else {
                    r
                }
            }
            Ba::Shared(i) => pool.get(*i as usize).cloned().unwrap_or_default(),
        }
    }
    fn cost(&self) -> u64 {
        1 + match self {
            Ba::Raw(n, ..) => *n as u64,
            Ba::Cat(v, _) => v.iter().map(|b| b.cost()).sum(),
            Ba::Dig(_, b, _) | Ba::Cut(b, _, _) => b.cost(),
            // a chain of something nested would be deeper than the limit
            Ba::Chain(n, b) => *n as u64 + b.cost() + if let Ba::Raw(..) = **b { 0 } else { 1 << 30 },
            Ba::Pre(n, _, _, _, p) => *n as u64 + p.as_ref().map_or(0, |p| p.iter().map(|b| b.cost()).sum()),
            Ba::Shared(_) => 1,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum OpS {
    /// a known opcode by its byte (Invalid if the byte is none)
    C(u8),
    /// explicitly invalid
    X(u8),
    P(Ba, bool),
    B(bool),
    I(i32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ann {
    pub file: u8,
    pub line: u32,
    pub col: u32,
    pub code: Vec<(u32, u8)>,
    pub names: Option<Vec<Option<u8>>>,
    pub alt: Option<Vec<Option<u8>>>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct TOp(pub OpS, pub Option<Ann>);

pub type ScriptS = Vec<TOp>;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct InS {
    pub rep: u32,
    pub hash: u64,
    pub vout: u32,
    pub seq: u32,
    pub script: ScriptS,
    pub lock: Option<ScriptS>,
    pub value: Option<u64>,
    pub p2sh: Option<bool>,
    pub flags: Option<Vec<u8>>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct OutS {
    pub rep: u32,
    pub value: u64,
    pub script: ScriptS,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct TxS {
    pub version: i32,
    pub lock_time: u32,
    pub pool: Vec<Ba>,
    pub inputs: Vec<InS>,
    pub outputs: Vec<OutS>,
}

// ------------------------------------------------------------------ building library objects

pub fn code_op(b: u8) -> Op {
    match Opcode::from_u8(b) {
        Some(c) => Op::Code(c),
        None => Op::Invalid(b),
    }
}

/// Bytes that stand for themselves in a script (everything but push prefixes).
pub fn is_single(b: u8) -> bool {
    b == 0 || b >= 0x4f
}

pub fn build_pool(pool: &[Ba]) -> Vec<ByteArray> {
    let mut v: Vec<ByteArray> = vec![];
    for b in pool {
        let x = b.build(&v);
        v.push(x);
    }
    v
}

pub fn build_op(t: &TOp, pool: &[ByteArray]) -> TaggedOp {
    let op = match &t.0 {
        OpS::C(b) => code_op(*b),
        OpS::X(b) => Op::Invalid(*b),
        OpS::P(a, m) => Op::PushByteArray { array: a.build(pool), is_minimal: *m },
        OpS::B(b) => Op::PushBoolean(*b),
        OpS::I(i) => Op::PushInteger(Integer::new(*i).expect("script integer")),
    };
    let mut top = TaggedOp::from_op(op);
    if let Some(a) = &t.1 {
        top.src_file = name(a.file).into();
        top.src_line = a.line;
        top.src_column = a.col;
        top.src_code = a.code.iter().map(|(w, n)| (*w, name(*n).into())).collect();
        let names = |v: &Option<Vec<Option<u8>>>| {
            v.as_ref().map(|v| v.iter().map(|n| n.map(|n| name(n).to_string().into())).collect())
        };
        top.pushed_names = names(&a.names);
        top.alt_pushed_names = names(&a.alt);
    }
    top
}

pub fn build_script(s: &[TOp], pool: &[ByteArray]) -> Script {
    Script::new(s.iter().map(|t| build_op(t, pool)).collect::<Vec<_>>())
}

pub fn arr32(v: &[u8]) -> [u8; 32] {
    let mut a = [0; 32];
    a.copy_from_slice(v);
    a
}
pub fn arr20(v: &[u8]) -> [u8; 20] {
    let mut a = [0; 20];
    a.copy_from_slice(v);
    a
}

impl TxS {
    pub fn build(&self) -> UnhashedTx {
        let pool = build_pool(&self.pool);
        let mut inputs = vec![];
        for i in &self.inputs {
            for k in 0..i.rep {
                let script = build_script(&i.script, &pool);
                let lock = i.lock.as_ref().map(|l| build_script(l, &pool));
                inputs.push(TxInput {
                    prev_out: TxOutpoint { tx_hash: build_hash(i.hash), vout: i.vout.wrapping_add(k) },
                    script,
                    sequence: i.seq,
                    lock_script: lock,
                    value: i.value,
                    is_p2sh: i.p2sh,
                    sig_hash_flags: i.flags.as_ref().map(|f| f.iter().map(|b| crate::model::hash_type(*b)).collect()),
                });
            }
        }
        let mut outputs = vec![];
        for o in &self.outputs {
            for _ in 0..o.rep {
                outputs.push(TxOutput { value: o.value, script: build_script(&o.script, &pool) });
            }
        }
        UnhashedTx { version: self.version, inputs, outputs, lock_time: self.lock_time }
    }

    /// Reference wire form, from the specification alone.
    pub fn wire(&self) -> Vec<u8> {
        let mut v = self.version.to_le_bytes().to_vec();
        v.extend(var_int(self.inputs.iter().map(|i| i.rep as u64).sum()));
        for i in &self.inputs {
            for k in 0..i.rep {
                v.extend(fill(32, i.hash));
                v.extend(&i.vout.wrapping_add(k).to_le_bytes());
                v.extend(sized(&enc_script(&i.script, &self.pool)));
                v.extend(&i.seq.to_le_bytes());
            }
        }
        v.extend(var_int(self.outputs.iter().map(|i| i.rep as u64).sum()));
        for o in &self.outputs {
            for _ in 0..o.rep {
                v.extend(&o.value.to_le_bytes());
                v.extend(sized(&enc_script(&o.script, &self.pool)));
            }
        }
        v.extend(&self.lock_time.to_le_bytes());
        v
    }

    /// Plans edited by the minimiser must stay within what the generator would make.
    pub fn valid(&self) -> bool {
        let ops_ok = |s: &ScriptS| {
            s.len() <= 600
                && s.iter().all(|t| match &t.0 {
                    OpS::C(b) | OpS::X(b) => is_single(*b),
                    OpS::I(i) => *i != i32::MIN,
                    OpS::P(a, _) => a.cost() < 200_000,
                    _ => true,
                })
        };
        self.inputs.iter().map(|i| i.rep as u64).sum::<u64>() <= 400
            && self.outputs.iter().map(|i| i.rep as u64).sum::<u64>() <= 400
            && self.pool.iter().all(|b| b.cost() < 200_000)
            && self.inputs.iter().all(|i| ops_ok(&i.script) && i.lock.as_ref().map_or(true, ops_ok))
            && self.outputs.iter().all(|o| ops_ok(&o.script))
    }
}

/// Outpoint hashes are sometimes named, sometimes digests of something.
pub fn build_hash(f: u64) -> Sha256d {
    let h = Sha256d::new(arr32(&fill(32, f)));
    if f % 3 == 0 {
        h.named("prev tx")
    } else {
        h
    }
}

// ------------------------------------------------------------------ reference wire codec

pub fn var_int(n: u64) -> Vec<u8> {
    crate::worlds::stream::model_var_int(n)
}

pub fn sized(b: &[u8]) -> Vec<u8> {
    let mut v = var_int(b.len() as u64);
    v.extend(b);
    v
}

pub fn enc_push(d: &[u8], minimal: bool) -> Vec<u8> {
    let n = d.len();
    let mut v = match n {
        0 if minimal => return vec![0x00],
        0 => return vec![0x4c, 0x00],
        1 if minimal && (1..=16).contains(&d[0]) => return vec![0x50 + d[0]],
        1 if minimal && d[0] == 0x81 => return vec![0x4f],
        1..=0x4b => vec![n as u8],
        0x4c..=0xff => vec![0x4c, n as u8],
        0x100..=0xffff => vec![0x4d, n as u8, (n >> 8) as u8],
        _ => vec![0x4e, n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8],
    };
    v.extend_from_slice(d);
    v
}

/// The VM's minimal byte form of an integer.
pub fn int_bytes(i: i32) -> Vec<u8> {
    if i == 0 {
        return vec![];
    }
    let mut m = (i as i64).unsigned_abs();
    let mut v = vec![];
    while m > 0 {
        v.push(m as u8);
        m >>= 8;
    }
    if v[v.len() - 1] & 0x80 != 0 {
        v.push(0);
    }
    if i < 0 {
        let l = v.len() - 1;
        v[l] |= 0x80;
    }
    v
}

pub fn enc_op(o: &OpS, pool: &[Ba]) -> Vec<u8> {
    match o {
        OpS::C(b) | OpS::X(b) => vec![*b],
        OpS::P(a, m) => enc_push(&a.bytes(pool), *m),
        OpS::B(b) => vec![if *b { 0x51 } else { 0x00 }],
        OpS::I(i) => enc_push(&int_bytes(*i), true),
    }
}

pub fn enc_script(s: &[TOp], pool: &[Ba]) -> Vec<u8> {
    s.iter().flat_map(|t| enc_op(&t.0, pool)).collect()
}

#[derive(Clone, Debug, PartialEq, Serialize)]
pub enum ROp {
    Code(u8),
    /// data, prefix byte was the shortest possible for the data
    Push(Vec<u8>, bool),
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct RIn {
    pub hash: Vec<u8>,
    pub vout: u32,
    pub script: Vec<ROp>,
    pub seq: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct RTx {
    pub version: i32,
    pub inputs: Vec<RIn>,
    pub outputs: Vec<(u64, Vec<ROp>)>,
    pub lock_time: u32,
}

pub struct Cur<'a> {
    pub d: &'a [u8],
    pub at: usize,
    /// every length so far was canonical and every push had the shortest prefix
    pub canonical: bool,
    /// where lengths are written: offset, width
    pub lens: Vec<(usize, usize)>,
}

impl<'a> Cur<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Cur { d, at: 0, canonical: true, lens: vec![] }
    }
    pub fn done(&self) -> bool {
        self.at == self.d.len()
    }
    pub fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        if n > (self.d.len() - self.at) as u64 {
            return None;
        }
        let r = &self.d[self.at..self.at + n as usize];
        self.at += n as usize;
        Some(r)
    }
    pub fn le(&mut self, n: u64) -> Option<u64> {
        Some(self.take(n)?.iter().rev().fold(0u64, |a, b| (a << 8) | *b as u64))
    }
    pub fn var(&mut self) -> Option<u64> {
        let start = self.at;
        let b = self.le(1)?;
        let (n, min) = match b {
            0xfd => (self.le(2)?, 0xfd),
            0xfe => (self.le(4)?, 0x1_0000),
            0xff => (self.le(8)?, 0x1_0000_0000),
            _ => (b, 0),
        };
        if n < min {
            self.canonical = false;
        }
        self.lens.push((start, self.at - start));
        Some(n)
    }
    pub fn sized(&mut self) -> Option<&'a [u8]> {
        let n = self.var()?;
        self.take(n)
    }
    pub fn script(&mut self) -> Option<Vec<ROp>> {
        let s = self.sized()?;
        let (ops, canon) = dec_ops(s)?;
        self.canonical &= canon;
        let base = self.at - s.len();
        self.lens.extend(push_lens(s).into_iter().map(|(a, w)| (base + a, w)));
        Some(ops)
    }
    pub fn input(&mut self) -> Option<RIn> {
        Some(RIn {
            hash: self.take(32)?.to_vec(),
            vout: self.le(4)? as u32,
            script: self.script()?,
            seq: self.le(4)? as u32,
        })
    }
    pub fn output(&mut self) -> Option<(u64, Vec<ROp>)> {
        Some((self.le(8)?, self.script()?))
    }
    pub fn tx(&mut self) -> Option<RTx> {
        let version = self.le(4)? as u32 as i32;
        let n = self.var()?;
        let mut inputs = vec![];
        for _ in 0..n {
            inputs.push(self.input()?);
        }
        let n = self.var()?;
        let mut outputs = vec![];
        for _ in 0..n {
            outputs.push(self.output()?);
        }
        Some(RTx { version, inputs, outputs, lock_time: self.le(4)? as u32 })
    }
}

/// Operations of a raw script and whether every push has the shortest length prefix.
pub fn dec_ops(s: &[u8]) -> Option<(Vec<ROp>, bool)> {
    let mut c = Cur::new(s);
    let mut ops = vec![];
    let mut canonical = true;
    while c.at < s.len() {
        let b = c.le(1)? as u8;
        let n = match b {
            1..=0x4b => b as u64,
            0x4c => c.le(1)?,
            0x4d => c.le(2)?,
            0x4e => c.le(4)?,
            _ => {
                ops.push(ROp::Code(b));
                continue;
            }
        };
        let d = c.take(n)?.to_vec();
        let min = enc_push(&d, true)[0] == b;
        let long = enc_push(&d, false)[0];
        if !min && long != b {
            canonical = false;
        }
        ops.push(ROp::Push(d, min));
    }
    Some((ops, canonical))
}

/// Where a script writes the lengths of its pushes.
pub fn push_lens(s: &[u8]) -> Vec<(usize, usize)> {
    let mut c = Cur::new(s);
    let mut v = vec![];
    while let Some(b) = c.le(1) {
        let start = c.at - 1;
        let n = match b {
            1..=0x4b => Some(b),
            0x4c => c.le(1),
            0x4d => c.le(2),
            0x4e => c.le(4),
            _ => continue,
        };
        v.push((start, c.at - start));
        if n.and_then(|n| c.take(n)).is_none() {
            break;
        }
    }
    v
}

pub fn dec_tx(d: &[u8]) -> Option<(RTx, usize, bool)> {
    let mut c = Cur::new(d);
    let t = c.tx()?;
    Some((t, c.at, c.canonical))
}

pub fn enc_rops(ops: &[ROp]) -> Vec<u8> {
    ops.iter()
        .flat_map(|o| match o {
            ROp::Code(b) => vec![*b],
            ROp::Push(d, m) => enc_push(d, *m),
        })
        .collect()
}

pub fn enc_rin(i: &RIn) -> Vec<u8> {
    let mut v = i.hash.clone();
    v.extend(&i.vout.to_le_bytes());
    v.extend(sized(&enc_rops(&i.script)));
    v.extend(&i.seq.to_le_bytes());
    v
}

pub fn enc_rtx(t: &RTx) -> Vec<u8> {
    let mut v = t.version.to_le_bytes().to_vec();
    v.extend(var_int(t.inputs.len() as u64));
    for i in &t.inputs {
        v.extend(enc_rin(i));
    }
    v.extend(var_int(t.outputs.len() as u64));
    for (val, s) in &t.outputs {
        v.extend(&val.to_le_bytes());
        v.extend(sized(&enc_rops(s)));
    }
    v.extend(&t.lock_time.to_le_bytes());
    v
}

/// What decoding the wire form of an operation must give (integers and booleans become opcodes or
/// pushes; one-byte pushes of small numbers become opcodes).
pub fn rop_of(op: &Op) -> ROp {
    match op {
        Op::Code(c) => ROp::Code(*c as u8),
        Op::Invalid(b) => ROp::Code(*b),
        Op::PushByteArray { array, is_minimal } => ROp::Push(array.to_vec(), *is_minimal),
        Op::PushBoolean(b) => ROp::Code(if *b { 0x51 } else { 0 }),
        Op::PushInteger(i) => {
            let d = int_bytes(i.value());
            let e = enc_push(&d, true);
            if e.len() == 1 {
                ROp::Code(e[0])
            } else {
                ROp::Push(d, true)
            }
        }
    }
}

pub fn rops_of(s: &Script) -> Vec<ROp> {
    s.ops_arc().iter().map(|t| rop_of(&t.op)).collect()
}

pub fn rin_of(i: &TxInput) -> RIn {
    RIn {
        hash: i.prev_out.tx_hash.as_slice().to_vec(),
        vout: i.prev_out.vout,
        script: rops_of(&i.script),
        seq: i.sequence,
    }
}

/// The library object as plain data (wire-visible part).
pub fn rtx_of(t: &UnhashedTx) -> RTx {
    RTx {
        version: t.version,
        inputs: t.inputs.iter().map(rin_of).collect(),
        outputs: t.outputs.iter().map(|o| (o.value, rops_of(&o.script))).collect(),
        lock_time: t.lock_time,
    }
}

// ------------------------------------------------------------------ snapshots

#[derive(Clone, Debug, PartialEq, Serialize)]
pub struct BaSnap {
    pub data: Vec<u8>,
    pub name: Option<String>,
    pub func: u8,
    pub pre: Option<Vec<BaSnap>>,
}

#[derive(Clone, Debug, PartialEq, Serialize)]
pub enum OpSnap {
    Code(u8),
    Invalid(u8),
    Push(BaSnap, bool),
    Bool(bool),
    Int(i32),
}

#[derive(Clone, Debug, PartialEq, Serialize)]
pub struct TopSnap {
    pub op: OpSnap,
    pub file: String,
    pub line: u32,
    pub col: u32,
    pub code: Vec<(u32, String)>,
    pub names: Option<Vec<Option<String>>>,
    pub alt: Option<Vec<Option<String>>>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Default)]
pub struct MetaSnap {
    pub value: Option<u64>,
    pub p2sh: Option<bool>,
    pub flags: Option<Vec<u32>>,
}

#[derive(Clone, Debug, PartialEq, Serialize)]
pub struct InSnap {
    pub hash: BaSnap,
    pub vout: u32,
    pub script: Vec<TopSnap>,
    pub seq: u32,
    pub lock: Option<Vec<TopSnap>>,
    pub meta: MetaSnap,
}

#[derive(Clone, Debug, PartialEq, Serialize)]
pub struct Snap {
    pub version: i32,
    pub inputs: Vec<InSnap>,
    pub outputs: Vec<(u64, Vec<TopSnap>)>,
    pub lock_time: u32,
}

pub fn func_no(f: Function) -> u8 {
    FUNCTIONS.iter().position(|g| *g == f).unwrap_or(255) as u8
}

pub fn ba_snap(b: &ByteArray) -> BaSnap {
    BaSnap {
        data: b.to_vec(),
        name: b.name().map(|s| s.to_string()),
        func: func_no(b.function()),
        pre: b.preimage().map(|p| p.iter().map(ba_snap).collect()),
    }
}

pub fn top_snap(t: &TaggedOp) -> TopSnap {
    let names = |v: &Option<Vec<Option<std::borrow::Cow<'static, str>>>>| {
        v.as_ref().map(|v| v.iter().map(|n| n.as_ref().map(|n| n.to_string())).collect())
    };
    TopSnap {
        op: match &t.op {
            Op::Code(c) => OpSnap::Code(*c as u8),
            Op::Invalid(b) => OpSnap::Invalid(*b),
            Op::PushByteArray { array, is_minimal } => OpSnap::Push(ba_snap(array), *is_minimal),
            Op::PushBoolean(b) => OpSnap::Bool(*b),
            Op::PushInteger(i) => OpSnap::Int(i.value()),
        },
        file: t.src_file.to_string(),
        line: t.src_line,
        col: t.src_column,
        code: t.src_code.iter().map(|(w, s)| (*w, s.to_string())).collect(),
        names: names(&t.pushed_names),
        alt: names(&t.alt_pushed_names),
    }
}

pub fn script_snap(s: &Script) -> Vec<TopSnap> {
    s.ops_arc().iter().map(top_snap).collect()
}

pub fn meta_of(i: &TxInput) -> MetaSnap {
    MetaSnap {
        value: i.value,
        p2sh: i.is_p2sh,
        flags: i.sig_hash_flags.as_ref().map(|f| f.iter().map(|f| f.bits()).collect()),
    }
}

pub fn snap(t: &UnhashedTx) -> Snap {
    Snap {
        version: t.version,
        inputs: t
            .inputs
            .iter()
            .map(|i| InSnap {
                hash: ba_snap(i.prev_out.tx_hash.as_byte_array()),
                vout: i.prev_out.vout,
                script: script_snap(&i.script),
                seq: i.sequence,
                lock: i.lock_script.as_ref().map(script_snap),
                meta: meta_of(i),
            })
            .collect(),
        outputs: t.outputs.iter().map(|o| (o.value, script_snap(&o.script))).collect(),
        lock_time: t.lock_time,
    }
}

/// Signing metadata with locking scripts in wire form (what serde exports must keep).
pub fn metas(t: &UnhashedTx) -> Vec<(MetaSnap, Option<Vec<u8>>)> {
    t.inputs.iter().map(|i| (meta_of(i), i.lock_script.as_ref().map(|s| enc_rops(&rops_of(s))))).collect()
}

/// First difference of two snapshots, for messages.
pub fn diff<T: Serialize>(a: &T, b: &T) -> String {
    fn go(p: &str, a: &serde_json::Value, b: &serde_json::Value) -> Option<String> {
        use serde_json::Value::*;
        if a == b {
            return None;
        }
        match (a, b) {
            (Object(x), Object(y)) => {
                for (k, v) in x {
                    if let Some(w) = y.get(k) {
                        if let Some(d) = go(&format!("{}.{}", p, k), v, w) {
                            return Some(d);
                        }
                    }
                }
            }
            (Array(x), Array(y)) if x.len() == y.len() => {
                for (i, (v, w)) in x.iter().zip(y).enumerate() {
                    if let Some(d) = go(&format!("{}[{}]", p, i), v, w) {
                        return Some(d);
                    }
                }
            }
            _ => {}
        }
        Some(format!("at {}: {} instead of {}", p, a, b))
    }
    let (a, b) = (serde_json::to_value(a).unwrap(), serde_json::to_value(b).unwrap());
    go("", &a, &b).unwrap_or_else(|| "equal".into())
}

// ------------------------------------------------------------------ generators

const SINGLES: [u8; 24] = [
    0x00, 0x4f, 0x50, 0x51, 0x52, 0x60, 0x61, 0x63, 0x67, 0x68, 0x69, 0x6a, 0x76, 0x7e, 0x87, 0x88, 0xa9, 0xab, 0xac,
    0xae, 0xba, 0xbc, 0xbd, 0xff,
];

pub fn gen_single(r: &mut Rng) -> u8 {
    if r.chance(2, 3) {
        *r.pick(&SINGLES)
    } else {
        r.range(0x4f, 0xff) as u8
    }
}

pub fn gen_len(r: &mut Rng, big: bool) -> u32 {
    const EDGE: [u32; 14] = [0, 1, 2, 20, 32, 33, 65, 71, 74, 75, 76, 77, 255, 256];
    match r.below(10) {
        0..=5 => *r.pick(&EDGE),
        6..=7 => r.below(90) as u32,
        8 => r.range(250, 262) as u32,
        _ => {
            if big && r.chance(1, 6) {
                r.range(65533, 65538) as u32
            } else {
                r.range(257, 700) as u32
            }
        }
    }
}

fn gen_fill(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => r.below(18),
        1 => *r.pick(&[0x80, 0x81, 0x7f, 0xff, 0x10, 0x11, 0x4c, 0]),
        _ => r.u64() | 256,
    }
}

fn gen_name(r: &mut Rng) -> Option<u8> {
    if r.chance(1, 2) {
        Some(r.below(NAMES.len() as u64) as u8)
    } else {
        None
    }
}

pub fn gen_ba(r: &mut Rng, depth: u32, pool: u8, big: bool) -> Ba {
    let k = if depth == 0 { 0 } else { r.below(12) };
    match k {
        0..=5 => Ba::Raw(gen_len(r, big), gen_fill(r), gen_name(r)),
        6..=7 => Ba::Cat((0..r.below(4)).map(|_| gen_ba(r, depth - 1, pool, false)).collect(), gen_name(r)),
        8 if r.chance(1, 8) => {
            let b = Ba::Raw(r.below(40) as u32, gen_fill(r), gen_name(r));
            Ba::Chain(if r.chance(1, 6) { r.below(MAX_CHAIN as u64 + 1) as u16 } else { r.below(12) as u16 }, Box::new(b))
        }
        8 => Ba::Dig(r.below(4) as u8, Box::new(gen_ba(r, depth - 1, pool, false)), gen_name(r)),
        9 => Ba::Pre(
            r.below(40) as u32,
            gen_fill(r),
            gen_name(r),
            r.below(12) as u8,
            if r.chance(2, 3) { Some((0..r.below(3)).map(|_| gen_ba(r, depth - 1, pool, false)).collect()) } else { None },
        ),
        10 => Ba::Cut(Box::new(gen_ba(r, depth - 1, pool, false)), r.below(1001) as u16, r.chance(1, 2)),
        _ => {
            if pool > 0 {
                Ba::Shared(r.below(pool as u64) as u8)
            } else {
                Ba::Raw(1, gen_fill(r), gen_name(r))
            }
        }
    }
}

pub fn gen_ann(r: &mut Rng) -> Ann {
    let mut names = |r: &mut Rng| {
        if r.chance(1, 2) {
            Some((0..r.below(4)).map(|_| gen_name(r)).collect())
        } else {
            None
        }
    };
    Ann {
        file: r.below(16) as u8,
        line: if r.chance(1, 8) { u32::MAX } else { r.below(1000) as u32 },
        col: r.below(100) as u32,
        names: names(r),
        alt: names(r),
        code: (0..r.below(3)).map(|_| (r.below(100) as u32, r.below(16) as u8)).collect(),
    }
}

pub fn gen_op(r: &mut Rng, pool: u8, big: bool, ann: u64) -> TOp {
    let op = match r.below(12) {
        0..=4 => OpS::C(gen_single(r)),
        5..=8 => OpS::P(gen_ba(r, 2, pool, big), !r.chance(1, 5)),
        9 => OpS::B(r.chance(1, 2)),
        10 => OpS::I(match r.below(4) {
            0 => r.range(0, 40) as i32 - 20,
            1 => *r.pick(&[127, 128, -127, -128, 255, 256, 0x7fff, 0x8000, -0x8000, 0x7f_ffff, 0x80_0000, i32::MAX, -i32::MAX]),
            _ => {
                let x = r.u32() as i32 >> r.below(32);
                if x == i32::MIN {
                    0
                } else {
                    x
                }
            }
        }),
        _ => OpS::X(r.range(0xba, 0xff) as u8),
    };
    TOp(op, if r.chance(ann, 100) { Some(gen_ann(r)) } else { None })
}

pub fn push(n: u32, f: u64) -> TOp {
    TOp(OpS::P(Ba::Raw(n, f, None), true), None)
}
pub fn code(b: u8) -> TOp {
    TOp(OpS::C(b), None)
}

pub fn gen_script(r: &mut Rng, pool: u8, big: bool, ann: u64) -> ScriptS {
    match r.below(12) {
        0 => vec![],
        1 => vec![code(0x76), code(0xa9), push(20, r.u64() | 256), code(0x88), code(0xac)],
        2 => vec![code(0xa9), push(20, r.u64() | 256), code(0x87)],
        3 => vec![push(33, r.u64() | 256), code(0xac)],
        4 => {
            // exactly around a length-prefix boundary
            let total = *r.pick(&[252u32, 253, 254, 255, 256]);
            vec![push(200, r.u64() | 256), push(total - 202 - 1, r.u64() | 256)]
        }
        5 if big => {
            let total = *r.pick(&[65534u32, 65535, 65536, 65537]);
            vec![push(total - 3, r.u64() | 256)]
        }
        6 => {
            let mut v = vec![code(0x6a)];
            for _ in 0..r.below(6) {
                v.push(TOp(OpS::P(gen_ba(r, 1, pool, false), r.chance(1, 2)), None));
            }
            v
        }
        _ => (0..r.below(9)).map(|_| gen_op(r, pool, big, ann)).collect(),
    }
}

pub struct GenTx {
    pub max_in: u64,
    pub max_out: u64,
    pub many: bool,
    pub big: bool,
    pub ann: u64,
    pub meta: bool,
}

pub fn gen_value(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, 545, 546, 547, 0xffff_ffff, 0x1_0000_0000, u64::MAX, u64::MAX - 1, 21_000_000_0000_0000]),
        _ => r.u64() >> r.below(64),
    }
}

pub fn gen_tx(r: &mut Rng, g: &GenTx) -> TxS {
    let npool = r.below(3) as u8;
    let pool = (0..npool).map(|i| gen_ba(r, 2, i, false)).collect();
    let edge32 = |r: &mut Rng| match r.below(4) {
        0 => *r.pick(&[0, 1, 0xffff_ffff, 0xffff_fffe, 0x8000_0000, 499_999_999, 500_000_000]),
        _ => r.u32() >> r.below(32),
    };
    let mut inputs: Vec<InS> = (0..r.below(g.max_in + 1))
        .map(|_| InS {
            rep: 1,
            hash: if r.chance(1, 10) { r.below(256) } else { r.u64() | 256 },
            vout: edge32(r),
            seq: edge32(r),
            script: gen_script(r, npool, g.big, g.ann),
            lock: if g.meta && r.chance(2, 3) { Some(gen_script(r, npool, false, g.ann)) } else { None },
            value: if g.meta && r.chance(2, 3) { Some(gen_value(r)) } else { None },
            p2sh: if g.meta && r.chance(2, 3) { Some(r.chance(1, 2)) } else { None },
            flags: if g.meta && r.chance(2, 3) {
                Some((0..r.below(4)).map(|_| if r.chance(1, 6) { r.u8() } else { *r.pick(&[0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x01, 0x81]) }).collect())
            } else {
                None
            },
        })
        .collect();
    let mut outputs: Vec<OutS> =
        (0..r.below(g.max_out + 1)).map(|_| OutS { rep: 1, value: gen_value(r), script: gen_script(r, npool, g.big, g.ann) }).collect();
    if g.many && r.chance(1, 24) {
        let n = r.range(250, 258) as u32;
        if r.chance(1, 2) {
            if let Some(i) = inputs.first_mut() {
                i.script.truncate(1);
                i.rep = n;
            }
        } else if let Some(o) = outputs.first_mut() {
            o.script.truncate(1);
            o.rep = n;
        }
    }
    TxS { version: if r.chance(1, 4) { r.u32() as i32 } else { r.range(1, 2) as i32 }, lock_time: edge32(r), pool, inputs, outputs }
}

/// The library's name for a hash type, as an application writes it; other values as a number.
pub fn hash_type(bits: u8) -> SigHashFlags {
    let mut f = match bits & 0x3f {
        1 => SigHashFlags::ALL,
        2 => SigHashFlags::NONE,
        3 => SigHashFlags::SINGLE,
        _ => return SigHashFlags::from_u8(bits),
    };
    if bits == 0x41 {
        return SigHashFlags::DEFAULT;
    }
    if bits & 0x40 != 0 {
        f |= SigHashFlags::FORKID;
    }
    if bits & 0x80 != 0 {
        f |= SigHashFlags::ANYONECANPAY;
    }
    f
}
