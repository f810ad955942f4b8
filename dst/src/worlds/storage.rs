//! C05, C06, C07: a transaction (and every other storable thing) travels through a chain of nodes.
//! Each node is a process with its own hash seed; it writes an export to its disk, may crash at any
//! point of that, and the next incarnation or the next node reads what is durable.
use super::World;
use crate::ev;
use crate::model::*;
use crate::rng::Rng;
use crate::sim::{hex, Ctx};
use bitcoin_cash::{
    decode_bitcoin_code_all, encode_bitcoin_code_all, json_to_tx, tx_to_json, Address, AddressType, BitcoinCode, ByteArray,
    FixedByteArrayBE, FixedByteArrayLE, Function, Hash160, Hashed, InputReference, P2PKHSignatory, Pubkey, Ripemd160,
    Script, Sha1, Sha256, Sha256d, SigHashFlags, Tx, TxInput, TxOutpoint, TxOutput, TxPreimage, UnhashedTx, UnsignedTxInput,
};
use bitcoin_cash_slp::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Hop {
    fmt: u8,
    seed: u64,
    /// 0 none, 1 crash before the write, 2 torn write then retry, 3 crash after the write, 4 lost
    /// write (acknowledged, not durable), then retry
    crash: u8,
    at: u16,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    tx: TxS,
    hops: Vec<Hop>,
    /// pushes (prefix kind, length, fill) of an extra output written by somebody else's software
    foreign: Vec<(u8, u32, u64)>,
    parts: Vec<(u8, u64)>,
    seed: u64,
}

const WIRE: &[&str] = &["C05"];
const RICH: &[&str] = &["C06"];
const SERDE: &[&str] = &["C07"];

pub const FORMATS: [(&str, u8); 11] = [
    ("wire", 0),
    ("wire-tx", 0),
    ("rich-json", 1),
    ("json-str", 2),
    ("json-reader", 2),
    ("json-value", 2),
    ("bincode-slice", 2),
    ("bincode-reader", 2),
    ("cbor", 2),
    ("tx-json", 2),
    ("tx-bincode", 2),
];

fn props_of(fmt: u8) -> &'static [&'static str] {
    match FORMATS[fmt as usize % 11].1 {
        0 => WIRE,
        1 => RICH,
        _ => SERDE,
    }
}

fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

pub fn to_bytes<T: Serialize>(k: u8, v: &T) -> Result<Vec<u8>, String> {
    Ok(match k % 6 {
        0 => serde_json::to_string(v).map_err(s)?.into_bytes(),
        1 => serde_json::to_vec_pretty(v).map_err(s)?,
        2 => serde_json::to_value(v).map_err(s)?.to_string().into_bytes(),
        3 => bincode::serialize(v).map_err(s)?,
        4 => {
            let mut out = vec![];
            bincode::serialize_into(&mut out, v).map_err(s)?;
            out
        }
        _ => {
            let mut out = vec![];
            ciborium::ser::into_writer(v, &mut out).map_err(s)?;
            out
        }
    })
}

pub fn from_bytes<T: DeserializeOwned>(k: u8, b: &[u8]) -> Result<T, String> {
    Ok(match k % 6 {
        0 => serde_json::from_str(std::str::from_utf8(b).map_err(s)?).map_err(s)?,
        1 => serde_json::from_reader(b).map_err(s)?,
        2 => serde_json::from_value(serde_json::from_slice(b).map_err(s)?).map_err(s)?,
        3 => bincode::deserialize(b).map_err(s)?,
        4 => bincode::deserialize_from(b).map_err(s)?,
        _ => ciborium::de::from_reader(b).map_err(s)?,
    })
}

pub const SERDE_FORMATS: [&str; 6] = ["json-str", "json-reader", "json-value", "bincode-slice", "bincode-reader", "cbor"];

pub fn export(fmt: u8, t: &UnhashedTx) -> Result<Vec<u8>, String> {
    match fmt % 11 {
        0 => Ok(t.ser().to_vec()),
        1 => Ok(t.clone().hashed().ser().to_vec()),
        2 => tx_to_json(t).map(|s| s.into_bytes()).map_err(s),
        9 => to_bytes(0, &t.clone().hashed()),
        10 => to_bytes(3, &t.clone().hashed()),
        k => to_bytes(k - 3, t),
    }
}

/// The imported transaction and, where the format carries one, its (id, raw bytes).
pub fn import(fmt: u8, b: &[u8]) -> Result<(UnhashedTx, Option<(Vec<u8>, Vec<u8>)>), String> {
    let with_id = |t: Tx| {
        let id = (t.hash().as_slice().to_vec(), t.raw().to_vec());
        (t.into_unhashed_tx(), Some(id))
    };
    match fmt % 11 {
        0 => UnhashedTx::deser(b.into()).map(|t| (t, None)).map_err(s),
        1 => Tx::deser(b.into()).map(with_id).map_err(s),
        2 => json_to_tx(std::str::from_utf8(b).map_err(s)?).map(|t| (t, None)).map_err(s),
        9 => from_bytes::<Tx>(0, b).map(with_id),
        10 => from_bytes::<Tx>(3, b).map(with_id),
        k => from_bytes::<UnhashedTx>(k - 3, b).map(|t| (t, None)),
    }
}

fn gen(r: &mut Rng, prop: &str, thorough: bool) -> Value {
    let rich = prop == "C06";
    let big = r.chance(1, if thorough { 6 } else { 10 });
    let tx = gen_tx(
        r,
        &GenTx {
            max_in: 4,
            max_out: 4,
            many: true,
            big,
            ann: if rich { 50 } else { 15 },
            meta: true,
        },
    );
    let n = 2 + r.below(5);
    let hops = (0..n)
        .map(|_| {
            let fmt = match (prop, r.below(10)) {
                ("C05", 0..=5) => r.below(2) as u8,
                ("C06", 0..=6) => 2,
                ("C07", 0..=7) => 3 + r.below(8) as u8,
                _ => r.below(11) as u8,
            };
            Hop { fmt, seed: r.u64(), crash: if r.chance(1, 3) { r.range(1, 4) as u8 } else { 0 }, at: r.below(1001) as u16 }
        })
        .collect();
    let foreign = if prop == "C05" && r.chance(1, 4) {
        (0..1 + r.below(3)).map(|_| (r.below(4) as u8, gen_len(r, false), r.u64() >> r.below(64))).collect()
    } else {
        vec![]
    };
    let parts = if prop == "C06" { vec![] } else { (0..r.below(8)).map(|_| (r.below(48) as u8, r.u64())).collect() };
    serde_json::to_value(Plan { tx, hops, foreign, parts, seed: r.u64() }).unwrap()
}

fn valid(v: &Value) -> bool {
    serde_json::from_value::<Plan>(v.clone()).map_or(false, |p| p.tx.valid() && p.foreign.iter().all(|f| f.1 < 70000))
}

fn run(ctx: &mut Ctx, prop: &str, v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).expect("plan");
    let wire = p.tx.wire();
    let (rtx, _, _) = dec_tx(&wire).expect("reference decodes its own encoding");
    let id = sha256d(&wire);
    let orig = match ctx.call(&["C05", "C06", "C07"], "build", || p.tx.build()) {
        Some(t) => t,
        None => return,
    };
    let mut meta = metas(&orig);
    ev!(ctx, "tx {} bytes id {}", wire.len(), hex(&id));

    // C05: the object itself
    if let Some((b, t)) = ctx.call(WIRE, "ser", || (orig.ser().to_vec(), orig.clone().hashed())) {
        if !ctx.check(b == wire, WIRE, "encode", || first_diff(&b, &wire)) {
            return;
        }
        ctx.check(t.raw().as_slice() == &wire[..], WIRE, "hashed-raw", || first_diff(t.raw(), &wire));
        ctx.check(t.hash().as_slice() == &id[..], WIRE, "id", || format!("id {} of {}", t.hash(), hex(&wire)));
        let rev: Vec<u8> = id.iter().rev().cloned().collect();
        ctx.check(t.hash().to_string() == hex(&rev), WIRE, "id-text", || t.hash().to_string());
    } else {
        return;
    }

    let mut cur = orig.clone();
    let mut durable: Option<(u8, Vec<u8>)> = None; // what the current node's disk holds
    for (n, h) in p.hops.iter().enumerate() {
        let fmt = h.fmt % 11;
        let name = FORMATS[fmt as usize].0;
        let props = props_of(fmt);
        let mut attempts = 0;
        loop {
            attempts += 1;
            // a crash before anything is written: resume from the last durable image
            let crash_now = attempts == 1 && matches!(h.crash, 1 | 2 | 4);
            if crash_now && h.crash == 1 {
                if let Some((f, img)) = &durable {
                    ctx.fault("crash before write");
                    let (f, img) = (*f, img.clone());
                    match reload(ctx, f, &img, h.seed ^ 1, &wire, &rtx, &id, &mut meta, None) {
                        Some(t) => cur = t,
                        None => return,
                    }
                }
            }
            let t = &cur;
            let img = match ctx.call_node(h.seed, props, &format!("export {}", name), || export(fmt, t)) {
                Some(Ok(b)) => b,
                Some(Err(e)) => {
                    ctx.violate(props, &format!("export-error:{}", name), e);
                    return;
                }
                None => return,
            };
            // the same content written by a differently seeded process
            if fmt == 2 || attempts > 1 {
                if let Some(Ok(again)) = ctx.call_node(h.seed.rotate_left(17) ^ 77, props, &format!("export {}", name), || export(fmt, t)) {
                    if !ctx.check(again == img, props, &format!("process-dependent-export:{}", name), || first_diff(&again, &img)) {
                        return;
                    }
                }
            }
            if fmt < 2 && !ctx.check(img == wire, WIRE, "relay-bytes", || format!("hop {}: {}", n, first_diff(&img, &wire))) {
                return;
            }
            if crash_now && h.crash == 2 {
                // the write tears: the new record is incomplete, recovery keeps the old one
                ctx.fault("torn write");
                ev!(ctx, "hop {} {} torn after {}/1000 of {} bytes", n, name, h.at, img.len());
                if let Some((f, old)) = durable.clone() {
                    match reload(ctx, f, &old, h.seed ^ 2, &wire, &rtx, &id, &mut meta, None) {
                        Some(t) => cur = t,
                        None => return,
                    }
                }
                continue;
            }
            if crash_now && h.crash == 4 {
                ctx.fault("lost write");
                if let Some((f, old)) = durable.clone() {
                    match reload(ctx, f, &old, h.seed ^ 4, &wire, &rtx, &id, &mut meta, None) {
                        Some(t) => cur = t,
                        None => return,
                    }
                }
                continue;
            }
            if h.crash == 3 {
                ctx.fault("crash after write");
            }
            let before = if fmt == 2 { Some(snap(&cur)) } else { None };
            ev!(ctx, "hop {} {} {} bytes {}", n, name, img.len(), hex(&sha256(&img)[..6]));
            ctx.mark(name);
            match reload(ctx, fmt, &img, h.seed ^ 3, &wire, &rtx, &id, &mut meta, before.as_ref()) {
                Some(t) => cur = t,
                None => return,
            }
            // re-exporting what was imported gives the same image
            let t = &cur;
            match ctx.call_node(h.seed.wrapping_mul(31), props, &format!("re-export {}", name), || export(fmt, t)) {
                Some(Ok(again)) => {
                    if !ctx.check(again == img, props, &format!("re-export:{}", name), || format!("hop {}: {}", n, first_diff(&again, &img))) {
                        return;
                    }
                }
                Some(Err(e)) => {
                    ctx.violate(props, &format!("export-error:{}", name), e);
                    return;
                }
                None => return,
            }
            durable = Some((fmt, img));
            break;
        }
        ctx.out.sim_time += 1;
    }
    if prop == "C05" {
        foreign(ctx, &p, &wire);
        parts(ctx, &p);
    }
    if prop == "C07" {
        for (i, (k, seed)) in p.parts.iter().enumerate() {
            ev!(ctx, "stored object {} kind {}", i, k);
            stored(&mut Trip(ctx), *k, *seed);
        }
    }
    ctx.mark_bytes(&wire);
    ctx.mark(&format!("{:?}{:?}{:?}", p.hops, p.parts, p.foreign));
    ctx.out.nontrivial = !p.hops.is_empty() && wire.len() > 10;
}

/// Read an image back on another node and compare with what it must be.
#[allow(clippy::too_many_arguments)]
fn reload(
    ctx: &mut Ctx,
    fmt: u8,
    img: &[u8],
    seed: u64,
    wire: &[u8],
    rtx: &RTx,
    id: &[u8],
    meta: &mut Vec<(MetaSnap, Option<Vec<u8>>)>,
    before: Option<&Snap>,
) -> Option<UnhashedTx> {
    let name = FORMATS[fmt as usize].0;
    let props = props_of(fmt);
    let (t, carried) = match ctx.call_node(seed, props, &format!("import {}", name), || import(fmt, img))? {
        Ok(t) => t,
        Err(e) => {
            ctx.violate(props, &format!("import-error:{}", name), format!("{} from {}", e, hex(&img[..img.len().min(150)])));
            return None;
        }
    };
    let ok = match fmt {
        // a wire decode sees the wire; rich exports keep the operations as they were
        2 => match before {
            Some(b) => {
                let a = snap(&t);
                let same = a == *b;
                ctx.check(same, RICH, "rich-content", || diff(&a, b))
            }
            None => true,
        },
        _ => {
            let a = rtx_of(&t);
            ctx.check(a == *rtx, props, &format!("content:{}", name), || diff(&a, rtx))
        }
    };
    if !ok {
        return None;
    }
    let w = ctx.call(props, "ser after import", || t.ser().to_vec())?;
    if !ctx.check(w == wire, props, &format!("wire-after-import:{}", name), || first_diff(&w, wire)) {
        return None;
    }
    if let Some((h, raw)) = carried {
        let ok = ctx.check(h == id, props, &format!("carried-id:{}", name), || format!("{} instead of {}", hex(&h), hex(id)))
            && ctx.check(raw == wire, props, &format!("carried-raw:{}", name), || first_diff(&raw, wire));
        if !ok {
            return None;
        }
    }
    let m = metas(&t);
    if fmt < 2 {
        // the wire form carries none
        *meta = m;
    } else if !ctx.check(m == *meta, props, &format!("metadata:{}", name), || diff(&m, meta)) {
        return None;
    }
    Some(t)
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let e = |v: &[u8]| hex(&v[i.min(v.len())..(i + 24).min(v.len())]);
    format!("differs at byte {} of {}/{}: {} instead of {}", i, a.len(), b.len(), e(a), e(b))
}

/// Wire bytes made by other software: pushes may use a longer prefix than necessary.
fn foreign(ctx: &mut Ctx, p: &Plan, wire: &[u8]) {
    if p.foreign.is_empty() {
        return;
    }
    let mut script = vec![];
    for (k, n, f) in &p.foreign {
        let d = fill(*n, *f);
        match k % 4 {
            0 => script.extend(enc_push(&d, true)),
            1 if d.len() <= 0xff => {
                script.push(0x4c);
                script.push(d.len() as u8);
                script.extend(&d);
            }
            1 | 2 if d.len() <= 0xffff => {
                script.push(0x4d);
                script.extend(&(d.len() as u16).to_le_bytes());
                script.extend(&d);
            }
            _ => {
                script.push(0x4e);
                script.extend(&(d.len() as u32).to_le_bytes());
                script.extend(&d);
            }
        }
    }
    // splice as an extra output in front of the others
    let (mut t, _, _) = dec_tx(wire).expect("reference");
    let mut bytes = t.version.to_le_bytes().to_vec();
    bytes.extend(var_int(t.inputs.len() as u64));
    for i in &t.inputs {
        bytes.extend(enc_rin(i));
    }
    bytes.extend(var_int(1 + t.outputs.len() as u64));
    bytes.extend(&777u64.to_le_bytes());
    bytes.extend(sized(&script));
    for (v, o) in &t.outputs {
        bytes.extend(&v.to_le_bytes());
        bytes.extend(sized(&enc_rops(o)));
    }
    bytes.extend(&t.lock_time.to_le_bytes());
    let (r2, used, canonical) = dec_tx(&bytes).expect("reference decodes foreign bytes");
    assert!(used == bytes.len());
    t = r2;
    ctx.probe(if canonical { "foreign canonical bytes" } else { "foreign bytes with long push prefixes" });
    let b = bytes.clone();
    let r = ctx.call(WIRE, "import foreign", || {
        let u = UnhashedTx::deser(b.as_slice().into()).map_err(s)?;
        let x = Tx::deser(b.as_slice().into()).map_err(s)?;
        Ok::<_, String>((u, x))
    });
    match r {
        Some(Ok((u, x))) => {
            let a = rtx_of(&u);
            ctx.check(a == t, WIRE, "foreign-content", || diff(&a, &t));
            let again = match ctx.call(WIRE, "ser foreign", || u.ser().to_vec()) {
                Some(a) => a,
                None => return,
            };
            if again != bytes {
                let normal = enc_rtx(&t);
                let class = if !canonical && again == normal { "long-push-prefix-shortened" } else { "foreign-relay" };
                ctx.eval();
                ctx.violate(WIRE, class, first_diff(&again, &bytes));
            }
            ctx.check(x.hash().as_slice() == &sha256d(&bytes)[..], WIRE, "foreign-id", || format!("{} for {}", x.hash(), hex(&bytes)));
            ctx.check(x.raw().as_slice() == &bytes[..], WIRE, "foreign-raw", || first_diff(x.raw(), &bytes));
            if let Some(y) = ctx.call(WIRE, "ser foreign tx", || x.ser().to_vec()) {
                ctx.check(y == bytes, WIRE, "foreign-tx-relay", || first_diff(&y, &bytes));
            }
        }
        Some(Err(e)) => ctx.violate(WIRE, "foreign-import-error", format!("{}: {}", e, hex(&bytes))),
        None => {}
    }
}

// ------------------------------------------------------------------ parts of a wire buffer

#[derive(BitcoinCode, PartialEq, Debug, Clone, Default)]
struct Inner {
    x: Sha256,
    y: Vec<u32>,
    s: Script,
    k: FixedByteArrayBE<[u8; 5]>,
    #[bitcoin_code(skip)]
    note: Option<String>,
}

#[derive(BitcoinCode, PartialEq, Debug, Clone, Default)]
struct Pack {
    a: u8,
    b: u16,
    c: u32,
    d: u64,
    e: i8,
    f: i16,
    g: i32,
    h: i64,
    i: u128,
    j: i128,
    flag: bool,
    list: Vec<ByteArray>,
    inner: Vec<Inner>,
    #[bitcoin_code(skip)]
    cache: Vec<u8>,
    tail: Hash160,
}

trait Part {
    fn ser(&self) -> ByteArray;
    fn expect(&self) -> Vec<u8>;
    /// Decode from the front of a buffer; the rest, or what was wrong.
    fn deser(&self, b: ByteArray) -> Result<ByteArray, String>;
}

struct P<T> {
    v: T,
    e: Vec<u8>,
    eq: fn(&T, &T) -> bool,
}

impl<T: BitcoinCode> Part for P<T> {
    fn ser(&self) -> ByteArray {
        self.v.ser()
    }
    fn expect(&self) -> Vec<u8> {
        self.e.clone()
    }
    fn deser(&self, b: ByteArray) -> Result<ByteArray, String> {
        let (v, rest) = T::deser_rest(b).map_err(s)?;
        if !(self.eq)(&v, &self.v) {
            return Err("value differs".into());
        }
        let again = v.ser().to_vec();
        if again != self.e {
            return Err(format!("re-encoded: {}", first_diff(&again, &self.e)));
        }
        Ok(rest)
    }
}

fn p<T: BitcoinCode + PartialEq + 'static>(v: T, e: Vec<u8>) -> Box<dyn Part> {
    Box::new(P { v, e, eq: |a, b| a == b })
}

fn small_script(r: &mut Rng) -> (Script, Vec<u8>) {
    let spec = gen_script(r, 0, false, 0);
    (build_script(&spec, &[]), enc_script(&spec, &[]))
}

fn mk_part(k: u8, seed: u64) -> Box<dyn Part> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let wide = r.u64() >> r.below(64);
    let n = r.below(9);
    fn eq_wire<T: BitcoinCode>(a: &T, b: &T) -> bool {
        a.ser() == b.ser()
    }
    fn concat(v: Vec<Vec<u8>>) -> Vec<u8> {
        v.concat()
    }
    match k % 26 {
        0 => p(wide & 1 == 1, vec![(wide & 1) as u8]),
        1 => p(wide as u8, vec![wide as u8]),
        2 => p(wide as u16, (wide as u16).to_le_bytes().to_vec()),
        3 => p(wide as u32, (wide as u32).to_le_bytes().to_vec()),
        4 => p(wide, wide.to_le_bytes().to_vec()),
        5 => p(wide as i8, vec![wide as u8]),
        6 => p(wide as i16, (wide as u16).to_le_bytes().to_vec()),
        7 => p(wide as i32, (wide as u32).to_le_bytes().to_vec()),
        8 => p(wide as i64, wide.to_le_bytes().to_vec()),
        9 => {
            let x = (wide as u128) << r.below(65) | r.below(256) as u128;
            p(x, x.to_le_bytes().to_vec())
        }
        10 => {
            let x = (wide as i128) << r.below(64);
            p(-x, (-x).to_le_bytes().to_vec())
        }
        11 => {
            let ba = gen_ba(r, 2, 0, true);
            let b = ba.bytes(&[]);
            p(ba.build(&[]), sized(&b))
        }
        12 => {
            let len = *r.pick(&[0usize, 1, 5, 252, 253, 254, 300]);
            let b = r.bytes(len);
            p(b.clone(), sized(&b))
        }
        13 => {
            let v: Vec<Vec<u8>> = (0..n).map(|_| { let k = r.usize(20); r.bytes(k) }).collect();
            let mut e = var_int(n);
            e.extend(v.iter().flat_map(|b| sized(b)));
            p(v, e)
        }
        14 => {
            let v: Vec<u64> = (0..*r.pick(&[0u64, 1, 3, 252, 253])).map(|_| r.u64()).collect();
            let mut e = var_int(v.len() as u64);
            e.extend(v.iter().flat_map(|x| x.to_le_bytes().to_vec()));
            p(v, e)
        }
        15 => {
            let h = r.bytes(32);
            p(Sha256d::new(arr32(&h)), h)
        }
        16 => {
            let h = r.bytes(32);
            p(Sha256::new(arr32(&h)).named("x"), h)
        }
        17 => {
            let h = r.bytes(20);
            match r.below(3) {
                0 => p(Sha1::new(arr20(&h)), h),
                1 => p(Ripemd160::new(arr20(&h)), h),
                _ => p(Hash160::new(arr20(&h)), h),
            }
        }
        18 => {
            let h = r.bytes(32);
            let e = concat(vec![h.clone(), (wide as u32).to_le_bytes().to_vec()]);
            p(TxOutpoint { tx_hash: Sha256d::new(arr32(&h)), vout: wide as u32 }, e)
        }
        19 => {
            let (sc, e) = small_script(r);
            Box::new(P { v: sc, e: sized(&e), eq: eq_wire })
        }
        20 => {
            let h = r.bytes(32);
            let (sc, e) = small_script(r);
            let e = concat(vec![h.clone(), 5u32.to_le_bytes().to_vec(), sized(&e), (wide as u32).to_le_bytes().to_vec()]);
            let i = TxInput::new(TxOutpoint { tx_hash: Sha256d::new(arr32(&h)), vout: 5 }, sc, wide as u32);
            Box::new(P { v: i, e, eq: eq_wire })
        }
        21 => {
            let (sc, e) = small_script(r);
            Box::new(P { v: TxOutput { value: wide, script: sc }, e: concat(vec![wide.to_le_bytes().to_vec(), sized(&e)]), eq: eq_wire })
        }
        22 => {
            let t = gen_tx(r, &GenTx { max_in: 2, max_out: 2, many: false, big: false, ann: 5, meta: true });
            if seed % 2 == 0 {
                Box::new(P { v: t.build(), e: t.wire(), eq: eq_wire })
            } else {
                Box::new(P {
                    v: t.build().hashed(),
                    e: t.wire(),
                    eq: |a: &Tx, b: &Tx| a.hash() == b.hash() && a.raw() == b.raw() && rtx_of(a.unhashed_tx()) == dec_tx(b.raw()).unwrap().0,
                })
            }
        }
        23 => {
            let (sc, e) = small_script(r);
            let (a, b, c, d) = (r.bytes(32), r.bytes(32), r.bytes(32), r.bytes(32));
            let x = TxPreimage {
                version: wide as i32,
                hash_prevouts: Sha256d::new(arr32(&a)),
                hash_sequence: Sha256d::new(arr32(&b)),
                outpoint: TxOutpoint { tx_hash: Sha256d::new(arr32(&c)), vout: 9 },
                script_code: sc,
                value: wide,
                sequence: !wide as u32,
                hash_outputs: Sha256d::new(arr32(&d)),
                lock_time: 77,
                sig_hash_type: 0xc3,
            };
            let e = concat(vec![
                (wide as u32).to_le_bytes().to_vec(),
                a,
                b,
                c,
                9u32.to_le_bytes().to_vec(),
                sized(&e),
                wide.to_le_bytes().to_vec(),
                (!wide as u32).to_le_bytes().to_vec(),
                d,
                77u32.to_le_bytes().to_vec(),
                0xc3u32.to_le_bytes().to_vec(),
            ]);
            Box::new(P { v: x, e, eq: eq_wire })
        }
        24 => {
            let list: Vec<Vec<u8>> = (0..n).map(|_| { let k = r.usize(6); r.bytes(k) }).collect();
            let inners: Vec<(Vec<u8>, Vec<u32>, (Script, Vec<u8>), Vec<u8>)> =
                (0..r.below(3)).map(|_| (r.bytes(32), (0..r.below(3)).map(|_| r.u32()).collect(), small_script(r), r.bytes(5))).collect();
            let tail = r.bytes(20);
            let v = Pack {
                a: 1,
                b: wide as u16,
                c: wide as u32,
                d: wide,
                e: wide as i8,
                f: wide as i16,
                g: wide as i32,
                h: wide as i64,
                i: wide as u128 * 3,
                j: -(wide as i128),
                flag: wide & 4 == 4,
                list: list.iter().map(|b| ByteArray::new("item", b.clone())).collect(),
                inner: inners
                    .iter()
                    .map(|i| Inner {
                        x: Sha256::new(arr32(&i.0)),
                        y: i.1.clone(),
                        s: (i.2).0.clone(),
                        k: FixedByteArrayBE::from_slice("k", &i.3).unwrap(),
                        note: None,
                    })
                    .collect(),
                cache: vec![],
                tail: Hash160::new(arr20(&tail)),
            };
            let mut e = vec![1];
            e.extend(&(wide as u16).to_le_bytes());
            e.extend(&(wide as u32).to_le_bytes());
            e.extend(&wide.to_le_bytes());
            e.push(wide as u8);
            e.extend(&(wide as i16).to_le_bytes());
            e.extend(&(wide as i32).to_le_bytes());
            e.extend(&(wide as i64).to_le_bytes());
            e.extend(&(wide as u128 * 3).to_le_bytes());
            e.extend(&(-(wide as i128)).to_le_bytes());
            e.push((wide & 4 == 4) as u8);
            e.extend(var_int(n));
            e.extend(list.iter().flat_map(|b| sized(b)));
            e.extend(var_int(inners.len() as u64));
            for i in &inners {
                e.extend(&i.0);
                e.extend(var_int(i.1.len() as u64));
                e.extend(i.1.iter().flat_map(|x| x.to_le_bytes().to_vec()));
                e.extend(sized(&(i.2).1));
                e.extend(&i.3);
            }
            e.extend(&tail);
            Box::new(P { v, e, eq: eq_wire })
        }
        _ => {
            let h = r.bytes(7);
            p(FixedByteArrayLE::<[u8; 7]>::from_slice_unnamed(&h).unwrap(), h)
        }
    }
}

fn parts(ctx: &mut Ctx, plan: &Plan) {
    let mut items = vec![];
    for (k, seed) in &plan.parts {
        match ctx.call(WIRE, "build part", || mk_part(*k, *seed)) {
            Some(x) => items.push((*k % 26, x)),
            None => return,
        }
    }
    let mut buffer = vec![];
    for (k, x) in &items {
        let e = x.expect();
        match ctx.call(WIRE, "ser part", || x.ser().to_vec()) {
            Some(b) => {
                if !ctx.check(b == e, WIRE, &format!("part-encode:{}", k), || first_diff(&b, &e)) {
                    return;
                }
            }
            None => return,
        }
        buffer.extend(e);
    }
    ev!(ctx, "{} parts in one buffer of {} bytes", items.len(), buffer.len());
    let mut rest: ByteArray = buffer.clone().into();
    let mut left = buffer.len();
    for (k, x) in &items {
        let r0 = rest.clone();
        let r = match ctx.call(WIRE, "deser part", || x.deser(r0)) {
            Some(r) => r,
            None => return,
        };
        left -= x.expect().len();
        match r {
            Ok(b) => {
                if !ctx.check(b.as_slice() == &buffer[buffer.len() - left..], WIRE, &format!("part-leftover:{}", k), || {
                    format!("{} bytes left instead of {}", b.len(), left)
                }) {
                    return;
                }
                rest = b;
            }
            Err(e) => {
                ctx.eval();
                ctx.violate(WIRE, &format!("part-decode:{}", k), e);
                return;
            }
        }
    }
    // whole lists back to back
    let mut r = Rng::new(plan.seed);
    let vals: Vec<u32> = (0..r.below(5)).map(|_| r.u32()).collect();
    let outs: Vec<(u64, (Script, Vec<u8>))> = (0..r.below(4)).map(|_| (r.u64(), small_script(&mut r))).collect();
    let res = ctx.call(WIRE, "encode_all", || {
        let a = encode_bitcoin_code_all(&vals).to_vec();
        let o: Vec<TxOutput> = outs.iter().map(|(v, s)| TxOutput { value: *v, script: s.0.clone() }).collect();
        let b = encode_bitcoin_code_all(&o).to_vec();
        let a2 = decode_bitcoin_code_all::<u32>(a.clone().into()).map_err(s);
        let b2 = decode_bitcoin_code_all::<TxOutput>(b.clone().into()).map_err(s).map(|v| v.iter().map(|o| o.ser().to_vec()).collect::<Vec<_>>());
        (a, a2, b, b2)
    });
    if let Some((a, a2, b, b2)) = res {
        let ea: Vec<u8> = vals.iter().flat_map(|v| v.to_le_bytes().to_vec()).collect();
        let eo: Vec<Vec<u8>> = outs.iter().map(|(v, s)| { let mut e = v.to_le_bytes().to_vec(); e.extend(sized(&s.1)); e }).collect();
        ctx.check(a == ea, WIRE, "encode-all", || first_diff(&a, &ea));
        ctx.check(b == eo.concat(), WIRE, "encode-all", || first_diff(&b, &eo.concat()));
        ctx.check(a2.as_ref() == Ok(&vals), WIRE, "decode-all", || format!("{:?} instead of {:?}", a2, vals));
        ctx.check(b2.as_ref() == Ok(&eo), WIRE, "decode-all", || format!("{:?} instead of {:?}", b2, eo));
    }
}

// ------------------------------------------------------------------ serde exports of everything

/// Something done to a value of any storable type.
pub trait Visit {
    fn visit<T: Serialize + DeserializeOwned + Sync + Send>(&mut self, what: &str, v: &T, seed: u64, human: Option<String>, eq: impl Fn(&T, &T) -> bool);
}

struct Trip<'a>(&'a mut Ctx);

impl Visit for Trip<'_> {
    fn visit<T: Serialize + DeserializeOwned + Sync + Send>(&mut self, what: &str, v: &T, seed: u64, human: Option<String>, eq: impl Fn(&T, &T) -> bool) {
        trip(self.0, what, v, seed, human, eq)
    }
}

fn trip<T: Serialize + DeserializeOwned + Sync + Send>(ctx: &mut Ctx, what: &str, v: &T, seed: u64, human: Option<String>, eq: impl Fn(&T, &T) -> bool) {
    for k in 0..6u8 {
        let label = format!("{} {}", SERDE_FORMATS[k as usize], what);
        let node = seed.wrapping_add(k as u64 * 977);
        let img = match ctx.call_node(node, SERDE, &format!("export {}", label), || to_bytes(k, v)) {
            Some(Ok(b)) => b,
            Some(Err(e)) => {
                ctx.violate(SERDE, &format!("export-error:{}", label), e);
                return;
            }
            None => return,
        };
        if k == 0 {
            if let Some(h) = &human {
                let text = String::from_utf8_lossy(&img).to_string();
                if !ctx.check(text == format!("\"{}\"", h), SERDE, &format!("human-readable:{}", what), || format!("{} instead of {}", text, h)) {
                    return;
                }
            }
        }
        let back: T = match ctx.call_node(node ^ 0xabcdef, SERDE, &format!("import {}", label), || from_bytes(k, &img)) {
            Some(Ok(b)) => b,
            Some(Err(e)) => {
                ctx.eval();
                ctx.violate(SERDE, &format!("import-error:{}", label), e);
                return;
            }
            None => return,
        };
        if !ctx.check(eq(&back, v), SERDE, &format!("content:{}", label), || format!("image {}", hex(&img[..img.len().min(120)]))) {
            return;
        }
        match ctx.call_node(node ^ 0x123456, SERDE, &format!("re-export {}", label), || to_bytes(k, &back)) {
            Some(Ok(again)) => {
                if !ctx.check(again == img, SERDE, &format!("re-export:{}", label), || first_diff(&again, &img)) {
                    return;
                }
            }
            Some(Err(e)) => {
                ctx.violate(SERDE, &format!("export-error:{}", label), e);
                return;
            }
            None => return,
        }
        ctx.out.sim_time += 1;
    }
}

fn rev_hex(b: &[u8]) -> String {
    hex(&b.iter().rev().cloned().collect::<Vec<_>>())
}

fn same_tx(a: &UnhashedTx, b: &UnhashedTx) -> bool {
    // as the library itself compares what both read as
    let read = |t: &UnhashedTx| UnhashedTx::deser(t.ser());
    let same = match (read(a), read(b)) {
        (Ok(x), Ok(y)) => x == y && x.inputs == y.inputs && x.outputs == y.outputs,
        (x, y) => x.is_err() == y.is_err(),
    };
    enc_rtx(&rtx_of(a)) == enc_rtx(&rtx_of(b)) && metas(a) == metas(b) && same
}

fn same_in(a: &TxInput, b: &TxInput) -> bool {
    let w = |i: &TxInput| UnhashedTx { version: 1, inputs: vec![i.clone()], outputs: vec![], lock_time: 0 };
    same_tx(&w(a), &w(b))
}

fn same_out(a: &TxOutput, b: &TxOutput) -> bool {
    let w = |o: &TxOutput| UnhashedTx { version: 1, inputs: vec![], outputs: vec![o.clone()], lock_time: 0 };
    same_tx(&w(a), &w(b))
}

const TEXTS: [&str; 6] = ["TICK", "", "na\u{ef}ve \u{1f600}", "\"quoted\\\"", "https://x.y/?a=b&c", "line\nbreak"];

pub fn slp_token(r: &mut Rng) -> SlpToken {
    use SlpAction::*;
    SlpToken {
        amount: gen_value(r),
        is_mint_baton: r.chance(1, 2),
        action: *r.pick(&[
            NonSlp, NonSlpBurn, SlpParseError, SlpUnsupportedVersion, SlpV1Genesis, SlpV1Mint, SlpV1Send, SlpNft1GroupGenesis,
            SlpNft1GroupMint, SlpNft1GroupSend, SlpNft1UniqueChildGenesis, SlpNft1UniqueChildSend,
        ]),
    }
}

pub fn slp_data(r: &mut Rng) -> Option<SlpData> {
    if r.chance(1, 3) {
        None
    } else {
        Some(SlpData { token_id: TokenId::from_hash(Sha256d::new(arr32(&r.bytes(32)))) })
    }
}

/// The hash is these bytes, and its hexadecimal forms in both directions agree.
fn hash_says<H: Hashed>(a: &H, b: &[u8]) -> bool {
    let same = |h: Result<H, bitcoin_cash::error::Error>| h.map_or(false, |h| &h == a);
    let back: Vec<u8> = b.iter().rev().cloned().collect();
    a.as_slice() == b
        && a.to_hex_be() == hex(b)
        && a.to_hex_le() == rev_hex(b)
        && a.to_vec_le() == back
        && format!("{}", a) == rev_hex(b)
        && same(H::from_hex_le(&rev_hex(b)))
        && same(H::from_hex_be(&hex(b)))
        && same(H::from_slice_le(&back))
        && same(H::from_slice(b))
}

pub fn unsigned_input(r: &mut Rng) -> UnsignedTxInput {
    UnsignedTxInput {
        prev_out: TxOutpoint { tx_hash: Sha256d::new(arr32(&r.bytes(32))), vout: r.u32() },
        sequence: r.u32(),
        value: gen_value(r),
    }
}

pub fn slp_tx(r: &mut Rng, t: &UnhashedTx) -> SlpTx {
    SlpTx {
        version: t.version,
        inputs: t
            .inputs
            .iter()
            .enumerate()
            .map(|(i, x)| SlpTxInput { index: i, token: slp_token(r), input: x.clone(), prev_script: x.script.clone() })
            .collect(),
        outputs: t.outputs.iter().map(|o| SlpTxOutput { token: slp_token(r), output: o.clone() }).collect(),
        lock_time: t.lock_time,
        slp_data: slp_data(r),
        tx_hash: Sha256d::new(arr32(&r.bytes(32))),
    }
}

/// Every storable type, one value of it, handed to `v`.
pub fn stored<V: Visit>(v: &mut V, k: u8, seed: u64) {
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let txs = gen_tx(r, &GenTx { max_in: 2, max_out: 2, many: false, big: false, ann: 5, meta: true });
    let tx = txs.build();
    let (b20, b32, b33) = (r.bytes(20), r.bytes(32), r.bytes(33));
    match k % 24 {
        0 => v.visit("UnhashedTx", &tx, seed, None, same_tx),
        1 => v.visit("Tx", &tx.hashed(), seed, None, |a, b| a.hash() == b.hash() && a.raw() == b.raw() && same_tx(a.unhashed_tx(), b.unhashed_tx())),
        2 => {
            for i in &tx.inputs {
                v.visit("TxInput", i, seed, None, same_in);
            }
        }
        3 => {
            for o in &tx.outputs {
                v.visit("TxOutput", o, seed, None, same_out);
            }
        }
        4 => v.visit("TxOutpoint", &TxOutpoint { tx_hash: Sha256d::new(arr32(&b32)), vout: r.u32() }, seed, None, |a, b| a == b),
        5 => {
            let spec = gen_script(r, 0, true, 5);
            let e = enc_script(&spec, &[]);
            v.visit("Script", &build_script(&spec, &[]), seed, Some(hex(&sized(&e))), move |a, b| {
                enc_rops(&rops_of(a)) == e && enc_rops(&rops_of(b)) == e
            })
        }
        6 => v.visit("Sha1", &Sha1::new(arr20(&b20)), seed, Some(rev_hex(&b20)), move |a, _| hash_says(a, &b20)),
        7 => v.visit("Ripemd160", &Ripemd160::new(arr20(&b20)), seed, Some(rev_hex(&b20)), move |a, _| hash_says(a, &b20)),
        8 => v.visit("Sha256", &Sha256::new(arr32(&b32)), seed, Some(rev_hex(&b32)), move |a, _| hash_says(a, &b32)),
        9 => v.visit("Sha256d", &Sha256d::new(arr32(&b32)), seed, Some(rev_hex(&b32)), move |a, _| hash_says(a, &b32)),
        10 => v.visit("Hash160", &Hash160::new(arr20(&b20)), seed, Some(rev_hex(&b20)), move |a, _| hash_says(a, &b20)),
        11 => {
            let mut pk = [0; 33];
            pk.copy_from_slice(&b33);
            v.visit("Pubkey", &Pubkey::new(pk), seed, Some(hex(&b33)), move |a, _| a.as_slice() == &b33[..])
        }
        12 | 13 => {
            let prefix = *r.pick(&["bitcoincash", "simpleledger", "bchtest", "bchreg", "slptest", "x"]);
            let ty = if r.chance(1, 2) { AddressType::P2PKH } else { AddressType::P2SH };
            let a = Address::from_hash(prefix, ty, Hash160::new(arr20(&b20))).into_owned_address();
            let text = a.cash_addr().to_string();
            v.visit("Address", &a, seed, Some(text), move |a, b| {
                a.hash().as_slice() == &b20[..] && a.addr_type() == ty && a.prefix_str() == prefix && a.cash_addr() == b.cash_addr() && a == b
            })
        }
        14 => {
            let u = unsigned_input(r);
            v.visit("UnsignedTxInput", &u, seed, None, |a, b| a == b)
        }
        15 => v.visit("SigHashFlags", &SigHashFlags::from_u8(r.u8()), seed, None, |a, b| a.bits() == b.bits()),
        16 => {
            let i = InputReference::<P2PKHSignatory>::new(r.u32() as usize);
            v.visit("InputReference", &i, seed, None, |a, b| a.input_idx() == b.input_idx())
        }
        17 => {
            let ba = gen_ba(r, 2, 0, false);
            let d = ba.bytes(&[]);
            v.visit("ByteArray", &ba.build(&[]), seed, Some(hex(&d)), move |a, _| a.as_slice() == &d[..])
        }
        18 => {
            let d = r.bytes(7);
            let d2 = d.clone();
            v.visit("FixedByteArrayBE", &FixedByteArrayBE::<[u8; 7]>::from_slice("n", &d).unwrap(), seed, Some(hex(&d)), move |a, _| a.as_ref() == &d[..]);
            v.visit("FixedByteArrayLE", &FixedByteArrayLE::<[u8; 7]>::from_slice("n", &d2).unwrap(), seed, Some(rev_hex(&d2)), move |a, _| a.as_ref() == &d2[..]);
        }
        19 => {
            let t = slp_token(r);
            v.visit("SlpToken", &t, seed, None, |a, b| a == b);
            let d = slp_data(r);
            v.visit("SlpData", &d, seed, None, |a, b| a.as_ref().map(|d| d.token_id.clone()) == b.as_ref().map(|d| d.token_id.clone()));
            let id = TokenId::from_hash(Sha256d::new(arr32(&b32)));
            v.visit("TokenId", &id, seed, Some(rev_hex(&b32)), move |a, _| a.as_slice_be() == &b32[..]);
        }
        20 => {
            let u = SlpUtxo { input: unsigned_input(r), slp_token: slp_token(r), slp_data: slp_data(r) };
            v.visit("SlpUtxo", &u, seed, None, |a, b| {
                a.input == b.input && a.slp_token == b.slp_token && a.slp_data.as_ref().map(|d| &d.token_id) == b.slp_data.as_ref().map(|d| &d.token_id)
            })
        }
        21 => {
            let m = TokenMeta {
                ticker: r.pick(&TEXTS).to_string(),
                name: r.pick(&TEXTS).to_string(),
                document_url: r.pick(&TEXTS).to_string(),
                document_hash: { let n = r.usize(40); r.bytes(n) },
                decimals: r.u8(),
                slp_token_type: *r.pick(&[SlpTokenType::Fungible, SlpTokenType::Nft1Child, SlpTokenType::Nft1Group]),
            };
            v.visit("TokenMeta", &m, seed, None, |a, b| {
                a.ticker == b.ticker
                    && a.name == b.name
                    && a.document_url == b.document_url
                    && a.document_hash == b.document_hash
                    && a.decimals == b.decimals
                    && a.slp_token_type as u8 == b.slp_token_type as u8
            })
        }
        22 => {
            let x = slp_tx(r, &tx);
            v.visit("SlpTx", &x, seed, None, |a, b| {
                let parts = |x: &SlpTx| {
                    (
                        x.inputs.iter().map(|i| (i.index, i.token, enc_rops(&rops_of(&i.prev_script)))).collect::<Vec<_>>(),
                        x.outputs.iter().map(|o| o.token).collect::<Vec<_>>(),
                        x.slp_data.as_ref().map(|d| d.token_id.clone()),
                        x.tx_hash.clone(),
                    )
                };
                parts(a) == parts(b) && same_tx(&a.clone().into_unhashed_tx(), &b.clone().into_unhashed_tx())
            })
        }
        _ => {
            let n = match r.usize(4) {
                0 => *r.pick(&[0, 1, -1, i32::MAX, -i32::MAX, 127, 128, -128, 255, 256, 65535, 65536]),
                1 => r.u8() as i8 as i32,
                _ => (r.u32() as i32).max(-i32::MAX),
            };
            v.visit("Integer", &bitcoin_cash::Integer::new(n).expect("number"), seed, None, move |a, _| a.value() == n);
            let n = n & i32::MAX;
            v.visit("UInteger", &bitcoin_cash::UInteger::new(n).expect("number"), seed, None, move |a, _| a.value() == n);
            let f = *r.pick(&FUNCTIONS);
            v.visit("Function", &f, seed, None, |a: &Function, b| a == b);
            let t = if r.chance(1, 2) { AddressType::P2PKH } else { AddressType::P2SH };
            v.visit("AddressType", &t, seed, None, |a, b| a == b);
        }
    }
}

pub fn world(prop: &'static str) -> World {
    World {
        name: "storage",
        gen,
        run,
        valid,
        after: None,
        quick_runs: match prop {
            "C05" => 9_000,
            "C06" => 8_000,
            _ => 4_000,
        },
        thorough_runs: 400_000,
        recheck: 300,
        cpu_s: 60,
        rule: "a run sends one generated transaction (boundary-biased counts, lengths, pushes, metadata, annotations, provenance) through 2..6 export/import hops on nodes with different hash seeds, with crashes, torn and lost writes between them, plus the parts or stored types of its property; non-trivial if at least one hop was made with a non-empty transaction; distinct by transaction bytes, hop sequence, faults and parts",
        time_unit: "export/import hops",
        real: &["bitcoin-cash encoders, decoders, rich JSON, serde implementations", "bitcoin-cash-base byte arrays", "bitcoin-cash-code derive", "bitcoin-cash-slp types", "serde_json, bincode, ciborium"],
        stub: &["disk (journal of records with torn and lost writes)", "process boundary (a fresh thread with its own hash seed)"],
        assumptions: &["crash recovery keeps the last complete record (the harness checksums records)", "scripts are well-formed sequences of operations; the library does not represent truncated pushes"],
    }
}
