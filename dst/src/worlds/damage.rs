//! C08: wire images are damaged by crashes, torn writes, bad disks and hostile peers, then decoded
//! and inspected. An independent decoder says what the damaged bytes mean.
use super::World;
use crate::damage::{apply, gen_edits, Edit};
use crate::ev;
use crate::model::*;
use crate::rng::Rng;
use crate::sim::{hex, Ctx};
use crate::worlds::addr::ref_address;
use bitcoin_cash::{
    decode_bitcoin_code_all, deserialize_ops, json_to_tx, script_destination, script_p2pkh_spend, tx_to_json, BitcoinCode,
    ByteArray, Destination, Hash160, Hashed, Op, Ripemd160, Script, Sha1, Sha256, Sha256d, Tx, TxInput, TxOutpoint, TxOutput,
    TxPreimage, UnhashedTx,
};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::fmt::Debug;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    tx: TxS,
    old: TxS,
    /// what is stored: see `run`
    target: u8,
    edits: Vec<Vec<Edit>>,
    seed: u64,
}

const P: &[&str] = &["C08"];
const MAX: usize = 24_000;

fn limit(n: usize) -> usize {
    (1 << 20) + 2048 * n
}

/// A push, in the shortest form or a longer one.
fn longhand(r: &mut Rng, n: u32) -> TOp {
    TOp(OpS::P(Ba::Raw(n, r.u64() | 256, None), r.chance(1, 2)), None)
}

fn gen(r: &mut Rng, _prop: &str, thorough: bool) -> Value {
    let g = GenTx { max_in: 3, max_out: 3, many: false, big: false, ann: 0, meta: false };
    let mut tx = gen_tx(r, &g);
    // shapes the inspection has opinions about, sometimes almost right
    for o in tx.outputs.iter_mut() {
        if r.chance(1, 2) {
            let n = if r.chance(1, 2) { 20 } else { *r.pick(&[0u32, 1, 19, 21, 32, 33, 75, 76]) };
            let f = r.u64() | 256;
            let near = r.chance(1, 4);
            o.script = match r.below(5) {
                0 => vec![code(0x76), code(0xa9), push(n, f), code(if near { 0x87 } else { 0x88 }), code(0xac)],
                1 => vec![code(0xa9), push(n, f), code(if near { 0x88 } else { 0x87 })],
                2 => vec![push(n, f), code(0xac)],
                3 => vec![code(0x6a), push(n, f)],
                _ => {
                    // numbers of every width
                    let k = 1 + r.usize(4);
                    (0..k)
                        .map(|_| {
                            let w = r.below(11) as u32;
                            let f = *r.pick(&[0u64, 0x80, 0xff, 0x7f, 1, 0x81]);
                            push(w, if r.chance(1, 2) { f } else { r.u64() | 256 })
                        })
                        .collect()
                }
            };
        }
    }
    for i in tx.inputs.iter_mut() {
        if r.chance(1, 3) {
            let n = *r.pick(&[33u32, 33, 33, 33, 32, 34, 65, 0]);
            let sig = *r.pick(&[0u32, 0, 1, 2, 65, 71, 72, 73]);
            i.script = vec![longhand(r, sig), longhand(r, n)];
        }
    }
    // the same shapes with pushes in longer forms, and one operation off
    let scripts = tx.inputs.iter_mut().map(|i| &mut i.script).chain(tx.outputs.iter_mut().map(|o| &mut o.script));
    for s in scripts {
        if !r.chance(1, 3) {
            continue;
        }
        for t in s.iter_mut() {
            if let OpS::P(_, minimal) = &mut t.0 {
                *minimal &= r.chance(1, 2);
            }
        }
        if r.chance(1, 3) {
            let at = r.usize(s.len() + 1);
            match r.below(4) {
                0 if at < s.len() => {
                    s.remove(at);
                }
                1 if at < s.len() => {
                    let t = s[at].clone();
                    s.insert(at, t);
                }
                2 if at < s.len() => s[at] = code(r.u8()),
                _ => {
                    let n = r.below(40) as u32;
                    s.insert(at, longhand(r, n));
                }
            }
        }
    }
    let old = gen_tx(r, &g);
    let n = if thorough { 12 } else { 8 };
    let edits = (0..n).map(|_| gen_edits(r, false)).collect();
    serde_json::to_value(Plan { tx, old, target: r.below(32) as u8, edits, seed: r.u64() }).unwrap()
}

fn valid(v: &Value) -> bool {
    serde_json::from_value::<Plan>(v.clone()).map_or(false, |p| p.tx.valid() && p.old.valid())
}

fn s<E: std::fmt::Display>(e: E) -> String {
    // printing an error must be as harmless as producing it
    e.to_string()
}

/// One decoder against the reference, on one image.
fn decode<R: PartialEq + Debug>(
    ctx: &mut Ctx,
    what: &str,
    img: &[u8],
    lib: impl Fn(ByteArray) -> Result<(R, ByteArray, Vec<u8>), String>,
    whole: impl Fn(ByteArray) -> Result<R, String>,
    reference: impl Fn(&mut Cur) -> Option<R>,
    enc: impl Fn(&R) -> Vec<u8>,
) -> bool {
    let mut c = Cur::new(img);
    let want = reference(&mut c);
    let (used, canonical, done) = (c.at, c.canonical, c.done());
    let got = match ctx.call_mem(P, &format!("deser_rest {}", what), limit(img.len()), || lib(img.into())) {
        Some(g) => g,
        None => return false,
    };
    let all = match ctx.call_mem(P, &format!("deser {}", what), limit(img.len()), || whole(img.into())) {
        Some(g) => g,
        None => return false,
    };
    ctx.probe(if want.is_some() { "damaged image still decodes" } else { "damaged image refused" });
    let accepted = want.is_some();
    match (&got, &want) {
        (Ok((v, rest, again)), Some(w)) => {
            let e = enc(w);
            ctx.check(v == w, P, &format!("content:{}", what), || format!("{:?} instead of {:?} from {}", v, w, hex(img)))
                && ctx.check(rest.as_slice() == &img[used..], P, &format!("leftover:{}", what), || {
                    format!("{} bytes left instead of {} of {}", rest.len(), img.len() - used, hex(img))
                })
                && ctx.check(*again == e && (!canonical || *again == img[..used].to_vec()), P, &format!("re-encode:{}", what), || {
                    format!("{} instead of {}", hex(again), hex(&e))
                });
        }
        (Ok((v, ..)), None) => {
            ctx.check(false, P, &format!("accepts-damaged:{}", what), || format!("{:?} from {}", v, hex(img)));
        }
        (Err(e), Some(_)) => {
            ctx.check(false, P, &format!("refuses-valid:{}", what), || format!("{} for {}", e, hex(img)));
        }
        (Err(_), None) => ctx.eval(),
    }
    match (&all, &want, done) {
        (Ok(v), Some(w), true) => {
            ctx.check(v == w, P, &format!("content-whole:{}", what), || format!("{:?} from {}", v, hex(img)));
        }
        (Ok(v), _, _) => {
            ctx.check(false, P, &format!("accepts-leftover-or-prefix:{}", what), || format!("{:?} from {}", v, hex(img)));
        }
        (Err(e), Some(_), true) => {
            ctx.check(false, P, &format!("refuses-valid:{}", what), || format!("{} for {}", e, hex(img)));
        }
        (Err(_), _, _) => ctx.eval(),
    }
    accepted && ctx.out.violations.is_empty()
}

fn of<T: BitcoinCode, R>(f: impl Fn(&T) -> R) -> impl Fn(ByteArray) -> Result<(R, ByteArray, Vec<u8>), String> {
    move |b| {
        let (v, rest) = T::deser_rest(b).map_err(s)?;
        Ok((f(&v), rest, v.ser().to_vec()))
    }
}

fn of_whole<T: BitcoinCode, R>(f: impl Fn(&T) -> R) -> impl Fn(ByteArray) -> Result<R, String> {
    move |b| T::deser(b).map_err(s).map(|v| f(&v))
}

fn run(ctx: &mut Ctx, _prop: &str, v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).expect("plan");
    let mut r = Rng::new(p.seed);
    let (img, old) = match image(&p, &p.tx, &mut r) {
        Some(i) => (i, image(&p, &p.old, &mut r).unwrap_or_default()),
        None => return,
    };
    if img.len() > MAX || old.len() > MAX {
        return;
    }
    ev!(ctx, "target {} image {} bytes {}", p.target % 32, img.len(), hex(&sha256(&img)[..6]));
    let lens = places(&p, &img);
    // the intact image first: the reference and the library agree on it
    look(ctx, &p, &img);
    for edits in &p.edits {
        if !ctx.out.violations.is_empty() {
            return;
        }
        let d = apply(&img, &old, &lens, edits);
        if d.len() > MAX {
            continue;
        }
        for e in edits {
            ctx.fault(e.kind());
        }
        ctx.mark_bytes(&d);
        ev!(ctx, "damage {:?}: {} bytes {}", edits, d.len(), hex(&sha256(&d)[..6]));
        look(ctx, &p, &d);
        ctx.out.sim_time += 1;
        ctx.out.nontrivial |= d != img;
    }
}

fn bounded(v: Vec<u8>) -> Option<Vec<u8>> {
    if v.len() <= MAX {
        Some(v)
    } else {
        None
    }
}

/// What lies on disk for this target.
fn image(p: &Plan, t: &TxS, r: &mut Rng) -> Option<Vec<u8>> {
    let wire = t.wire();
    if wire.len() > MAX {
        return None;
    }
    let (rtx, ..) = dec_tx(&wire)?;
    let script = |i: usize| {
        let all: Vec<&Vec<ROp>> = rtx.inputs.iter().map(|i| &i.script).chain(rtx.outputs.iter().map(|o| &o.1)).collect();
        all.get(i % all.len().max(1)).map(|s| enc_rops(s)).unwrap_or_default()
    };
    bounded(match p.target % 32 {
        0..=13 => wire,
        14..=17 => script(p.seed as usize),
        18 => sized(&script(p.seed as usize)),
        19..=20 => preimage_bytes(&script(p.seed as usize), r),
        21 => rtx.inputs.first().map(enc_rin).unwrap_or_default(),
        22 => rtx.outputs.first().map(|(v, o)| [v.to_le_bytes().to_vec(), sized(&enc_rops(o))].concat()).unwrap_or_default(),
        23 => r.bytes(36),
        24 => {
            let n = r.below(300);
            let mut v = var_int(n);
            v.extend(r.bytes(8 * n as usize));
            v
        }
        25..=26 => {
            let n = r.below(8);
            let mut v = var_int(n);
            for _ in 0..n {
                let k = *r.pick(&[0usize, 1, 3, 252, 253]);
                v.extend(sized(&r.bytes(k)));
            }
            v
        }
        27 => {
            let k = r.usize(300);
            sized(&r.bytes(k))
        }
        28 => r.bytes(32),
        29 => r.bytes(20),
        30 => rtx.outputs.iter().flat_map(|(v, o)| [v.to_le_bytes().to_vec(), sized(&enc_rops(o))].concat()).collect(),
        _ => {
            let k = 4 * r.usize(6);
            r.bytes(k)
        }
    })
}

fn preimage_bytes(script: &[u8], r: &mut Rng) -> Vec<u8> {
    [r.bytes(4), r.bytes(32), r.bytes(32), r.bytes(36), sized(script), r.bytes(8), r.bytes(4), r.bytes(32), r.bytes(4), r.bytes(4)].concat()
}

fn places(p: &Plan, img: &[u8]) -> Vec<(usize, usize)> {
    let mut c = Cur::new(img);
    match p.target % 32 {
        0..=13 => {
            c.tx();
        }
        14..=17 => return push_lens(img),
        18 => {
            c.script();
        }
        19..=20 => {
            c.take(104);
            c.script();
        }
        21 => {
            c.input();
        }
        22 | 30 => while c.at < img.len() && c.output().is_some() {},
        _ => {
            c.var();
            if let 25 | 26 = p.target % 32 {
                while c.at < img.len() && c.sized().is_some() {}
            }
        }
    }
    c.lens
}

type Pre = (u32, Vec<u8>, Vec<u8>, Vec<u8>, u32, Vec<ROp>, u64, u32, Vec<u8>, u32, u32);

fn pre_of(x: &TxPreimage) -> Pre {
    (
        x.version as u32,
        x.hash_prevouts.as_slice().to_vec(),
        x.hash_sequence.as_slice().to_vec(),
        x.outpoint.tx_hash.as_slice().to_vec(),
        x.outpoint.vout,
        rops_of(&x.script_code),
        x.value,
        x.sequence,
        x.hash_outputs.as_slice().to_vec(),
        x.lock_time,
        x.sig_hash_type,
    )
}

fn pre_ref(c: &mut Cur) -> Option<Pre> {
    Some((
        c.le(4)? as u32,
        c.take(32)?.to_vec(),
        c.take(32)?.to_vec(),
        c.take(32)?.to_vec(),
        c.le(4)? as u32,
        c.script()?,
        c.le(8)?,
        c.le(4)? as u32,
        c.take(32)?.to_vec(),
        c.le(4)? as u32,
        c.le(4)? as u32,
    ))
}

fn pre_enc(p: &Pre) -> Vec<u8> {
    [
        p.0.to_le_bytes().to_vec(),
        p.1.clone(),
        p.2.clone(),
        p.3.clone(),
        p.4.to_le_bytes().to_vec(),
        sized(&enc_rops(&p.5)),
        p.6.to_le_bytes().to_vec(),
        p.7.to_le_bytes().to_vec(),
        p.8.clone(),
        p.9.to_le_bytes().to_vec(),
        p.10.to_le_bytes().to_vec(),
    ]
    .concat()
}

fn list<T>(c: &mut Cur, item: impl Fn(&mut Cur) -> Option<T>) -> Option<Vec<T>> {
    let n = c.var()?;
    let mut v = vec![];
    for _ in 0..n {
        v.push(item(c)?);
    }
    Some(v)
}

fn look(ctx: &mut Ctx, p: &Plan, d: &[u8]) {
    match p.target % 32 {
        0..=13 => {
            let ok = decode(ctx, "UnhashedTx", d, of(rtx_of), of_whole(rtx_of), |c| c.tx(), enc_rtx);
            // a transaction with its id
            let f = |t: &Tx| (rtx_of(t.unhashed_tx()), t.hash().as_slice().to_vec(), t.raw().to_vec());
            let mut c = Cur::new(d);
            let raw = c.tx().map(|_| d[..c.at].to_vec());
            decode(
                ctx,
                "Tx",
                d,
                of(f),
                of_whole(f),
                |c| {
                    let t = c.tx()?;
                    c.canonical = true; // carries the bytes as received
                    let raw = c.d[..c.at].to_vec();
                    Some((t, sha256d(&raw), raw))
                },
                |_| raw.clone().unwrap_or_default(),
            );
            if ok {
                inspect_tx(ctx, d);
            }
        }
        14..=17 => {
            let want = dec_ops(d);
            let lib = ctx.call_mem(P, "deser_ops", limit(d.len()), || Script::deser_ops(d.into()).map_err(s));
            let slice = ctx.call_mem(P, "deserialize_ops", limit(d.len()), || deserialize_ops(d).map_err(s));
            let (lib, slice) = match (lib, slice) {
                (Some(a), Some(b)) => (a, b),
                _ => return,
            };
            let rops = |v: &[Op]| v.iter().map(rop_of).collect::<Vec<_>>();
            let w = want.as_ref().map(|w| &w.0);
            ctx.check(lib.as_ref().ok().map(rops_of).as_ref() == w, P, "script-ops", || format!("{:?} instead of {:?} from {}", lib, w, hex(d)));
            ctx.check(slice.as_ref().ok().map(|v| rops(v)).as_ref() == w, P, "script-ops-slice", || format!("{:?} instead of {:?} from {}", slice, w, hex(d)));
            if let (Ok(script), Some((ops, canonical))) = (lib, want) {
                if let Some(again) = ctx.call(P, "ser_ops", || script.ser_ops().to_vec()) {
                    let e = enc_rops(&ops);
                    ctx.check(again == e && (!canonical || again == d), P, "script-re-encode", || format!("{} instead of {}", hex(&again), hex(&e)));
                }
                inspect_script(ctx, &script, &ops);
            }
        }
        18 => {
            if decode(ctx, "Script", d, of(|x: &Script| rops_of(x)), of_whole(|x: &Script| rops_of(x)), |c| c.script(), |o| sized(&enc_rops(o))) {
                if let (Some(Ok((script, _))), Some(ops)) = (ctx.call(P, "deser", || Script::deser_rest(d.into())), Cur::new(d).script()) {
                    inspect_script(ctx, &script, &ops);
                }
            }
        }
        19..=20 => {
            decode(ctx, "TxPreimage", d, of(pre_of), of_whole(pre_of), pre_ref, pre_enc);
        }
        21 => {
            decode(ctx, "TxInput", d, of(|x: &TxInput| rin_of(x)), of_whole(|x: &TxInput| rin_of(x)), |c| c.input(), enc_rin);
        }
        22 => {
            let f = |x: &TxOutput| (x.value, rops_of(&x.script));
            decode(ctx, "TxOutput", d, of(f), of_whole(f), |c| c.output(), |(v, o)| [v.to_le_bytes().to_vec(), sized(&enc_rops(o))].concat());
        }
        23 => {
            let f = |x: &TxOutpoint| (x.tx_hash.as_slice().to_vec(), x.vout);
            decode(ctx, "TxOutpoint", d, of(f), of_whole(f), |c| Some((c.take(32)?.to_vec(), c.le(4)? as u32)), |(h, n)| [h.clone(), n.to_le_bytes().to_vec()].concat());
        }
        24 => {
            let f = |x: &Vec<u64>| x.clone();
            decode(ctx, "Vec<u64>", d, of(f), of_whole(f), |c| list(c, |c| c.le(8)), |v| {
                let mut e = var_int(v.len() as u64);
                e.extend(v.iter().flat_map(|x| x.to_le_bytes().to_vec()));
                e
            });
        }
        25 | 26 => {
            let enc = |v: &Vec<Vec<u8>>| {
                let mut e = var_int(v.len() as u64);
                e.extend(v.iter().flat_map(|x| sized(x)));
                e
            };
            let item = |c: &mut Cur| c.sized().map(|b| b.to_vec());
            if p.target % 32 == 25 {
                let f = |x: &Vec<Vec<u8>>| x.clone();
                decode(ctx, "Vec<Vec<u8>>", d, of(f), of_whole(f), |c| list(c, item), enc);
            } else {
                let f = |x: &Vec<ByteArray>| x.iter().map(|b| b.to_vec()).collect::<Vec<_>>();
                decode(ctx, "Vec<ByteArray>", d, of(f), of_whole(f), |c| list(c, item), enc);
            }
        }
        27 => {
            let f = |x: &ByteArray| x.to_vec();
            decode(ctx, "ByteArray", d, of(f), of_whole(f), |c| c.sized().map(|b| b.to_vec()), |b| sized(b));
            let f = |x: &bool| *x;
            // any non-zero byte is true; the canonical encodings are 0 and 1
            decode(ctx, "bool", d, of(f), of_whole(f), |c| { let b = c.le(1)?; c.canonical &= b < 2; Some(b != 0) }, |b| vec![*b as u8]);
        }
        28 => {
            let f = |x: &Sha256d| x.as_slice().to_vec();
            decode(ctx, "Sha256d", d, of(f), of_whole(f), |c| c.take(32).map(|b| b.to_vec()), |b| b.clone());
            let f = |x: &Sha256| x.as_slice().to_vec();
            decode(ctx, "Sha256", d, of(f), of_whole(f), |c| c.take(32).map(|b| b.to_vec()), |b| b.clone());
            hash_text::<Sha256d>(ctx, "Sha256d", d, 32);
            hash_text::<Sha256>(ctx, "Sha256", d, 32);
        }
        29 => {
            let f = |x: &Hash160| x.as_slice().to_vec();
            decode(ctx, "Hash160", d, of(f), of_whole(f), |c| c.take(20).map(|b| b.to_vec()), |b| b.clone());
            let f = |x: &Sha1| x.as_slice().to_vec();
            decode(ctx, "Sha1", d, of(f), of_whole(f), |c| c.take(20).map(|b| b.to_vec()), |b| b.clone());
            let f = |x: &Ripemd160| x.as_slice().to_vec();
            decode(ctx, "Ripemd160", d, of(f), of_whole(f), |c| c.take(20).map(|b| b.to_vec()), |b| b.clone());
            hash_text::<Hash160>(ctx, "Hash160", d, 20);
            hash_text::<Ripemd160>(ctx, "Ripemd160", d, 20);
        }
        k => {
            // items back to back until the end
            let outs = k == 30;
            let lib = ctx.call_mem(P, "decode_bitcoin_code_all", limit(d.len()), || {
                if outs {
                    decode_bitcoin_code_all::<TxOutput>(d.into()).map_err(s).map(|v| v.iter().map(|o| o.ser().to_vec()).collect::<Vec<_>>())
                } else {
                    decode_bitcoin_code_all::<u32>(d.into()).map_err(s).map(|v| v.iter().map(|o| o.to_le_bytes().to_vec()).collect())
                }
            });
            let mut c = Cur::new(d);
            let mut want = Some(vec![]);
            while !c.done() && want.is_some() {
                let item = if outs {
                    c.output().map(|(v, o)| [v.to_le_bytes().to_vec(), sized(&enc_rops(&o))].concat())
                } else {
                    c.take(4).map(|b| b.to_vec())
                };
                want = match (want, item) {
                    (Some(mut w), Some(i)) => {
                        w.push(i);
                        Some(w)
                    }
                    _ => None,
                };
            }
            if let Some(lib) = lib {
                ctx.check(lib.as_ref().ok() == want.as_ref(), P, "decode-all", || format!("{:?} instead of {:?} from {}", lib, want, hex(d)));
            }
        }
    }
}

/// Hashes written as text, with whatever the damage made of them.
fn hash_text<H: Hashed>(ctx: &mut Ctx, what: &str, d: &[u8], n: usize) {
    let text = hex(d);
    let bad = {
        let mut t = text.clone();
        if let Some(b) = d.first() {
            t.insert(*b as usize % (t.len() + 1), (b'a' + b % 26) as char);
        }
        t
    };
    for t in [&text, &bad] {
        let want = if t.len() == 2 * n && t.bytes().all(|c| c.is_ascii_hexdigit()) {
            Some((0..n).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>())
        } else {
            None
        };
        let back: Option<Vec<u8>> = want.clone().map(|v| v.into_iter().rev().collect());
        let r = ctx.call_mem(P, &format!("hash from text {}", what), limit(t.len()), || {
            (H::from_hex_be(t).ok().map(|h| h.as_slice().to_vec()), H::from_hex_le(t).ok().map(|h| h.as_slice().to_vec()), H::from_slice(t.as_bytes()).is_ok())
        });
        if let Some((be, le, slice)) = r {
            ctx.check(be == want && le == back && slice == (t.len() == n), P, &format!("hash-text:{}", what), || format!("{:?} {:?} {} from {}", be, le, slice, t));
        }
    }
}

fn inspect_tx(ctx: &mut Ctx, d: &[u8]) {
    let (rtx, ..) = match dec_tx(d) {
        Some(x) => x,
        None => return,
    };
    let t = match ctx.call(P, "deser", || UnhashedTx::deser_rest(d.into())) {
        Some(Ok((t, _))) => t,
        _ => return,
    };
    for (i, r) in t.inputs.iter().zip(&rtx.inputs) {
        inspect_script(ctx, &i.script, &r.script);
    }
    for (o, r) in t.outputs.iter().zip(&rtx.outputs) {
        inspect_script(ctx, &o.script, &r.1);
    }
    let bytes = enc_rtx(&rtx);
    if let Some((h, raw)) = ctx.call_mem(P, "hashed", limit(d.len()) * 2, || {
        let _ = format!("{:?}", t);
        let x = t.clone().hashed();
        (x.hash().as_slice().to_vec(), x.raw().to_vec())
    }) {
        ctx.check(raw == bytes && h == sha256d(&bytes), P, "inspect-id", || format!("{} for {}", hex(&h), hex(&bytes)));
    }
    // it can still be exported and read back as it is
    if let Some(r) = ctx.call_mem(&["C06", "C08"], "rich export of decoded", limit(d.len()) * 8, || {
        let j = tx_to_json(&t).map_err(s)?;
        json_to_tx(&j).map_err(s)
    }) {
        match r {
            Ok(u) => {
                ctx.check(snap(&u) == snap(&t), &["C06"], "rich-content", || diff(&snap(&u), &snap(&t)));
            }
            Err(e) => ctx.violate(&["C06"], "rich-error", e),
        }
    }
}

fn true_value(b: &[u8]) -> Option<i64> {
    // little endian, sign in the top bit of the last byte; None if wider than 62 bits
    let mut v: i64 = 0;
    for (i, x) in b.iter().enumerate() {
        let x = if i == b.len() - 1 { x & 0x7f } else { *x };
        if x != 0 {
            if i >= 7 {
                return None;
            }
            v |= (x as i64) << (8 * i);
        }
    }
    if b.last().map_or(false, |x| x & 0x80 != 0) {
        v = -v;
    }
    Some(v)
}

fn inspect_script(ctx: &mut Ctx, script: &Script, ops: &[ROp]) {
    let lim = limit(enc_rops(ops).len());
    if ctx
        .call_mem(P, "print script", lim, || {
            let _ = format!("{} {:?}", script, script);
        })
        .is_none()
    {
        return;
    }
    // numbers
    let ints = match ctx.call_mem(P, "to_integer", lim, || script.ops_arc().iter().map(|t| t.op.to_integer().map(|i| i.value() as i64)).collect::<Vec<_>>()) {
        Some(v) => v,
        None => return,
    };
    for (got, op) in ints.iter().zip(ops) {
        let ok = match op {
            ROp::Code(0) => *got == Some(0),
            ROp::Code(0x4f) => *got == Some(-1),
            ROp::Code(c @ 0x51..=0x60) => *got == Some(*c as i64 - 0x50),
            ROp::Code(_) => got.is_none(),
            ROp::Push(b, _) => {
                let v = true_value(b);
                match got {
                    Some(x) => v == Some(*x),
                    None => b.len() > 4 || v.map_or(true, |v| v.abs() > i32::MAX as i64),
                }
            }
        };
        ctx.check(ok, P, "to-integer", || format!("{:?} read as {:?}", op, got));
    }
    // after the first OP_CODESEPARATOR
    let cut = ops.iter().position(|o| *o == ROp::Code(0xab)).map_or(0, |i| i + 1);
    if let Some(c) = ctx.call(P, "to_script_code_first", || rops_of(&script.to_script_code_first())) {
        ctx.check(c == ops[cut..], P, "script-code", || format!("{:?} of {:?}", c, ops));
    }
    // where it pays to
    let prefix = "bitcoincash";
    let minimal = ops.iter().all(|o| !matches!(o, ROp::Push(_, false)));
    let want = match ops {
        [ROp::Code(0x6a), rest @ ..] => format!("data {:?}", rest),
        _ if !minimal => format!("unknown {:?}", ops), // not the script of any address
        [ROp::Code(0x76), ROp::Code(0xa9), ROp::Push(h, _), ROp::Code(0x88), ROp::Code(0xac)] if h.len() == 20 => format!("address {}", ref_address(prefix, 0, h)),
        [ROp::Code(0xa9), ROp::Push(h, _), ROp::Code(0x87)] if h.len() == 20 => format!("address {}", ref_address(prefix, 8, h)),
        [ROp::Push(k, _), ROp::Code(0xac)] => format!("pk {}", hex(k)),
        _ => format!("unknown {:?}", ops),
    };
    if let Some(got) = ctx.call_mem(P, "script_destination", lim, || match script_destination(prefix, script) {
        Destination::Address(a) => format!("address {}", a.cash_addr()),
        Destination::P2PK(k) => format!("pk {}", hex(&k)),
        Destination::Nulldata(v) => format!("data {:?}", v.iter().map(rop_of).collect::<Vec<_>>()),
        Destination::Unknown(x) => format!("unknown {:?}", rops_of(&x)),
    }) {
        ctx.probe(want.split(' ').next().unwrap_or(""));
        ctx.check(got == want, P, "destination", || format!("{} instead of {}", got, want));
    }
    // what it spends
    let want = match ops {
        [ROp::Push(sig, _), ROp::Push(pk, _)] if pk.len() == 33 => match sig.last() {
            Some(f) if f & 0x20 == 0 => Some((pk.clone(), *f as u32)),
            _ => None,
        },
        _ => None,
    };
    if let Some(got) = ctx.call_mem(P, "script_p2pkh_spend", lim, || script_p2pkh_spend(script).map(|x| (x.pubkey.as_slice().to_vec(), x.sig_hash_flags.bits()))) {
        ctx.check(got == want, P, "p2pkh-spend", || format!("{:?} instead of {:?}", got, want));
    }
}

pub fn world() -> World {
    World {
        name: "damage",
        gen,
        run,
        valid,
        after: None,
        quick_runs: 80_000,
        thorough_runs: 1_500_000,
        recheck: 300,
        cpu_s: 20,
        rule: "a run stores one wire image (transaction, script, preimage, part or list) and damages it in 8 (thorough: 12) independent ways, each decoded under a memory limit and inspected; non-trivial if some damage changed the image; distinct by damaged bytes",
        time_unit: "damaged images read",
        real: &["bitcoin-cash decoders, script classification, integers, ids, rich JSON", "bitcoin-cash-base byte arrays and opcodes"],
        stub: &["disk and network (the damaged image)", "allocator limit of 1 MiB + 2 KiB per image byte"],
        assumptions: &["images up to 24 KB", "time per run is bounded by 20 CPU seconds, not by a model of proportionality"],
    }
}
