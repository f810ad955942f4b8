//! C15: parties of one session sign and verify with different elliptic-curve back ends. Keys,
//! digests and signatures travel between them, get lost, mixed up, replayed and damaged; a
//! reference curve decides what each party has to say.
use super::deal::{c_ecc, rust_ecc};
use super::World;
use crate::curve::*;
use crate::damage::{apply, gen_edits, Edit};
use crate::ev;
use crate::model::*;
use crate::rng::Rng;
use crate::sim::{hex, Ctx};
use bitcoin_cash::{
    Address, AddressType, BitcoinCode, ByteArray, Function, Hash160, Hashed, P2PKHSignatory, Pubkey, Sha256, Sha256d, SigHashFlags, TxBuilder, TxOutpoint,
    TxOutput, UnsignedTxInput, ECC,
};
use serde::{Deserialize, Serialize};
use serde_json::Value;

const C15: &[&str] = &["C15"];

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Num {
    Rand(u64),
    /// close to zero
    Small(u16),
    /// group order plus or minus a little
    Order(i8),
    /// close to 2^256
    Top(u8),
    /// half the group order plus a little: the boundary of low S, and a nonce with a short point
    Half(i8),
}

impl Num {
    fn be(&self) -> [u8; 32] {
        let off = |u: &U, d: i64| -> U {
            let mut v = vec![];
            let mut c = d as i128;
            for x in u {
                c += *x as i128;
                v.push(c as u64);
                c >>= 64;
            }
            [v[0], v[1], v[2], v[3]]
        };
        match self {
            Num::Rand(x) => arr32(&fill(32, *x | 256)),
            Num::Small(x) => to_be(&[*x as u64, 0, 0, 0]),
            Num::Order(d) => to_be(&off(&N, *d as i64)),
            Num::Top(d) => to_be(&[!(*d as u64), !0, !0, !0]),
            Num::Half(d) => to_be(&off(&half(), *d as i64)),
        }
    }
    /// a number a secret or a nonce can be
    fn scalar(&self) -> U {
        let u = FN.red(&from_be(&self.be()));
        if zero(&u) {
            [1, 0, 0, 0]
        } else {
            u
        }
    }
}

/// (n + 1) / 2
fn half() -> U {
    FN.inv(&[2, 0, 0, 0])
}

fn gen_num(r: &mut Rng) -> Num {
    match r.below(12) {
        0..=6 => Num::Rand(r.u64()),
        7 => Num::Small(r.below(4) as u16),
        8 => Num::Small(r.below(65536) as u16),
        9 => Num::Order(r.below(7) as i8 - 3),
        10 => Num::Top(r.u8()),
        _ => Num::Half(r.below(7) as i8 - 3),
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Dig {
    num: Num,
    /// how the digest is handed over: plain bytes, a double hash, a hash with its preimage, a named array
    form: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum SigDmg {
    Edits(Vec<Edit>),
    /// the other S that signs the same
    FlipS,
    R(Num),
    S(Num),
    SwapRs,
    Append(Vec<u8>),
    /// zero bytes before R and before S
    Pad(u8, u8),
    /// 0xff before R or S
    Minus(bool),
    /// lengths in a long form: which (sequence, R, S), how many bytes, of how many zeros
    Long(u8, u8, u8),
    /// a number without bytes
    Blank(bool),
    /// R or S plus the group order
    Wrap(bool),
    Compact,
    Tag(u8, u8),
    Nothing,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum KeyDmg {
    None,
    Edits(Vec<Edit>),
    Uncompressed,
    Hybrid,
    /// the wrong half of the curve: compressed, hybrid
    Parity(bool),
    Prefix(u8, bool),
    X(Num),
    /// field prime added to a small x
    Field(u8),
    Raw,
    Y(Num),
    Zeros(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum DigDmg {
    None,
    Edits(Vec<Edit>),
    Other(u8),
    Len(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    /// party with key `k` signs digest `d`
    Sign { k: u8, d: u8 },
    /// signature number `s` arrives, with the key and digest that came along
    Verify { s: u16, k: Option<u8>, d: Option<u8>, sig: Vec<SigDmg>, key: KeyDmg, dig: DigDmg },
    /// signature number `s` arrives and is normalised before it is checked
    Normalize { s: u16, sig: Vec<SigDmg>, check: bool },
    /// a signature made by other software: nonce, and S if it is chosen instead of the digest
    Foreign { k: u8, d: u8, nonce: Num, s: Option<Num>, high: bool },
    /// digest and signature for which the sum of points is the point at infinity
    Infinity { k: u8, r: Num, s: Num },
    /// secret restored from a damaged backup
    Secret { num: Num, len: u8, d: u8, edits: Vec<Edit> },
    /// signing a digest of the wrong length
    BadDigest { k: u8, len: u8 },
    /// a payment: keys derived by one back end, signed by another, checked by both
    Payment { k: u8, who: u8, key: u64, flags: u8 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    keys: Vec<Num>,
    digests: Vec<Dig>,
    steps: Vec<Step>,
}

fn gen_sigdmg(r: &mut Rng) -> Vec<SigDmg> {
    let n = *r.pick(&[0, 1, 1, 1, 1, 1, 2, 2, 3]);
    (0..n)
        .map(|_| match r.below(20) {
            0..=4 => SigDmg::Edits(gen_edits(r, false)),
            5..=6 => SigDmg::FlipS,
            7 => SigDmg::R(gen_num(r)),
            8 => SigDmg::S(gen_num(r)),
            9 => SigDmg::SwapRs,
            10 => SigDmg::Append(if r.chance(1, 2) { vec![*r.pick(&[0x41, 0xc1, 0x42, 0x43, 1])] } else { let n = r.usize(5); r.bytes(n) }),
            11 => SigDmg::Pad(r.below(4) as u8, r.below(4) as u8),
            12 => SigDmg::Minus(r.chance(1, 2)),
            13..=14 => SigDmg::Long(r.below(3) as u8, r.below(10) as u8, r.below(10) as u8),
            15 => SigDmg::Blank(r.chance(1, 2)),
            16 => SigDmg::Wrap(r.chance(1, 2)),
            17 => SigDmg::Compact,
            18 => SigDmg::Tag(r.below(3) as u8, r.u8()),
            _ => SigDmg::Nothing,
        })
        .collect()
}

fn gen(r: &mut Rng, _p: &str, thorough: bool) -> Value {
    // set the curves up before the run is forked
    c_ecc();
    rust_ecc();
    let nk = r.range(1, 3);
    let nd = r.range(1, 3);
    let keys = (0..nk).map(|_| gen_num(r)).collect::<Vec<_>>();
    let digests = (0..nd).map(|_| Dig { num: gen_num(r), form: r.below(5) as u8 }).collect::<Vec<_>>();
    let n = r.range(4, if thorough { 20 } else { 10 });
    let mut steps = vec![Step::Sign { k: 0, d: 0 }];
    for _ in 0..n {
        let k = r.below(nk) as u8;
        let d = r.below(nd) as u8;
        steps.push(match r.below(20) {
            0..=2 => Step::Sign { k, d },
            3..=9 => {
                let what = r.below(8);
                Step::Verify {
                    s: r.below(64) as u16,
                    k: if r.chance(1, 8) { Some(k) } else { None },
                    d: if r.chance(1, 8) { Some(d) } else { None },
                    sig: if what < 5 { gen_sigdmg(r) } else { vec![] },
                    key: if what >= 3 && r.chance(2, 3) {
                        match r.below(14) {
                            0..=2 => KeyDmg::Edits(gen_edits(r, false)),
                            3..=4 => KeyDmg::Uncompressed,
                            5 => KeyDmg::Hybrid,
                            6 => KeyDmg::Parity(r.chance(1, 2)),
                            7 => KeyDmg::Prefix(r.below(9) as u8, r.chance(1, 2)),
                            8 => KeyDmg::X(gen_num(r)),
                            9 => KeyDmg::Field(r.below(16) as u8),
                            10 => KeyDmg::Raw,
                            11 => KeyDmg::Y(gen_num(r)),
                            12 => KeyDmg::Zeros(*r.pick(&[0, 1, 32, 33, 34, 64, 65, 66])),
                            _ => KeyDmg::None,
                        }
                    } else {
                        KeyDmg::None
                    },
                    dig: if what >= 6 && r.chance(1, 2) {
                        match r.below(4) {
                            0..=1 => DigDmg::Edits(gen_edits(r, false)),
                            2 => DigDmg::Other(r.u8()),
                            _ => DigDmg::Len(*r.pick(&[0, 1, 20, 31, 33, 64])),
                        }
                    } else {
                        DigDmg::None
                    },
                }
            }
            10..=12 => Step::Normalize { s: r.below(64) as u16, sig: gen_sigdmg(r), check: r.chance(1, 2) },
            13..=15 => Step::Foreign {
                k,
                d,
                nonce: if r.chance(1, 4) { Num::Half(0) } else { gen_num(r) },
                s: if r.chance(1, 3) { Some(gen_num(r)) } else { None },
                high: r.chance(1, 2),
            },
            16 => Step::Infinity { k, r: gen_num(r), s: gen_num(r) },
            17 => Step::Secret {
                num: gen_num(r),
                len: if r.chance(1, 2) { 32 } else { *r.pick(&[0, 1, 31, 33, 64]) },
                d,
                edits: if r.chance(1, 2) { gen_edits(r, false) } else { vec![] },
            },
            18 => Step::BadDigest { k, len: *r.pick(&[0, 1, 20, 31, 33, 40, 64]) },
            _ => Step::Payment { k, who: r.below(8) as u8, key: r.u64(), flags: r.below(6) as u8 },
        });
    }
    serde_json::to_value(Plan { keys, digests, steps }).unwrap()
}

fn valid(v: &Value) -> bool {
    match serde_json::from_value::<Plan>(v.clone()) {
        Ok(p) => !p.keys.is_empty() && !p.digests.is_empty() && p.digests.iter().all(|d| d.form < 5),
        Err(_) => false,
    }
}

/// The digest as the party holds it.
fn digest(d: &Dig) -> ByteArray {
    let b = d.num.be();
    match d.form {
        0 => ByteArray::from(b.to_vec()),
        1 => Sha256d::new(b).into(),
        2 => Sha256d::digest(ByteArray::new("message", fill(100, u64::from(b[0]) + 300))).into(),
        3 => Sha256::digest(b.to_vec()).into(),
        _ => ByteArray::new("digest", b.to_vec()),
    }
}

fn set(b: &mut Vec<u8>, at: usize, with: &[u8], len: usize) {
    let tail = b.split_off((at + len).min(b.len()));
    b.truncate(at);
    b.extend(with);
    b.extend(tail);
}

fn damage_sig(sig: &[u8], old: &[u8], dmg: &[SigDmg]) -> Vec<u8> {
    let mut b = sig.to_vec();
    for d in dmg {
        let rs = parse_strict(&b);
        match d {
            SigDmg::Edits(e) => b = apply(&b, old, &[], e),
            SigDmg::Append(x) => b.extend(x),
            SigDmg::Nothing => b.clear(),
            _ => {
                let (r, s) = match rs {
                    Some(x) => x,
                    None => continue,
                };
                let (rb, sb) = (der_int(&r), der_int(&s));
                b = match d {
                    SigDmg::FlipS => der(&r, &FN.neg(&s)),
                    SigDmg::R(n) => der(&from_be(&n.be()), &s),
                    SigDmg::S(n) => der(&r, &from_be(&n.be())),
                    SigDmg::SwapRs => der(&s, &r),
                    SigDmg::Pad(x, y) => der_raw(&[&vec![0; *x as usize], &rb[..]].concat(), &[&vec![0; *y as usize], &sb[..]].concat()),
                    SigDmg::Minus(second) => {
                        if *second {
                            der_raw(&rb, &[&[0xff], &sb[..]].concat())
                        } else {
                            der_raw(&[&[0xff], &rb[..]].concat(), &sb)
                        }
                    }
                    SigDmg::Long(which, n, zeros) => {
                        let mut x = b.clone();
                        let at = match which {
                            0 => 1,
                            1 => 3,
                            _ => 5 + rb.len(),
                        };
                        let mut l = vec![0x80 | *n];
                        let z = (*zeros as usize).min(*n as usize);
                        l.extend(vec![0; z]);
                        if *n as usize > z {
                            l.extend(vec![0; *n as usize - z - 1]);
                            l.push(x[at]);
                        }
                        set(&mut x, at, &l, 1);
                        x
                    }
                    SigDmg::Blank(second) => {
                        if *second {
                            der_raw(&rb, &[])
                        } else {
                            der_raw(&[], &sb)
                        }
                    }
                    SigDmg::Wrap(second) => {
                        let wrap = |u: &U| {
                            let mut c = 0u128;
                            let mut v = [0u64; 4];
                            for i in 0..4 {
                                c += u[i] as u128 + N[i] as u128;
                                v[i] = c as u64;
                                c >>= 64;
                            }
                            let mut o = vec![c as u8];
                            o.extend(&to_be(&v));
                            if o[0] == 0 && o[1] < 0x80 {
                                o.remove(0);
                            }
                            o
                        };
                        if *second {
                            der_raw(&rb, &wrap(&s))
                        } else {
                            der_raw(&wrap(&r), &sb)
                        }
                    }
                    SigDmg::Compact => [to_be(&r), to_be(&s)].concat(),
                    SigDmg::Tag(which, t) => {
                        let mut x = b.clone();
                        let at = match which {
                            0 => 0,
                            1 => 2,
                            _ => 4 + rb.len(),
                        };
                        x[at] = *t;
                        x
                    }
                    _ => unreachable!(),
                };
            }
        }
    }
    b
}

fn sig_kind(d: &SigDmg) -> &'static str {
    match d {
        SigDmg::Edits(_) => "signature bytes damaged",
        SigDmg::FlipS => "signature malleated (other S)",
        SigDmg::R(_) | SigDmg::S(_) | SigDmg::SwapRs | SigDmg::Wrap(_) => "signature number replaced",
        SigDmg::Append(_) => "bytes appended to signature",
        SigDmg::Pad(..) | SigDmg::Minus(_) | SigDmg::Long(..) | SigDmg::Blank(_) | SigDmg::Tag(..) => "signature re-encoded",
        SigDmg::Compact => "signature in compact form",
        SigDmg::Nothing => "signature lost",
    }
}

type Res<T> = Result<T, String>;

fn size_err(n: usize) -> String {
    format!("InvalidSize {{ expected: 32, actual: {} }}", n)
}

/// The verdict, or the errors of which one has to be reported.
fn want_verify(key: &[u8], dig: &[u8], sig: &[u8]) -> Result<bool, Vec<String>> {
    let mut e = vec![];
    if dig.len() != 32 {
        e.push(size_err(dig.len()));
    }
    let rs = parse_strict(sig);
    if rs.is_none() {
        e.push("InvalidSignatureFormat".into());
    }
    let q = parse_pubkey(key);
    if q.is_none() {
        e.push("InvalidPubkey".into());
    }
    match (rs, q) {
        (Some((r, s)), Some(q)) if e.is_empty() => Ok(!is_high(&s) && ecdsa(&q, dig, &r, &s)),
        _ => Err(e),
    }
}

fn same<T: PartialEq>(got: &Res<T>, want: &Result<T, Vec<String>>) -> bool {
    match (got, want) {
        (Ok(g), Ok(w)) => g == w,
        (Err(g), Err(w)) => w.contains(g),
        _ => false,
    }
}

fn want_normalize(sig: &[u8]) -> Res<Vec<u8>> {
    let (r, s) = parse_lax(sig).ok_or("InvalidSignatureFormat")?;
    Ok(der(&r, &if is_high(&s) { FN.neg(&s) } else { s }))
}

fn want_sign(sk: &[u8], dig: &[u8], reduced: bool) -> Result<Vec<u8>, Vec<String>> {
    let mut e = vec![];
    if dig.len() != 32 {
        e.push(size_err(dig.len()));
    }
    match parse_seckey(sk) {
        Some(k) if e.is_empty() => {
            let seed = if reduced { to_be(&FN.red(&from_be(dig))).to_vec() } else { dig.to_vec() };
            let (r, s) = sign(&k, dig, &seed);
            Ok(der(&r, &s))
        }
        Some(_) => Err(e),
        None => {
            e.push(size_err(sk.len()));
            Err(e)
        }
    }
}

fn show<T, E: std::fmt::Debug>(r: Result<T, E>) -> Res<T> {
    r.map_err(|e| format!("{:?}", e))
}

const BACK: [&str; 2] = ["C", "Rust"];

fn do_verify(rust: usize, key: &[u8], dig: &[u8], sig: &[u8]) -> Res<bool> {
    show(if rust == 1 { rust_ecc().verify(key, dig, sig) } else { c_ecc().verify(key, dig, sig) })
}

fn do_normalize(rust: usize, sig: &[u8]) -> Res<Vec<u8>> {
    show(if rust == 1 { rust_ecc().normalize_sig(sig) } else { c_ecc().normalize_sig(sig) })
}

fn do_sign(rust: usize, sk: &[u8], d: ByteArray) -> Res<ByteArray> {
    show(if rust == 1 { rust_ecc().sign(sk, d) } else { c_ecc().sign(sk, d) })
}

fn do_derive(rust: usize, sk: &[u8]) -> Res<Vec<u8>> {
    show(if rust == 1 { rust_ecc().derive_pubkey(sk) } else { c_ecc().derive_pubkey(sk) }).map(|p| p.as_slice().to_vec())
}

fn verify_both(ctx: &mut Ctx, what: &str, key: &[u8], dig: &[u8], sig: &[u8]) -> bool {
    let want = want_verify(key, dig, sig);
    ev!(ctx, "verify {} key {} digest {} sig {} -> {:?}", what, hex(key), hex(dig), hex(sig), want);
    for b in 0..2 {
        let got = match ctx.call(C15, &format!("verify with the {} back end", BACK[b]), || do_verify(b, key, dig, sig)) {
            Some(x) => x,
            None => return false,
        };
        let class = match (&got, &want) {
            (Ok(true), _) => "accepts-damaged",
            (_, Ok(true)) => "refuses-good",
            _ => "other-verdict",
        };
        ctx.check(same(&got, &want), C15, &format!("{}:{}:{}", class, BACK[b], what), || {
            format!("{:?} instead of {:?} for key {} digest {} signature {}", got, want, hex(key), hex(dig), hex(sig))
        });
    }
    want == Ok(true)
}

/// Both back ends sign; the signature both should make.
fn sign_both(ctx: &mut Ctx, sk: &[u8], d: &ByteArray) -> Option<Vec<u8>> {
    let bytes = d.to_vec();
    let want = want_sign(sk, &bytes, false);
    let before = ba_snap(d);
    ev!(ctx, "sign with {} digest {} -> {:?}", hex(sk), hex(&bytes), want.as_ref().map(|s| hex(s)));
    for b in 0..2 {
        let got = ctx.call(C15, &format!("sign with the {} back end", BACK[b]), || do_sign(b, sk, d.clone()))?;
        match (&got, &want) {
            (Ok(s), Ok(w)) => {
                let s_bytes = s.to_vec();
                if s_bytes != *w && b == 1 && bytes.len() == 32 && !lt(&from_be(&bytes), &N) && want_sign(sk, &bytes, true).as_ref() == Ok(&s_bytes) {
                    // only the nonce differs: it is drawn from the digest reduced by the group order
                    ctx.check(false, C15, "sign-differs:digest-not-below-group-order", || {
                        format!("the Rust back end signs {} instead of {} for digest {}", hex(&s_bytes), hex(w), hex(&bytes))
                    });
                } else {
                    ctx.check(s_bytes == *w, C15, &format!("sign-differs:{}", BACK[b]), || format!("{} instead of {} for digest {}", hex(&s_bytes), hex(w), hex(&bytes)));
                }
                let f = s.function();
                let pre = s.preimage().map(|p| p.iter().map(ba_snap).collect::<Vec<_>>());
                let ok = f == Function::EcdsaSign && pre.as_ref().map_or(false, |p| p.len() == 1 && p[0] == before);
                ctx.check(ok, C15, &format!("provenance:{}", BACK[b]), || format!("{:?} of {:?} instead of EcdsaSign of {:?}", f, pre, before));
            }
            (Err(e), Err(w)) => {
                ctx.check(w.contains(e), C15, &format!("sign-error:{}", BACK[b]), || format!("{} instead of {:?}", e, w));
            }
            _ => ctx.violate(C15, &format!("sign-verdict:{}", BACK[b]), format!("{:?} instead of {:?}", got.map(|s| hex(&s)), want.as_ref().map(|s| hex(s)))),
        }
    }
    want.ok()
}

fn derive_both(ctx: &mut Ctx, sk: &[u8]) -> Option<Vec<u8>> {
    let want = parse_seckey(sk).map(|k| compressed(&G.mul(&k))).ok_or_else(|| size_err(sk.len()));
    for b in 0..2 {
        let got = ctx.call(C15, &format!("derive_pubkey with the {} back end", BACK[b]), || do_derive(b, sk))?;
        ctx.check(got == want, C15, &format!("derive:{}", BACK[b]), || format!("{:?} instead of {:?} for {}", got.map(|x| hex(&x)), want.clone().map(|x| hex(&x)), hex(sk)));
    }
    want.ok()
}

struct Sig {
    k: usize,
    dig: Vec<u8>,
    bytes: Vec<u8>,
}

fn run(ctx: &mut Ctx, _prop: &str, v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).expect("plan");
    let sks: Vec<U> = p.keys.iter().map(|k| k.scalar()).collect();
    let points: Vec<Pt> = sks.iter().map(|k| G.mul(k)).collect();
    let pubs: Vec<Vec<u8>> = points.iter().map(compressed).collect();
    for (k, want) in sks.iter().zip(&pubs) {
        if derive_both(ctx, &to_be(k)).as_ref() != Some(want) {
            return;
        }
    }
    let mut sigs: Vec<Sig> = vec![];
    for st in &p.steps {
        if !ctx.out.violations.is_empty() && ctx.out.violations.iter().any(|v| v.class != "sign-differs:digest-not-below-group-order") {
            return;
        }
        ctx.out.sim_time += 1;
        ctx.out.nontrivial = true;
        ctx.mark(&format!("{:?}", st));
        match st {
            Step::Sign { k, d } => {
                let (k, d) = (*k as usize % sks.len(), *d as usize % p.digests.len());
                let dig = digest(&p.digests[d]);
                if let Some(s) = sign_both(ctx, &to_be(&sks[k]), &dig) {
                    if !verify_both(ctx, "own", &pubs[k], &dig, &s) {
                        ctx.violate(C15, "model", "the reference does not accept its own signature");
                    }
                    sigs.push(Sig { k, dig: dig.to_vec(), bytes: s });
                }
            }
            Step::Verify { s, k, d, sig, key, dig } => {
                if sigs.is_empty() {
                    continue;
                }
                let x = &sigs[*s as usize % sigs.len()];
                let old = &sigs[0].bytes;
                let sig_b = damage_sig(&x.bytes, old, sig);
                for e in sig {
                    ctx.fault(sig_kind(e));
                }
                let ki = k.map_or(x.k, |k| k as usize % sks.len());
                if k.is_some() {
                    ctx.fault("keys mixed up");
                }
                let q = &points[ki];
                let mut kb = pubs[ki].clone();
                match key {
                    KeyDmg::None => {}
                    KeyDmg::Edits(e) => kb = apply(&kb, &pubs[0], &[], e),
                    KeyDmg::Uncompressed => kb = uncompressed(q, false),
                    KeyDmg::Hybrid => kb = uncompressed(q, true),
                    KeyDmg::Parity(h) => {
                        if *h {
                            kb = uncompressed(q, true);
                        }
                        kb[0] ^= 1;
                    }
                    KeyDmg::Prefix(b, long) => {
                        if *long {
                            kb = uncompressed(q, false);
                        }
                        kb[0] = *b;
                    }
                    KeyDmg::X(n) => {
                        kb.truncate(1);
                        kb.extend(&n.be());
                    }
                    KeyDmg::Field(n) => {
                        let mut x = P;
                        x[0] += *n as u64;
                        kb.truncate(1);
                        kb.extend(&to_be(&x));
                    }
                    KeyDmg::Raw => kb = uncompressed(q, false)[1..].to_vec(),
                    KeyDmg::Y(n) => {
                        kb = uncompressed(q, false);
                        kb.truncate(33);
                        kb.extend(&n.be());
                    }
                    KeyDmg::Zeros(n) => kb = vec![0; *n as usize],
                }
                match key {
                    KeyDmg::None => {}
                    KeyDmg::Uncompressed | KeyDmg::Hybrid => ctx.fault("key in another form"),
                    _ => ctx.fault("key damaged"),
                }
                let mut db = d.map_or(x.dig.clone(), |d| digest(&p.digests[d as usize % p.digests.len()]).to_vec());
                match dig {
                    DigDmg::None => {}
                    DigDmg::Edits(e) => {
                        ctx.fault("digest damaged");
                        db = apply(&db, &[0; 32], &[], e);
                    }
                    DigDmg::Other(n) => {
                        ctx.fault("digest mixed up");
                        db = vec![*n; 32];
                    }
                    DigDmg::Len(n) => {
                        ctx.fault("digest of another length");
                        db = fill(*n as u32, 300);
                    }
                }
                if verify_both(ctx, "received", &kb, &db, &sig_b) {
                    ctx.probe("received signature valid");
                } else {
                    ctx.probe("received signature not valid");
                }
            }
            Step::Normalize { s, sig, check } => {
                if sigs.is_empty() {
                    continue;
                }
                let x = &sigs[*s as usize % sigs.len()];
                for e in sig {
                    ctx.fault(sig_kind(e));
                }
                let sig_b = damage_sig(&x.bytes, &sigs[0].bytes, sig);
                let want = want_normalize(&sig_b);
                ev!(ctx, "normalise {} -> {:?}", hex(&sig_b), want.as_ref().map(|s| hex(s)));
                for b in 0..2 {
                    let got = match ctx.call(C15, &format!("normalize_sig with the {} back end", BACK[b]), || do_normalize(b, &sig_b)) {
                        Some(x) => x,
                        None => return,
                    };
                    ctx.check(got == want, C15, &format!("normalize:{}", BACK[b]), || {
                        format!("{:?} instead of {:?} for {}", got.map(|x| hex(&x)), want.clone().map(|x| hex(&x)), hex(&sig_b))
                    });
                }
                if let (Ok(w), true) = (want, *check) {
                    let (k, dig) = (x.k, x.dig.clone());
                    if verify_both(ctx, "normalised", &pubs[k], &dig, &w) {
                        ctx.probe("normalised signature valid");
                    }
                }
            }
            Step::Foreign { k, d, nonce, s, high } => {
                let k = *k as usize % sks.len();
                let nonce = nonce.scalar();
                let (rx, _) = G.mul(&nonce).affine().unwrap();
                let r = FN.red(&rx);
                let (s, z) = match s {
                    // S is chosen, the digest follows
                    Some(s) => {
                        let s = s.scalar();
                        (s, to_be(&FN.sub(&FN.mul(&s, &nonce), &FN.mul(&r, &sks[k]))).to_vec())
                    }
                    None => {
                        let z = digest(&p.digests[*d as usize % p.digests.len()]).to_vec();
                        let e = FN.add(&FN.red(&from_be(&z)), &FN.mul(&r, &sks[k]));
                        (FN.mul(&FN.inv(&nonce), &e), z)
                    }
                };
                if zero(&r) || zero(&s) {
                    continue;
                }
                ctx.fault("signature by other software");
                let s = if is_high(&s) == *high { s } else { FN.neg(&s) };
                let b = der(&r, &s);
                if *high {
                    ctx.fault("signature malleated (other S)");
                }
                let ok = verify_both(ctx, "foreign", &pubs[k], &z, &b);
                if ok == *high {
                    ctx.violate(C15, "model", "the reference errs on a foreign signature");
                }
                sigs.push(Sig { k, dig: z, bytes: b });
            }
            Step::Infinity { k, r, s } => {
                ctx.fault("signature by other software");
                let k = *k as usize % sks.len();
                let (r, s) = (r.scalar(), s.scalar());
                let z = to_be(&FN.neg(&FN.mul(&r, &sks[k])));
                verify_both(ctx, "infinity", &pubs[k], &z, &der(&r, &s));
                verify_both(ctx, "infinity", &pubs[k], &z, &der(&r, &if is_high(&s) { FN.neg(&s) } else { s }));
            }
            Step::Secret { num, len, d, edits } => {
                ctx.fault("secret damaged");
                let mut sk = num.be().to_vec();
                sk.resize(*len as usize, 7);
                let sk = apply(&sk, &[1; 32], &[], edits);
                let pk = derive_both(ctx, &sk);
                let dig = digest(&p.digests[*d as usize % p.digests.len()]);
                let s = sign_both(ctx, &sk, &dig);
                if let (Some(pk), Some(s)) = (pk, s) {
                    verify_both(ctx, "own", &pk, &dig, &s);
                }
            }
            Step::BadDigest { k, len } => {
                ctx.fault("digest of another length");
                let k = *k as usize % sks.len();
                sign_both(ctx, &to_be(&sks[k]), &ByteArray::from(fill(*len as u32, 300)));
            }
            Step::Payment { k, who, key, flags } => {
                let k = *k as usize % sks.len();
                payment(ctx, &to_be(&sks[k]), &pubs[k], *who as usize, *key, *flags);
            }
        }
    }
}

/// One pay-to-public-key-hash payment whose payee derives the key with one back end, whose payer
/// signs with another and whose checkers use both.
fn payment(ctx: &mut Ctx, sk: &[u8], pk: &[u8], who: usize, key: u64, flags: u8) {
    let (a, b) = (who & 1, who >> 1 & 1);
    let f = crate::model::hash_type([0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3][flags as usize % 6]);
    let lock = [&[0x76, 0xa9, 20][..], &hash160(pk), &[0x88, 0xac]].concat();
    let r = ctx.call(C15, "payment", || -> Result<(Vec<u8>, Vec<u8>, Vec<u8>), String> {
        let derived = do_derive(a, sk)?;
        let pubkey = Pubkey::from_slice_checked(&derived).ok_or("public key of another size")?;
        let mut tb = TxBuilder::new_simple();
        let address = Address::from_hash("bitcoincash", AddressType::P2PKH, Hash160::digest(pubkey.as_slice()));
        let input = UnsignedTxInput { prev_out: TxOutpoint { tx_hash: build_hash(key), vout: 1 }, sequence: 7, value: 10_000 };
        let i = tb.add_input(input, address.p2pkh_script().map_err(|e| format!("{:?}", e))?, P2PKHSignatory { pubkey, sig_hash_flags: f });
        tb.add_output(TxOutput { value: 5_000, script: address.into() });
        let mut u = tb.build().map_err(|e| format!("{:?}", e))?;
        let idx = i.input_idx();
        let pre = u.preimages()[idx][0].ser();
        let digest = Sha256d::digest(pre);
        let dig = digest.as_slice().to_vec();
        let sig = do_sign(b, sk, digest.into_byte_array())?;
        let raw = sig.to_vec();
        u.sign_input(i, sig).map_err(|e| format!("{:?}", e))?;
        let tx = u.complete_tx();
        let paid = tx.outputs[0].script.ser().to_vec();
        if paid != sized(&lock) {
            return Err(format!("pays to {}", hex(&paid)));
        }
        Ok((dig, raw, tx.inputs[idx].script.ser().to_vec()))
    });
    match r {
        Some(Ok((dig, sig, script))) => {
            let want = want_sign(sk, &dig, false).unwrap();
            ctx.check(sig == want, C15, &format!("sign-differs:{}", BACK[b]), || format!("{} instead of {}", hex(&sig), hex(&want)));
            verify_both(ctx, "payment", pk, &dig, &sig);
            let mut item = sig.clone();
            item.push(f.bits() as u8);
            let want = sized(&[enc_push(&item, true), enc_push(pk, true)].concat());
            ctx.check(script == want, C15, "payment-script", || format!("{} instead of {}", hex(&script), hex(&want)));
        }
        Some(Err(e)) => ctx.violate(C15, "payment", e),
        None => {}
    }
}

pub fn world() -> World {
    World {
        name: "back ends",
        gen,
        run,
        valid,
        after: None,
        quick_runs: 15_000,
        thorough_runs: 500_000,
        recheck: 300,
        cpu_s: 30,
        rule: "a run makes 1..3 keys and digests and sends signatures, keys, digests and secrets 4..10 times between a party with the C back end and one with the Rust back end, mixed up, re-encoded or damaged; distinct by keys, digests and steps",
        time_unit: "deliveries",
        real: &["bitcoin-cash-ecc with the C back end (libsecp256k1) and with the Rust back end, linked into one process", "bitcoin-cash: ByteArray provenance, TxBuilder, P2PKHSignatory"],
        stub: &["the channel between the parties"],
        assumptions: &["the reference curve (an independent implementation of secp256k1, RFC 6979 and DER) is right"],
    }
}
