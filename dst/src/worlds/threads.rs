//! C14: several sessions on several threads of one process. Real threads, one running at a time;
//! the plan says at which edges and allocations of the library the next thread takes over. Every
//! session's record must be the one it has in a process of its own.
use super::deal::*;
use super::session::{add_inputs, add_outputs, new_builder, p2pkh, real_sign, real_verify, reattach, Core, Multi, One};
use super::storage::{export, from_bytes, import, to_bytes};
use super::World;
use crate::ev;
use crate::model::*;
use crate::rng::Rng;
use crate::seams;
use crate::sim::{enter, guarded, hex, leave, Ctx};
use bitcoin_cash::{
    script_destination, Address, BitcoinCode, ByteArray, Destination, Hash160, Hashed, InputReference, Op, Ops, P2PKHSignatory, Ripemd160, Script, Sha1, Sha256,
    Sha256d, SigHashFlags, Tx, TxBuilder, UnhashedTx, UnsignedTx, ECC,
};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

const P: &[&str] = &["C14"];

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Act {
    Build,
    Preimages,
    /// input, entry point
    Sign(u8, u8),
    /// input, the part at which the signer fails (modulo 4) and the entry point
    Fail(u8, u8),
    /// export, import, resume
    Hop(u8),
    /// read the transaction all sessions share
    SharedTx(u8),
    SharedBytes(u8, u8),
    SharedScript(u8),
    SharedAddress(u8),
    /// sign and verify with the shared curve: back end, key, digest
    Curve(u8, u8, u8),
    /// one small call, with one of a few arguments: what, argument
    Micro(u8, u8),
    /// bytes somebody else sent: damaged text or wire bytes
    Hostile(u8, u8),
    Complete,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Prog {
    deal: DealS,
    acts: Vec<Act>,
    /// which thread carries out each act
    who: Vec<u8>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    threads: u8,
    progs: Vec<Prog>,
    /// the order in which each thread looks at its acts
    order: u64,
    shared: u64,
    seeds: Vec<u64>,
    /// preemptions: (step, thread)
    plan: Vec<(u64, u32)>,
    /// percent of the first few executions of an edge at which to switch
    #[serde(default)]
    rare: u32,
}

fn one_stage(r: &mut Rng) -> DealS {
    for _ in 0..40 {
        let mut d = gen_deal(r, false);
        if d.stages == 1 {
            d.outputs.truncate(4);
            for o in &mut d.outputs {
                o.rep = o.rep.min(3);
            }
            if d.valid() {
                return d;
            }
        }
    }
    let mut d = gen_deal(r, false);
    d.stages = 1;
    for i in &mut d.inputs {
        i.stage = 0;
        i.early = false;
    }
    for o in &mut d.outputs {
        o.stage = 0;
    }
    d
}

/// Nearly the same deal.
fn vary(r: &mut Rng, d: &DealS) -> DealS {
    for _ in 0..20 {
        let mut e = d.clone();
        let n = e.inputs.len();
        let i = r.usize(n);
        match r.below(12) {
            0 => e.inputs[i].value = e.inputs[i].value.wrapping_add(1 + r.below(1000)),
            1 => e.inputs[i].seq = r.u32(),
            2 => e.inputs[i].vout = r.u32() >> r.below(32),
            3 => e.inputs[i].hash = r.u64() | 256,
            4 => e.inputs[i].key = r.u64(),
            5 => e.inputs[i].lock = gen_script(r, 0, false, 0),
            6 if !e.outputs.is_empty() => {
                let k = r.usize(e.outputs.len());
                e.outputs[k].value = e.outputs[k].value.wrapping_sub(r.below(100));
            }
            7 if !e.outputs.is_empty() => {
                let k = r.usize(e.outputs.len());
                e.outputs[k].script = gen_script(r, 0, false, 0);
            }
            8 => e.version = r.u32() as i32,
            9 => e.lock_time = r.u32(),
            10 => e.fee = r.below(5000),
            _ => {
                let f = e.inputs[i].flags.len();
                if f > 0 {
                    e.inputs[i].flags[r.usize(f)] = *r.pick(&[0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3]);
                }
            }
        }
        if e.valid() {
            return e;
        }
    }
    d.clone()
}

fn gen(r: &mut Rng, _p: &str, thorough: bool) -> Value {
    c_ecc();
    rust_ecc();
    curve();
    if r.chance(2, 5) {
        return storm(r, thorough);
    }
    let n = r.range(2, 4);
    let threads = r.range(2, 4) as u8;
    let handover = r.chance(1, 3);
    let mut progs: Vec<Prog> = vec![];
    for s in 0..n {
        let deal = if s > 0 && r.chance(3, 4) {
            let base = progs[0].deal.clone();
            if r.chance(1, 4) {
                base
            } else {
                vary(r, &base)
            }
        } else {
            one_stage(r)
        };
        let inputs = deal.inputs.len() as u64;
        let mut acts = vec![];
        if !r.chance(1, 8) {
            acts.push(Act::Build);
        }
        let k = r.range(2, if thorough { 14 } else { 8 });
        for _ in 0..k {
            acts.push(match r.below(20) {
                0 => Act::Build,
                1 => Act::Preimages,
                2..=6 => Act::Sign(r.below(inputs) as u8, r.below(3) as u8),
                7..=8 => Act::Fail(r.below(inputs) as u8, r.below(12) as u8),
                9..=11 => Act::Hop(r.below(11) as u8),
                12..=13 => Act::SharedTx(r.below(11) as u8),
                14..=15 => Act::SharedBytes(r.u8(), r.below(10) as u8),
                16 => Act::SharedScript(r.below(5) as u8),
                17 => Act::SharedAddress(r.below(5) as u8),
                18 => Act::Curve(r.below(2) as u8, r.below(4) as u8, r.below(4) as u8),
                _ => Act::Hostile(r.below(11) as u8, r.below(5) as u8),
            });
        }
        if r.chance(2, 3) {
            for i in 0..inputs {
                acts.push(Act::Sign(i as u8, r.below(3) as u8));
            }
            acts.push(Act::Complete);
        }
        let who = acts.iter().map(|_| if handover { r.below(threads as u64) as u8 } else { s as u8 % threads }).collect();
        progs.push(Prog { deal, acts, who });
    }
    let scale = *r.pick(&[5u64, 50, 500, 500, 5_000, 5_000, 50_000]);
    let count = match r.below(4) {
        0 => r.range(1, 5),
        1 => r.range(5, 50),
        _ => r.range(50, 600),
    };
    let mut at = if r.chance(1, 2) { r.below(20_000) } else { 0 };
    let mut plan = vec![];
    for _ in 0..count {
        at += 1 + r.below(2 * scale);
        plan.push((at, r.u32() & 0xff));
    }
    let seeds = (0..threads).map(|_| r.u64()).collect();
    let rare = if r.chance(1, 3) { *r.pick(&[3, 10, 30]) } else { 0 };
    serde_json::to_value(Plan { threads, progs, order: r.u64(), shared: r.u64(), seeds, plan, rare }).unwrap()
}

/// Many small calls of one or two kinds from all threads at once, with dense switches: what a
/// cache, a scratch buffer or a lock inside one call would need to go wrong.
fn storm(r: &mut Rng, thorough: bool) -> Value {
    let threads = r.range(2, 4) as u8;
    let mut deal = one_stage(r);
    deal.ecc = 0;
    let kinds: Vec<u8> = (0..r.range(1, 3)).map(|_| r.below(MICROS as u64) as u8).collect();
    let args = r.range(1, 4);
    let first = r.u8();
    let progs = (0..threads)
        .map(|t| {
            let k = r.range(4, if thorough { 40 } else { 20 });
            let acts: Vec<Act> = (0..k).map(|_| Act::Micro(*r.pick(&kinds), first.wrapping_add(r.below(args) as u8))).collect();
            let who = vec![t; acts.len()];
            Prog { deal: deal.clone(), acts, who }
        })
        .collect();
    let scale = *r.pick(&[1u64, 3, 10, 30, 100, 1000]);
    let mut at = 0;
    let mut plan = vec![];
    for _ in 0..r.range(20, 1500) {
        at += 1 + r.below(2 * scale);
        plan.push((at, r.u32() & 0xff));
    }
    let seeds = (0..threads).map(|_| r.u64()).collect();
    let rare = if r.chance(1, 2) { *r.pick(&[3, 10, 30, 60]) } else { 0 };
    serde_json::to_value(Plan { threads, progs, order: r.u64(), shared: r.u64(), seeds, plan, rare }).unwrap()
}

fn valid(v: &Value) -> bool {
    match serde_json::from_value::<Plan>(v.clone()) {
        Ok(p) => {
            (1..=4).contains(&p.threads)
                && !p.progs.is_empty()
                && p.progs.len() <= 6
                && p.progs.iter().all(|g| g.deal.valid() && g.deal.stages == 1 && g.who.len() >= g.acts.len())
                && p.plan.windows(2).all(|w| w[0].0 < w[1].0)
        }
        Err(_) => false,
    }
}

/// What all sessions may look at.
struct Shared {
    bytes: Vec<ByteArray>,
    script: Script,
    tx: UnhashedTx,
    hashed: Tx,
    address: Address<'static>,
}

fn make_shared(seed: u64) -> Shared {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let spec = loop {
        let t = gen_tx(r, &GenTx { max_in: 4, max_out: 4, many: false, big: false, ann: 4, meta: true });
        if t.valid() && t.inputs.len() + t.outputs.len() < 12 {
            break t;
        }
    };
    let pool: Vec<Ba> = (0..4).map(|_| gen_ba(r, 3, 0, false)).collect();
    let tx = spec.build();
    let hashed = tx.clone().hashed();
    Shared {
        bytes: build_pool(&pool),
        script: build_script(&gen_script(r, 0, false, 1), &[]),
        tx,
        hashed,
        address: Address::from_hash("bchtest", bitcoin_cash::AddressType::P2SH, Hash160::new(arr20(&r.bytes(20)))).into_owned_address(),
    }
}

impl Shared {
    fn snap(&self) -> String {
        format!(
            "{:?} {:?} {:?} {:?} {}",
            self.bytes.iter().map(ba_snap).collect::<Vec<_>>(),
            script_snap(&self.script),
            snap(&self.tx),
            hex(self.hashed.hash().as_slice()),
            self.address.cash_addr()
        )
    }
}

struct State {
    tx: Option<UnsignedTx<'static>>,
    stored: Option<UnhashedTx>,
    bomb: Arc<AtomicI32>,
    log: Vec<String>,
}

fn brief(b: &[u8]) -> String {
    if b.len() <= 40 {
        hex(b)
    } else {
        format!("{}.. ({} bytes, {})", hex(&b[..8]), b.len(), hex(&sha256(b)[..8]))
    }
}

fn act(g: &Prog, a: &Act, st: &mut State, sh: &Shared) -> String {
    let d = &g.deal;
    let n = d.inputs.len();
    match a {
        Act::Build => {
            let mut b = new_builder(d);
            add_inputs(&mut b, d, 0..n, &st.bomb, true);
            add_outputs(&mut b, d, 0);
            let r = if d.noest && d.outputs.iter().all(|o| o.left.is_none()) { b.build_without_estimation() } else { b.build() };
            match r {
                Ok(t) => {
                    let s = format!("size {}", t.estimated_size());
                    st.tx = Some(t);
                    s
                }
                Err(e) => format!("refused: {}", e),
            }
        }
        Act::Preimages => match &st.tx {
            Some(t) => t.preimages().iter().map(|p| p.iter().map(|p| brief(&p.ser())).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";"),
            None => "-".into(),
        },
        Act::Sign(i, e) | Act::Fail(i, e) => {
            let i = *i as usize % n;
            let x = &d.inputs[i];
            let t = match &mut st.tx {
                Some(t) if t.preimages().len() == n => t,
                _ => return "-".into(),
            };
            let fail = matches!(a, Act::Fail(..));
            let sigs: Vec<Vec<u8>> = t.preimages()[i]
                .iter()
                .map(|p| {
                    let h = Sha256d::digest(p.ser());
                    if d.ecc == 0 {
                        signature(d, x, h.as_slice())
                    } else {
                        let dig = h.as_slice().to_vec();
                        let s = real_sign(d.ecc, x.party, x.key, h).expect("signs");
                        let ok = real_verify(d.ecc, x.party ^ 1, &pubkey_bytes(d, x.key), &dig, &s);
                        assert_eq!(ok, Ok(true), "own signature");
                        s
                    }
                })
                .collect();
            st.bomb.store(if fail { (*e % 4) as i32 % (x.tmpl.len() as i32 + 1) } else { -1 }, SeqCst);
            let bomb = st.bomb.clone();
            let entry = if fail { [2, 1, 0][*e as usize / 4 % 3] } else { *e };
            let r = guarded(|| match (x.kind, entry) {
                (2, 0) => t.sign_input(InputReference::<P2PKHSignatory>::new(i), sigs[0].clone().into()),
                (2, _) => t.sign_input_signatory(InputReference::new(i), p2pkh(d, x), sigs[0].clone().into()),
                (0, 0) => t.sign_input(InputReference::<One>::new(i), sigs.clone()),
                (0, 2) => t.sign_input_signatory(InputReference::new(i), One(Core::new(x, &bomb)), sigs.clone()),
                (1, 0) => t.sign_input(InputReference::<Multi>::new(i), sigs.clone()),
                (1, 2) => t.sign_input_signatory(InputReference::new(i), Multi(Core::new(x, &bomb)), sigs.clone()),
                (_, _) => t.sign_input_dyn(i, Box::new(sigs.clone())),
            });
            st.bomb.store(-1, SeqCst);
            match r {
                Ok(Ok(())) => format!("input {} signed", i),
                Ok(Err(e)) => format!("input {}: {}", i, e),
                Err(p) => format!("input {}: panic {}", i, p.lines().next().unwrap_or("")),
            }
        }
        Act::Hop(f) => {
            let t = match st.tx.take() {
                Some(t) => t.partial_tx(),
                None => return "-".into(),
            };
            let img = match export(*f, &t) {
                Ok(i) => i,
                Err(e) => return format!("export: {}", e),
            };
            let mut back = match import(*f, &img) {
                Ok((t, _)) => t,
                Err(e) => return format!("{} import: {}", brief(&img), e),
            };
            let s = format!("{} {}", brief(&img), brief(&back.ser()));
            if *f % 11 < 2 {
                reattach(d, &mut back);
            }
            st.stored = Some(back.clone());
            match TxBuilder::from_tx(back).build_without_estimation() {
                Ok(t) => {
                    st.tx = Some(t);
                    s
                }
                Err(e) => format!("{} resume: {}", s, e),
            }
        }
        Act::SharedTx(k) => match k % 11 {
            0 => brief(&sh.tx.ser()),
            1 => sh.tx.preimages(&[SigHashFlags::DEFAULT, crate::model::hash_type(0xc3)]).iter().map(|p| p.iter().map(|p| brief(&p.ser())).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";"),
            2 => hex(sh.tx.clone().hashed().hash().as_slice()),
            3 => brief(&sh.hashed.ser()),
            4 => sh.hashed.preimages(&[SigHashFlags::DEFAULT]).iter().map(|p| p.iter().map(|p| brief(&p.ser())).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";"),
            k => {
                let img = match export(k, &sh.tx) {
                    Ok(i) => i,
                    Err(e) => return format!("export: {}", e),
                };
                match import(k, &img) {
                    Ok((t, _)) => format!("{} {}", brief(&img), brief(&t.ser())),
                    Err(e) => format!("{} import: {}", brief(&img), e),
                }
            }
        },
        Act::SharedBytes(which, k) => {
            let b = &sh.bytes[*which as usize % sh.bytes.len()];
            let c = &sh.bytes[(*which as usize / 7) % sh.bytes.len()];
            let r = match k % 10 {
                0 => Sha256::digest(b.clone()).into_byte_array(),
                1 => Sha256d::digest(b.clone()).into_byte_array(),
                2 => Hash160::digest(b.clone()).into_byte_array(),
                3 => Ripemd160::digest(b.clone()).into_byte_array(),
                4 => Sha1::digest(b.clone()).into_byte_array(),
                5 => b.clone().concat(c.clone()),
                6 => match b.clone().split(b.len() / 2) {
                    Ok((x, y)) => y.concat(x),
                    Err(e) => return e.to_string(),
                },
                7 => c.clone().named("another name"),
                8 => {
                    let img = to_bytes(*which % 6, b).unwrap_or_default();
                    return format!("{} {}", brief(&img), from_bytes::<ByteArray>(*which % 6, &img).map(|x| (x == *b).to_string()).unwrap_or_else(|e| e));
                }
                _ => ByteArray::from_parts(vec![b.clone(), c.clone(), b.clone()]),
            };
            format!("{} {}", brief(&r), brief(format!("{:?}", ba_snap(&r)).as_bytes()))
        }
        Act::SharedScript(k) => match k % 5 {
            0 => brief(&sh.script.ser()),
            1 => format!("{} {}", brief(&sh.script.to_script_code_first().ser()), brief(&sh.script.to_script_code(Some(1)).ser())),
            2 => {
                let mut ops = sh.script.clone().ops().to_vec();
                ops.push(bitcoin_cash::TaggedOp::from_op(Op::from(sh.script.ser_ops())));
                brief(&Script::new(ops).ser_ops())
            }
            3 => match script_destination("bitcoincash", &sh.script) {
                Destination::Address(a) => a.cash_addr().to_string(),
                other => format!("{:?}", other).chars().take(60).collect(),
            },
            _ => brief(&Script::deser_ops(sh.script.ser_ops()).map(|s| s.ser().to_vec()).unwrap_or_default()),
        },
        Act::SharedAddress(k) => match k % 5 {
            0 => sh.address.cash_addr().to_string(),
            1 => sh.address.with_prefix("bitcoincash").cash_addr().to_string(),
            2 => Address::from_cash_addr(sh.address.cash_addr()).map(|a| hex(a.hash().as_slice())).unwrap_or_else(|e| e.to_string()),
            3 => {
                let s: Script = (&sh.address).into();
                brief(&s.ser())
            }
            _ => {
                let s: Script = sh.address.clone().into();
                match script_destination("bchtest", &s) {
                    Destination::Address(a) => a.cash_addr().to_string(),
                    _ => "not an address".into(),
                }
            }
        },
        Act::Curve(e, k, m) => {
            let sk = key_bytes(*k as u64 + 1000);
            let dig = sha256(&[*m]);
            let (s, p) = if *e == 0 { (c_ecc().sign(&sk, dig.clone()), c_ecc().derive_pubkey(&sk)) } else { (rust_ecc().sign(&sk, dig.clone()), rust_ecc().derive_pubkey(&sk)) };
            let (s, p) = match (s, p) {
                (Ok(s), Ok(p)) => (s, p),
                _ => return "refused".into(),
            };
            let other = sha256(&[*m, 1]);
            let v = |d: &[u8]| if *e == 0 { rust_ecc().verify(p.as_slice(), d, &s).ok() } else { c_ecc().verify(p.as_slice(), d, &s).ok() };
            format!("{} {} {:?} {:?}", brief(&s), hex(p.as_slice()), v(&dig), v(&other))
        }
        Act::Micro(k, a) => micro(*k, *a, sh),
        Act::Hostile(f, k) => {
            let mut img = export(*f, &sh.tx).unwrap_or_default();
            let at = img.len() * (*k as usize + 1) / 6;
            if *k % 2 == 0 {
                img.truncate(at);
            } else if at < img.len() {
                img[at] ^= 1;
            }
            match guarded(|| import(*f, &img)) {
                Ok(Ok((t, _))) => brief(&t.ser()),
                Ok(Err(e)) => e,
                Err(p) => format!("panic {}", p.lines().next().unwrap_or("")),
            }
        }
        Act::Complete => match st.tx.take() {
            Some(t) => match guarded(|| t.complete_tx()) {
                Ok(t) => {
                    let w = t.ser().to_vec();
                    let h = t.hashed();
                    format!("{} {}", hex(h.hash().as_slice()), hex(&w))
                }
                Err(p) => format!("incomplete: {}", p.lines().next().unwrap_or("")),
            },
            None => "-".into(),
        },
    }
}

const MICROS: u8 = 32;

/// One call. The arguments depend on `a` only, so that few distinct values compete.
fn micro(k: u8, a: u8, sh: &Shared) -> String {
    let sk = key_bytes(a as u64 + 2000);
    let dig = sha256(&[a, 77]);
    let msg = fill(1 + (a as u32 * 37) % 200, a as u64 | 256);
    let err = |e: &dyn std::fmt::Display| format!("error {}", e);
    let ba = |b: &[u8]| ByteArray::new("micro", b.to_vec());
    let hash20 = Hash160::new(arr20(&hash160(&msg)));
    let prefix = ["bitcoincash", "bchtest", "bchreg", "simpleledger"][a as usize % 4];
    let script = || Script::new(vec![
        bitcoin_cash::TaggedOp::from_op(Op::Code(bitcoin_cash::Opcode::OP_DUP)),
        bitcoin_cash::TaggedOp::from_op(Op::from(ba(&msg))),
        bitcoin_cash::TaggedOp::from_op(Op::Code(bitcoin_cash::Opcode::OP_CODESEPARATOR)),
        bitcoin_cash::TaggedOp::from_op(Op::from_int(a as i32 * 77 - 5000)),
        bitcoin_cash::TaggedOp::from_op(Op::Code(bitcoin_cash::Opcode::OP_CHECKSIG)),
    ]);
    let tx = || UnhashedTx {
        version: a as i32,
        inputs: vec![bitcoin_cash::TxInput::new(bitcoin_cash::TxOutpoint { tx_hash: Sha256d::new(arr32(&dig)), vout: a as u32 }, script(), 0xffff_fffe)],
        outputs: vec![bitcoin_cash::TxOutput { value: 1000 + a as u64, script: script() }],
        lock_time: 0,
    };
    match k % MICROS {
        0 => c_ecc().derive_pubkey(&sk).map_or_else(|e| err(&e), |p| hex(p.as_slice())),
        1 => rust_ecc().derive_pubkey(&sk).map_or_else(|e| err(&e), |p| hex(p.as_slice())),
        2 => c_ecc().sign(&sk, dig).map_or_else(|e| err(&e), |s| hex(&s)),
        3 => rust_ecc().sign(&sk, dig).map_or_else(|e| err(&e), |s| hex(&s)),
        4..=7 => {
            let m = secp256k1::Message::from_slice(&dig).expect("digest");
            let s = secp256k1::SecretKey::from_slice(&sk).expect("key");
            let p = secp256k1::PublicKey::from_secret_key(curve(), &s).serialize();
            let mut sig = curve().sign(&m, &s).serialize_der().to_vec();
            if a % 3 == 1 {
                let n = sig.len();
                sig[n - 1] ^= 1;
            }
            match k % MICROS {
                4 => format!("{:?}", c_ecc().verify(&p, &dig, &sig)),
                5 => format!("{:?}", rust_ecc().verify(&p, &dig, &sig)),
                6 => c_ecc().normalize_sig(&sig).map_or_else(|e| err(&e), |s| hex(&s)),
                _ => rust_ecc().normalize_sig(&sig).map_or_else(|e| err(&e), |s| hex(&s)),
            }
        }
        8 => hex(Sha256::digest(ba(&msg)).as_slice()),
        9 => hex(Sha256d::digest(ba(&msg)).as_slice()),
        10 => hex(Hash160::digest(ba(&msg)).as_slice()),
        11 => hex(Ripemd160::digest(ba(&msg)).as_slice()),
        12 => hex(Sha1::digest(ba(&msg)).as_slice()),
        13 => format!("{:?}", ba_snap(&Sha256d::digest(ba(&msg)).into_byte_array())),
        14 => Sha256d::new(arr32(&dig)).to_hex_be(),
        15 => Sha256d::from_hex_le(&hex(&dig)).map_or_else(|e| err(&e), |h| hex(h.as_slice())),
        16 => Address::from_hash(prefix, bitcoin_cash::AddressType::P2PKH, hash20).cash_addr().to_string(),
        17 => Address::from_hash("bchtest", bitcoin_cash::AddressType::P2SH, hash20).with_prefix(prefix).cash_addr().to_string(),
        18 => {
            let s = super::addr::ref_address(prefix, 8 * (a & 1), hash20.as_slice());
            Address::from_cash_addr(&s).map_or_else(|e| err(&e), |x| format!("{:?} {} {}", x.addr_type(), x.prefix_str(), hex(x.hash().as_slice())))
        }
        19 => hex(&script().ser()),
        20 => hex(&script().to_script_code_first().ser()),
        21 => hex(&script().to_script_code(Some(a as usize % 2)).ser()),
        22 => format!("{}", script()),
        23 => {
            let s: Script = Address::from_hash(prefix, bitcoin_cash::AddressType::P2SH, hash20).into();
            match script_destination(prefix, &s) {
                Destination::Address(a) => a.cash_addr().to_string(),
                _ => "other".into(),
            }
        }
        24 => hex(tx().hashed().hash().as_slice()),
        25 => {
            let t = tx();
            let f = crate::model::hash_type([0x41, 0x42, 0x43, 0xc1][a as usize % 4]);
            t.preimages(&[f]).iter().map(|p| p.iter().map(|p| hex(&p.ser())).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";")
        }
        26 => bitcoin_cash::tx_to_json(&tx()).map_or_else(|e| err(&e), |j| brief(j.to_string().as_bytes())),
        27 => {
            let t = tx();
            match bitcoin_cash::tx_to_json(&t).map(|j| bitcoin_cash::json_to_tx(&j)) {
                Ok(Ok(u)) => (snap(&u) == snap(&t)).to_string(),
                Ok(Err(e)) => err(&e),
                Err(e) => err(&e),
            }
        }
        28 => UnhashedTx::deser(ByteArray::from(tx().ser().to_vec())).map_or_else(|e| err(&e), |t| hex(&t.ser())),
        29 => {
            let m = ba(&msg);
            let n = m.len();
            match m.concat(ba(&dig)).split(n / 2) {
                Ok((x, y)) => format!("{:?}", ba_snap(&y.concat(x))),
                Err(e) => err(&e),
            }
        }
        30 => {
            let op = Op::from_int(a as i32 * 7919 - 900_000);
            let s = Script::new(vec![bitcoin_cash::TaggedOp::from_op(op)]).ser_ops();
            format!("{} {:?}", hex(&s), Op::from(ByteArray::from(s[1..].to_vec())).to_integer().map(|i| i.value()))
        }
        _ => {
            let img = to_bytes(a % 6, &sh.hashed).unwrap_or_default();
            format!("{} {}", brief(&img), from_bytes::<Tx>(a % 6, &img).map(|t| hex(t.hash().as_slice())).unwrap_or_else(|e| e))
        }
    }
}

fn step(g: &Prog, k: usize, st: &mut State, sh: &Shared) {
    let r = guarded(|| act(g, &g.acts[k], st, sh)).unwrap_or_else(|p| format!("panic: {}", p));
    st.log.push(r);
}

fn fresh() -> State {
    State { tx: None, stored: None, bomb: Arc::new(AtomicI32::new(-1)), log: vec![] }
}

/// The session in a process of its own.
fn alone(g: &Prog, shared: u64) -> Option<Vec<String>> {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            let sh = make_shared(shared);
            let mut st = fresh();
            for k in 0..g.acts.len() {
                step(g, k, &mut st, &sh);
            }
            let b = serde_json::to_vec(&st.log).unwrap();
            let mut off = 0;
            while off < b.len() {
                let n = libc::write(fds[1], b[off..].as_ptr() as *const _, b.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut data = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            data.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        serde_json::from_slice(&data).ok()
    }
}

fn act_name(a: &Act) -> String {
    let s = format!("{:?}", a);
    s.split(|c| c == '(' || c == ' ').next().unwrap().to_ascii_lowercase()
}

fn run(ctx: &mut Ctx, _prop: &str, v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).expect("plan");
    c_ecc();
    rust_ecc();
    curve();
    let n = p.progs.len();
    for g in &p.progs {
        // (keys are derived by the harness, outside the schedule)
        for i in &g.deal.inputs {
            pubkey_bytes(&g.deal, i.key);
        }
    }
    let mut want = vec![];
    for (s, g) in p.progs.iter().enumerate() {
        match alone(g, p.shared) {
            Some(l) => {
                for x in &l {
                    ev!(ctx, "session {} alone: {}", s, x);
                }
                want.push(l)
            }
            None => {
                ctx.violate(P, "alone", format!("session {} does not finish alone", s));
                return;
            }
        }
    }
    let sh = make_shared(p.shared);
    let before = sh.snap();
    let states: Vec<Mutex<State>> = (0..n).map(|_| Mutex::new(fresh())).collect();
    let next: Vec<AtomicUsize> = (0..n).map(|_| AtomicUsize::new(0)).collect();
    // one order of all acts, the same for every thread, so that waiting for each other ends
    let mut order = vec![];
    let mut r = Rng::new(p.order);
    let mut left: Vec<usize> = p.progs.iter().map(|g| g.acts.len()).collect();
    let mut done = vec![0; n];
    while left.iter().any(|l| *l > 0) {
        let s = r.usize(n);
        if left[s] > 0 {
            order.push((s, done[s]));
            done[s] += 1;
            left[s] -= 1;
        }
    }
    let mut handovers = 0;
    for g in &p.progs {
        handovers += g.who.windows(2).filter(|w| w[0] % p.threads != w[1] % p.threads).count();
    }
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..p.threads {
        let mine: Vec<(usize, usize)> = order.iter().copied().filter(|(s, k)| p.progs[*s].who[*k] % p.threads == t).collect();
        let (states, next, progs, sh) = (&states, &next, &p.progs, &sh);
        tasks.push(Box::new(move || {
            for (s, k) in mine {
                while next[s].load(SeqCst) != k {
                    std::thread::yield_now();
                }
                let mut st = states[s].lock().unwrap_or_else(|e| e.into_inner());
                step(&progs[s], k, &mut st, sh);
                drop(st);
                next[s].store(k + 1, SeqCst);
            }
        }));
    }
    enter(P, "concurrent sessions");
    seams::set_rare(p.rare, p.order);
    let stats = seams::run_scheduled(&p.plan, 400_000_000, &p.seeds, tasks);
    leave();
    ev!(ctx, "{} steps, {} switches, {} preemptions, schedule {:016x}", stats.steps, stats.switches, stats.preemptions, stats.hash);
    ctx.mark(&format!("{:016x}", stats.hash));
    ctx.out.sim_time += stats.steps;
    ctx.out.nontrivial = stats.preemptions > 0 || stats.switches > p.threads as u64;
    for _ in 0..stats.preemptions {
        ctx.fault("preemption");
    }
    for _ in 0..stats.blocks {
        ctx.fault("thread blocked");
    }
    for _ in 0..handovers {
        ctx.fault("session handed to another thread");
    }
    for g in &p.progs {
        for a in &g.acts {
            match a {
                Act::Fail(..) => ctx.fault("signer fails"),
                Act::Hostile(..) => ctx.fault("damaged import"),
                _ => {}
            }
        }
    }
    for (s, st) in states.iter().enumerate() {
        let st = st.lock().unwrap_or_else(|e| e.into_inner());
        for k in 0..p.progs[s].acts.len() {
            let got = st.log.get(k);
            let w = want[s].get(k);
            if !ctx.check(got == w, P, &format!("differs:{}", act_name(&p.progs[s].acts[k])), || {
                format!("session {} act {} {:?}: {:?} instead of {:?}", s, k, p.progs[s].acts[k], got, w)
            }) {
                break;
            }
            if w.map_or(false, |w| w.starts_with("panic")) {
                ctx.probe("panics alone as well");
            }
        }
    }
    let after = sh.snap();
    ctx.check(before == after, P, "shared-changed", || diff(&before, &after));
}

pub fn world() -> World {
    World {
        name: "threads",
        gen,
        run,
        valid,
        after: None,
        quick_runs: 10_000,
        thorough_runs: 500_000,
        recheck: 300,
        cpu_s: 60,
        rule: "a run interleaves 2..4 sessions (often nearly equal ones) on 2..4 threads, with preemptions at planned edges and allocations of the library, and sessions handed from thread to thread; distinct by the sequence of switches (step and thread)",
        time_unit: "scheduling points (edges and allocations)",
        real: &["all library code the sessions use, on real threads", "std synchronisation (futexes are simulated)"],
        stub: &["thread scheduler, futex, sched_yield, sleep (a seeded baton scheduler)"],
        assumptions: &["switches happen at instrumented edges and allocations of the crates under test, not inside C code or dependencies", "sequentially consistent memory"],
    }
}
