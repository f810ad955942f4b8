//! C01, C02, C03, C04: several parties draft, build, sign, exchange, store and finish one
//! transaction over an unreliable network, with crashes, failing signers and a broken terminal.
use super::deal::*;
use super::storage;
use super::World;
use crate::ev;
use crate::model::*;
use crate::rng::Rng;
use crate::sim::{hex, Ctx};
use bitcoin_cash::error::Error;
use bitcoin_cash::{
    Address, AddressType, BitcoinCode, ByteArray, Hash160, Hashed, InputReference, Op, Ops, P2PKHSignatory, Pubkey, Script, Sha256d, SigHashFlags,
    Signatory, SignatoryKindMultiple, SignatoryKindOne, TaggedOp, TaggedScript, TxBuilder, TxOutpoint, TxOutput, TxPreimage, UnhashedTx, UnsignedTx,
    UnsignedTxInput, ECC,
};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::any::Any;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    /// party, input (among its own), entry point
    Sign(u8, u8, u8),
    /// party, input, part at which the signer fails, entry point
    Fail(u8, u8, u8, u8),
    /// party, input, entry point, other signatures?: signing again
    Again(u8, u8, u8, bool),
    /// party, to, format, how to go on
    SendPartial(u8, u8, u8, u8),
    /// party, to, input
    SendSig(u8, u8, u8),
    /// party, format, 0 durable, 1 torn, 2 lost
    Save(u8, u8, u8, u16),
    Crash(u8),
    /// party: start again from the deal and the log of signatures
    Rebuild(u8),
    /// party: back to the builder and build again
    Reopen(u8),
    Deliver(u8),
    Drop(u8),
    Dup(u8),
    Corrupt(u8, u32),
    /// 0 fixed, 1 broken pipe, 2 full disk
    Stdout(u8),
    /// party: try to complete
    Complete(u8),
    /// party, flags: preimages of the stored transaction
    Stored(u8, u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    deal: DealS,
    /// export format and hash seed between drafting stages
    drafts: Vec<(u8, u64)>,
    steps: Vec<Step>,
    seed: u64,
}

const ALL: &[&str] = &["C01", "C02", "C03", "C04"];
const CONV: &[&str] = &["C01"];
const DIGEST: &[&str] = &["C02"];
const FINAL: &[&str] = &["C03"];
const MONEY: &[&str] = &["C04"];
const CONV_FINAL: &[&str] = &["C01", "C03"];
const CONV_DIGEST: &[&str] = &["C01", "C02"];
const CONV_MONEY: &[&str] = &["C01", "C04"];

// ---------------------------------------------------------------- signatories

pub(super) struct Core {
    tmpl: Vec<Part>,
    flags: Vec<SigHashFlags>,
    p2sh: bool,
    room: usize,
    /// the part at which to fail when really signing, or -1
    bomb: Arc<AtomicI32>,
}

impl Core {
    pub(super) fn new(i: &InD, bomb: &Arc<AtomicI32>) -> Self {
        Core {
            tmpl: i.tmpl.clone(),
            flags: flags(i).iter().map(|f| crate::model::hash_type(*f)).collect(),
            p2sh: i.p2sh,
            room: room(i),
            bomb: bomb.clone(),
        }
    }
    fn script(&self, pres: &[TxPreimage], est: Option<usize>, sigs: Vec<Vec<u8>>, lock: &Script, outs: &[TxOutput]) -> Script {
        let mut ops = vec![];
        let n = self.flags.len();
        let push = |b: ByteArray| TaggedOp::from_op(Op::from(b));
        for (at, p) in self.tmpl.iter().enumerate() {
            if est.is_some() && self.bomb.load(SeqCst) == at as i32 {
                panic!("the signer fails");
            }
            match p {
                Part::Sig(k) => {
                    let k = *k as usize % n;
                    let sig = ByteArray::new("sig", sigs[k].clone());
                    ops.push(push(sig.concat(ByteArray::new("hash_type", vec![self.flags[k].bits() as u8]))))
                }
                Part::Pre(k) => ops.push(push(pres[*k as usize % n].ser())),
                Part::Lock => ops.push(push(lock.ser_ops())),
                Part::Outs => {
                    let v: Vec<u8> = outs.iter().flat_map(|o| o.ser().to_vec()).collect();
                    ops.push(push(ByteArray::new("outputs", v)))
                }
                Part::Size => ops.push(push(ByteArray::new("size", est.map_or(u32::MAX, |e| e as u32).to_le_bytes().to_vec()))),
                Part::Op(t) => ops.push(build_op(t, &[])),
            }
        }
        if est.is_some() && self.bomb.load(SeqCst) >= self.tmpl.len() as i32 {
            panic!("the signer fails at the end");
        }
        Script::new(ops)
    }
}

pub(super) struct One(pub(super) Core);
pub(super) struct Multi(pub(super) Core);

impl Signatory for One {
    type Script = Script;
    type Signatures = Vec<Vec<u8>>;
    type Kind = SignatoryKindOne;
    fn sig_hash_flags(&self) -> SigHashFlags {
        self.0.flags[0]
    }
    fn placeholder_signatures(&self) -> Self::Signatures {
        vec![vec![0; self.0.room]]
    }
    fn build_script(&self, p: &TxPreimage, est: Option<usize>, sigs: Self::Signatures, lock: &Script, outs: &[TxOutput]) -> Script {
        self.0.script(std::slice::from_ref(p), est, sigs, lock, outs)
    }
    fn is_p2sh(&self) -> bool {
        self.0.p2sh
    }
}

impl Signatory for Multi {
    type Script = Script;
    type Signatures = Vec<Vec<u8>>;
    type Kind = SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<SigHashFlags> {
        self.0.flags.clone()
    }
    fn placeholder_signatures(&self) -> Self::Signatures {
        vec![vec![0; self.0.room]; self.0.flags.len()]
    }
    fn build_script(&self, p: &[TxPreimage], est: Option<usize>, sigs: Self::Signatures, lock: &Script, outs: &[TxOutput]) -> Script {
        self.0.script(p, est, sigs, lock, outs)
    }
    fn is_p2sh(&self) -> bool {
        self.0.p2sh
    }
}

pub(super) fn p2pkh(d: &DealS, i: &InD) -> P2PKHSignatory {
    let mut k = [0; 33];
    k.copy_from_slice(&pubkey_bytes(d, i.key));
    P2PKHSignatory { pubkey: Pubkey::new(k), sig_hash_flags: crate::model::hash_type(i.flags[0]) }
}

pub(super) fn real_sign(ecc: u8, party: u8, key: u64, digest: Sha256d) -> Result<Vec<u8>, String> {
    let k = key_bytes(key);
    let rust = ecc == 2 || (ecc == 3 && party % 2 == 1);
    let m: ByteArray = digest.into_byte_array();
    let r = if rust { rust_ecc().sign(&k, m) } else { c_ecc().sign(&k, m) };
    r.map(|s| s.to_vec()).map_err(|e| e.to_string())
}

pub(super) fn real_verify(ecc: u8, party: u8, pubkey: &[u8], digest: &[u8], sig: &[u8]) -> Result<bool, String> {
    let rust = ecc == 2 || (ecc == 3 && party % 2 == 1);
    let r = if rust { rust_ecc().verify(pubkey, digest, sig) } else { c_ecc().verify(pubkey, digest, sig) };
    r.map_err(|e| e.to_string())
}

// ---------------------------------------------------------------- parties

struct Sess {
    tx: UnsignedTx<'static>,
    /// built from the agreed inputs with their signatories (not resumed from a stored transaction)
    built: bool,
    signed: Vec<bool>,
    est: usize,
    /// inputs of this session (fewer while drafting)
    n: usize,
}

#[derive(Default)]
struct Party {
    sess: Option<Sess>,
    /// durable: last complete image (format, bytes, which inputs were signed)
    disk: Option<(u8, Vec<u8>, Vec<bool>)>,
    /// durable: signatures made or received
    log: BTreeMap<usize, Vec<Vec<u8>>>,
}

#[derive(Clone)]
enum Body {
    Partial { fmt: u8, img: Vec<u8>, signed: Vec<bool> },
    Sigs { input: usize, sigs: Vec<Vec<u8>> },
}

#[derive(Clone)]
struct Msg {
    from: u8,
    to: u8,
    body: Body,
    damaged: bool,
}

struct Sim<'a> {
    d: &'a DealS,
    m: &'a DealM,
    parties: Vec<Party>,
    net: Vec<Msg>,
    bomb: Arc<AtomicI32>,
    seeds: Rng,
    /// the session cannot go on because of a violation
    dead: bool,
}

fn bounded<T>(v: u8, n: usize, f: impl FnOnce(usize) -> T) -> Option<T> {
    if n == 0 {
        None
    } else {
        Some(f(v as usize % n))
    }
}

pub(super) fn add_inputs(b: &mut TxBuilder<'static>, d: &DealS, range: std::ops::Range<usize>, bomb: &Arc<AtomicI32>, typed: bool) {
    for i in range {
        let x = &d.inputs[i];
        let input = UnsignedTxInput { prev_out: TxOutpoint { tx_hash: build_hash(x.hash), vout: x.vout }, sequence: x.seq, value: x.value };
        let ops: Vec<TaggedOp> = x.lock.iter().map(|t| build_op(t, &[])).collect();
        match x.kind {
            0 => {
                let r = b.add_input(input, TaggedScript::new(ops), One(Core::new(x, bomb)));
                assert!(!typed || r.input_idx() == i);
            }
            1 => {
                let r = b.add_input(input, TaggedScript::new(ops), Multi(Core::new(x, bomb)));
                assert!(!typed || r.input_idx() == i);
            }
            _ => {
                let s = p2pkh(d, x);
                let a = Address::from_hash("bitcoincash", AddressType::P2PKH, Hash160::digest(s.pubkey.as_slice()));
                let r = b.add_input(input, a.p2pkh_script().expect("p2pkh address"), s);
                assert!(!typed || r.input_idx() == i);
            }
        }
    }
}

pub(super) fn add_outputs(b: &mut TxBuilder<'static>, d: &DealS, stage: u8) {
    for o in d.outputs.iter().filter(|o| o.stage == stage) {
        let script = build_script(&o.script, &[]);
        match o.left {
            Some((546, u64::MAX, 0)) => b.add_leftover_output(script),
            Some((lo, hi, prec)) => b.add_leftover_output_bounded(lo, hi, prec, script),
            None => {
                let out = TxOutput { value: o.value, script };
                if o.rep > 1 {
                    b.add_outputs((0..o.rep).map(|_| out.clone()));
                } else {
                    b.add_output(out);
                }
            }
        }
    }
}

pub(super) fn new_builder(d: &DealS) -> TxBuilder<'static> {
    let mut b = if d.version == 1 && d.lock_time == 0 {
        TxBuilder::new_simple()
    } else if d.fee == 1000 {
        TxBuilder::new(d.version, d.lock_time)
    } else {
        TxBuilder::new_with_fee(d.version, d.lock_time, d.fee)
    };
    b.set_fee_per_kb(d.fee);
    b
}

fn model_outs(t: &[TxOutput]) -> Vec<(u64, Vec<u8>)> {
    t.iter().map(|o| (o.value, enc_rops(&rops_of(&o.script)))).collect()
}

/// What a stored transaction must carry about input `i`.
fn want_meta(d: &DealS, i: usize) -> (MetaSnap, Option<Vec<u8>>) {
    let x = &d.inputs[i];
    (
        MetaSnap {
            value: Some(x.value),
            p2sh: Some(if x.kind == 2 { false } else { x.p2sh }),
            flags: Some(flags(x).iter().map(|f| *f as u32).collect()),
        },
        Some(lock_bytes(d, x)),
    )
}

/// Wire forms carry no metadata; the receiver knows it from the deal.
pub(super) fn reattach(d: &DealS, t: &mut UnhashedTx) {
    for (i, x) in t.inputs.iter_mut().enumerate() {
        if let Some(def) = d.inputs.get(i) {
            x.value = Some(def.value);
            x.is_p2sh = Some(if def.kind == 2 { false } else { def.p2sh });
            x.sig_hash_flags = Some(flags(def).iter().map(|f| crate::model::hash_type(*f)).collect());
            x.lock_script = Some(build_script(&lock_script(d, def), &[]));
        }
    }
}

impl Sim<'_> {
    fn seed(&mut self) -> u64 {
        self.seeds.u64()
    }

    /// Compare what a transaction says with what it must say.
    fn check_tx(&self, ctx: &mut Ctx, t: &UnhashedTx, signed: &[bool], outs: &[(u64, Vec<u8>)], scripts: &[Vec<u8>], meta: bool, what: &str) -> bool {
        let n = signed.len();
        let mut ok = ctx.check(t.inputs.len() == n, CONV, &format!("inputs:{}", what), || format!("{} inputs instead of {}", t.inputs.len(), n));
        if !ok {
            return false;
        }
        ok &= ctx.check(t.version == self.d.version && t.lock_time == self.d.lock_time, CONV, &format!("header:{}", what), || {
            format!("version {} lock time {} instead of {} and {}", t.version, t.lock_time, self.d.version, self.d.lock_time)
        });
        for (i, x) in t.inputs.iter().enumerate() {
            let def = &self.d.inputs[i];
            let mut op = x.prev_out.tx_hash.as_slice().to_vec();
            op.extend(&x.prev_out.vout.to_le_bytes());
            ok &= ctx.check(op == outpoint(def) && x.sequence == def.seq, CONV, &format!("outpoint:{}", what), || format!("input {}: {} {}", i, hex(&op), x.sequence));
            let got = enc_rops(&rops_of(&x.script));
            let want = if signed[i] { scripts[i].clone() } else { vec![] };
            let (class, props) = match (got.is_empty(), signed[i]) {
                (true, true) => ("signature-lost", CONV_FINAL),
                (false, false) => ("signed-unasked", CONV_FINAL),
                _ => ("input-script", ALL),
            };
            ok &= ctx.check(got == want, props, &format!("{}:{}", class, what), || format!("input {}: {}", i, storage::first_diff(&got, &want)));
            if meta {
                let m = (meta_of(x), x.lock_script.as_ref().map(|s| enc_rops(&rops_of(s))));
                let w = want_meta(self.d, i);
                ok &= ctx.check(m == w, CONV_DIGEST, &format!("metadata:{}", what), || format!("input {}: {}", i, diff(&m, &w)));
            }
        }
        let o = model_outs(&t.outputs);
        ok &= ctx.check(o == *outs, CONV_MONEY, &format!("outputs:{}", what), || diff(&o, &outs.to_vec()));
        ok
    }

    /// The preimages and the estimate of a live session.
    fn check_sess(&self, ctx: &mut Ctx, s: &Sess, pres: &[Vec<Vec<u8>>], what: &str) -> bool {
        let n = s.n;
        let d = self.d;
        let got = match ctx.call(DIGEST, "preimages", || {
            let v: Vec<Vec<Vec<u8>>> = s.tx.preimages().iter().map(|v| v.iter().map(|p| p.ser().to_vec()).collect()).collect();
            let typed: Vec<Vec<Vec<u8>>> = (0..n)
                .map(|i| match d.inputs[i].kind {
                    0 => vec![s.tx.input_preimages(InputReference::<One>::new(i)).ser().to_vec()],
                    1 => s.tx.input_preimages(InputReference::<Multi>::new(i)).iter().map(|p| p.ser().to_vec()).collect(),
                    _ => vec![s.tx.input_preimages(InputReference::<P2PKHSignatory>::new(i)).ser().to_vec()],
                })
                .collect();
            (v, typed)
        }) {
            Some(x) => x,
            None => return false,
        };
        let mut ok = true;
        for (k, g) in [&got.0, &got.1].iter().enumerate() {
            ok &= ctx.check(g[..] == pres[..n], DIGEST, &format!("preimage:{}", what), || {
                let i = (0..n).find(|i| g.get(*i) != pres.get(*i)).unwrap_or(0);
                let j = (0..pres[i].len()).find(|j| g.get(i).and_then(|g| g.get(*j)) != pres[i].get(*j)).unwrap_or(0);
                let e = vec![];
                format!("({}) input {} hash type {:02x}: {}", k, i, flags(&d.inputs[i]).get(j).unwrap_or(&0), storage::first_diff(g.get(i).and_then(|g| g.get(j)).unwrap_or(&e), pres[i].get(j).unwrap_or(&e)))
            });
        }
        ok &= ctx.check(s.tx.estimated_size() == s.est, MONEY, &format!("estimate:{}", what), || format!("{} instead of {}", s.tx.estimated_size(), s.est));
        ok
    }

    /// Is the finished script of this input empty?
    fn empty(&self, i: usize) -> bool {
        self.m.scripts.get(i).map_or(false, |s| s.is_empty())
    }

    /// The estimate of a session resumed from a stored transaction.
    fn resumed_est(&self, signed: &[bool]) -> usize {
        let scripts: Vec<Vec<u8>> = signed.iter().enumerate().map(|(i, s)| if *s { self.m.scripts[i].clone() } else { vec![] }).collect();
        tx_size(&scripts, &self.m.agreed.outputs)
    }

    fn resume(&mut self, ctx: &mut Ctx, t: UnhashedTx, signed: Vec<bool>) -> Option<Sess> {
        let seed = self.seed();
        let plain = seed % 3 == 0 || self.d.noest;
        let tx = match ctx.call_node(seed, CONV, "resume", || {
            let b = TxBuilder::from_tx(t);
            if plain {
                b.build_without_estimation()
            } else {
                b.build()
            }
        })? {
            Ok(t) => t,
            Err(e) => {
                ctx.violate(CONV_MONEY, "resume-refused", e.to_string());
                return None;
            }
        };
        let est = self.resumed_est(&signed);
        let n = signed.len();
        // a finished input without any script looks like one that is still to be signed
        let signed = (0..n).map(|i| signed[i] && !self.empty(i)).collect();
        let s = Sess { tx, built: false, signed, est, n };
        self.check_sess(ctx, &s, &self.m.pres, "resumed");
        Some(s)
    }

    /// A session built from the agreed inputs and outputs.
    fn rebuild(&mut self, ctx: &mut Ctx) -> Option<Sess> {
        let seed = self.seed();
        let d = self.d;
        let m = self.m;
        let bomb = self.bomb.clone();
        let plain = d.noest && seed % 2 == 0;
        let single = d.stages == 1;
        let tx = match ctx.call_node(seed, ALL, "build", || {
            let mut b = new_builder(d);
            add_inputs(&mut b, d, 0..d.inputs.len(), &bomb, true);
            if single {
                add_outputs(&mut b, d, 0);
            } else {
                b.add_outputs(m.agreed.outputs.iter().map(|(v, s)| TxOutput { value: *v, script: Script::deser_ops(s.clone().into()).expect("output script") }));
            }
            if plain && (!single || d.outputs.iter().all(|o| o.left.is_none())) || !single && d.noest {
                b.build_without_estimation()
            } else if single && d.noest {
                b.build_without_estimation()
            } else {
                b.build()
            }
        })? {
            Ok(t) => t,
            Err(e) => {
                ctx.violate(CONV_MONEY, "build-refused", e.to_string());
                return None;
            }
        };
        let n = d.inputs.len();
        let s = Sess { tx, built: true, signed: vec![false; n], est: m.est, n };
        self.check_sess(ctx, &s, &m.pres, "built");
        Some(s)
    }

    /// Take the partial transaction out of a session.
    fn partial(&mut self, ctx: &mut Ctx, s: Sess, what: &str) -> Option<(UnhashedTx, Vec<bool>)> {
        let tx = s.tx;
        let t = ctx.call(CONV_FINAL, "partial_tx", || tx.partial_tx())?;
        let ok = self.check_tx(ctx, &t, &s.signed, &self.m.agreed.outputs, &self.m.scripts, true, what);
        if !ok {
            return None;
        }
        Some((t, s.signed))
    }

    fn export(&mut self, ctx: &mut Ctx, fmt: u8, t: &UnhashedTx) -> Option<Vec<u8>> {
        let seed = self.seed();
        match ctx.call_node(seed, CONV, &format!("export {}", storage::FORMATS[fmt as usize % 11].0), || storage::export(fmt, t))? {
            Ok(b) => Some(b),
            Err(e) => {
                ctx.violate(CONV, "export-error", e);
                None
            }
        }
    }

    fn import(&mut self, ctx: &mut Ctx, fmt: u8, img: &[u8], signed: &[bool]) -> Option<UnhashedTx> {
        let seed = self.seed();
        let name = storage::FORMATS[fmt as usize % 11].0;
        let mut t = match ctx.call_node(seed, CONV, &format!("import {}", name), || storage::import(fmt, img))? {
            Ok(t) => t.0,
            Err(e) => {
                ctx.violate(CONV, &format!("import-error:{}", name), e);
                return None;
            }
        };
        if fmt % 11 < 2 {
            reattach(self.d, &mut t);
        }
        if self.check_tx(ctx, &t, signed, &self.m.agreed.outputs, &self.m.scripts, true, &format!("imported {}", name)) {
            Some(t)
        } else {
            None
        }
    }

    /// Combine a received partial transaction with one's own.
    fn merge(&mut self, ctx: &mut Ctx, p: usize, mut theirs: UnhashedTx, mut signed: Vec<bool>) -> bool {
        if let Some(s) = self.parties[p].sess.take() {
            let (mine, my) = match self.partial(ctx, s, "merge") {
                Some(x) => x,
                None => return false,
            };
            for i in 0..my.len() {
                if my[i] && !signed[i] {
                    theirs.inputs[i] = mine.inputs[i].clone();
                    signed[i] = true;
                }
            }
        }
        match self.resume(ctx, theirs, signed) {
            Some(s) => {
                self.parties[p].sess = Some(s);
                true
            }
            None => false,
        }
    }

    /// The session of a party, started from its disk or from the deal if it has none.
    fn open(&mut self, ctx: &mut Ctx, p: usize) -> bool {
        if self.parties[p].sess.is_some() {
            return true;
        }
        if let Some((fmt, img, signed)) = self.parties[p].disk.clone() {
            ctx.fault("restart from disk");
            let t = match self.import(ctx, fmt, &img, &signed) {
                Some(t) => t,
                None => return false,
            };
            match self.resume(ctx, t, signed) {
                Some(s) => self.parties[p].sess = Some(s),
                None => return false,
            }
            return true;
        }
        self.from_log(ctx, p)
    }

    fn from_log(&mut self, ctx: &mut Ctx, p: usize) -> bool {
        let s = match self.rebuild(ctx) {
            Some(s) => s,
            None => return false,
        };
        self.parties[p].sess = Some(s);
        self.replay_log(ctx, p)
    }

    fn replay_log(&mut self, ctx: &mut Ctx, p: usize) -> bool {
        let log = self.parties[p].log.clone();
        for (k, (i, sigs)) in log.into_iter().enumerate() {
            if self.parties[p].sess.as_ref().unwrap().signed[i] {
                continue;
            }
            if !self.sign(ctx, p, i, (k % 3) as u8, sigs, true) {
                return false;
            }
        }
        true
    }

    /// Signatures of the owner of `i` for the digests its session shows it.
    fn make_sigs(&mut self, ctx: &mut Ctx, p: usize, i: usize) -> Option<Vec<Vec<u8>>> {
        let d = self.d;
        let x = &d.inputs[i];
        let s = self.parties[p].sess.as_ref()?;
        let digests: Vec<Sha256d> = ctx.call(DIGEST, "digest", || s.tx.preimages()[i].iter().map(|pre| Sha256d::digest(pre.ser())).collect())?;
        let mut sigs = vec![];
        for (j, g) in digests.into_iter().enumerate() {
            if d.ecc == 0 {
                sigs.push(signature(d, x, g.as_slice()));
            } else {
                match ctx.call(CONV, "sign", || real_sign(d.ecc, x.party, x.key, g))? {
                    Ok(s) => sigs.push(s),
                    Err(e) => {
                        ctx.violate(CONV, "ecc-sign", e);
                        return None;
                    }
                }
            }
            let (g, w) = (&sigs[j], &self.m.sigs[i][j]);
            if !ctx.check(g == w, CONV_DIGEST, "signature", || format!("input {}: {} instead of {}", i, hex(g), hex(w))) {
                return None;
            }
        }
        Some(sigs)
    }

    fn call_sign(&mut self, ctx: &mut Ctx, p: usize, i: usize, entry: u8, sigs: Vec<Vec<u8>>, wrong_type: bool) -> Result<Result<(), Error>, String> {
        let d = self.d;
        let x = &d.inputs[i];
        let bomb = self.bomb.clone();
        let s = self.parties[p].sess.as_mut().expect("session");
        if s.signed[i] && entry >= 8 {
            // somebody else's idea of how this input is to be signed
            let mut c = Core::new(x, &bomb);
            c.p2sh ^= entry & 1 == 0;
            if entry & 2 == 0 {
                c.flags = vec![crate::model::hash_type(x.flags.first().map_or(0x41, |f| f ^ 3))];
            }
            let tx = &mut s.tx;
            let r = ctx.call_raw(CONV_FINAL, "sign_input_signatory", || match entry % 3 {
                0 => tx.sign_input_signatory(InputReference::new(i), One(c), sigs.clone()),
                1 => tx.sign_input_signatory(InputReference::new(i), Multi(c), sigs.clone()),
                _ => tx.sign_input_signatory(InputReference::new(i), P2PKHSignatory { pubkey: Pubkey::new([2; 33]), sig_hash_flags: SigHashFlags::DEFAULT }, sigs.first().cloned().unwrap_or_default().into()),
            });
            ev!(ctx, "party {} sign_input_signatory (other) input {} -> {:?}", p, i, r.as_ref().map(|r| r.as_ref().map_err(|e| e.to_string())));
            return r;
        }
        // only sessions built with signatories know how to make a script from bare signatures
        let entry = if s.built || s.signed[i] { entry % 3 } else { 2 };
        let name = ["sign_input", "sign_input_dyn", "sign_input_signatory"][entry as usize];
        let tx = &mut s.tx;
        let r = ctx.call_raw(CONV_FINAL, name, || match (x.kind, entry) {
            (_, 1) if wrong_type => tx.sign_input_dyn(i, Box::new(0u8)),
            (2, 0) => tx.sign_input(InputReference::<P2PKHSignatory>::new(i), sigs[0].clone().into()),
            (2, 1) => tx.sign_input_dyn(i, Box::new(ByteArray::from(sigs[0].clone())) as Box<dyn Any>),
            (2, _) => tx.sign_input_signatory(InputReference::new(i), p2pkh(d, x), sigs[0].clone().into()),
            (0, 0) => tx.sign_input(InputReference::<One>::new(i), sigs.clone()),
            (0, 2) => tx.sign_input_signatory(InputReference::new(i), One(Core::new(x, &bomb)), sigs.clone()),
            (1, 0) => tx.sign_input(InputReference::<Multi>::new(i), sigs.clone()),
            (1, 2) => tx.sign_input_signatory(InputReference::new(i), Multi(Core::new(x, &bomb)), sigs.clone()),
            _ => tx.sign_input_dyn(i, Box::new(sigs.clone())),
        });
        ev!(ctx, "party {} {} input {} -> {:?}", p, name, i, r.as_ref().map(|r| r.as_ref().map_err(|e| e.to_string())));
        r
    }

    fn may_sign(&self, p: usize, i: usize) -> bool {
        let s = self.parties[p].sess.as_ref().unwrap();
        s.built || self.d.inputs[i].kind == 2 || !self.d.inputs[i].tmpl.iter().any(|t| matches!(t, Part::Size))
    }

    /// Sign `i` in the session of `p`, which must succeed.
    fn sign(&mut self, ctx: &mut Ctx, p: usize, i: usize, entry: u8, sigs: Vec<Vec<u8>>, logged: bool) -> bool {
        if !self.may_sign(p, i) {
            return true;
        }
        match self.call_sign(ctx, p, i, entry, sigs.clone(), false) {
            Ok(Ok(())) => {
                ctx.mark(&format!("s{}.{}", p, i));
                if !logged {
                    self.parties[p].log.insert(i, sigs);
                }
                let s = self.parties[p].sess.as_mut().unwrap();
                s.signed[i] = true;
                let s = self.parties[p].sess.as_ref().unwrap();
                self.check_sess(ctx, s, &self.m.pres, "after signing")
            }
            Ok(Err(e)) => {
                ctx.violate(CONV_FINAL, "sign-refused", format!("input {}: {}", i, e));
                false
            }
            Err(m) => {
                ctx.violate(CONV_FINAL, "sign-panics", format!("input {}: {}", i, m));
                false
            }
        }
    }

    fn own(&self, p: usize) -> Vec<usize> {
        (0..self.d.inputs.len()).filter(|i| self.d.inputs[*i].party as usize == p).collect()
    }

    fn again(&mut self, ctx: &mut Ctx, p: usize, i: usize, entry: u8, sigs: Vec<Vec<u8>>) -> bool {
        ctx.fault("signing again");
        match self.call_sign(ctx, p, i, entry, sigs, false) {
            Ok(Err(Error::InputAlreadySigned { input_idx })) => {
                ctx.check(input_idx == i, FINAL, "refusal-index", || format!("input {} reported as {}", i, input_idx));
            }
            Ok(Err(e)) => ctx.violate(FINAL, "refusal-kind", e.to_string()),
            Ok(Ok(())) => {
                ctx.violate(CONV_FINAL, "signed-twice", format!("input {} accepted another signature", i));
                return false;
            }
            Err(m) => ctx.violate(FINAL, "refusal-panics", m),
        }
        let s = self.parties[p].sess.as_ref().unwrap();
        self.check_sess(ctx, s, &self.m.pres, "after refusal")
    }

    /// Bare signatures for an input of a resumed session, which has no signatory for it: refused,
    /// with nothing changed, or taken, and then they are in the input's script.
    fn bare(&mut self, ctx: &mut Ctx, p: usize, i: usize, entry: u8) -> bool {
        if !self.may_sign(p, i) {
            return true;
        }
        ctx.fault("bare signatures without a signatory");
        let sigs = self.m.sigs[i].clone();
        let x = &self.d.inputs[i];
        let tx = &mut self.parties[p].sess.as_mut().expect("session").tx;
        let r = ctx.call_raw(CONV_FINAL, "sign_input (bare)", || match (x.kind, entry % 2) {
            (2, 0) => tx.sign_input(InputReference::<P2PKHSignatory>::new(i), sigs[0].clone().into()),
            (2, _) => tx.sign_input_dyn(i, Box::new(ByteArray::from(sigs[0].clone())) as Box<dyn Any>),
            (0, 0) => tx.sign_input(InputReference::<One>::new(i), sigs.clone()),
            (1, 0) => tx.sign_input(InputReference::<Multi>::new(i), sigs.clone()),
            _ => tx.sign_input_dyn(i, Box::new(sigs.clone())),
        });
        ev!(ctx, "party {} sign_input (bare) input {} -> {:?}", p, i, r.as_ref().map(|r| r.as_ref().map_err(|e| e.to_string())));
        match r {
            Ok(Err(Error::InputAlreadySigned { .. })) => {
                ctx.violate(FINAL, "refusal-kind", format!("input {} is not signed", i));
                return false;
            }
            Ok(Ok(())) => {
                // what was taken shows in every export from here on
                self.parties[p].log.insert(i, sigs);
                self.parties[p].sess.as_mut().unwrap().signed[i] = true;
            }
            _ => {}
        }
        let s = self.parties[p].sess.as_ref().unwrap();
        self.check_sess(ctx, s, &self.m.pres, "after bare signatures")
    }

    fn receive(&mut self, ctx: &mut Ctx, m: Msg) -> bool {
        let p = m.to as usize;
        if m.damaged {
            // transports checksum; the session never sees it
            ctx.probe("damaged message discarded");
            return true;
        }
        ctx.mark(&format!("d{}{}", m.from, m.to));
        match m.body {
            Body::Partial { fmt, img, signed } => {
                ev!(ctx, "party {} receives a partial transaction of {} bytes from {}", p, img.len(), m.from);
                let t = match self.import(ctx, fmt, &img, &signed) {
                    Some(t) => t,
                    None => return false,
                };
                self.merge(ctx, p, t, signed)
            }
            Body::Sigs { input, sigs } => {
                if !self.open(ctx, p) {
                    return false;
                }
                ev!(ctx, "party {} receives signatures of input {} from {}", p, input, m.from);
                if self.d.ecc > 0 {
                    let d = self.d;
                    let x = &d.inputs[input];
                    for (j, s) in sigs.iter().enumerate() {
                        let digest = sha256d(&self.m.pres[input][j]);
                        let r = match ctx.call(CONV, "verify", || real_verify(d.ecc, p as u8, &pubkey_bytes(d, x.key), &digest, s)) {
                            Some(r) => r,
                            None => return false,
                        };
                        ctx.check(r == Ok(true), CONV_DIGEST, "verify", || format!("{:?}", r));
                    }
                }
                self.parties[p].log.insert(input, sigs.clone());
                let s = self.parties[p].sess.as_ref().unwrap();
                if s.signed[input] {
                    ctx.probe("late or duplicate signature");
                    self.again(ctx, p, input, m.from, sigs)
                } else {
                    self.sign(ctx, p, input, m.from, sigs, true)
                }
            }
        }
    }

    fn broadcast(&mut self, p: usize, fmt: u8, img: &[u8], signed: &[bool]) {
        for to in 0..self.parties.len() {
            if to != p {
                self.net.push(Msg { from: p as u8, to: to as u8, body: Body::Partial { fmt, img: img.to_vec(), signed: signed.to_vec() }, damaged: false });
            }
        }
    }

    /// Export the partial transaction of `p` and go on.
    fn share(&mut self, ctx: &mut Ctx, p: usize, fmt: u8, how: u8) -> Option<(Vec<u8>, Vec<bool>)> {
        if !self.open(ctx, p) {
            return None;
        }
        let s = self.parties[p].sess.take()?;
        let was_built = s.built;
        let (t, signed) = self.partial(ctx, s, "export")?;
        let img = self.export(ctx, fmt, &t)?;
        let log_covers = (0..signed.len()).all(|i| !signed[i] || self.parties[p].log.contains_key(&i));
        if how % 2 == 1 && was_built && log_covers {
            if !self.from_log(ctx, p) {
                return None;
            }
            let now = &self.parties[p].sess.as_ref()?.signed;
            ctx.check((0..signed.len()).all(|i| now[i] || !signed[i]), CONV, "rebuild-from-log", || "signatures lost".into());
        } else {
            let s = self.resume(ctx, t, signed.clone())?;
            self.parties[p].sess = Some(s);
        }
        Some((img, signed))
    }

    fn step(&mut self, ctx: &mut Ctx, st: &Step) -> bool {
        let np = self.parties.len();
        let ni = self.d.inputs.len();
        match st {
            Step::Sign(p, k, entry) => {
                let p = *p as usize % np;
                let own = self.own(p);
                if own.is_empty() || !self.open(ctx, p) {
                    return own.is_empty();
                }
                let i = own[*k as usize % own.len()];
                if self.parties[p].sess.as_ref().unwrap().signed[i] {
                    return true;
                }
                let sigs = match self.make_sigs(ctx, p, i) {
                    Some(s) => s,
                    None => return false,
                };
                self.sign(ctx, p, i, *entry, sigs, false)
            }
            Step::Fail(p, k, at, entry) => {
                let p = *p as usize % np;
                let own = self.own(p);
                if own.is_empty() || !self.open(ctx, p) {
                    return own.is_empty();
                }
                let i = own[*k as usize % own.len()];
                let s = self.parties[p].sess.as_ref().unwrap();
                if s.signed[i] || !self.may_sign(p, i) {
                    return true;
                }
                let x = &self.d.inputs[i];
                let wrong = s.built && entry % 3 == 1 && at % 2 == 0;
                if x.kind == 2 && !wrong {
                    return true;
                }
                let sigs = self.m.sigs[i].clone();
                let part = *at as i32 % (x.tmpl.len() as i32 + 1);
                if !wrong {
                    self.bomb.store(part, SeqCst);
                }
                let r = self.call_sign(ctx, p, i, *entry, sigs, wrong);
                self.bomb.store(-1, SeqCst);
                ctx.fault(if wrong { "signatures of the wrong type" } else { "signer fails" });
                if let Ok(r) = r {
                    if !wrong || r.is_ok() {
                        ctx.violate(FINAL, "failure-swallowed", format!("input {}: {:?}", i, r.map_err(|e| e.to_string())));
                        return false;
                    }
                }
                let s = self.parties[p].sess.as_ref().unwrap();
                self.check_sess(ctx, s, &self.m.pres, "after failure")
            }
            Step::Again(p, k, entry, other) => {
                let p = *p as usize % np;
                let i = *k as usize % ni;
                match &self.parties[p].sess {
                    Some(s) if s.signed[i] => {}
                    Some(s) if !s.built && !*other => return self.bare(ctx, p, i, *entry),
                    _ => return true,
                }
                let mut sigs = self.m.sigs[i].clone();
                if *other {
                    ctx.fault("conflicting signature");
                    for s in &mut sigs {
                        s[0] ^= 0x80;
                    }
                }
                self.again(ctx, p, i, *entry, sigs)
            }
            Step::SendPartial(p, to, fmt, how) => {
                let (p, to) = (*p as usize % np, *to as usize % np);
                let fmt = fmt % 11;
                match self.share(ctx, p, fmt, *how) {
                    Some((img, signed)) => {
                        ev!(ctx, "party {} sends {} bytes of {} to {}", p, img.len(), storage::FORMATS[fmt as usize].0, to);
                        self.net.push(Msg { from: p as u8, to: to as u8, body: Body::Partial { fmt, img, signed }, damaged: false });
                        true
                    }
                    None => false,
                }
            }
            Step::SendSig(p, to, k) => {
                let (p, to) = (*p as usize % np, *to as usize % np);
                let known: Vec<usize> = self.parties[p].log.keys().cloned().collect();
                if known.is_empty() {
                    return true;
                }
                let input = known[*k as usize % known.len()];
                let sigs = self.parties[p].log[&input].clone();
                ev!(ctx, "party {} sends signatures of input {} to {}", p, input, to);
                self.net.push(Msg { from: p as u8, to: to as u8, body: Body::Sigs { input, sigs }, damaged: false });
                true
            }
            Step::Save(p, fmt, how, at) => {
                let p = *p as usize % np;
                let fmt = fmt % 11;
                match self.share(ctx, p, fmt, (*at % 7) as u8) {
                    Some((img, signed)) => {
                        ev!(ctx, "party {} saves {} bytes ({})", p, img.len(), how % 3);
                        match how % 3 {
                            0 => self.parties[p].disk = Some((fmt, img, signed)),
                            // an incomplete or lost record is not taken for a complete one
                            1 => ctx.fault("torn write"),
                            _ => ctx.fault("lost write"),
                        }
                        true
                    }
                    None => false,
                }
            }
            Step::Crash(p) => {
                let p = *p as usize % np;
                if self.parties[p].sess.take().is_some() {
                    ctx.fault("crash");
                    ctx.mark(&format!("c{}", p));
                    ev!(ctx, "party {} crashes", p);
                }
                true
            }
            Step::Rebuild(p) => {
                let p = *p as usize % np;
                self.parties[p].sess = None;
                self.from_log(ctx, p)
            }
            Step::Reopen(p) => {
                let p = *p as usize % np;
                let s = match self.parties[p].sess.take() {
                    Some(s) => s,
                    None => return true,
                };
                let seed = self.seed();
                // signatures of a resumed transaction stay, those made in this session are given up
                let (built, est, n) = (s.built, s.est, s.n);
                if !built {
                    // what the builder keeps is what it was resumed from; take the way over the export
                    let (t, signed) = match self.partial(ctx, s, "reopen") {
                        Some(x) => x,
                        None => return false,
                    };
                    return match self.resume(ctx, t, signed) {
                        Some(s) => {
                            self.parties[p].sess = Some(s);
                            true
                        }
                        None => false,
                    };
                }
                let tx = s.tx;
                let noest = self.d.noest;
                let r = ctx.call_node(seed, ALL, "into_tx_builder", || {
                    let b = tx.into_tx_builder();
                    if noest {
                        b.build_without_estimation()
                    } else {
                        b.build()
                    }
                });
                match r {
                    Some(Ok(tx)) => {
                        let s = Sess { tx, built, signed: vec![false; n], est, n };
                        self.check_sess(ctx, &s, &self.m.pres, "reopened");
                        self.parties[p].sess = Some(s);
                        self.replay_log(ctx, p)
                    }
                    Some(Err(e)) => {
                        ctx.violate(CONV_MONEY, "reopen-refused", e.to_string());
                        false
                    }
                    None => false,
                }
            }
            Step::Deliver(k) => {
                if let Some(k) = bounded(*k, self.net.len(), |k| k) {
                    if k > 0 {
                        ctx.fault("reordered message");
                    }
                    let m = self.net.remove(k);
                    return self.receive(ctx, m);
                }
                true
            }
            Step::Drop(k) => {
                if let Some(k) = bounded(*k, self.net.len(), |k| k) {
                    ctx.fault("lost message");
                    self.net.remove(k);
                }
                true
            }
            Step::Dup(k) => {
                if let Some(k) = bounded(*k, self.net.len(), |k| k) {
                    ctx.fault("duplicated message");
                    let m = self.net[k].clone();
                    self.net.push(m);
                }
                true
            }
            Step::Corrupt(k, _) => {
                if let Some(k) = bounded(*k, self.net.len(), |k| k) {
                    ctx.fault("damaged message");
                    self.net[k].damaged = true;
                }
                true
            }
            Step::Stdout(k) => {
                match k % 3 {
                    0 => stdout(0),
                    k => {
                        ctx.fault(if k == 1 { "terminal closed" } else { "output device full" });
                        stdout(k);
                    }
                }
                true
            }
            Step::Complete(p) => {
                let p = *p as usize % np;
                let s = match self.parties[p].sess.take() {
                    Some(s) => s,
                    None => return true,
                };
                let (t, signed) = match self.partial(ctx, s, "completing") {
                    Some(x) => x,
                    None => return false,
                };
                let twin = match self.resume(ctx, t.clone(), signed.clone()) {
                    Some(s) => s,
                    None => return false,
                };
                let all = twin.signed.iter().all(|s| *s);
                let tx = twin.tx;
                let r = ctx.call_raw(CONV_FINAL, "complete_tx", || tx.complete_tx());
                ev!(ctx, "party {} completes: {}", p, r.is_ok());
                match r {
                    Ok(c) => {
                        if !ctx.check(all, FINAL, "completed-unsigned", || format!("completed although {:?}", signed)) {
                            return false;
                        }
                        self.check_complete(ctx, &c);
                    }
                    Err(m) => {
                        ctx.probe("completion refused");
                        if !ctx.check(!all, CONV_FINAL, "completion-refused", || m) {
                            return false;
                        }
                    }
                }
                match self.resume(ctx, t, signed) {
                    Some(s) => self.parties[p].sess = Some(s),
                    None => return false,
                }
                true
            }
            Step::Stored(p, f) => {
                let p = *p as usize % np;
                let s = match self.parties[p].sess.take() {
                    Some(s) => s,
                    None => return true,
                };
                let (t, signed) = match self.partial(ctx, s, "stored") {
                    Some(x) => x,
                    None => return false,
                };
                self.check_stored(ctx, &t, *f);
                match self.resume(ctx, t, signed) {
                    Some(s) => self.parties[p].sess = Some(s),
                    None => return false,
                }
                true
            }
        }
    }

    /// Preimages computed directly from a stored transaction.
    fn check_stored(&self, ctx: &mut Ctx, t: &UnhashedTx, f: u8) {
        let fs = [f | 0x40, (f.rotate_left(3) ^ 0x80) | 0x40];
        let fs = &fs[..1 + (f as usize % 2)];
        let libf: Vec<SigHashFlags> = fs.iter().map(|f| crate::model::hash_type(*f)).collect();
        let want: Vec<Vec<Vec<u8>>> = (0..t.inputs.len()).map(|i| fs.iter().map(|f| preimage(&self.m.agreed, i, *f as u32)).collect()).collect();
        let ser = |v: Vec<Vec<TxPreimage>>| -> Vec<Vec<Vec<u8>>> { v.iter().map(|v| v.iter().map(|p| p.ser().to_vec()).collect()).collect() };
        if let Some((a, b)) = ctx.call(DIGEST, "stored preimages", || (ser(t.preimages(&libf)), ser(t.clone().hashed().preimages(&libf)))) {
            ctx.check(a == want, DIGEST, "stored-preimage", || format!("hash types {:02x?}: {}", fs, diff(&a, &want)));
            ctx.check(b == want, DIGEST, "stored-preimage-hashed", || format!("hash types {:02x?}: {}", fs, diff(&b, &want)));
        }
    }

    fn check_complete(&self, ctx: &mut Ctx, c: &UnhashedTx) -> bool {
        let n = self.d.inputs.len();
        if !self.check_tx(ctx, c, &vec![true; n], &self.m.agreed.outputs, &self.m.scripts, true, "completed") {
            return false;
        }
        let w = match ctx.call(CONV, "ser", || (c.ser().to_vec(), c.clone().hashed().hash().as_slice().to_vec())) {
            Some(w) => w,
            None => return false,
        };
        let mut ok = ctx.check(w.0 == self.m.wire, CONV, "completed-bytes", || storage::first_diff(&w.0, &self.m.wire));
        ok &= ctx.check(w.1 == sha256d(&self.m.wire), CONV, "completed-id", || hex(&w.1));
        ok &= ctx.check(w.0.len() <= self.m.est, MONEY, "larger-than-estimated", || format!("{} bytes, estimated {}", w.0.len(), self.m.est));
        if !self.d.noest {
            let i: u128 = self.d.inputs.iter().map(|i| i.value as u128).sum();
            let o: u128 = c.outputs.iter().map(|o| o.value as u128).sum();
            ok &= ctx.check(o <= i, MONEY, "spends-too-much", || format!("{} of {}", o, i));
        }
        ok
    }
}

/// 0 the usual null device, 1 a pipe nobody reads, 2 a full disk
fn stdout(k: u8) {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let fd = match k {
            1 => {
                let mut p = [0; 2];
                libc::pipe(p.as_mut_ptr());
                libc::close(p[0]);
                p[1]
            }
            2 => libc::open(b"/dev/full\0".as_ptr() as *const _, libc::O_WRONLY),
            _ => libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR),
        };
        libc::dup2(fd, 1);
        libc::close(fd);
    }
}

// ---------------------------------------------------------------- drafting

/// The transaction grows stage by stage; every stage is another party.
fn draft(ctx: &mut Ctx, sim: &mut Sim, p: &Plan, stages: &[(usize, usize, Built)]) -> Option<(UnhashedTx, Vec<bool>)> {
    let d = sim.d;
    let mut cur: Option<UnhashedTx> = None;
    let mut scripts: Vec<Vec<u8>> = vec![];
    for (k, (old, now, want)) in stages.iter().enumerate() {
        let seed = sim.seed();
        let bomb = sim.bomb.clone();
        let noest = k == 0 && d.noest && d.outputs.iter().all(|o| o.stage > 0 || o.left.is_none());
        let from = cur.take();
        let resumed = from.is_some();
        let r = ctx.call_node(seed, ALL, "draft", || {
            let mut b = match from {
                Some(t) => {
                    let mut b = TxBuilder::from_tx(t);
                    b.set_fee_per_kb(d.fee);
                    b
                }
                None => new_builder(d),
            };
            add_inputs(&mut b, d, *old..*now, &bomb, true);
            add_outputs(&mut b, d, k as u8);
            let sums = (b.input_sum(), b.known_output_sum());
            (if noest { b.build_without_estimation() } else { b.build() }, sums)
        })?;
        let (r, sums) = r;
        let in_sum: u128 = d.inputs[..*now].iter().map(|i| i.value as u128).sum();
        if in_sum <= u64::MAX as u128 {
            ctx.check(sums.0 as u128 == in_sum, MONEY, "input-sum", || format!("{} instead of {}", sums.0, in_sum));
        }
        ev!(ctx, "stage {}: {} inputs {:?}", k, now, r.as_ref().map(|t| t.estimated_size()).map_err(|e| e.to_string()));
        let (outputs, est) = match (&r, want) {
            (Ok(_), Built::Ok { outputs, est }) => (outputs.clone(), *est),
            (Err(Error::InsufficientInputAmount { amount }), Built::Missing(m)) => {
                ctx.check(*amount as u128 == (*m).min(u64::MAX as u128), MONEY, "missing-amount", || format!("{} instead of {}", amount, m));
                ctx.probe("refused for missing value");
                return None;
            }
            (r, w) => {
                ctx.violate(MONEY, "build-verdict", format!("{:?} instead of {:?}", r.as_ref().map(|t| t.estimated_size()).map_err(|e| e.to_string()), w));
                return None;
            }
        };
        let a = d.agreed(k as u8, &outputs);
        let pres: Vec<Vec<Vec<u8>>> = (0..*now).map(|i| flags(&d.inputs[i]).iter().map(|f| preimage(&a, i, *f as u32)).collect()).collect();
        let mut signed: Vec<bool> = scripts.iter().map(|s| !s.is_empty()).collect();
        signed.resize(*now, false);
        let mut s = Sess { tx: r.ok()?, built: true, signed, est, n: *now };
        let what = if resumed { "joined draft" } else { "draft" };
        if !sim.check_sess(ctx, &s, &pres, what) {
            return None;
        }
        scripts.resize(*now, vec![]);
        for i in *old..*now {
            if sim.m.early.get(i) == Some(&true) {
                let x = &d.inputs[i];
                let sigs: Vec<Vec<u8>> = pres[i].iter().map(|p| signature(d, x, &sha256d(p))).collect();
                scripts[i] = render(d, x, &sigs, &pres[i], &outputs, 0);
                let tx = &mut s.tx;
                let r = ctx.call(CONV_FINAL, "sign draft", || match x.kind {
                    2 => tx.sign_input(InputReference::<P2PKHSignatory>::new(i), sigs[0].clone().into()),
                    _ => tx.sign_input_dyn(i, Box::new(sigs.clone())),
                })?;
                ctx.check(r.is_ok(), CONV_FINAL, "sign-refused", || "draft".into());
                sim.parties[x.party as usize].log.insert(i, sigs);
                s.signed[i] = true;
                ctx.probe("signed before others join");
            }
        }
        let tx = s.tx;
        let signed = s.signed;
        let t = ctx.call(CONV_FINAL, "partial_tx", || tx.partial_tx())?;
        if !sim.check_tx(ctx, &t, &signed, &outputs, &scripts, true, what) {
            return None;
        }
        if k + 1 == stages.len() {
            return Some((t, signed));
        }
        // pass it on
        let (fmt, hseed) = p.drafts.get(k).cloned().unwrap_or((2, 7));
        let img = match ctx.call_node(hseed, CONV, "export draft", || storage::export(fmt, &t))? {
            Ok(i) => i,
            Err(e) => {
                ctx.violate(CONV, "export-error", e);
                return None;
            }
        };
        let mut back = match ctx.call_node(hseed ^ 1, CONV, "import draft", || storage::import(fmt, &img))? {
            Ok(t) => t.0,
            Err(e) => {
                ctx.violate(CONV, "import-error", e);
                return None;
            }
        };
        if fmt % 11 < 2 {
            reattach(d, &mut back);
        }
        if !sim.check_tx(ctx, &back, &signed, &outputs, &scripts, true, "imported draft") {
            return None;
        }
        cur = Some(back);
    }
    None
}

// ---------------------------------------------------------------- the run

fn gen(r: &mut Rng, prop: &str, thorough: bool) -> Value {
    let deal = gen_deal(r, prop == "C04");
    let np = deal.parties;
    let n = if prop == "C04" { r.below(14) } else { r.range(4, if thorough { 60 } else { 34 }) };
    let mut steps = vec![];
    for _ in 0..n {
        let p = r.below(np as u64) as u8;
        let q = r.below(np as u64) as u8;
        let fmt = if r.chance(1, 2) { *r.pick(&[2, 2, 3, 6]) } else { r.below(11) as u8 };
        let k = r.u8();
        steps.push(match r.weighted(&[20, 5, 8, 10, 10, 6, 5, 3, 2, 26, 4, 4, 3, 2, 4, 4]) {
            0 => Step::Sign(p, k, r.below(3) as u8),
            1 => Step::Fail(p, k, r.u8(), r.below(3) as u8),
            2 => Step::Again(p, k, if r.chance(1, 3) { r.range(8, 20) as u8 } else { r.below(3) as u8 }, r.chance(1, 2)),
            3 => Step::SendPartial(p, q, fmt, r.below(2) as u8),
            4 => Step::SendSig(p, q, k),
            5 => Step::Save(p, fmt, r.weighted(&[4, 1, 1]) as u8, r.below(1000) as u16),
            6 => Step::Crash(p),
            7 => Step::Rebuild(p),
            8 => Step::Reopen(p),
            9 => Step::Deliver(if r.chance(1, 2) { 0 } else { k }),
            10 => Step::Drop(k),
            11 => Step::Dup(k),
            12 => Step::Corrupt(k, r.u32()),
            13 => Step::Stdout(r.below(3) as u8),
            14 => Step::Complete(p),
            _ => Step::Stored(p, r.u8()),
        });
    }
    let drafts = (0..deal.stages).map(|_| (if r.chance(1, 2) { 2 } else { r.below(11) as u8 }, r.u64())).collect();
    serde_json::to_value(Plan { deal, drafts, steps, seed: r.u64() }).unwrap()
}

fn valid(v: &Value) -> bool {
    serde_json::from_value::<Plan>(v.clone()).map_or(false, |p| p.deal.valid() && p.steps.len() < 400)
}

fn run(ctx: &mut Ctx, _prop: &str, v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).expect("plan");
    let d = p.deal.clone().sorted();
    let bomb = Arc::new(AtomicI32::new(-1));
    ctx.mark(&serde_json::to_string(&p.deal).unwrap());
    let model = d.model();
    let mut empty = DealM { agreed: Agreed::default(), stages: vec![], early: vec![], pres: vec![], sigs: vec![], scripts: vec![], est: 0, wire: vec![] };
    let (m, stages) = match &model {
        Ok(m) => (m, m.stages.clone()),
        Err((s, early)) => {
            empty.early = early.clone();
            (&empty, s.clone())
        }
    };
    let mut sim = Sim {
        d: &d,
        m,
        parties: (0..d.parties).map(|_| Party::default()).collect(),
        net: vec![],
        bomb,
        seeds: Rng::new(p.seed),
        dead: false,
    };
    ctx.out.nontrivial = true;
    let (t, signed) = match draft(ctx, &mut sim, &p, &stages) {
        Some(x) => x,
        None => return,
    };
    ev!(ctx, "agreed: {} inputs {} outputs, {} bytes, estimate {}", d.inputs.len(), m.agreed.outputs.len(), m.wire.len(), m.est);
    // everybody gets the draft or builds from the deal
    for k in 0..sim.parties.len() {
        let by_draft = d.stages > 1 || sim.seed() % 3 == 0;
        if by_draft {
            match sim.resume(ctx, t.clone(), signed.clone()) {
                Some(s) => sim.parties[k].sess = Some(s),
                None => return,
            }
            let img = match sim.export(ctx, 2, &t) {
                Some(i) => i,
                None => return,
            };
            sim.parties[k].disk = Some((2, img, signed.clone()));
        } else if !sim.from_log(ctx, k) {
            return;
        }
    }
    let mut steps = 0;
    for st in &p.steps {
        steps += 1;
        if !sim.step(ctx, st) {
            sim.dead = true;
            break;
        }
    }
    stdout(0);
    ctx.out.sim_time = steps;
    if sim.dead {
        return;
    }
    finish(ctx, &mut sim);
}

/// Faults have stopped: every signer gets its turn, everything is delivered, everybody finishes.
fn finish(ctx: &mut Ctx, sim: &mut Sim) {
    let np = sim.parties.len();
    ev!(ctx, "faults stop");
    for round in 0..3u8 {
        for p in 0..np {
            if !sim.open(ctx, p) {
                return;
            }
            for i in sim.own(p) {
                if sim.parties[p].sess.as_ref().unwrap().signed[i] {
                    continue;
                }
                if !sim.may_sign(p, i) {
                    // needs a session that knows the estimate: sign there and merge
                    let s = sim.parties[p].sess.take().unwrap();
                    let (t, signed) = match sim.partial(ctx, s, "merge") {
                        Some(x) => x,
                        None => return,
                    };
                    if !sim.from_log(ctx, p) {
                        return;
                    }
                    if !sim.parties[p].sess.as_ref().unwrap().signed[i] {
                        let sigs = match sim.make_sigs(ctx, p, i) {
                            Some(s) => s,
                            None => return,
                        };
                        if !sim.sign(ctx, p, i, round, sigs, false) {
                            return;
                        }
                    }
                    if !sim.merge(ctx, p, t, signed) {
                        return;
                    }
                    continue;
                }
                let sigs = match sim.make_sigs(ctx, p, i) {
                    Some(s) => s,
                    None => return,
                };
                if !sim.sign(ctx, p, i, round, sigs, false) {
                    return;
                }
            }
            match sim.share(ctx, p, 2, round) {
                Some((img, signed)) => sim.broadcast(p, 2, &img, &signed),
                None => return,
            }
        }
        while !sim.net.is_empty() {
            let m = sim.net.remove(0);
            if !sim.receive(ctx, m) {
                return;
            }
        }
        if (0..np).all(|p| sim.parties[p].sess.as_ref().map_or(false, |s| s.signed.iter().all(|s| *s))) {
            break;
        }
    }
    for p in 0..np {
        // inputs without a script are finished by whoever completes
        for i in 0..sim.d.inputs.len() {
            if sim.empty(i) && sim.parties[p].sess.as_ref().map_or(false, |s| !s.signed[i]) && !sim.sign(ctx, p, i, i as u8, vec![], false) {
                return;
            }
        }
        let s = match sim.parties[p].sess.take() {
            Some(s) => s,
            None => {
                ctx.violate(CONV, "no-session", format!("party {}", p));
                return;
            }
        };
        if !ctx.check(s.signed.iter().all(|s| *s), CONV, "does-not-finish", || format!("party {} has {:?}", p, s.signed)) {
            return;
        }
        if !sim.check_sess(ctx, &s, &sim.m.pres, "finished") {
            return;
        }
        let tx = s.tx;
        let c = match ctx.call(CONV_FINAL, "complete_tx", || tx.complete_tx()) {
            Some(c) => c,
            None => return,
        };
        if !sim.check_complete(ctx, &c) {
            return;
        }
        sim.check_stored(ctx, &c, p as u8 * 0x2b + 1);
        ev!(ctx, "party {} holds {}", p, hex(&sha256d(&sim.m.wire)[..6]));
    }
    ctx.probe("sessions finished");
}

pub fn world(prop: &str) -> World {
    World {
        name: "session",
        gen,
        run,
        valid,
        after: None,
        quick_runs: if prop == "C04" { 12_000 } else { 9_000 },
        thorough_runs: 600_000,
        recheck: 300,
        cpu_s: 30,
        rule: "a run drafts one transaction in 1..3 stages (1..5 inputs of three signatory kinds, known and leftover outputs), gives it to 1..4 parties and executes a schedule of signing attempts, failures, duplicates, conflicts, exports in eleven formats, sends, losses, duplications, reorderings, damage, saves, torn and lost writes, crashes, restarts and a broken terminal, then stops the faults and requires everybody to finish; distinct by deal and by order of signing, delivery and crash events",
        time_unit: "session steps",
        real: &["bitcoin_cash: TxBuilder, UnsignedTx, Signatory, TxPreimage, P2PKHSignatory, scripts, exports and imports", "bitcoin-cash-ecc (both back ends, in one run of ten)"],
        stub: &["network, disk and terminal (simulated)", "wallet logic: merging, logs, checksums", "signatures in nine runs of ten (deterministic stand-ins bound to key and digest)"],
        assumptions: &["transports and disks detect damage by checksum (what happens without one is C08, C09)", "a signer gives one signature per digest (deterministic nonces)"],
    }
}
