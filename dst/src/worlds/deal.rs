//! What parties of a signing session agree on, as data, and the reference for it: signature-hash
//! preimages, signatures, input scripts, fees and leftovers.
use super::stream::model_var_int;
use crate::model::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Part {
    /// signature number, with its hash type appended
    Sig(u8),
    /// whole preimage number
    Pre(u8),
    /// locking script
    Lock,
    /// all outputs
    Outs,
    /// the size estimate
    Size,
    Op(TOp),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct InD {
    pub hash: u64,
    pub vout: u32,
    pub seq: u32,
    pub value: u64,
    pub lock: ScriptS,
    /// 0 one signature, 1 several signatures, 2 pay to public key hash
    pub kind: u8,
    pub p2sh: bool,
    pub flags: Vec<u8>,
    pub tmpl: Vec<Part>,
    /// length reserved for a signature, and how much shorter than that signatures are
    pub room: u8,
    pub short: u8,
    pub key: u64,
    pub party: u8,
    pub stage: u8,
    pub early: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct OutD {
    pub stage: u8,
    pub rep: u32,
    pub value: u64,
    pub script: ScriptS,
    /// (lower bound, upper bound, precedence)
    pub left: Option<(u64, u64, i32)>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DealS {
    pub version: i32,
    pub lock_time: u32,
    pub fee: u64,
    /// build the first stage without value accounting (only without leftovers)
    pub noest: bool,
    pub parties: u8,
    pub stages: u8,
    /// 0 simulated signatures, 1 the C curve, 2 the Rust curve, 3 mixed
    pub ecc: u8,
    pub inputs: Vec<InD>,
    pub outputs: Vec<OutD>,
}

pub fn key_bytes(key: u64) -> Vec<u8> {
    let mut k = fill(32, key | 256);
    k[0] &= 0x7f;
    k[31] |= 1;
    k
}

/// Curves are built once per worker, before runs are forked off.
pub fn curve() -> &'static secp256k1::Secp256k1<secp256k1::All> {
    static C: std::sync::OnceLock<secp256k1::Secp256k1<secp256k1::All>> = std::sync::OnceLock::new();
    C.get_or_init(secp256k1::Secp256k1::new)
}
pub fn c_ecc() -> &'static bitcoin_cash_ecc::SelectedECC {
    static C: std::sync::OnceLock<bitcoin_cash_ecc::SelectedECC> = std::sync::OnceLock::new();
    C.get_or_init(bitcoin_cash_ecc::init_ecc)
}
pub fn rust_ecc() -> &'static rust_ecc_shim::SelectedECC {
    static C: std::sync::OnceLock<rust_ecc_shim::SelectedECC> = std::sync::OnceLock::new();
    C.get_or_init(rust_ecc_shim::init_ecc)
}

pub fn pubkey_bytes(d: &DealS, key: u64) -> Vec<u8> {
    if d.ecc == 0 {
        let mut p = fill(33, key ^ 0x5555_0000_0000_5555 | 256);
        p[0] = 2 | (p[0] & 1);
        p
    } else {
        thread_local! {
            static KNOWN: std::cell::RefCell<std::collections::BTreeMap<u64, Vec<u8>>> = std::cell::RefCell::default();
        }
        if let Some(k) = KNOWN.with(|m| m.borrow().get(&key).cloned()) {
            return k;
        }
        let sk = secp256k1::SecretKey::from_slice(&key_bytes(key)).expect("key");
        let k = secp256k1::PublicKey::from_secret_key(curve(), &sk).serialize().to_vec();
        KNOWN.with(|m| m.borrow_mut().insert(key, k.clone()));
        k
    }
}

pub fn signature(d: &DealS, i: &InD, digest: &[u8]) -> Vec<u8> {
    if d.ecc == 0 {
        let h = sha256(&[&key_bytes(i.key)[..], digest].concat());
        let seed = u64::from_le_bytes([h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]]) | 256;
        let short = if i.short == 0 { 0 } else { h[8] % i.short };
        fill((room(i) as u32).saturating_sub(short as u32).max(8), seed)
    } else {
        let sk = secp256k1::SecretKey::from_slice(&key_bytes(i.key)).expect("key");
        let m = secp256k1::Message::from_slice(digest).expect("digest");
        curve().sign(&m, &sk).serialize_der().to_vec()
    }
}

/// Bytes reserved for each signature of this input.
pub fn room(i: &InD) -> usize {
    if i.kind == 2 {
        72
    } else {
        (i.room as usize).max(8)
    }
}

pub fn lock_script(d: &DealS, i: &InD) -> ScriptS {
    if i.kind == 2 {
        let h = hash160(&pubkey_bytes(d, i.key));
        // (an operation list that stands for the same bytes)
        return vec![code(0x76), code(0xa9), TOp(OpS::P(Ba::Cat(h.iter().map(|b| Ba::Raw(1, *b as u64, None)).collect(), None), true), None), code(0x88), code(0xac)];
    }
    i.lock.clone()
}

pub fn lock_bytes(d: &DealS, i: &InD) -> Vec<u8> {
    enc_script(&lock_script(d, i), &[])
}

/// The hash types this input is signed with.
pub fn flags(i: &InD) -> Vec<u8> {
    if i.kind == 1 {
        i.flags.clone()
    } else {
        vec![i.flags[0]]
    }
}

/// The parts of a transaction digests depend on.
#[derive(Clone, Debug, Default)]
pub struct Agreed {
    pub version: i32,
    pub lock_time: u32,
    /// outpoint, sequence, value, script code
    pub inputs: Vec<(Vec<u8>, u32, u64, Vec<u8>)>,
    /// value, script
    pub outputs: Vec<(u64, Vec<u8>)>,
}

pub fn out_bytes(o: &(u64, Vec<u8>)) -> Vec<u8> {
    let mut v = o.0.to_le_bytes().to_vec();
    v.extend(sized(&o.1));
    v
}

/// Signature-hash preimage: BIP143 layout with the fork id in the hash type.
pub fn preimage(a: &Agreed, i: usize, flags: u32) -> Vec<u8> {
    let anyone = flags & 0x80 != 0;
    let base = flags & 0x1f;
    let zero = vec![0; 32];
    let mut v = a.version.to_le_bytes().to_vec();
    if anyone {
        v.extend(&zero);
    } else {
        v.extend(sha256d(&a.inputs.iter().flat_map(|i| i.0.clone()).collect::<Vec<_>>()));
    }
    if anyone || base == 2 || base == 3 {
        v.extend(&zero);
    } else {
        v.extend(sha256d(&a.inputs.iter().flat_map(|i| i.1.to_le_bytes().to_vec()).collect::<Vec<_>>()));
    }
    let (op, seq, value, code) = &a.inputs[i];
    v.extend(op);
    v.extend(sized(code));
    v.extend(&value.to_le_bytes());
    v.extend(&seq.to_le_bytes());
    v.extend(match base {
        2 => zero,
        3 => match a.outputs.get(i) {
            Some(o) => sha256d(&out_bytes(o)),
            None => zero,
        },
        _ => sha256d(&a.outputs.iter().flat_map(out_bytes).collect::<Vec<_>>()),
    });
    v.extend(&a.lock_time.to_le_bytes());
    v.extend(&flags.to_le_bytes());
    v
}

/// Part of a locking script that is signed: everything after the first code separator.
pub fn script_code(s: &ScriptS) -> Vec<u8> {
    let at = s.iter().position(|t| matches!(t.0, OpS::C(0xab))).map_or(0, |i| i + 1);
    enc_script(&s[at..].to_vec(), &[])
}

pub fn outpoint(i: &InD) -> Vec<u8> {
    let mut v = fill(32, i.hash);
    v.extend(&i.vout.to_le_bytes());
    v
}

/// Input script of input `i` for these signatures.
pub fn render(d: &DealS, i: &InD, sigs: &[Vec<u8>], pres: &[Vec<u8>], outs: &[(u64, Vec<u8>)], size: u32) -> Vec<u8> {
    let f = flags(i);
    let with = |k: usize| {
        let k = k % f.len();
        let mut s = sigs[k].clone();
        s.push(f[k]);
        s
    };
    let mut v = vec![];
    if i.kind == 2 {
        v.extend(enc_push(&with(0), true));
        v.extend(enc_push(&pubkey_bytes(d, i.key), true));
        return v;
    }
    for p in &i.tmpl {
        match p {
            Part::Sig(k) => v.extend(enc_push(&with(*k as usize), true)),
            Part::Pre(k) => v.extend(enc_push(&pres[*k as usize % f.len()], true)),
            Part::Lock => v.extend(enc_push(&lock_bytes(d, i), true)),
            Part::Outs => v.extend(enc_push(&outs.iter().flat_map(out_bytes).collect::<Vec<_>>(), true)),
            Part::Size => v.extend(enc_push(&size.to_le_bytes(), true)),
            Part::Op(t) => v.extend(enc_op(&t.0, &[])),
        }
    }
    if i.p2sh {
        v.extend(enc_push(&lock_bytes(d, i), true));
    }
    v
}

/// The script an unsigned input is estimated with.
pub fn placeholder(d: &DealS, i: &InD, outs: &[(u64, Vec<u8>)]) -> Vec<u8> {
    let f = flags(i);
    let sigs = vec![vec![0; room(i)]; f.len()];
    let empty = vec![0; 4 + 32 + 32 + 36 + sized(&script_code(&lock_script(d, i))).len() + 8 + 4 + 32 + 4 + 4];
    render(d, i, &sigs, &vec![empty; f.len()], outs, u32::MAX)
}

pub fn tx_size(scripts: &[Vec<u8>], outs: &[(u64, Vec<u8>)]) -> usize {
    4 + model_var_int(scripts.len() as u64).len()
        + scripts.iter().map(|s| 36 + sized(s).len() + 4).sum::<usize>()
        + model_var_int(outs.len() as u64).len()
        + outs.iter().map(|o| out_bytes(o).len()).sum::<usize>()
        + 4
}

pub enum OutM {
    Known(u64, Vec<u8>),
    Left { lo: u64, hi: u64, prec: i32, script: Vec<u8> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Built {
    Ok { outputs: Vec<(u64, Vec<u8>)>, est: usize },
    Missing(u128),
}

/// Reference for building: which leftovers are served with how much, and the size estimate.
/// `est` gives the estimated input scripts for a list of outputs.
pub fn build_model(total_in: u128, outs: &[OutM], fee: u64, account: bool, est: &dyn Fn(&[(u64, Vec<u8>)]) -> Vec<Vec<u8>>) -> Built {
    let known: u128 = outs.iter().map(|o| if let OutM::Known(v, _) = o { *v as u128 } else { 0 }).sum();
    let make = |amounts: &[Option<u64>]| -> Vec<(u64, Vec<u8>)> {
        outs.iter()
            .zip(amounts)
            .filter_map(|(o, a)| match o {
                OutM::Known(v, s) => Some((*v, s.clone())),
                OutM::Left { script, .. } => a.map(|a| (a, script.clone())),
            })
            .collect()
    };
    let mut amounts: Vec<Option<u64>> = vec![None; outs.len()];
    if account {
        if known > total_in {
            return Built::Missing(known - total_in);
        }
        let mut left = total_in - known;
        let mut order: Vec<(i32, usize)> =
            outs.iter().enumerate().filter_map(|(i, o)| if let OutM::Left { prec, .. } = o { Some((*prec, i)) } else { None }).collect();
        order.sort();
        for (_, i) in order {
            if let OutM::Left { lo, hi, .. } = &outs[i] {
                let (lo, hi) = (*lo as u128, *hi as u128);
                if left <= lo {
                    continue;
                }
                let mut with = amounts.clone();
                with[i] = Some(0);
                let o = make(&with);
                let fee = tx_size(&est(&o), &o) as u128 * fee as u128 / 1000;
                if fee > left {
                    continue;
                }
                let amount = (left - fee).min(hi);
                if amount <= lo {
                    continue;
                }
                amounts[i] = Some(amount as u64);
                left -= amount;
            }
        }
    }
    let outputs = make(&amounts);
    let est = tx_size(&est(&outputs), &outputs);
    Built::Ok { outputs, est }
}

/// What a deal must become.
pub struct DealM {
    pub agreed: Agreed,
    /// per stage: what building gives
    pub stages: Vec<(usize, usize, Built)>,
    /// scripts each input has after each stage (early signatures)
    pub early: Vec<bool>,
    pub pres: Vec<Vec<Vec<u8>>>,
    pub sigs: Vec<Vec<Vec<u8>>>,
    /// completed scripts
    pub scripts: Vec<Vec<u8>>,
    /// estimate of a session built from the whole deal
    pub est: usize,
    pub wire: Vec<u8>,
}

impl DealS {
    /// Inputs in the order they join.
    pub fn sorted(mut self) -> Self {
        self.inputs.sort_by_key(|i| i.stage);
        self.outputs.sort_by_key(|o| o.stage);
        self
    }

    pub fn stage_outs(&self, k: u8) -> Vec<OutM> {
        let mut v = vec![];
        for o in self.outputs.iter().filter(|o| o.stage == k) {
            let s = enc_script(&o.script, &[]);
            match o.left {
                Some((lo, hi, prec)) => v.push(OutM::Left { lo, hi, prec, script: s }),
                None => (0..o.rep.max(1)).for_each(|_| v.push(OutM::Known(o.value, s.clone()))),
            }
        }
        v
    }

    /// Can this input be signed in its stage although later stages add inputs or outputs?
    fn may_sign_early(&self, i: usize, outputs_then: usize) -> bool {
        let x = &self.inputs[i];
        let later_in = self.inputs.iter().any(|j| j.stage > x.stage);
        let later_out = self.outputs.iter().any(|o| o.stage > x.stage);
        let safe_tmpl = x.kind == 2 || x.tmpl.iter().all(|p| !matches!(p, Part::Size) && !(matches!(p, Part::Outs) && later_out));
        safe_tmpl
            && flags(x).iter().all(|f| {
                let anyone = f & 0x80 != 0;
                match f & 0x1f {
                    2 => anyone || !later_in,
                    3 => (anyone || !later_in) && (i < outputs_then || !later_out),
                    _ => (anyone || !later_in) && !later_out,
                }
            })
    }

    pub fn agreed(&self, upto: u8, outputs: &[(u64, Vec<u8>)]) -> Agreed {
        Agreed {
            version: self.version,
            lock_time: self.lock_time,
            inputs: self.inputs.iter().filter(|i| i.stage <= upto).map(|i| (outpoint(i), i.seq, i.value, script_code(&lock_script(self, i)))).collect(),
            outputs: outputs.to_vec(),
        }
    }

    fn sign_model(&self, a: &Agreed, i: usize) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
        let x = &self.inputs[i];
        let pres: Vec<Vec<u8>> = flags(x).iter().map(|f| preimage(a, i, *f as u32)).collect();
        let sigs = pres.iter().map(|p| signature(self, x, &sha256d(p))).collect();
        (pres, sigs)
    }

    pub fn model(&self) -> Result<DealM, (Vec<(usize, usize, Built)>, Vec<bool>)> {
        let mut outputs: Vec<(u64, Vec<u8>)> = vec![];
        let mut scripts: Vec<Vec<u8>> = vec![]; // as exported so far
        let mut early = vec![];
        let mut stages = vec![];
        for k in 0..self.stages {
            let old = scripts.len();
            let now = self.inputs.iter().filter(|i| i.stage <= k).count();
            let mut outs: Vec<OutM> = outputs.iter().map(|(v, s)| OutM::Known(*v, s.clone())).collect();
            outs.extend(self.stage_outs(k));
            let total: u128 = self.inputs[..now].iter().map(|i| i.value as u128).sum();
            let account = !(k == 0 && self.noest && self.outputs.iter().all(|o| o.stage > 0 || o.left.is_none()));
            let est = |o: &[(u64, Vec<u8>)]| -> Vec<Vec<u8>> {
                scripts.iter().cloned().chain(self.inputs[old..now].iter().map(|i| placeholder(self, i, o))).collect()
            };
            let b = build_model(total, &outs, self.fee, account, &est);
            stages.push((old, now, b.clone()));
            outputs = match b {
                Built::Ok { outputs, .. } => outputs,
                Built::Missing(_) => return Err((stages, early)),
            };
            let a = self.agreed(k, &outputs);
            for i in old..now {
                let e = self.inputs[i].early && k + 1 < self.stages && self.may_sign_early(i, outputs.len());
                let script = if e {
                    let (p, s) = self.sign_model(&a, i);
                    render(self, &self.inputs[i], &s, &p, &outputs, 0)
                } else {
                    vec![]
                };
                early.push(e && !script.is_empty());
                scripts.push(script);
            }
        }
        let agreed = self.agreed(255, &outputs);
        let all_out: Vec<OutM> = outputs.iter().map(|(v, s)| OutM::Known(*v, s.clone())).collect();
        let est = match build_model(u128::MAX, &all_out, 0, false, &|o| self.inputs.iter().map(|i| placeholder(self, i, o)).collect()) {
            Built::Ok { est, .. } => est,
            _ => 0,
        };
        let mut m = DealM { agreed, stages, early, pres: vec![], sigs: vec![], scripts: vec![], est, wire: vec![] };
        for i in 0..self.inputs.len() {
            let (p, s) = self.sign_model(&m.agreed, i);
            let r = render(self, &self.inputs[i], &s, &p, &outputs, est as u32);
            if m.early[i] {
                assert_eq!(r, scripts[i], "early signature of input {} does not fit the final transaction", i);
            }
            m.pres.push(p);
            m.sigs.push(s);
            m.scripts.push(r);
        }
        m.wire = wire_of(self, &m.agreed, &m.scripts);
        Ok(m)
    }

    pub fn valid(&self) -> bool {
        let t = TxS {
            version: 0,
            lock_time: 0,
            pool: vec![],
            inputs: vec![],
            outputs: self
                .inputs
                .iter()
                .map(|i| i.lock.clone())
                .chain(self.outputs.iter().map(|o| o.script.clone()))
                .chain(self.inputs.iter().map(|i| i.tmpl.iter().filter_map(|p| if let Part::Op(t) = p { Some(t.clone()) } else { None }).collect()))
                .map(|script| OutS { rep: 1, value: 0, script })
                .collect(),
        };
        let no_pool = |s: &ScriptS| s.iter().all(|t| !matches!(&t.0, OpS::P(a, _) if has_shared(a)) && !matches!(t.0, OpS::X(b) if b < 0xba));
        t.valid()
            && t.outputs.iter().all(|o| no_pool(&o.script))
            && (1..=8).contains(&self.parties)
            && (1..=4).contains(&self.stages)
            && self.ecc < 4
            && !self.inputs.is_empty()
            && self.inputs.iter().any(|i| i.stage == 0)
            && self.inputs.iter().all(|i| {
                i.party < self.parties
                    && i.stage < self.stages
                    && (if i.kind == 1 { 0..=4 } else { 1..=4 }).contains(&i.flags.len())
                    && i.flags.iter().all(|f| f & 0x40 != 0)
                    && i.kind < 3
                    && (i.kind == 2
                        || if i.flags.is_empty() {
                            !i.tmpl.iter().any(|p| matches!(p, Part::Sig(_) | Part::Pre(_)))
                        } else {
                            i.tmpl.iter().any(|p| matches!(p, Part::Sig(_)))
                        })
                    && i.room <= 80
                    && (self.ecc == 0 || i.room >= 72)
            })
            && self.outputs.iter().all(|o| o.stage < self.stages)
            && self.outputs.iter().map(|o| o.rep as u64).sum::<u64>() < 300
    }
}

fn has_shared(b: &Ba) -> bool {
    match b {
        Ba::Shared(_) => true,
        Ba::Cat(v, _) | Ba::Pre(_, _, _, _, Some(v)) => v.iter().any(has_shared),
        Ba::Dig(_, b, _) | Ba::Cut(b, _, _) | Ba::Chain(_, b) => has_shared(b),
        _ => false,
    }
}

pub fn wire_of(d: &DealS, a: &Agreed, scripts: &[Vec<u8>]) -> Vec<u8> {
    let mut v = a.version.to_le_bytes().to_vec();
    v.extend(var_int(a.inputs.len() as u64));
    for (i, s) in scripts.iter().enumerate() {
        v.extend(&a.inputs[i].0);
        v.extend(sized(s));
        v.extend(&a.inputs[i].1.to_le_bytes());
    }
    v.extend(var_int(a.outputs.len() as u64));
    for o in &a.outputs {
        v.extend(out_bytes(o));
    }
    v.extend(&d.lock_time.to_le_bytes());
    v
}

// ---------------------------------------------------------------- generation

fn gen_flags(r: &mut Rng) -> u8 {
    match r.below(12) {
        0..=4 => 0x41,
        5..=9 => *r.pick(&[0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3]),
        10 => *r.pick(&[0x40, 0xc0, 0x44, 0xdf, 0x5f, 0x61, 0xe2, 0xe3]),
        _ => r.u8() | 0x40,
    }
}

fn gen_prec(r: &mut Rng) -> i32 {
    match r.below(6) {
        0 => *r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 0x4000_0000, -0x4000_0000, 0x100, 0xffff]),
        1 => r.u32() as i32 >> r.below(32),
        _ => r.below(4) as i32 - 1,
    }
}

fn small_script(r: &mut Rng) -> ScriptS {
    loop {
        let s = gen_script(r, 0, false, 5);
        if s.iter().all(|t| !matches!(t.0, OpS::X(b) if b < 0xba)) {
            return s;
        }
    }
}

fn gen_in(r: &mut Rng, d: &DealS, sizes: bool) -> InD {
    let kind = *r.pick(&[0, 0, 0, 1, 1, 2, 2]);
    let n = if kind == 1 { r.range(1, 3) } else { 1 };
    let mut lock = small_script(r);
    if r.chance(1, 3) {
        // separators at any place
        for _ in 0..r.range(1, 3) {
            let at = r.usize(lock.len() + 1);
            lock.insert(at, code(0xab));
        }
    }
    let mut tmpl: Vec<Part> = vec![];
    for k in 0..n {
        tmpl.push(Part::Sig(k as u8));
    }
    for _ in 0..r.below(4) {
        let p = match r.below(8) {
            0 | 1 => Part::Pre(r.below(n) as u8),
            2 => Part::Lock,
            3 => Part::Outs,
            4 if sizes => Part::Size,
            5 => Part::Sig(r.below(n) as u8),
            _ => Part::Op(gen_op(r, 0, false, 10)),
        };
        let at = r.usize(tmpl.len() + 1);
        tmpl.insert(at, p);
    }
    let edge32 = |r: &mut Rng| match r.below(3) {
        0 => *r.pick(&[0, 1, 0xffff_ffff, 0xffff_fffe, 0x8000_0000]),
        _ => r.u32() >> r.below(32),
    };
    let mut kind = kind;
    let mut flags: Vec<u8> = (0..n).map(|_| gen_flags(r)).collect();
    if r.chance(1, 10) {
        // an input that needs no signature, and perhaps no script at all
        kind = 1;
        flags.clear();
        tmpl.retain(|p| !matches!(p, Part::Sig(_) | Part::Pre(_)));
        if r.chance(1, 2) {
            tmpl.clear();
        }
    }
    InD {
        hash: if r.chance(1, 10) { r.below(256) } else { r.u64() | 256 },
        vout: edge32(r),
        seq: edge32(r),
        value: match r.below(8) {
            0 => r.below(2000),
            1 => r.u64() >> r.range(14, 63),
            _ => r.range(2_000, 200_000),
        },
        lock,
        kind,
        p2sh: r.chance(1, 2),
        flags,
        tmpl,
        room: if d.ecc > 0 || r.chance(1, 2) { 72 } else { r.range(8, 80) as u8 },
        short: *r.pick(&[0, 0, 2, 3, 9]),
        key: r.u64(),
        party: r.below(d.parties as u64) as u8,
        stage: r.below(d.stages as u64) as u8,
        early: r.chance(1, 2),
    }
}

/// Make a stage beyond the first possible for inputs that are signed before others join.
fn growing(r: &mut Rng, i: &mut InD) {
    if r.chance(2, 3) {
        for f in &mut i.flags {
            *f = *r.pick(&[0xc1, 0xc2, 0xc3, 0xc3]);
        }
        i.tmpl.retain(|p| !matches!(p, Part::Outs | Part::Size));
        i.early = true;
    }
}

pub fn gen_deal(r: &mut Rng, focus_values: bool) -> DealS {
    let mut d = DealS {
        version: if r.chance(1, 4) { r.u32() as i32 } else { r.range(1, 2) as i32 },
        lock_time: if r.chance(1, 2) { 0 } else { r.u32() >> r.below(32) },
        fee: match r.below(6) {
            0..=2 => 1000,
            3 => 0,
            4 => r.below(20_000),
            _ => r.u64() >> r.below(64),
        },
        noest: r.chance(1, 6),
        parties: r.range(1, 4) as u8,
        stages: if r.chance(1, 3) { r.range(2, 3) as u8 } else { 1 },
        ecc: if r.chance(1, 10) { r.range(1, 3) as u8 } else { 0 },
        inputs: vec![],
        outputs: vec![],
    };
    if d.ecc > 0 {
        curve();
        c_ecc();
        rust_ecc();
    }
    if d.fee > 1_000_000 && !r.chance(1, 4) {
        d.fee = 500;
    }
    if r.chance(1, 4) {
        d.version = 1;
        d.lock_time = 0;
    }
    let n = r.range(1, 5);
    let sizes = d.stages == 1 && r.chance(1, 2);
    for k in 0..n {
        let mut i = gen_in(r, &d, sizes);
        if k == 0 {
            i.stage = 0;
        }
        if i.stage + 1 < d.stages {
            growing(r, &mut i);
        }
        d.inputs.push(i);
    }
    if r.chance(1, 40) {
        // values that do not fit together
        let k = r.usize(d.inputs.len());
        d.inputs[k].value = u64::MAX - r.below(3);
    }
    let total: u128 = d.inputs.iter().filter(|i| i.stage == 0).map(|i| i.value as u128).sum();
    let mut budget = total.min(u64::MAX as u128) as u64;
    for _ in 0..r.below(4) {
        let value = match r.below(6) {
            0 => r.below(1000),
            1 => budget,
            2 => budget.saturating_add(r.below(50)),
            _ => r.below(budget / 2 + 1),
        };
        if value > budget && !r.chance(1, 5) {
            continue;
        }
        budget = budget.saturating_sub(value);
        let stage = if d.stages > 1 && r.chance(1, 3) { r.below(d.stages as u64) as u8 } else { 0 };
        d.outputs.push(OutD { stage, rep: 1, value, script: small_script(r), left: None });
    }
    let many = r.chance(1, if focus_values { 25 } else { 80 });
    if many {
        let value = (budget / 300).min(700);
        d.outputs.push(OutD { stage: 0, rep: r.range(249, 255) as u32, value, script: vec![code(0x51)], left: None });
    }
    let nleft = if d.noest { 0 } else { *r.pick(if focus_values { &[0, 1, 2, 3, 4] } else { &[0, 0, 1, 1, 2] }) };
    for _ in 0..nleft {
        let lo = match r.below(4) {
            0 => 0,
            1 | 2 => 546,
            _ => r.below(budget / 2 + 1),
        };
        let hi = match r.below(3) {
            0 => r.range(1, budget / 2 + 1000),
            _ => u64::MAX,
        };
        let stage = if d.stages > 1 && r.chance(1, 3) { r.below(d.stages as u64) as u8 } else { 0 };
        let at = r.usize(d.outputs.len() + 1);
        d.outputs.insert(at, OutD { stage, rep: 1, value: 0, script: small_script(r), left: Some((lo, hi, gen_prec(r))) });
    }
    d = d.sorted();
    // put a bound or an amount exactly at an edge
    if nleft > 0 && r.chance(1, 2) {
        edge(r, &mut d);
    }
    d
}

fn edge(r: &mut Rng, d: &mut DealS) {
    let lefts: Vec<usize> = (0..d.outputs.len()).filter(|i| d.outputs[*i].left.is_some()).collect();
    let k = *r.pick(&lefts);
    let (lo, hi, prec) = d.outputs[k].left.unwrap();
    // the amount it gets without bounds
    d.outputs[k].left = Some((0, u64::MAX, prec));
    let amount = (|| {
        let m = d.model().ok()?;
        let b = &m.stages[d.outputs[k].stage as usize].2;
        if let Built::Ok { outputs, .. } = b {
            let s = enc_script(&d.outputs[k].script, &[]);
            outputs.iter().find(|o| o.1 == s && o.0 > 0).map(|o| o.0)
        } else {
            None
        }
    })();
    d.outputs[k].left = Some((lo, hi, prec));
    let a = match amount {
        Some(a) if a > 2 => a,
        _ => return,
    };
    let near = (a - 1).saturating_add(r.below(3));
    match r.below(4) {
        0 => d.outputs[k].left = Some((near, u64::MAX, prec)),
        1 => d.outputs[k].left = Some((0, near, prec)),
        2 => d.outputs[k].left = Some((near - 1, near, prec)),
        _ => {
            // so little is left that the fee eats it
            let i = r.usize(d.inputs.len());
            let cut = a - r.below(3).min(a);
            if d.inputs[i].value > cut && d.inputs[i].stage == 0 {
                d.inputs[i].value -= cut;
                d.outputs[k].left = Some((r.below(2), u64::MAX, prec));
            }
        }
    }
}
