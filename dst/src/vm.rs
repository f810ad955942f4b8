//! A reference Bitcoin Cash validator: transaction parser, script interpreter (rules of the 2020
//! network, with the standardness rules a wallet has to meet), relative and absolute lock times.
//! Works on bytes only; shares nothing with the code under test.
use crate::model::{hash160, ripemd, sha256, sha256d, sized, Cur};
use crate::worlds::deal;

#[derive(Clone, Debug, PartialEq)]
pub struct WIn {
    /// transaction hash and index, as on the wire
    pub out: Vec<u8>,
    pub script: Vec<u8>,
    pub seq: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct WTx {
    pub version: i32,
    pub ins: Vec<WIn>,
    pub outs: Vec<(u64, Vec<u8>)>,
    pub lock: u32,
}

pub fn parse(b: &[u8]) -> Option<WTx> {
    let mut c = Cur::new(b);
    let version = c.le(4)? as u32 as i32;
    let n = c.var()?;
    let mut ins = vec![];
    for _ in 0..n {
        ins.push(WIn { out: c.take(36)?.to_vec(), script: c.sized()?.to_vec(), seq: c.le(4)? as u32 });
    }
    let n = c.var()?;
    let mut outs = vec![];
    for _ in 0..n {
        outs.push((c.le(8)?, c.sized()?.to_vec()));
    }
    let lock = c.le(4)? as u32;
    if c.done() {
        Some(WTx { version, ins, outs, lock })
    } else {
        None
    }
}

/// An output on its own.
pub fn out(b: &[u8]) -> Option<(u64, Vec<u8>)> {
    let mut c = Cur::new(b);
    let o = (c.le(8)?, c.sized()?.to_vec());
    if c.done() {
        Some(o)
    } else {
        None
    }
}

pub fn enc(t: &WTx) -> Vec<u8> {
    let mut v = t.version.to_le_bytes().to_vec();
    v.extend(crate::model::var_int(t.ins.len() as u64));
    for i in &t.ins {
        v.extend(&i.out);
        v.extend(sized(&i.script));
        v.extend(&i.seq.to_le_bytes());
    }
    v.extend(crate::model::var_int(t.outs.len() as u64));
    for o in &t.outs {
        v.extend(deal::out_bytes(o));
    }
    v.extend(&t.lock.to_le_bytes());
    v
}

pub fn sighash(t: &WTx, i: usize, code: &[u8], value: u64, flags: u32) -> Vec<u8> {
    let a = deal::Agreed {
        version: t.version,
        lock_time: t.lock,
        inputs: t.ins.iter().enumerate().map(|(j, x)| (x.out.clone(), x.seq, if i == j { value } else { 0 }, if i == j { code.to_vec() } else { vec![] })).collect(),
        outputs: t.outs.clone(),
    };
    sha256d(&deal::preimage(&a, i, flags))
}

/// Strict DER, low S, and the mathematics of an implementation that is not under test.
pub fn ecdsa(pk: &[u8], digest: &[u8], sig: &[u8]) -> Result<bool, String> {
    let (r, s) = crate::curve::parse_strict(sig).ok_or("signature encoding")?;
    let _ = r;
    if crate::curve::is_high(&s) {
        return Err("high S".into());
    }
    let pk = match (pk.len(), pk.first()) {
        (33, Some(2)) | (33, Some(3)) | (65, Some(4)) => secp256k1::PublicKey::from_slice(pk).map_err(|_| "public key")?,
        _ => return Err("public key encoding".into()),
    };
    let sig = secp256k1::Signature::from_der(sig).map_err(|_| "signature")?;
    let m = secp256k1::Message::from_slice(digest).map_err(|_| "digest")?;
    Ok(deal::curve().verify(&m, &sig, &pk).is_ok())
}

pub struct Spend<'a> {
    pub tx: &'a WTx,
    pub i: usize,
    pub value: u64,
}

impl Spend<'_> {
    fn checksig(&self, sig: &[u8], pk: &[u8], code: &[u8]) -> Result<bool, String> {
        if sig.is_empty() {
            return Ok(false);
        }
        let (s, f) = sig.split_at(sig.len() - 1);
        let f = f[0];
        if f & 0x40 == 0 || !(1..=3).contains(&(f & 0x1f)) || f & 0x20 != 0 {
            return Err("hash type".into());
        }
        let d = sighash(self.tx, self.i, code, self.value, f as u32);
        if ecdsa(pk, &d, s)? {
            Ok(true)
        } else {
            Err("signature does not match".into())
        }
    }
    fn cltv(&self, n: i64) -> Result<(), String> {
        let (l, n) = (self.tx.lock as i64, n);
        if n < 0 || (l < 500_000_000) != (n < 500_000_000) || n > l || self.tx.ins[self.i].seq == u32::MAX {
            return Err("lock time".into());
        }
        Ok(())
    }
    fn csv(&self, n: i64) -> Result<(), String> {
        if n < 0 {
            return Err("negative sequence".into());
        }
        if n & (1 << 31) != 0 {
            return Ok(());
        }
        let s = self.tx.ins[self.i].seq as i64;
        if (self.tx.version as u32) < 2 || s & (1 << 31) != 0 || (s ^ n) & (1 << 22) != 0 || n & 0xffff > s & 0xffff {
            return Err("sequence".into());
        }
        Ok(())
    }
}

fn truth(b: &[u8]) -> bool {
    b.iter().enumerate().any(|(i, x)| *x != 0 && !(i == b.len() - 1 && *x == 0x80))
}

fn minimal_num(b: &[u8]) -> bool {
    match b.last() {
        Some(l) if l & 0x7f == 0 => b.len() > 1 && b[b.len() - 2] & 0x80 != 0,
        _ => true,
    }
}

fn num(b: &[u8], max: usize) -> Result<i64, String> {
    if b.len() > max || !minimal_num(b) {
        return Err("number encoding".into());
    }
    Ok(dec_num(b))
}

fn dec_num(b: &[u8]) -> i64 {
    let mut n: i64 = 0;
    for (i, x) in b.iter().enumerate() {
        let x = if i == b.len() - 1 { x & 0x7f } else { *x };
        n |= (x as i64) << (8 * i);
    }
    if b.last().map_or(false, |l| l & 0x80 != 0) {
        -n
    } else {
        n
    }
}

pub fn enc_num(n: i64) -> Vec<u8> {
    if n == 0 {
        return vec![];
    }
    let mut v = vec![];
    let mut a = n.unsigned_abs();
    while a > 0 {
        v.push(a as u8);
        a >>= 8;
    }
    if v[v.len() - 1] & 0x80 != 0 {
        v.push(0);
    }
    if n < 0 {
        let l = v.len() - 1;
        v[l] |= 0x80;
    }
    v
}

fn minimal_bin(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let neg = v.last().map_or(false, |l| l & 0x80 != 0);
    if let Some(l) = v.last_mut() {
        *l &= 0x7f;
    }
    while v.last() == Some(&0) {
        v.pop();
    }
    if v.is_empty() {
        return v;
    }
    if v[v.len() - 1] & 0x80 != 0 {
        v.push(0);
    }
    if neg {
        let l = v.len() - 1;
        v[l] |= 0x80;
    }
    v
}

enum Tok<'a> {
    Push(&'a [u8]),
    Op(u8),
}

/// One operation and the position after it.
fn next(s: &[u8], at: usize) -> Result<(Tok<'_>, usize), String> {
    let op = s[at];
    let (n, h) = match op {
        0x00..=0x4b => (op as usize, 1),
        0x4c..=0x4e => {
            let w = 1 << (op - 0x4c);
            let l = s.get(at + 1..at + 1 + w).ok_or("cut push")?;
            (l.iter().rev().fold(0usize, |a, b| a << 8 | *b as usize), 1 + w)
        }
        _ => return Ok((Tok::Op(op), at + 1)),
    };
    let d = s.get(at + h..(at + h).checked_add(n).ok_or("push")?).ok_or("cut push")?;
    let minimal = match d.len() {
        0 => op == 0,
        1 if (1..=16).contains(&d[0]) || d[0] == 0x81 => false,
        1..=75 => op as usize == d.len(),
        76..=255 => op == 0x4c,
        256..=65535 => op == 0x4d,
        _ => op == 0x4e,
    };
    if !minimal {
        return Err("push is not minimal".into());
    }
    Ok((Tok::Push(d), at + h + n))
}

pub fn eval(st: &mut Vec<Vec<u8>>, s: &[u8], sp: &Spend) -> Result<(), String> {
    let mut alt: Vec<Vec<u8>> = vec![];
    let mut cond: Vec<bool> = vec![];
    let (mut at, mut sep, mut count) = (0, 0, 0);
    fn pop(st: &mut Vec<Vec<u8>>) -> Result<Vec<u8>, String> {
        st.pop().ok_or_else(|| "stack is empty".into())
    }
    fn n4(st: &mut Vec<Vec<u8>>) -> Result<i64, String> {
        num(&pop(st)?, 4)
    }
    fn bool(b: bool) -> Vec<u8> {
        if b {
            vec![1]
        } else {
            vec![]
        }
    }
    if s.len() > 10_000 {
        return Err("script is too long".into());
    }
    while at < s.len() {
        let (tok, after) = next(s, at)?;
        at = after;
        let run = cond.iter().all(|c| *c);
        let op = match tok {
            Tok::Push(d) => {
                if d.len() > 520 {
                    return Err("push is too long".into());
                }
                if run {
                    st.push(d.to_vec());
                }
                continue;
            }
            Tok::Op(op) => op,
        };
        if op > 0x60 {
            count += 1;
            if count > 201 {
                return Err("too many operations".into());
            }
        }
        if matches!(op, 0x83 | 0x8d | 0x8e | 0x95 | 0x98 | 0x99) {
            return Err("disabled".into());
        }
        match op {
            0x63 | 0x64 => {
                let v = if run { truth(&pop(st)?) ^ (op == 0x64) } else { false };
                cond.push(v);
                continue;
            }
            0x67 => {
                let c = cond.last_mut().ok_or("unbalanced")?;
                *c = !*c;
                continue;
            }
            0x68 => {
                cond.pop().ok_or("unbalanced")?;
                continue;
            }
            _ if !run => continue,
            _ => {}
        }
        let need = |n: usize| if st.len() < n { Err("stack is too small".to_string()) } else { Ok(st.len()) };
        match op {
            0x4f => st.push(vec![0x81]),
            0x51..=0x60 => st.push(vec![op - 0x50]),
            0x61 | 0xb0 | 0xb3..=0xb9 => {}
            0x69 => {
                if !truth(&pop(st)?) {
                    return Err("verify".into());
                }
            }
            0x6a => return Err("return".into()),
            0x6b => alt.push(pop(st)?),
            0x6c => st.push(alt.pop().ok_or("alt stack is empty")?),
            0x6d => {
                pop(st)?;
                pop(st)?;
            }
            0x6e | 0x6f => {
                let k = if op == 0x6e { 2 } else { 3 };
                let n = need(k)?;
                for j in 0..k {
                    st.push(st[n - k + j].clone());
                }
            }
            0x70 => {
                let n = need(4)?;
                st.push(st[n - 4].clone());
                st.push(st[n - 3].clone());
            }
            0x71 => {
                let n = need(6)?;
                st[n - 6..].rotate_left(2);
            }
            0x72 => {
                let n = need(4)?;
                st[n - 4..].rotate_left(2);
            }
            0x74 => st.push(enc_num(st.len() as i64)),
            0x75 => {
                pop(st)?;
            }
            0x76 => {
                let n = need(1)?;
                st.push(st[n - 1].clone());
            }
            0x77 => {
                let n = need(2)?;
                st.remove(n - 2);
            }
            0x78 => {
                let n = need(2)?;
                st.push(st[n - 2].clone());
            }
            0x79 | 0x7a => {
                let k = n4(st)?;
                if k < 0 || k as usize >= st.len() {
                    return Err("depth".into());
                }
                let p = st.len() - 1 - k as usize;
                let x = if op == 0x79 { st[p].clone() } else { st.remove(p) };
                st.push(x);
            }
            0x7b => {
                let n = need(3)?;
                st[n - 3..].rotate_left(1);
            }
            0x7c => {
                let n = need(2)?;
                st.swap(n - 2, n - 1);
            }
            0x7d => {
                let n = need(2)?;
                let x = st[n - 1].clone();
                st.insert(n - 2, x);
            }
            0x7e => {
                let b = pop(st)?;
                let mut a = pop(st)?;
                a.extend(b);
                if a.len() > 520 {
                    return Err("too long".into());
                }
                st.push(a);
            }
            0x7f => {
                let k = n4(st)?;
                let a = pop(st)?;
                if k < 0 || k as usize > a.len() {
                    return Err("split".into());
                }
                st.push(a[..k as usize].to_vec());
                st.push(a[k as usize..].to_vec());
            }
            0x80 => {
                let k = n4(st)?;
                let mut a = minimal_bin(&pop(st)?);
                if !(0..=520).contains(&k) || a.len() > k as usize {
                    return Err("num2bin".into());
                }
                let neg = match a.last_mut() {
                    Some(l) => {
                        let neg = *l & 0x80;
                        *l &= 0x7f;
                        neg
                    }
                    None => 0,
                };
                a.resize(k as usize, 0);
                if let Some(l) = a.last_mut() {
                    *l |= neg;
                }
                st.push(a);
            }
            0x81 => {
                let a = minimal_bin(&pop(st)?);
                if a.len() > 4 {
                    return Err("bin2num".into());
                }
                st.push(a);
            }
            0x82 => {
                let n = need(1)?;
                st.push(enc_num(st[n - 1].len() as i64));
            }
            0x84..=0x86 => {
                let (b, a) = (pop(st)?, pop(st)?);
                if a.len() != b.len() {
                    return Err("operand sizes".into());
                }
                st.push(a.iter().zip(&b).map(|(x, y)| match op {
                    0x84 => x & y,
                    0x85 => x | y,
                    _ => x ^ y,
                }).collect());
            }
            0x87 | 0x88 => {
                let (b, a) = (pop(st)?, pop(st)?);
                if op == 0x87 {
                    st.push(bool(a == b));
                } else if a != b {
                    return Err("equalverify".into());
                }
            }
            0x8b | 0x8c | 0x8f..=0x92 => {
                let a = n4(st)?;
                st.push(match op {
                    0x8b => enc_num(a + 1),
                    0x8c => enc_num(a - 1),
                    0x8f => enc_num(-a),
                    0x90 => enc_num(a.abs()),
                    0x91 => bool(a == 0),
                    _ => bool(a != 0),
                });
            }
            0x93 | 0x94 | 0x96 | 0x97 | 0x9a..=0xa4 => {
                let (b, a) = (n4(st)?, n4(st)?);
                if matches!(op, 0x96 | 0x97) && b == 0 {
                    return Err("division by zero".into());
                }
                let v = match op {
                    0x93 => enc_num(a + b),
                    0x94 => enc_num(a - b),
                    0x96 => enc_num(a / b),
                    0x97 => enc_num(a % b),
                    0x9a => bool(a != 0 && b != 0),
                    0x9b => bool(a != 0 || b != 0),
                    0x9c | 0x9d => bool(a == b),
                    0x9e => bool(a != b),
                    0x9f => bool(a < b),
                    0xa0 => bool(a > b),
                    0xa1 => bool(a <= b),
                    0xa2 => bool(a >= b),
                    0xa3 => enc_num(a.min(b)),
                    _ => enc_num(a.max(b)),
                };
                if op == 0x9d {
                    if v.is_empty() {
                        return Err("numequalverify".into());
                    }
                } else {
                    st.push(v);
                }
            }
            0xa5 => {
                let (hi, lo, x) = (n4(st)?, n4(st)?, n4(st)?);
                st.push(bool(lo <= x && x < hi));
            }
            0xa6 | 0xa8 | 0xa9 | 0xaa => {
                let a = pop(st)?;
                st.push(match op {
                    0xa6 => ripemd(&a),
                    0xa8 => sha256(&a),
                    0xa9 => hash160(&a),
                    _ => sha256d(&a),
                });
            }
            0xab => sep = at,
            0xac | 0xad => {
                let (pk, sig) = (pop(st)?, pop(st)?);
                let ok = sp.checksig(&sig, &pk, &s[sep..])?;
                if op == 0xac {
                    st.push(bool(ok));
                } else if !ok {
                    return Err("checksigverify".into());
                }
            }
            0xae | 0xaf => {
                let nk = n4(st)?;
                if !(0..=20).contains(&nk) {
                    return Err("keys".into());
                }
                count += nk as usize;
                let keys: Vec<_> = (0..nk).map(|_| pop(st)).collect::<Result<_, _>>()?;
                let ns = n4(st)?;
                if ns < 0 || ns > nk {
                    return Err("signatures".into());
                }
                let sigs: Vec<_> = (0..ns).map(|_| pop(st)).collect::<Result<_, _>>()?;
                if !pop(st)?.is_empty() {
                    return Err("dummy".into());
                }
                // (both topmost first)
                let (mut k, mut ok) = (0, true);
                for sig in &sigs {
                    loop {
                        if k >= keys.len() {
                            ok = false;
                            break;
                        }
                        k += 1;
                        if let Ok(true) = sp.checksig(sig, &keys[k - 1], &s[sep..]) {
                            break;
                        }
                    }
                }
                if !ok && sigs.iter().any(|s| !s.is_empty()) {
                    return Err("multisig".into());
                }
                if op == 0xae {
                    st.push(bool(ok));
                } else if !ok {
                    return Err("multisigverify".into());
                }
            }
            0xb1 => {
                let n = need(1)?;
                sp.cltv(num(&st[n - 1], 5)?)?;
            }
            0xb2 => {
                let n = need(1)?;
                sp.csv(num(&st[n - 1], 5)?)?;
            }
            0xba | 0xbb => {
                let (pk, msg, sig) = (pop(st)?, pop(st)?, pop(st)?);
                let ok = !sig.is_empty() && {
                    if !ecdsa(&pk, &sha256(&msg), &sig)? {
                        return Err("data signature does not match".into());
                    }
                    true
                };
                if op == 0xba {
                    st.push(bool(ok));
                } else if !ok {
                    return Err("checkdatasigverify".into());
                }
            }
            0xbc => {
                let mut a = pop(st)?;
                a.reverse();
                st.push(a);
            }
            _ => return Err(format!("operation {:02x}", op)),
        }
        if st.len() + alt.len() > 1000 {
            return Err("stack is too large".into());
        }
    }
    if cond.is_empty() {
        Ok(())
    } else {
        Err("unbalanced".into())
    }
}

pub fn is_p2sh(s: &[u8]) -> bool {
    s.len() == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87
}

/// Whether the input spends an output with this script and value.
pub fn verify(tx: &WTx, i: usize, spk: &[u8], value: u64) -> Result<(), String> {
    let sp = Spend { tx, i, value };
    let sig = &tx.ins[i].script;
    let mut at = 0;
    while at < sig.len() {
        let (t, a) = next(sig, at)?;
        if let Tok::Op(o) = t {
            if o > 0x60 {
                return Err("input script does more than push".into());
            }
        }
        at = a;
    }
    let mut st = vec![];
    eval(&mut st, sig, &sp)?;
    let pushed = st.clone();
    eval(&mut st, spk, &sp)?;
    if !st.last().map_or(false, |t| truth(t)) {
        return Err("script is false".into());
    }
    if is_p2sh(spk) {
        st = pushed;
        let redeem = st.pop().ok_or("no redeem script")?;
        eval(&mut st, &redeem, &sp)?;
        if !st.last().map_or(false, |t| truth(t)) {
            return Err("redeem script is false".into());
        }
    }
    if st.len() != 1 {
        return Err("stack is not clean".into());
    }
    Ok(())
}

/// The operations of a script as (code, pushed bytes), if it can be read to its end.
pub fn ops(s: &[u8]) -> Option<Vec<(u8, Option<&[u8]>)>> {
    let mut v = vec![];
    let mut at = 0;
    while at < s.len() {
        let op = s[at];
        at += 1;
        let (n, size) = match op {
            1..=0x4b => (0, op as usize),
            0x4c => (1, 0),
            0x4d => (2, 0),
            0x4e => (4, 0),
            _ => {
                v.push((op, None));
                continue;
            }
        };
        let len = s.get(at..at + n)?.iter().rev().fold(size, |a, b| a << 8 | *b as usize);
        at += n;
        v.push((op, Some(s.get(at..at.checked_add(len)?)?)));
        at += len;
    }
    Some(v)
}
