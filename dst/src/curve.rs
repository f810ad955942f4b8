//! An independent secp256k1: the reference the signature back ends are compared with.
use crate::model::sha256;

pub type U = [u64; 4];

pub const P: U = [0xffff_fffe_ffff_fc2f, !0, !0, !0];
pub const N: U = [0xbfd2_5e8c_d036_4141, 0xbaae_dce6_af48_a03b, 0xffff_ffff_ffff_fffe, !0];
/// 2^256 minus the modulus
const CP: U = [0x1_0000_03d1, 0, 0, 0];
const CN: U = [0x402d_a173_2fc9_bebf, 0x4551_2319_50b7_5fc4, 1, 0];
const GX: U = [0x59f2_815b_16f8_1798, 0x029b_fcdb_2dce_28d9, 0x55a0_6295_ce87_0b07, 0x79be_667e_f9dc_bbac];
const GY: U = [0x9c47_d08f_fb10_d4b8, 0xfd17_b448_a685_5419, 0x5da4_fbfc_0e11_08a8, 0x483a_da77_26a3_c465];

pub fn from_be(b: &[u8]) -> U {
    let mut u = [0; 4];
    for i in 0..4 {
        let mut x = [0; 8];
        x.copy_from_slice(&b[24 - 8 * i..32 - 8 * i]);
        u[i] = u64::from_be_bytes(x);
    }
    u
}

pub fn to_be(u: &U) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..4 {
        b[24 - 8 * i..32 - 8 * i].copy_from_slice(&u[i].to_be_bytes());
    }
    b
}

pub fn lt(a: &U, b: &U) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}

pub fn zero(a: &U) -> bool {
    a.iter().all(|x| *x == 0)
}

fn add_raw(a: &U, b: &U) -> (U, bool) {
    let mut c = 0u128;
    let mut o = [0; 4];
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    (o, c != 0)
}

pub fn sub_raw(a: &U, b: &U) -> (U, bool) {
    let mut borrow = false;
    let mut o = [0; 4];
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(borrow as u64);
        o[i] = x;
        borrow = b1 || b2;
    }
    (o, borrow)
}

/// Arithmetic modulo 2^256 - c.
pub struct M {
    pub m: U,
    c: U,
}

pub const FP: M = M { m: P, c: CP };
pub const FN: M = M { m: N, c: CN };

impl M {
    pub fn red(&self, a: &U) -> U {
        if lt(a, &self.m) {
            *a
        } else {
            sub_raw(a, &self.m).0
        }
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let (s, carry) = add_raw(a, b);
        if carry || !lt(&s, &self.m) {
            sub_raw(&s, &self.m).0
        } else {
            s
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        let (d, borrow) = sub_raw(a, b);
        if borrow {
            add_raw(&d, &self.m).0
        } else {
            d
        }
    }
    pub fn neg(&self, a: &U) -> U {
        self.sub(&[0; 4], a)
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        let mut w = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += w[i + j] as u128 + a[i] as u128 * b[j] as u128;
                w[i + j] = c as u64;
                c >>= 64;
            }
            w[i + 4] = c as u64;
        }
        // hi * 2^256 + lo = hi * c + lo
        while w[4..].iter().any(|x| *x != 0) {
            let hi = [w[4], w[5], w[6], w[7]];
            let mut n = [w[0], w[1], w[2], w[3], 0, 0, 0, 0];
            for i in 0..4 {
                let mut c = 0u128;
                for j in 0..4 {
                    c += n[i + j] as u128 + hi[i] as u128 * self.c[j] as u128;
                    n[i + j] = c as u64;
                    c >>= 64;
                }
                let mut k = i + 4;
                while c != 0 && k < 8 {
                    c += n[k] as u128;
                    n[k] = c as u64;
                    c >>= 64;
                    k += 1;
                }
            }
            w = n;
        }
        self.red(&[w[0], w[1], w[2], w[3]])
    }
    pub fn pow(&self, a: &U, e: &U) -> U {
        let mut r = [1, 0, 0, 0];
        for i in (0..256).rev() {
            r = self.mul(&r, &r);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: &U) -> U {
        self.pow(a, &sub_raw(&self.m, &[2, 0, 0, 0]).0)
    }
}

/// Jacobian coordinates; z = 0 is the point at infinity.
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    x: U,
    y: U,
    z: U,
}

pub const INF: Pt = Pt { x: [1, 0, 0, 0], y: [1, 0, 0, 0], z: [0; 4] };
pub const G: Pt = Pt { x: GX, y: GY, z: [1, 0, 0, 0] };

impl Pt {
    pub fn dbl(&self) -> Pt {
        if zero(&self.z) || zero(&self.y) {
            return INF;
        }
        let f = &FP;
        let y2 = f.mul(&self.y, &self.y);
        let s = f.mul(&self.x, &y2);
        let s = f.add(&s, &s);
        let s = f.add(&s, &s);
        let m = f.mul(&self.x, &self.x);
        let m = f.add(&f.add(&m, &m), &m);
        let x = f.sub(&f.sub(&f.mul(&m, &m), &s), &s);
        let y4 = f.mul(&y2, &y2);
        let y4 = f.add(&y4, &y4);
        let y4 = f.add(&y4, &y4);
        let y4 = f.add(&y4, &y4);
        let y = f.sub(&f.mul(&m, &f.sub(&s, &x)), &y4);
        let z = f.mul(&self.y, &self.z);
        Pt { x, y, z: f.add(&z, &z) }
    }
    pub fn add(&self, o: &Pt) -> Pt {
        if zero(&self.z) {
            return *o;
        }
        if zero(&o.z) {
            return *self;
        }
        let f = &FP;
        let z1 = f.mul(&self.z, &self.z);
        let z2 = f.mul(&o.z, &o.z);
        let u1 = f.mul(&self.x, &z2);
        let u2 = f.mul(&o.x, &z1);
        let s1 = f.mul(&self.y, &f.mul(&z2, &o.z));
        let s2 = f.mul(&o.y, &f.mul(&z1, &self.z));
        if u1 == u2 {
            return if s1 == s2 { self.dbl() } else { INF };
        }
        let h = f.sub(&u2, &u1);
        let r = f.sub(&s2, &s1);
        let h2 = f.mul(&h, &h);
        let h3 = f.mul(&h2, &h);
        let v = f.mul(&u1, &h2);
        let x = f.sub(&f.sub(&f.sub(&f.mul(&r, &r), &h3), &v), &v);
        let y = f.sub(&f.mul(&r, &f.sub(&v, &x)), &f.mul(&s1, &h3));
        Pt { x, y, z: f.mul(&h, &f.mul(&self.z, &o.z)) }
    }
    pub fn mul(&self, k: &U) -> Pt {
        let mut r = INF;
        for i in (0..256).rev() {
            r = r.dbl();
            if k[i / 64] >> (i % 64) & 1 == 1 {
                r = r.add(self);
            }
        }
        r
    }
    pub fn affine(&self) -> Option<(U, U)> {
        if zero(&self.z) {
            return None;
        }
        let i = FP.inv(&self.z);
        let i2 = FP.mul(&i, &i);
        Some((FP.mul(&self.x, &i2), FP.mul(&self.y, &FP.mul(&i2, &i))))
    }
}

fn rhs(x: &U) -> U {
    FP.add(&FP.mul(&FP.mul(x, x), x), &[7, 0, 0, 0])
}

fn sqrt(a: &U) -> Option<U> {
    // (p + 1) / 4
    let e = [0xffff_ffff_bfff_ff0c, !0, !0, 0x3fff_ffff_ffff_ffff];
    let r = FP.pow(a, &e);
    if FP.mul(&r, &r) == *a {
        Some(r)
    } else {
        None
    }
}

/// A public key in one of the forms nodes accept: compressed, uncompressed, hybrid.
pub fn parse_pubkey(b: &[u8]) -> Option<Pt> {
    match (b.len(), b.get(0)?) {
        (33, 2) | (33, 3) => {
            let x = from_be(&b[1..]);
            if !lt(&x, &P) {
                return None;
            }
            let y = sqrt(&rhs(&x))?;
            let y = if (y[0] & 1) as u8 == b[0] & 1 { y } else { FP.neg(&y) };
            Some(Pt { x, y, z: [1, 0, 0, 0] })
        }
        (65, 4) | (65, 6) | (65, 7) => {
            let (x, y) = (from_be(&b[1..33]), from_be(&b[33..]));
            if !lt(&x, &P) || !lt(&y, &P) || FP.mul(&y, &y) != rhs(&x) {
                return None;
            }
            if b[0] != 4 && (y[0] & 1) as u8 != b[0] & 1 {
                return None;
            }
            Some(Pt { x, y, z: [1, 0, 0, 0] })
        }
        _ => None,
    }
}

pub fn compressed(p: &Pt) -> Vec<u8> {
    let (x, y) = p.affine().unwrap();
    let mut v = vec![2 + (y[0] & 1) as u8];
    v.extend(&to_be(&x));
    v
}

pub fn uncompressed(p: &Pt, hybrid: bool) -> Vec<u8> {
    let (x, y) = p.affine().unwrap();
    let mut v = vec![if hybrid { 6 + (y[0] & 1) as u8 } else { 4 }];
    v.extend(&to_be(&x));
    v.extend(&to_be(&y));
    v
}

pub fn parse_seckey(b: &[u8]) -> Option<U> {
    if b.len() != 32 {
        return None;
    }
    let k = from_be(b);
    if zero(&k) || !lt(&k, &N) {
        None
    } else {
        Some(k)
    }
}

pub fn is_high(s: &U) -> bool {
    // (n - 1) / 2 is the highest low value
    lt(&FN.neg(s), s)
}

pub fn hmac(key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    for p in parts {
        inner.extend(*p);
    }
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend(sha256(&inner));
    sha256(&outer)
}

/// Deterministic signature (RFC 6979), low S.
pub fn sign(sk: &U, digest: &[u8], seed: &[u8]) -> (U, U) {
    let z = FN.red(&from_be(digest));
    let x = to_be(sk);
    let (mut k, mut v) = (vec![0; 32], vec![1; 32]);
    k = hmac(&k, &[&v, &[0], &x, seed]);
    v = hmac(&k, &[&v]);
    k = hmac(&k, &[&v, &[1], &x, seed]);
    v = hmac(&k, &[&v]);
    loop {
        v = hmac(&k, &[&v]);
        let nonce = from_be(&v);
        if !zero(&nonce) && lt(&nonce, &N) {
            let (rx, _) = G.mul(&nonce).affine().unwrap();
            let r = FN.red(&rx);
            let s = FN.mul(&FN.inv(&nonce), &FN.add(&z, &FN.mul(&r, sk)));
            if !zero(&r) && !zero(&s) {
                return (r, if is_high(&s) { FN.neg(&s) } else { s });
            }
        }
        k = hmac(&k, &[&v, &[0]]);
        v = hmac(&k, &[&v]);
    }
}

pub fn ecdsa(q: &Pt, digest: &[u8], r: &U, s: &U) -> bool {
    if zero(r) || zero(s) || !lt(r, &N) || !lt(s, &N) {
        return false;
    }
    let z = FN.red(&from_be(digest));
    let w = FN.inv(s);
    let p = G.mul(&FN.mul(&z, &w)).add(&q.mul(&FN.mul(r, &w)));
    match p.affine() {
        Some((x, _)) => FN.red(&x) == *r,
        None => false,
    }
}

pub fn der_int(u: &U) -> Vec<u8> {
    let mut b = vec![0];
    b.extend(&to_be(u));
    while b.len() > 1 && b[0] == 0 && b[1] < 0x80 {
        b.remove(0);
    }
    b
}

pub fn der_raw(r: &[u8], s: &[u8]) -> Vec<u8> {
    let mut v = vec![0x30, (4 + r.len() + s.len()) as u8, 2, r.len() as u8];
    v.extend(r);
    v.extend(&[2, s.len() as u8]);
    v.extend(s);
    v
}

pub fn der(r: &U, s: &U) -> Vec<u8> {
    der_raw(&der_int(r), &der_int(s))
}

fn in_range(b: &[u8]) -> Option<U> {
    let mut b = b;
    while b.len() > 1 && b[0] == 0 {
        b = &b[1..];
    }
    if b.len() > 32 {
        return None;
    }
    let mut w = vec![0; 32 - b.len()];
    w.extend(b);
    let u = from_be(&w);
    if zero(&u) || !lt(&u, &N) {
        None
    } else {
        Some(u)
    }
}

/// A signature in strict DER with both numbers between 1 and the group order.
pub fn parse_strict(b: &[u8]) -> Option<(U, U)> {
    fn int<'a>(b: &'a [u8]) -> Option<(&'a [u8], &'a [u8])> {
        if b.len() < 3 || b[0] != 2 {
            return None;
        }
        let n = b[1] as usize;
        if n == 0 || n > 33 || b.len() < 2 + n {
            return None;
        }
        let v = &b[2..2 + n];
        if v[0] & 0x80 != 0 || (n > 1 && v[0] == 0 && v[1] & 0x80 == 0) {
            return None;
        }
        Some((v, &b[2 + n..]))
    }
    if b.len() < 8 || b[0] != 0x30 || b[1] as usize != b.len() - 2 {
        return None;
    }
    let (r, rest) = int(&b[2..])?;
    let (s, rest) = int(rest)?;
    if !rest.is_empty() {
        return None;
    }
    Some((in_range(r)?, in_range(s)?))
}

/// A signature in the forms old software wrote: any length encoding, padding, bytes left over.
pub fn parse_lax(b: &[u8]) -> Option<(U, U)> {
    let mut at = 0usize;
    let mut next = |n: usize| -> Option<&[u8]> {
        let s = b.get(at..at.checked_add(n)?)?;
        at += n;
        Some(s)
    };
    if next(1)? != [0x30] {
        return None;
    }
    let l = next(1)?[0];
    if l & 0x80 != 0 {
        next((l & 0x7f) as usize)?;
    }
    let mut vals = vec![];
    for _ in 0..2 {
        if next(1)? != [2] {
            return None;
        }
        let l = next(1)?[0];
        let n = if l & 0x80 != 0 {
            let mut lb = next((l & 0x7f) as usize)?;
            while !lb.is_empty() && lb[0] == 0 {
                lb = &lb[1..];
            }
            if lb.len() >= 8 {
                return None;
            }
            lb.iter().fold(0usize, |a, x| a << 8 | *x as usize)
        } else {
            l as usize
        };
        vals.push(next(n)?.to_vec());
    }
    let val = |v: &[u8]| if v.is_empty() { None } else { in_range(v) };
    Some((val(&vals[0])?, val(&vals[1])?))
}
