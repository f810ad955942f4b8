//! Damage that storage and transport do to an image: the edits of a plan, and where they bite.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Edit {
    /// flip a bit
    Flip(u32, u8),
    Set(u32, u8),
    /// lost tail
    Cut(u32),
    /// garbage after the end
    Extend(u64, u16),
    /// a lost or zeroed range
    Zero(u32, u16),
    Delete(u32, u16),
    Insert(u32, Vec<u8>),
    /// a range written a second time after itself
    Repeat(u32, u16),
    /// a range copied over another place (misdirected write)
    Copy(u32, u32, u16),
    /// new image up to here, the old one from there on (torn overwrite)
    Torn(u32),
    /// a length field replaced: which one, by what
    Len(u16, u8),
    /// letters change case
    Case(u32, u16),
}

impl Edit {
    pub fn kind(&self) -> &'static str {
        match self {
            Edit::Flip(..) => "bit flip",
            Edit::Set(..) => "byte changed",
            Edit::Cut(..) => "truncation",
            Edit::Extend(..) => "garbage appended",
            Edit::Zero(..) => "zeroed range",
            Edit::Delete(..) => "lost range",
            Edit::Insert(..) => "inserted bytes",
            Edit::Repeat(..) => "repeated range",
            Edit::Copy(..) => "misdirected write",
            Edit::Torn(..) => "torn overwrite",
            Edit::Len(..) => "hostile length",
            Edit::Case(..) => "case change",
        }
    }
}

pub fn hostile_len(k: u8) -> Vec<u8> {
    match k % 20 {
        0 => vec![0],
        1 => vec![1],
        2 => vec![0xfc],
        3 => vec![0xfd, 0, 0],
        4 => vec![0xfd, 0xfd, 0],
        5 => vec![0xfd, 0xff, 0xff],
        6 => vec![0xfe, 1, 0, 0, 0],
        7 => vec![0xfe, 0, 0, 0x10, 0],
        8 => vec![0xfe, 0xff, 0xff, 0xff, 0x7f],
        9 => vec![0xfe, 0xff, 0xff, 0xff, 0xff],
        10 => vec![0xff, 0, 0, 0, 0, 1, 0, 0, 0],
        11 => vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
        12 => vec![0xff, 0, 0, 0, 0, 0, 0, 0, 0x80],
        13 => vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
        14 => vec![0xff, 2, 0, 0, 0, 0, 0, 0, 0],
        15 => vec![0x4e, 0xff, 0xff, 0xff, 0xff],
        16 => vec![0x4e, 0, 0, 0, 0x10],
        17 => vec![0x4d, 0xff, 0xff],
        18 => vec![0x4c, 0xff],
        _ => vec![0x4c, 0],
    }
}

/// Apply to `img`; `old` is what was stored before, `lens` the places of length fields of the
/// undamaged image (offset, width).
pub fn apply(img: &[u8], old: &[u8], lens: &[(usize, usize)], edits: &[Edit]) -> Vec<u8> {
    let mut v = img.to_vec();
    for e in edits {
        let n = v.len();
        // positions close to u32::MAX count from the end
        let within = |x: u32, n: usize| {
            let back = (u32::MAX - x) as usize;
            if n == 0 {
                0
            } else if back < 16 {
                n - 1 - back.min(n - 1)
            } else {
                x as usize % n
            }
        };
        let at = |x: u32| within(x, n);
        match e {
            Edit::Flip(p, b) => {
                if n > 0 {
                    v[at(*p)] ^= 1 << (b % 8);
                }
            }
            Edit::Set(p, b) => {
                if n > 0 {
                    v[at(*p)] = *b;
                }
            }
            Edit::Cut(p) => v.truncate(at(*p)),
            Edit::Extend(f, k) => v.extend(crate::model::fill(*k as u32 % 600, *f)),
            Edit::Zero(p, k) => {
                let a = at(*p);
                for b in v[a..].iter_mut().take(*k as usize) {
                    *b = 0;
                }
            }
            Edit::Delete(p, k) => {
                let a = at(*p);
                let z = (a + *k as usize).min(n);
                v.drain(a..z);
            }
            Edit::Insert(p, bytes) => {
                let a = within(*p, n + 1);
                v.splice(a..a, bytes.iter().cloned());
            }
            Edit::Repeat(p, k) => {
                let a = at(*p);
                let z = (a + *k as usize).min(n);
                let r = v[a..z].to_vec();
                v.splice(z..z, r);
            }
            Edit::Copy(p, q, k) => {
                let (a, b) = (at(*p), at(*q));
                for i in 0..*k as usize {
                    if a + i < n && b + i < n {
                        v[b + i] = v[a + i];
                    }
                }
            }
            Edit::Torn(p) => {
                let a = at(*p);
                v.truncate(a);
                if old.len() > a {
                    v.extend_from_slice(&old[a..]);
                }
            }
            Edit::Len(k, h) => {
                if !lens.is_empty() {
                    let (a, w) = lens[*k as usize % lens.len()];
                    if a + w <= v.len() {
                        v.splice(a..a + w, hostile_len(*h));
                    }
                }
            }
            Edit::Case(p, k) => {
                let a = at(*p);
                for b in v[a..].iter_mut().take(*k as usize) {
                    if b.is_ascii_lowercase() {
                        b.make_ascii_uppercase();
                    } else {
                        b.make_ascii_lowercase();
                    }
                }
            }
        }
    }
    v
}

/// Places near the ends and at small offsets are likelier than a uniform draw makes them.
fn place(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => r.below(8) as u32,
        1 => u32::MAX - r.below(8) as u32,
        _ => r.u32(),
    }
}

pub fn gen_edit(r: &mut Rng, text: bool) -> Edit {
    match r.below(if text { 20 } else { 22 }) {
        0..=2 => Edit::Flip(place(r), r.u8()),
        3..=4 => {
            let b = if text {
                *r.pick(b"0123456789abcdefABCDEFxyz{}[]\",:\\ntfu-.e+ \0\xff\x80qz")
            } else {
                match r.below(3) {
                    0 => *r.pick(&[0u8, 1, 0xff, 0xfe, 0xfd, 0xfc, 0x4c, 0x4d, 0x4e, 0x4b, 0x80, 0x81, 0x7f]),
                    _ => r.u8(),
                }
            };
            Edit::Set(place(r), b)
        }
        5..=8 => Edit::Cut(place(r)),
        9 => Edit::Extend(r.u64() >> r.below(64), r.below(300) as u16),
        10 => {
            let k = *r.pick(&[1u16, 4, 16, 64, 512]);
            let p = place(r);
            // whole sectors are lost together
            Edit::Zero(if r.chance(1, 3) { p & !63 } else { p }, k)
        }
        11..=12 => Edit::Delete(place(r), 1 + (r.u64() >> (55 + r.below(9))) as u16),
        13 => {
            let k = 1 + r.usize(9);
            Edit::Insert(place(r), r.bytes(k))
        }
        14 => Edit::Repeat(place(r), 1 + (r.u64() >> (55 + r.below(9))) as u16),
        15 => Edit::Copy(place(r), place(r), 1 + (r.u64() >> (55 + r.below(9))) as u16),
        16..=17 => Edit::Torn(place(r)),
        18 if text => Edit::Case(place(r), 1 + r.below(40) as u16),
        _ => Edit::Len(r.below(40) as u16, r.u8()),
    }
}

pub fn gen_edits(r: &mut Rng, text: bool) -> Vec<Edit> {
    let n = match r.below(10) {
        0..=6 => 1,
        7..=8 => 2,
        _ => 3 + r.below(4),
    };
    (0..n).map(|_| gen_edit(r, text)).collect()
}
