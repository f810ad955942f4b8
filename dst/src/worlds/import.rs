//! C09: JSON, serde JSON, bincode and CBOR exports are damaged by storage or edited by a hostile
//! peer and then imported. Independent readers say what the damaged text means.
use super::World;
use crate::damage::{apply, gen_edit, Edit};
use crate::ev;
use crate::model::*;
use crate::rng::Rng;
use crate::sim::{hex, Ctx};
use crate::worlds::storage::{from_bytes, stored, to_bytes, Visit, SERDE_FORMATS};
use bitcoin_cash::{json_to_tx, tx_to_json, BitcoinCode, UnhashedTx};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;

const P: &[&str] = &["C09"];
const MAX: usize = 96_000;

fn limit(n: usize) -> usize {
    (8 << 20) + 2048 * n
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Je {
    /// damage of the bytes
    B(Edit),
    /// a length field of a binary format replaced: which, by what
    Len(u32, u8),
    /// structural edits of a JSON document: the n-th node ...
    Leaf(u32, u8),
    Drop(u32),
    Dup(u32),
    Swap(u32, u32),
    Wrap(u32, u16),
    ToArr(u32),
    Extra(u32),
    Rename(u32, u8),
    /// ... takes the value of another node
    From(u32, u32),
    /// references of the rich form: a graph of n levels of w-fold sharing, a chain of n levels, a
    /// cycle, one array used by everything
    Dag(u8, u8),
    Chain(u16, u8),
    Cycle(u32, u32),
    Share(u32),
}

impl Je {
    fn kind(&self) -> &'static str {
        match self {
            Je::B(e) => e.kind(),
            Je::Len(..) => "hostile length",
            Je::Leaf(..) => "hostile value",
            Je::Drop(..) => "removed node",
            Je::Dup(..) => "duplicated element",
            Je::Swap(..) | Je::From(..) => "swapped nodes",
            Je::Wrap(..) => "deep nesting",
            Je::ToArr(..) => "object as array",
            Je::Extra(..) | Je::Rename(..) => "changed key",
            Je::Dag(..) => "shared references",
            Je::Chain(..) => "deep references",
            Je::Cycle(..) => "cyclic reference",
            Je::Share(..) => "shared references",
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    tx: TxS,
    old: TxS,
    /// 0 rich JSON, 1..=6 serde formats of the transaction, 7.. another stored type in a format
    fmt: u8,
    kind: u8,
    seed: u64,
    edits: Vec<Vec<Je>>,
}

fn gen_je(r: &mut Rng, rich: bool, text: bool) -> Je {
    if !text {
        return if r.chance(1, 4) { Je::Len(r.u32(), r.u8()) } else { Je::B(gen_edit(r, false)) };
    }
    match r.below(if rich { 26 } else { 20 }) {
        0..=7 => Je::B(gen_edit(r, true)),
        8..=12 => Je::Leaf(r.u32(), r.u8()),
        13 => Je::Drop(r.u32()),
        14 => Je::Dup(r.u32()),
        15 => Je::Swap(r.u32(), r.u32()),
        16 => Je::Wrap(r.u32(), *r.pick(&[1u16, 2, 100, 130, 2000, 30000])),
        17 => {
            if r.chance(1, 3) {
                Je::ToArr(r.u32())
            } else {
                Je::From(r.u32(), r.u32())
            }
        }
        18 => Je::From(r.u32(), r.u32()),
        19 => {
            if r.chance(1, 2) {
                Je::Extra(r.u32())
            } else {
                Je::Rename(r.u32(), r.u8())
            }
        }
        20 => Je::Dag(1 + r.below(60) as u8, 1 + r.below(4) as u8),
        21 => Je::Chain(*r.pick(&[1u16, 10, 500, 999, 1000, 1001, 2500, 5000, 20_000, 60_000]), r.u8()),
        22..=23 => Je::Cycle(r.u32(), r.u32()),
        _ => Je::Share(r.u32()),
    }
}

fn gen(r: &mut Rng, _prop: &str, thorough: bool) -> Value {
    let g = |ann| GenTx { max_in: 3, max_out: 3, many: false, big: false, ann, meta: true };
    let fmt = match r.below(20) {
        0..=9 => 0,
        10..=11 => 1,
        12 => 2 + r.below(2) as u8,
        13..=14 => 4,
        15 => 6,
        _ => 7 + r.below(6) as u8,
    };
    let ann = if fmt == 0 { 40 } else { 5 };
    let tx = gen_tx(r, &g(ann));
    let old = gen_tx(r, &g(ann));
    let kind = r.below(24) as u8;
    let text = fmt < 4 || (7..10).contains(&fmt);
    let n = if thorough { 10 } else { 6 };
    let edits = (0..n)
        .map(|_| {
            let n = match r.below(10) {
                0..=6 => 1,
                7..=8 => 2,
                _ => 3 + r.below(3),
            };
            (0..n).map(|_| gen_je(r, fmt == 0, text)).collect()
        })
        .collect();
    serde_json::to_value(Plan { tx, old, fmt, kind, seed: r.u64(), edits }).unwrap()
}

fn valid(v: &Value) -> bool {
    serde_json::from_value::<Plan>(v.clone()).map_or(false, |p| p.tx.valid() && p.old.valid())
}

fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

// ---------------------------------------------------------------- structural edits

fn nodes(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    if !cur.is_empty() {
        out.push(cur.clone());
    }
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                cur.push(i.to_string());
                nodes(x, cur, out);
                cur.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                cur.push(k.clone());
                nodes(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        };
    }
    Some(v)
}

fn hostile_leaf(old: &Value, k: u8) -> Value {
    match old {
        Value::String(t) => {
            let c: Vec<char> = t.chars().collect();
            let cut = |n: usize| c[..c.len().saturating_sub(n)].iter().collect::<String>();
            json!(match k % 22 {
                0 => String::new(),
                1 => cut(1),
                2 => cut(2),
                3 => cut(4),
                4 => t.clone() + "00",
                5 => t.clone() + "0",
                6 => t.clone() + "=",
                7 => t.clone() + "AAAA",
                8 => "zz".repeat(c.len() / 2),
                9 => "\u{0}\u{2603}\u{10ffff}".into(),
                10 => t.to_uppercase(),
                11 => format!(" {}", t),
                12 => "00".repeat(32),
                13 => "00".repeat(20),
                14 => "00".repeat(19),
                15 => "fe00000080".into(),
                16 => "05".to_string() + &"4effffffff",
                17 => "Plain".into(),
                18 => "Sha256".into(),
                19 => "x".into(),
                20 => return Value::Null,
                _ => return json!(0),
            })
        }
        Value::Number(n) => match k % 24 {
            0 => json!(0),
            1 => json!(1),
            2 => json!(2),
            3 => json!(-1),
            4 => json!(255),
            5 => json!(256),
            6 => json!(65535),
            7 => json!(i32::MAX),
            8 => json!(i32::MIN),
            9 => json!(1u64 << 31),
            10 => json!(u32::MAX),
            11 => json!(1u64 << 32),
            12 => json!(1u64 << 53),
            13 => json!(i64::MAX),
            14 => json!(1u64 << 63),
            15 => json!(u64::MAX),
            16 => json!(n.as_f64().unwrap_or(0.0) + 0.5),
            17 => json!(n.to_string()),
            18 => json!(n.as_u64().unwrap_or(0).wrapping_add(1)),
            19 => json!(n.as_u64().unwrap_or(1).wrapping_sub(1)),
            20 => json!([n]),
            21 => Value::Null,
            22 => json!(1e300),
            _ => json!(n.as_u64().unwrap_or(0) ^ 64),
        },
        Value::Bool(b) => match k % 4 {
            0 => json!(!b),
            1 => Value::Null,
            2 => json!(1),
            _ => json!("true"),
        },
        Value::Null => match k % 5 {
            0 => json!(0),
            1 => json!([]),
            2 => json!({}),
            3 => json!(true),
            _ => json!("00"),
        },
        Value::Array(_) => match k % 4 {
            0 => json!([]),
            1 => Value::Null,
            2 => json!({}),
            _ => json!([null]),
        },
        Value::Object(_) => match k % 3 {
            0 => json!({}),
            1 => Value::Null,
            _ => json!([]),
        },
    }
}

/// Index references of the rich form to byte arrays.
fn array_refs(v: &mut Value) -> Vec<&mut Value> {
    let mut out = vec![];
    fn go<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Value>) {
        match v {
            Value::Array(a) => {
                for x in a {
                    go(x, out);
                }
            }
            Value::Object(o) => {
                for (k, x) in o.iter_mut() {
                    if k == "array_idx" || k == "prev_out_hash" {
                        out.push(x);
                    } else if k != "data" {
                        go(x, out);
                    }
                }
            }
            _ => {}
        }
    }
    go(v, &mut out);
    out
}

fn structural(v: &mut Value, e: &Je) {
    let mut ns = vec![];
    nodes(v, &mut vec![], &mut ns);
    if ns.is_empty() {
        return;
    }
    let pick = |i: u32| ns[i as usize % ns.len()].clone();
    match e {
        Je::Leaf(i, k) => {
            if let Some(x) = at(v, &pick(*i)) {
                *x = hostile_leaf(x, *k);
            }
        }
        Je::Drop(i) => {
            let p = pick(*i);
            match at(v, &p[..p.len() - 1]) {
                Some(Value::Array(a)) => {
                    a.remove(p[p.len() - 1].parse().unwrap());
                }
                Some(Value::Object(o)) => {
                    o.remove(&p[p.len() - 1]);
                }
                _ => {}
            }
        }
        Je::Dup(i) => {
            let p = pick(*i);
            if let Some(Value::Array(a)) = at(v, &p[..p.len() - 1]) {
                let k: usize = p[p.len() - 1].parse().unwrap();
                let x = a[k].clone();
                a.insert(k, x);
            }
        }
        Je::Swap(i, j) => {
            let (p, q) = (pick(*i), pick(*j));
            if p.starts_with(&q) || q.starts_with(&p) {
                return;
            }
            let (x, y) = (at(v, &p).cloned(), at(v, &q).cloned());
            if let (Some(x), Some(y)) = (x, y) {
                *at(v, &p).unwrap() = y;
                *at(v, &q).unwrap() = x;
            }
        }
        Je::From(i, j) => {
            let (p, q) = (pick(*i), pick(*j));
            let y = at(v, &q).cloned();
            if let (Some(x), Some(y)) = (at(v, &p), y) {
                *x = y;
            }
        }
        Je::Wrap(..) => {}
        Je::ToArr(i) => {
            let mut objs: Vec<Vec<String>> = vec![];
            for p in &ns {
                if at(v, p).map_or(false, |x| x.is_object()) {
                    objs.push(p.clone());
                }
            }
            if objs.is_empty() {
                return;
            }
            let p = objs[*i as usize % objs.len()].clone();
            if let Some(x) = at(v, &p) {
                if let Value::Object(o) = x.clone() {
                    *x = Value::Array(o.into_iter().map(|(_, v)| v).collect());
                }
            }
        }
        Je::Extra(i) => {
            let p = pick(*i);
            if let Some(Value::Object(o)) = at(v, &p[..p.len() - 1]) {
                o.insert("surprise".into(), json!([{"a": 1}, null, "x"]));
            }
        }
        Je::Rename(i, k) => {
            let p = pick(*i);
            if let Some(Value::Object(o)) = at(v, &p[..p.len() - 1]) {
                if let Some(x) = o.remove(&p[p.len() - 1]) {
                    let keys = ["", "data", "value", "script", "op", "Code", "Invalid", "PushInteger", "bits", "lock_script"];
                    o.insert(keys[*k as usize % keys.len()].to_string(), x);
                }
            }
        }
        Je::Dag(n, w) => {
            let first = match v.pointer_mut("/data/byte_arrays") {
                Some(Value::Array(a)) if !a.is_empty() => {
                    let mut last = a.len() - 1;
                    for _ in 0..*n {
                        let kids: Vec<usize> = (0..*w).map(|_| last).collect();
                        last = a.len();
                        a.push(json!([0, "Sha256", null, kids]));
                    }
                    last
                }
                _ => return,
            };
            if let Some(x) = array_refs(v).into_iter().last() {
                *x = json!(first);
            }
        }
        Je::Chain(n, how) => {
            let first = match v.pointer_mut("/data/byte_arrays") {
                Some(Value::Array(a)) if !a.is_empty() => {
                    for i in 0..*n {
                        let k = a.len() - 1;
                        // the deep one among shallow ones
                        let kids = match if how % 5 == 4 { (i % 4) as u8 } else { how % 5 } {
                            0 => vec![k],
                            1 => vec![0, k],
                            2 => vec![k, 0],
                            _ => vec![0, k, 0],
                        };
                        a.push(json!([0, "Hash256", null, kids]));
                    }
                    a.len() - 1
                }
                _ => return,
            };
            if let Some(x) = array_refs(v).into_iter().last() {
                *x = json!(first);
            }
        }
        Je::Cycle(i, j) => {
            let used: Vec<u64> = array_refs(v).iter().filter_map(|x| x.as_u64()).collect();
            if let Some(Value::Array(a)) = v.pointer_mut("/data/byte_arrays") {
                let k = match used.get(*i as usize % used.len().max(1)) {
                    Some(k) if (*k as usize) < a.len() => *k as usize,
                    _ => return,
                };
                // itself, something later, or something out of range
                let n = a.len();
                let target = match j % 4 {
                    0 => k,
                    1 => n,
                    2 => (k + 1 + *j as usize % n) % (n + 1),
                    _ => usize::MAX >> (j % 60),
                };
                a[k] = json!([0, "Sha256", null, [target]]);
            }
        }
        Je::Share(i) => {
            let k = {
                let refs = array_refs(v);
                if refs.is_empty() {
                    return;
                }
                refs[*i as usize % refs.len()].clone()
            };
            for (n, x) in array_refs(v).into_iter().enumerate() {
                if n % 2 == 0 {
                    *x = k.clone();
                }
            }
        }
        Je::B(_) | Je::Len(..) => {}
    }
}

/// Places of lengths in a binary image, guessed by their shape.
fn damage(img: &[u8], old: &[u8], text: bool, cbor: bool, edits: &[Je]) -> Vec<u8> {
    let mut d = img.to_vec();
    if text {
        if let Ok(mut v) = serde_json::from_slice::<Value>(img) {
            let mut wraps = vec![];
            for e in edits {
                if let Je::Wrap(i, n) = e {
                    let mut ns = vec![];
                    nodes(&v, &mut vec![], &mut ns);
                    if !ns.is_empty() {
                        // written into the text, so that no deep value is ever held here
                        if let Some(x) = at(&mut v, &ns[*i as usize % ns.len()].clone()) {
                            *x = json!(format!("@wrap{}@", wraps.len()));
                            wraps.push(*n as usize);
                        }
                    }
                } else {
                    structural(&mut v, e);
                }
            }
            let mut t = v.to_string();
            for (k, n) in wraps.iter().enumerate() {
                t = t.replace(&format!("\"@wrap{}@\"", k), &format!("{}{}", "[".repeat(*n), "]".repeat(*n)));
            }
            if edits.iter().any(|e| !matches!(e, Je::B(_))) {
                d = t.into_bytes();
            }
        }
    }
    for e in edits {
        match e {
            Je::B(e) => d = apply(&d, old, &[], &[e.clone()]),
            Je::Len(i, h) if !text => {
                let hostile = [0u64, 1, 2, 255, 256, 65536, 1 << 20, 1 << 31, 0xffff_ffff, 1 << 32, 1 << 40, 1 << 62, 1 << 63, u64::MAX, u64::MAX - 7, 33, 21];
                let n = hostile[*h as usize % hostile.len()];
                if cbor {
                    let places: Vec<usize> = (0..d.len()).filter(|i| matches!(d[*i] >> 5, 2..=5)).collect();
                    if !places.is_empty() {
                        let p = places[*i as usize % places.len()];
                        let mut b = vec![(d[p] & 0xe0) | 0x1b];
                        b.extend(&n.to_be_bytes());
                        d.splice(p..p + 1, b);
                    }
                } else {
                    let places: Vec<usize> = (0..d.len().saturating_sub(7)).filter(|i| d[i + 2..i + 8].iter().all(|b| *b == 0)).collect();
                    if !places.is_empty() {
                        let p = places[*i as usize % places.len()];
                        d.splice(p..p + 8, n.to_le_bytes().to_vec());
                    }
                }
            }
            _ => {}
        }
    }
    d
}

// ---------------------------------------------------------------- what the damaged text says

/// What a text says, if it can be said by a transaction at all.
enum Said<T> {
    Yes(T),
    /// nothing that could be imported
    No(String),
    /// this reader does not judge it
    Unknown,
}

/// `Err(Some(_))`: invalid; `Err(None)`: not judged.
type R<T> = Result<T, Option<String>>;

fn no<T>(m: impl Into<String>) -> R<T> {
    Err(Some(m.into()))
}

fn field<'a>(v: &'a Value, k: &str) -> R<&'a Value> {
    match v {
        Value::Object(o) => o.get(k).map_or_else(|| no(format!("no {}", k)), Ok),
        Value::Array(_) => Err(None),
        _ => no(format!("{} of {}", k, v)),
    }
}

fn opt<'a>(v: &'a Value, k: &str) -> R<Option<&'a Value>> {
    match v {
        Value::Object(o) => Ok(o.get(k).filter(|x| !x.is_null())),
        Value::Array(_) => Err(None),
        _ => no(format!("{} of {}", k, v)),
    }
}

fn num(v: &Value, max: u64) -> R<u64> {
    match v.as_u64() {
        Some(n) if n <= max => Ok(n),
        _ => no(format!("number {}", v)),
    }
}

fn int(v: &Value) -> R<i32> {
    match v.as_i64() {
        Some(n) if n >= i32::MIN as i64 && n <= i32::MAX as i64 => Ok(n as i32),
        _ => no(format!("integer {}", v)),
    }
}

fn seq(v: &Value) -> R<&Vec<Value>> {
    v.as_array().map_or_else(|| no(format!("list {}", v)), Ok)
}

fn boolean(v: &Value) -> R<bool> {
    v.as_bool().map_or_else(|| no(format!("bool {}", v)), Ok)
}

fn b64(t: &str) -> R<Vec<u8>> {
    // padding may be left out, but not in part
    let pads = t.bytes().rev().take_while(|c| *c == b'=').count();
    let full = t.trim_end_matches('=').to_string();
    let need = (4 - full.len() % 4) % 4;
    if need == 3 {
        return no("base64 length");
    }
    if pads != 0 && pads != need {
        return Err(None);
    }
    let full = full + &"="[..need.min(1)].repeat(need);
    let b = full.as_bytes();
    let mut out = vec![];
    for (i, q) in b.chunks(4).enumerate() {
        let pads = q.iter().rev().take_while(|c| **c == b'=').count();
        if pads > 2 || (pads > 0 && i != b.len() / 4 - 1) {
            return no("base64 padding");
        }
        let mut x = 0u32;
        for c in q {
            x = x << 6
                | match c {
                    b'A'..=b'Z' => c - b'A',
                    b'a'..=b'z' => c - b'a' + 26,
                    b'0'..=b'9' => c - b'0' + 52,
                    b'+' => 62,
                    b'/' => 63,
                    b'=' => 0,
                    _ => return no("base64 letter"),
                } as u32;
        }
        if q[..4 - pads].contains(&b'=') || (x & ((1u32 << (8 * pads)) - 1)) != 0 {
            return no("base64 tail");
        }
        out.extend_from_slice(&x.to_be_bytes()[1..4 - pads]);
    }
    Ok(out)
}

struct Rich<'a> {
    data: &'a Value,
    done: HashMap<usize, BaSnap>,
    budget: usize,
}

const FUNCTION_NAMES: [&str; 12] = [
    "Plain", "Sha1", "Ripemd160", "Sha256", "Hash256", "Hash160", "Num2Bin", "EcdsaSign", "SchnorrSign", "ToDataSig",
    "UnexpectedSplit", "Reverse",
];

fn size_of(b: &BaSnap) -> usize {
    1 + b.data.len() / 64 + b.pre.as_ref().map_or(0, |p| p.iter().map(size_of).sum())
}

impl<'a> Rich<'a> {
    fn string(&self, v: &Value) -> R<String> {
        let i = num(v, u64::MAX)? as usize;
        match seq(field(self.data, "strings")?)?.get(i) {
            Some(Value::String(t)) => Ok(t.clone()),
            _ => no(format!("string {}", i)),
        }
    }
    fn array(&mut self, v: &Value, depth: usize) -> R<BaSnap> {
        let i = num(v, u64::MAX)? as usize;
        if depth > 900 {
            return Err(None);
        }
        if let Some(b) = self.done.get(&i) {
            let n = size_of(b);
            self.budget = self.budget.checked_sub(n).ok_or(None)?;
            return Ok(b.clone());
        }
        let arrays = seq(field(self.data, "byte_arrays")?)?;
        let a = arrays.get(i).map_or_else(|| no(format!("byte array {}", i)), Ok)?;
        self.budget = self.budget.checked_sub(1).ok_or(None)?;
        let parts: Vec<&Value> = match a {
            Value::Number(_) => vec![a],
            Value::Array(p) if (2..=4).contains(&p.len()) => p.iter().collect(),
            _ => return no(format!("byte array {}", a)),
        };
        let d = num(parts[0], u64::MAX)? as usize;
        let data = match seq(field(self.data, "data_b64")?)?.get(d) {
            Some(Value::String(t)) => b64(t)?,
            _ => return no(format!("data {}", d)),
        };
        let func = match parts.get(1) {
            None => 0,
            Some(Value::String(f)) => FUNCTION_NAMES.iter().position(|n| n == f).map_or_else(|| no(format!("function {}", f)), Ok)? as u8,
            Some(Value::Object(_)) => return Err(None),
            Some(v) => return no(format!("function {}", v)),
        };
        let name = match parts.get(2) {
            None | Some(Value::Null) => None,
            Some(v) => Some(self.string(v)?),
        };
        let pre = match parts.get(3) {
            None | Some(Value::Null) => None,
            Some(v) => {
                let mut kids = vec![];
                for k in seq(v)? {
                    if k.as_u64().map_or(false, |k| k as usize >= i && (k as usize) < arrays.len() && k as usize != i) {
                        // refers to a later one: a cycle says nothing, the rest is not judged
                        return if self.cyclic(i) { no("cycle") } else { Err(None) };
                    }
                    if k.as_u64() == Some(i as u64) {
                        return no("cycle");
                    }
                    kids.push(self.array(k, depth + 1)?);
                }
                Some(kids)
            }
        };
        let b = BaSnap { data, name, func, pre };
        if size_of(&b) < 2000 {
            self.done.insert(i, b.clone());
        }
        Ok(b)
    }
    fn cyclic(&self, start: usize) -> bool {
        let arrays = match self.data.get("byte_arrays").and_then(|a| a.as_array()) {
            Some(a) => a,
            None => return false,
        };
        let mut seen = vec![false; arrays.len()];
        let mut todo = vec![start];
        while let Some(i) = todo.pop() {
            for k in arrays.get(i).and_then(|a| a.get(3)).and_then(|k| k.as_array()).into_iter().flatten() {
                if let Some(k) = k.as_u64().map(|k| k as usize) {
                    if k == start {
                        return true;
                    }
                    if k < arrays.len() && !seen[k] {
                        seen[k] = true;
                        todo.push(k);
                    }
                }
            }
        }
        false
    }
    fn names(&self, v: Option<&Value>) -> R<Option<Vec<Option<String>>>> {
        match v {
            None => Ok(None),
            Some(v) => {
                let mut out = vec![];
                for n in seq(v)? {
                    out.push(if n.is_null() { None } else { Some(self.string(n)?) });
                }
                Ok(Some(out))
            }
        }
    }
    fn op(&mut self, v: &Value) -> R<TopSnap> {
        let o = match field(v, "op")? {
            Value::Object(o) if o.len() == 1 => o,
            v => return no(format!("op {}", v)),
        };
        let (k, x) = o.iter().next().unwrap();
        let op = match k.as_str() {
            "Code" => {
                let c = num(x, 255)? as u8;
                match code_op(c) {
                    bitcoin_cash::Op::Code(_) => OpSnap::Code(c),
                    _ => OpSnap::Invalid(c),
                }
            }
            "Invalid" => OpSnap::Invalid(num(x, 255)? as u8),
            "PushBoolean" => OpSnap::Bool(boolean(x)?),
            "PushInteger" => match int(x)? {
                i32::MIN => return no("smallest integer"),
                i => OpSnap::Int(i),
            },
            "PushByteArray" => OpSnap::Push(self.array(field(x, "array_idx")?, 0)?, boolean(field(x, "is_minimal")?)?),
            k => return no(format!("op {}", k)),
        };
        let mut code = vec![];
        for c in seq(field(v, "src_code")?)? {
            let c = seq(c)?;
            if c.len() != 2 {
                return no("source code");
            }
            code.push((num(&c[0], u32::MAX as u64)? as u32, self.string(&c[1])?));
        }
        Ok(TopSnap {
            op,
            file: self.string(field(v, "src_file")?)?,
            line: num(field(v, "src_line")?, u32::MAX as u64)? as u32,
            col: num(field(v, "src_column")?, u32::MAX as u64)? as u32,
            code,
            names: self.names(opt(v, "pushed_names")?)?,
            alt: self.names(opt(v, "alt_pushed_names")?)?,
        })
    }
    fn script(&mut self, v: &Value) -> R<Vec<TopSnap>> {
        seq(v)?.iter().map(|o| self.op(o)).collect()
    }
}

fn rich_says(v: &Value) -> R<Snap> {
    let data = field(v, "data")?;
    for k in &["data_b64", "strings"] {
        for x in seq(field(data, k)?)? {
            if !x.is_string() {
                return no(format!("{} {}", k, x));
            }
        }
    }
    let mut r = Rich { data, done: HashMap::new(), budget: 100_000 };
    let mut inputs = vec![];
    let m = u32::MAX as u64;
    for i in seq(field(v, "inputs")?)? {
        let hash = r.array(field(i, "prev_out_hash")?, 0)?;
        if hash.data.len() != 32 {
            return no("hash length");
        }
        let flags = match opt(i, "sig_hash_flags")? {
            None => None,
            Some(f) => {
                let mut out = vec![];
                for f in seq(f)? {
                    out.push(num(field(f, "bits")?, m)? as u32);
                }
                Some(out)
            }
        };
        inputs.push(InSnap {
            hash,
            vout: num(field(i, "prev_out_vout")?, m)? as u32,
            script: r.script(field(i, "script")?)?,
            seq: num(field(i, "sequence")?, m)? as u32,
            lock: match opt(i, "lock_script")? {
                None => None,
                Some(l) => Some(r.script(l)?),
            },
            meta: MetaSnap {
                value: match opt(i, "value")? {
                    None => None,
                    Some(x) => Some(num(x, u64::MAX)?),
                },
                p2sh: match opt(i, "is_p2sh")? {
                    None => None,
                    Some(x) => Some(boolean(x)?),
                },
                flags,
            },
        });
    }
    let mut outputs = vec![];
    for o in seq(field(v, "outputs")?)? {
        outputs.push((num(field(o, "value")?, u64::MAX)?, r.script(field(o, "script")?)?));
    }
    Ok(Snap { version: int(field(v, "version")?)?, inputs, outputs, lock_time: num(field(v, "lock_time")?, m)? as u32 })
}

fn rich_ref(d: &[u8]) -> Said<Snap> {
    let t = match std::str::from_utf8(d) {
        Ok(t) => t,
        Err(_) => return Said::No("utf-8".into()),
    };
    if let Err(e) = serde_json::from_str::<serde::de::IgnoredAny>(t) {
        return Said::No(s(e));
    }
    let v: Value = match serde_json::from_str(t) {
        Ok(v) => v,
        Err(_) => return Said::Unknown,
    };
    match rich_says(&v) {
        Ok(x) => Said::Yes(x),
        Err(Some(m)) => Said::No(m),
        Err(None) => Said::Unknown,
    }
}

// ---------------------------------------------------------------- bincode of a transaction

struct Bin<'a> {
    c: Cur<'a>,
}

impl Bin<'_> {
    fn len(&mut self) -> Option<u64> {
        self.c.le(8)
    }
    fn script(&mut self) -> Option<Vec<ROp>> {
        let n = self.len()?;
        if n > self.c.d.len() as u64 {
            return None;
        }
        let b = self.c.take(n)?.to_vec();
        let mut k = Cur::new(&b);
        let s = k.script()?;
        if !k.done() {
            return None;
        }
        Some(s)
    }
    fn option<T>(&mut self, f: impl FnOnce(&mut Self) -> Option<T>) -> Option<Option<T>> {
        match self.c.le(1)? {
            0 => Some(None),
            1 => Some(Some(f(self)?)),
            _ => None,
        }
    }
    #[allow(clippy::type_complexity)]
    fn tx(&mut self) -> Option<(RTx, Vec<(MetaSnap, Option<Vec<u8>>)>)> {
        let version = self.c.le(4)? as u32 as i32;
        let mut inputs = vec![];
        let mut metas = vec![];
        for _ in 0..self.len()? {
            let hash = self.c.take(32)?.to_vec();
            let vout = self.c.le(4)? as u32;
            let script = self.script()?;
            let seq = self.c.le(4)? as u32;
            let lock = self.option(|b| b.script())?;
            let value = self.option(|b| b.c.le(8))?;
            let p2sh = self.option(|b| match b.c.le(1)? {
                0 => Some(false),
                1 => Some(true),
                _ => None,
            })?;
            let flags = self.option(|b| {
                let mut v = vec![];
                for _ in 0..b.len()? {
                    v.push(b.c.le(4)? as u32);
                }
                Some(v)
            })?;
            inputs.push(RIn { hash, vout, script, seq });
            metas.push((MetaSnap { value, p2sh, flags }, lock.map(|l| enc_rops(&l))));
        }
        let mut outputs = vec![];
        for _ in 0..self.len()? {
            outputs.push((self.c.le(8)?, self.script()?));
        }
        Some((RTx { version, inputs, outputs, lock_time: self.c.le(4)? as u32 }, metas))
    }
}

// ---------------------------------------------------------------- does it say what was imported?

/// A document in any of the self-describing formats.
#[derive(Clone, Debug, PartialEq)]
enum Tree {
    Null,
    Bool(bool),
    Int(i128),
    Text(String),
    Bytes(Vec<u8>),
    List(Vec<Tree>),
    Map(Vec<(String, Tree)>),
    /// not judged
    Any,
}

fn json_tree(v: &Value) -> Tree {
    match v {
        Value::Null => Tree::Null,
        Value::Bool(b) => Tree::Bool(*b),
        Value::Number(n) => match (n.as_i64(), n.as_u64()) {
            (Some(i), _) => Tree::Int(i as i128),
            (_, Some(u)) => Tree::Int(u as i128),
            _ => Tree::Any,
        },
        Value::String(t) => Tree::Text(t.clone()),
        Value::Array(a) => Tree::List(a.iter().map(json_tree).collect()),
        Value::Object(o) => Tree::Map(o.iter().map(|(k, v)| (k.clone(), json_tree(v))).collect()),
    }
}

fn cbor_tree(v: &ciborium::value::Value) -> Tree {
    use ciborium::value::Value as C;
    match v {
        C::Null => Tree::Null,
        C::Bool(b) => Tree::Bool(*b),
        C::Integer(i) => Tree::Int((*i).into()),
        C::Text(t) => Tree::Text(t.clone()),
        C::Bytes(b) => Tree::Bytes(b.clone()),
        C::Array(a) => Tree::List(a.iter().map(cbor_tree).collect()),
        C::Map(m) => {
            let mut out: Vec<(String, Tree)> = vec![];
            for (k, v) in m {
                match k {
                    C::Text(k) if out.iter().all(|(o, _)| o != k) => out.push((k.clone(), cbor_tree(v))),
                    _ => return Tree::Any,
                }
            }
            Tree::Map(out)
        }
        _ => Tree::Any,
    }
}

fn unhex(t: &str) -> Option<Vec<u8>> {
    if t.len() % 2 != 0 || !t.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    Some((0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect())
}

fn script_ops(b: &[u8]) -> Option<Vec<ROp>> {
    let mut c = Cur::new(b);
    let s = c.script()?;
    if c.done() {
        // (an operation has no place for a needlessly long length prefix; C05 is about that)
        dec_ops(&enc_rops(&s)).map(|x| x.0)
    } else {
        None
    }
}

/// Is everything that was imported (`got`, as the library exports it) said by the damaged text?
fn says(text: &Tree, got: &Tree, path: &str) -> Result<(), String> {
    let bytes = |v: &Vec<Tree>| -> Option<Vec<u8>> { v.iter().map(|x| if let Tree::Int(i @ 0..=255) = x { Some(*i as u8) } else { None }).collect() };
    let ok = match (text, got) {
        (Tree::Any, _) => true,
        (Tree::Map(a), Tree::Map(b)) => {
            for (k, g) in b {
                match a.iter().find(|(n, _)| n == k) {
                    Some((_, t)) => says(t, g, &format!("{}.{}", path, k))?,
                    None if *g == Tree::Null => {}
                    None => return Err(format!("{}.{} is {:?}, which the text does not say", path, k, g)),
                }
            }
            true
        }
        // a struct written as a sequence, an enum written as a map, bytes written as a sequence
        (Tree::List(_), Tree::Map(_)) | (Tree::Map(_), Tree::Text(_)) | (Tree::Bytes(_), _) | (_, Tree::Bytes(_)) => true,
        (Tree::List(a), Tree::List(b)) => match (bytes(a), bytes(b)) {
            // (whatever that end may be)
            (None, Some(y)) if !y.is_empty() && a.len() > y.len() && bytes(&a[..y.len()].to_vec()) == Some(y.clone()) => true,
            // (a CBOR reader may leave the end of an over-long tuple unread)
            (Some(x), Some(y)) if x != y => x.starts_with(&y) || script_ops(&x).map_or(false, |o| Some(o) == script_ops(&y)),
            _ => {
                if a.len() != b.len() {
                    return Err(format!("{} has {} elements instead of {}", path, b.len(), a.len()));
                }
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    says(x, y, &format!("{}[{}]", path, i))?;
                }
                true
            }
        },
        (Tree::Text(a), Tree::Text(b)) => {
            a.eq_ignore_ascii_case(b)
                || match (unhex(a), unhex(b)) {
                    (Some(x), Some(y)) => script_ops(&x).map_or(false, |o| Some(o) == script_ops(&y)),
                    _ => false,
                }
        }
        (a, b) => a == b,
    };
    if ok {
        Ok(())
    } else {
        if let (Tree::List(a), Tree::List(b)) = (text, got) {
            let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
            return Err(format!("{}[{}] is {:?}, but the text says {:?}; {}", path, i, b.get(i), a.get(i), hex(&bytes(a).unwrap_or_default())));
        }
        Err(format!("{} is {:?}, but the text says {:?}", path, got, text))
    }
}

fn tree_of(k: u8, d: &[u8]) -> Said<Tree> {
    if k % 6 == 5 {
        return match ciborium::de::from_reader::<ciborium::value::Value, _>(d) {
            Ok(v) => Said::Yes(cbor_tree(&v)),
            Err(_) => Said::Unknown,
        };
    }
    if let Err(e) = serde_json::from_slice::<serde::de::IgnoredAny>(d) {
        return Said::No(s(e));
    }
    match serde_json::from_slice::<Value>(d) {
        Ok(v) => Said::Yes(json_tree(&v)),
        Err(_) => Said::Unknown,
    }
}

/// Import one damaged image of a serde export.
fn look<T: Serialize + DeserializeOwned + Sync + Send>(ctx: &mut Ctx, what: &str, k: u8, d: &[u8], has_text: bool) -> Option<T> {
    let label = format!("{} {}", SERDE_FORMATS[k as usize % 6], what);
    let got: Result<T, String> = ctx.call_mem(P, &format!("import {}", label), limit(d.len()), || from_bytes::<T>(k, d))?;
    ctx.eval();
    let v = match got {
        Ok(v) => v,
        Err(_) => {
            ctx.probe("damaged export refused");
            return None;
        }
    };
    ctx.probe("damaged export accepted");
    // what was accepted can be exported, and means the same after another hop
    let out = match ctx.call_mem(P, &format!("re-export {}", label), limit(d.len()) * 2, || {
        let a = to_bytes(k, &v)?;
        let b = to_bytes(k, &from_bytes::<T>(k, &a)?)?;
        Ok::<_, String>((a, b))
    })? {
        Ok((a, b)) => {
            ctx.check(a == b, P, &format!("unstable:{}", label), || format!("{} then {}", hex(&a), hex(&b)));
            a
        }
        Err(e) => {
            ctx.violate(P, &format!("unexportable:{}", label), e);
            return None;
        }
    };
    if k % 6 == 3 || k % 6 == 4 {
        // binary: what it re-exports to is what was read, unless a script in it has another form
        if !has_text {
            ctx.check(d.starts_with(&out), P, &format!("says-otherwise:{}", label), || format!("{} from {}", hex(&out), hex(d)));
        }
        return Some(v);
    }
    match (tree_of(k, d), tree_of(k, &out)) {
        (Said::No(m), _) => {
            ctx.check(false, P, &format!("accepts-damaged:{}", label), || format!("not a document: {}", m));
        }
        (Said::Yes(a), Said::Yes(b)) => {
            let r = says(&a, &b, "");
            ctx.check(r.is_ok(), P, &format!("says-otherwise:{}", label), || r.clone().err().unwrap_or_default());
        }
        _ => ctx.probe("not judged"),
    }
    Some(v)
}

struct Damaged<'a> {
    ctx: &'a mut Ctx,
    p: &'a Plan,
    k: u8,
}

impl Visit for Damaged<'_> {
    fn visit<T: Serialize + DeserializeOwned + Sync + Send>(&mut self, what: &str, v: &T, _seed: u64, _human: Option<String>, _eq: impl Fn(&T, &T) -> bool) {
        let k = self.k;
        let label = format!("{} {}", SERDE_FORMATS[k as usize % 6], what);
        let img = match self.ctx.call(P, &format!("export {}", label), || to_bytes(k, v)) {
            Some(Ok(b)) => b,
            _ => return,
        };
        let text = k % 6 < 3;
        // types whose binary form is not their only one
        let loose = matches!(what, "UnhashedTx" | "Tx" | "TxInput" | "TxOutput" | "Script" | "Address" | "UnsignedTxInput" | "SlpUtxo" | "SlpTx");
        damages(self.ctx, self.p, what, &img, &img, text, k % 6 == 5, |ctx, d| {
            look::<T>(ctx, what, k, d, loose);
        });
    }
}

#[allow(clippy::too_many_arguments)]
fn damages(ctx: &mut Ctx, p: &Plan, what: &str, img: &[u8], old: &[u8], text: bool, cbor: bool, mut f: impl FnMut(&mut Ctx, &[u8])) {
    if img.len() > MAX || old.len() > MAX {
        return;
    }
    ev!(ctx, "{} export of {} bytes {}", what, img.len(), hex(&sha256(img)[..6]));
    f(ctx, img);
    for edits in &p.edits {
        if !ctx.out.violations.is_empty() {
            return;
        }
        let d = damage(img, old, text, cbor, edits);
        // long chains of references are large
        let most = if edits.iter().any(|e| matches!(e, Je::Chain(n, _) if *n > 5000)) { 50 * MAX } else { 2 * MAX };
        if d.len() > most {
            continue;
        }
        for e in edits {
            ctx.fault(e.kind());
        }
        ctx.mark_bytes(&d);
        ev!(ctx, "damage {:?}: {} bytes {}", edits, d.len(), hex(&sha256(&d)[..6]));
        f(ctx, &d);
        ctx.out.sim_time += 1;
        ctx.out.nontrivial |= d != img;
    }
}

fn run(ctx: &mut Ctx, _prop: &str, v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).expect("plan");
    let fmt = p.fmt % 13;
    if fmt >= 7 {
        let k = fmt - 7;
        stored(&mut Damaged { ctx, p: &p, k: if k == 4 { 3 } else { k } }, p.kind, p.seed);
        return;
    }
    let made = ctx.call(P, "export", || {
        let (t, o) = (p.tx.build(), p.old.build());
        let e = |t: &UnhashedTx| if fmt == 0 { tx_to_json(t).map(|s| s.into_bytes()).map_err(s) } else { to_bytes(fmt - 1, t) };
        Ok::<_, String>((e(&t)?, e(&o)?, snap(&t), rtx_of(&t), metas(&t)))
    });
    let (img, old, before, rtx, meta) = match made {
        Some(Ok(x)) => x,
        _ => return,
    };
    if fmt == 0 {
        // the reader must agree with the exporter before it may judge damaged texts
        let judge = matches!(rich_ref(&img), Said::Yes(x) if x == before);
        if !judge {
            ctx.probe("rich form not judged");
        }
        damages(ctx, &p, "rich", &img, &old, true, false, |ctx, d| rich(ctx, d, judge));
    } else {
        let k = fmt - 1;
        let k = if k == 4 { 3 } else { k };
        let judge = k == 3 && {
            let mut b = Bin { c: Cur::new(&img) };
            b.tx() == Some((rtx, meta)) && b.c.done()
        };
        damages(ctx, &p, "UnhashedTx", &img, &old, k < 3, k == 5, |ctx, d| {
            let t = look::<UnhashedTx>(ctx, "UnhashedTx", k, d, true);
            if judge {
                let want = Bin { c: Cur::new(d) }.tx();
                let got = t.as_ref().map(|t| (rtx_of(t), metas(t)));
                match (&got, &want) {
                    (Some(g), Some(w)) => {
                        ctx.check(g == w, P, "says-otherwise:bincode", || format!("{:?} instead of {:?}", g, w));
                    }
                    (Some(g), None) => {
                        ctx.check(false, P, "accepts-damaged:bincode", || format!("{:?}", g));
                    }
                    _ => {}
                }
            }
            if let Some(t) = t {
                inspect(ctx, &t, d.len());
            }
        });
    }
}

fn inspect(ctx: &mut Ctx, t: &UnhashedTx, n: usize) {
    ctx.call_mem(P, "inspect imported", limit(n) * 2, || {
        let a = t.ser().len();
        let b = t.clone().hashed();
        format!("{} {}", a, b.hash()).len()
    });
}

fn rich(ctx: &mut Ctx, d: &[u8], judge: bool) {
    let t = match std::str::from_utf8(d) {
        Ok(t) => t,
        Err(_) => return, // not a string at all
    };
    let got = match ctx.call_mem(P, "json_to_tx", limit(d.len()), || json_to_tx(t).map_err(|e| format!("{} {:?}", e, e))) {
        Some(g) => g,
        None => return,
    };
    ctx.eval();
    let tx = match got {
        Ok(t) => t,
        Err(_) => {
            ctx.probe("damaged export refused");
            return;
        }
    };
    ctx.probe("damaged export accepted");
    if !judge {
        return;
    }
    match rich_ref(d) {
        Said::Yes(want) => {
            let got = snap(&tx);
            if !ctx.check(got == want, P, "says-otherwise:rich", || diff(&got, &want)) {
                return;
            }
            // it is an ordinary transaction from here on
            inspect(ctx, &tx, d.len());
            let r = ctx.call(P, "re-export imported", || {
                let j = tx_to_json(&tx).map_err(s)?;
                json_to_tx(&j).map_err(s)
            });
            match r {
                Some(Ok(u)) => {
                    ctx.check(snap(&u) == want, P, "unstable:rich", || diff(&snap(&u), &want));
                }
                Some(Err(e)) => ctx.violate(P, "unexportable:rich", e),
                None => {}
            }
        }
        Said::No(m) => {
            ctx.check(false, P, "accepts-damaged:rich", || format!("{}: {}", m, t));
        }
        Said::Unknown => ctx.probe("not judged"),
    }
}

pub fn world() -> World {
    World {
        name: "import",
        gen,
        run,
        valid,
        after: None,
        quick_runs: 20_000,
        thorough_runs: 1_000_000,
        recheck: 300,
        cpu_s: 20,
        rule: "a run writes one export (rich JSON, serde JSON, bincode or CBOR of a transaction or another stored type) and damages or edits it in 6 (thorough: 10) independent ways, each imported under a memory limit; non-trivial if some damage changed the image; distinct by damaged bytes",
        time_unit: "damaged exports imported",
        real: &["bitcoin-cash JSON form, Serialize and Deserialize implementations of bitcoin-cash, -base and -slp", "serde_json, bincode, ciborium, base64"],
        stub: &["disk and network (the damaged export)", "allocator limit of 8 MiB + 2 KiB per byte"],
        assumptions: &[
            "exports up to 96 KB (chains of references up to 60 000 links in 5 MB)",
            "serde_json's own syntax check is trusted",
            "documents that write a struct as a sequence, refer to a later byte array without a cycle, or nest provenance deeper than 900 are imported but their content is not judged",
            "bincode through its stream reader is excluded: the bincode crate itself allocates by the claimed length",
        ],
    }
}
