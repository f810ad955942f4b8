//! C10: an address string travels from the payee to the payer and is damaged on the way; crafted
//! strings with a valid checksum arrive too. An independent cash-address encoder is the reference.
use super::World;
use crate::damage::{apply, gen_edits, Edit};
use crate::ev;
use crate::model::*;
use crate::rng::Rng;
use crate::sim::{hex, Ctx};
use crate::worlds::storage::{from_bytes, to_bytes, SERDE_FORMATS};
use bitcoin_cash::{script_destination, Address, AddressType, BitcoinCode, Destination, Hash160, Hashed, Prefix, Pubkey, Script};
use serde::{Deserialize, Serialize};
use serde_json::Value;

const P: &[&str] = &["C10"];
const CHARS: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

fn polymod(v: &[u8]) -> u64 {
    const G: [u64; 5] = [0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470];
    let mut c: u64 = 1;
    for d in v {
        let top = c >> 35;
        c = ((c & 0x07_ffff_ffff) << 5) ^ *d as u64;
        for (i, g) in G.iter().enumerate() {
            if (top >> i) & 1 == 1 {
                c ^= g;
            }
        }
    }
    c ^ 1
}

/// Any payload in the cash-address alphabet with a valid checksum for the prefix.
pub fn ref_encode(prefix: &str, five: &[u8]) -> String {
    let mut v: Vec<u8> = prefix.bytes().map(|b| b & 31).collect();
    v.push(0);
    v.extend(five);
    v.extend(&[0; 8]);
    let p = polymod(&v);
    let mut s = format!("{}:", prefix);
    for d in five {
        s.push(CHARS[*d as usize] as char);
    }
    for i in 0..8 {
        s.push(CHARS[(p >> (5 * (7 - i))) as usize & 31] as char);
    }
    s
}

pub fn five_bits(bytes: &[u8], pad: u8) -> Vec<u8> {
    let mut v = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for b in bytes {
        acc = (acc << 8) | *b as u32;
        n += 8;
        while n >= 5 {
            n -= 5;
            v.push((acc >> n) as u8 & 31);
        }
        acc &= 0xff;
    }
    if n > 0 {
        let free = 5 - n;
        v.push((((acc << free) as u8) & 31) | (pad & ((1 << free) - 1)));
    }
    v
}

pub fn ref_address(prefix: &str, version: u8, hash: &[u8]) -> String {
    let mut b = vec![version];
    b.extend(hash);
    ref_encode(prefix, &five_bits(&b, 0))
}

const PREFIXES: [&str; 12] = [
    "bitcoincash", "simpleledger", "bchtest", "bchreg", "slptest", "x", "", "etokens2020", "pref-1x", "\u{f1}\u{2603}", "a b",
    "bitcoincashbitcoincashbitcoincash",
];

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    /// the string is damaged, then parsed
    Damage(Vec<Edit>),
    /// prefix replaced, payload kept
    Reprefix(u8),
    /// prefix cut off
    Bare,
    Upper,
    /// kept intact, through a serde export between two nodes
    Stored(u8, u64),
    /// converted to another prefix by the library
    Convert(u8),
    /// crafted: version byte, payload length, padding bits, extra symbols
    Craft(u8, u8, u8, u8),
    /// characters of two addresses spliced
    Splice(u32),
    /// symbols replaced by other symbols of the alphabet
    Symbols(Vec<(u8, u8)>),
    /// neighbouring symbols swapped
    Swap(u8),
    /// characters replaced by others that look, fold or truncate alike: position, which
    Alias(Vec<(u8, u8)>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    prefix: u8,
    p2sh: bool,
    /// 0 from a hash, 1 from a public key, 2 from a redeem script
    origin: u8,
    seed: u64,
    fill: u64,
    steps: Vec<Step>,
}

fn gen(r: &mut Rng, _p: &str, thorough: bool) -> Value {
    let n = 4 + r.below(if thorough { 16 } else { 8 });
    let steps = (0..n)
        .map(|_| match r.below(18) {
            16..=17 => Step::Alias((0..1 + r.below(3)).map(|_| (r.u8(), r.u8())).collect()),
            0..=4 => Step::Damage(gen_edits(r, true)),
            5..=6 => Step::Reprefix(r.below(12) as u8),
            7 => Step::Bare,
            8 => Step::Upper,
            9 => Step::Stored(r.below(6) as u8, r.u64()),
            10 => Step::Convert(r.below(12) as u8),
            11..=12 => Step::Craft(
                *r.pick(&[0, 8, 0, 8, 1, 7, 9, 16, 0x80, 0x88, 3, 0x78, 0xff]),
                *r.pick(&[20, 20, 20, 0, 1, 2, 3, 4, 5, 10, 19, 21, 24, 28, 32, 64, 65, 100]),
                r.u8(),
                if r.chance(1, 6) { r.below(4) as u8 } else { 0 },
            ),
            13 => Step::Splice(r.u32()),
            14 => Step::Symbols((0..1 + r.below(7)).map(|_| (r.u8(), r.u8())).collect()),
            _ => Step::Swap(r.u8()),
        })
        .collect();
    let p = Plan {
        prefix: if r.chance(2, 3) { r.below(2) as u8 } else { r.below(12) as u8 },
        p2sh: r.chance(1, 2),
        origin: if r.chance(1, 3) { 1 + r.below(2) as u8 } else { 0 },
        seed: r.u64(),
        fill: if r.chance(1, 6) { *r.pick(&[0u64, 255, 1, 128]) } else { r.u64() | 256 },
        steps,
    };
    serde_json::to_value(p).unwrap()
}

fn valid(v: &Value) -> bool {
    serde_json::from_value::<Plan>(v.clone()).is_ok()
}

/// What a parsed address claims to be.
#[derive(Debug, PartialEq, Clone)]
struct Claim {
    p2sh: bool,
    hash: Vec<u8>,
    prefix: String,
    /// the kind of the prefix is the one its text has
    kind: bool,
}

/// A character that some folding, truncation or font takes for `c`.
fn alias(c: char, k: u8) -> char {
    let up = |n: u32| std::char::from_u32(c as u32 + n).unwrap_or(c);
    match k % 12 {
        0 => up(0x100),
        1 => up(0x400),
        2 => up(0x10000),
        3 => up(0x80),
        // full width
        4 if (c as u32) < 0x7f => up(0xfee0),
        5 if c.is_ascii_lowercase() => std::char::from_u32(c as u32 - 97 + 0x1d41a).unwrap(),
        6 if c.is_ascii_digit() => std::char::from_u32(c as u32 - 48 + 0x660).unwrap(),
        7 => match c {
            'k' => '\u{212a}',
            's' => '\u{17f}',
            'a' => '\u{430}',
            'c' => '\u{441}',
            'e' => '\u{435}',
            'p' => '\u{440}',
            'x' => '\u{445}',
            ':' => '\u{ff1a}',
            _ => up(0x200),
        },
        8 if c.is_ascii_alphabetic() => c.to_ascii_uppercase(),
        9 => match c {
            '0' => 'o',
            'l' => '1',
            'g' => 'b',
            '3' => 'i',
            _ => up(0x100),
        },
        10 if (c as u32) < 0x80 => std::char::from_u32(c as u32 ^ 0x20).unwrap(),
        11 if (c as u32) < 0x80 => std::char::from_u32(c as u32 & 0x1f).unwrap(),
        _ => up(0x300),
    }
}

fn claim(a: &Address) -> Claim {
    Claim { p2sh: a.addr_type() == AddressType::P2SH, hash: a.hash().as_slice().to_vec(), prefix: a.prefix_str().to_string(), kind: a.prefix_kind() == known_prefix(a.prefix_str()) }
}

fn known_prefix(prefix: &str) -> Option<Prefix> {
    match prefix {
        "bitcoincash" => Some(Prefix::BitcoinCash),
        "simpleledger" => Some(Prefix::SimpleLedger),
        _ => None,
    }
}

fn reads(ctx: &mut Ctx, text: &str) -> Option<Result<(Claim, bool), String>> {
    let t = text.to_string();
    ctx.call_mem(P, "from_cash_addr", (1 << 20) + 2048 * text.len(), || match Address::from_cash_addr(t.as_str()) {
        Ok(a) => {
            // what it was read from is an address that means the same to everybody
            let c = claim(&a);
            let reference = ref_address(&c.prefix, if c.p2sh { 8 } else { 0 }, &c.hash);
            let low = t.to_ascii_lowercase();
            Ok((c, reference == low || reference.split_once(':').map(|x| x.1) == Some(low.as_str())))
        }
        Err(e) => Err(format!("{} {:?}", e, e)),
    })
}

fn parse(ctx: &mut Ctx, text: &str) -> Option<Result<Claim, String>> {
    reads(ctx, text).map(|r| r.map(|c| c.0))
}

/// The payer's side: whatever the string, it names the right destination or is refused.
fn arrives(ctx: &mut Ctx, what: &str, text: &str, good: &Claim, must: bool) {
    let got = match reads(ctx, text) {
        Some(g) => g,
        None => return,
    };
    match got {
        Ok((c, standard)) => {
            ctx.probe(&format!("accepted after {}", what));
            ctx.check(standard, P, &format!("accepts-no-address:{}", what), || format!("{:?} is no address, but read as {:?}", text, c));
            ctx.check(c.p2sh == good.p2sh && c.hash == good.hash, P, &format!("wrong-destination:{}", what), || format!("{:?} instead of {:?} from {:?}", c, good, text));
            // the prefix it reports is the one it was checked against
            let claimed = match text.split_once(':') {
                Some((p, _)) => p.to_ascii_lowercase(),
                None => Prefix::default().prefix_str().to_string(),
            };
            ctx.check(c.prefix == claimed, P, &format!("wrong-prefix:{}", what), || format!("{:?} from {:?}", c.prefix, text));
            ctx.check(c.kind, P, "prefix-kind", || format!("the kind of the prefix is not that of {:?}", c.prefix));
            if must {
                ctx.check(c.prefix == good.prefix, P, &format!("wrong-prefix:{}", what), || format!("{:?} from {:?}", c.prefix, text));
            }
        }
        Err(e) => {
            ctx.eval();
            if must {
                ctx.violate(P, &format!("refuses-intact:{}", what), format!("{} for {:?}", e, text));
            }
        }
    }
}

fn run(ctx: &mut Ctx, _prop: &str, v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).expect("plan");
    let prefix = PREFIXES[p.prefix as usize % 12];
    let mut r = Rng::new(p.seed);
    let r = &mut r;
    let mut hash = fill(20, p.fill);
    let mut p2sh = p.p2sh;
    // the payee writes the address
    let made = match p.origin % 3 {
        0 => {
            let ty = if p2sh { AddressType::P2SH } else { AddressType::P2PKH };
            let h = Hash160::new(arr20(&hash));
            ctx.call(P, "from_hash", || Address::from_hash(prefix, ty, h).into_owned_address())
        }
        1 => {
            let k = fill(33, p.fill);
            hash = hash160(&k);
            p2sh = false;
            let mut pk = [0; 33];
            pk.copy_from_slice(&k);
            ctx.call(P, "from_pk", || Address::from_pk(prefix, &Pubkey::new(pk)).into_owned_address())
        }
        _ => {
            let spec = gen_script(r, 0, false, 0);
            hash = hash160(&enc_script(&spec, &[]));
            p2sh = true;
            match ctx.call(P, "from_redeem_script", || Address::from_redeem_script(prefix, build_script(&spec, &[])).map(|a| a.into_owned_address()).map_err(|e| e.to_string())) {
                Some(Ok(a)) => Some(a),
                Some(Err(e)) => {
                    ctx.violate(P, "from-redeem-script", e);
                    None
                }
                None => None,
            }
        }
    };
    let a = match made {
        Some(a) => a,
        None => return,
    };
    let good = Claim { p2sh, hash: hash.clone(), prefix: prefix.to_string(), kind: true };
    let text = ref_address(prefix, if p2sh { 8 } else { 0 }, &hash);
    ev!(ctx, "address {}", text);
    ctx.mark(&text);
    if !ctx.check(a.cash_addr() == text && claim(&a) == good, P, "made", || format!("{} {:?} instead of {} {:?}", a.cash_addr(), claim(&a), text, good)) {
        return;
    }
    arrives(ctx, "no damage", &text, &good, true);
    // paying to it gives the script that pays exactly there
    if let Some((bytes, back)) = ctx.call(P, "address to script", || {
        let s: Script = a.clone().into();
        let d = match script_destination(prefix, &s) {
            Destination::Address(b) => Some(claim(&b)),
            _ => None,
        };
        (s.ser().to_vec(), d)
    }) {
        let want = if p2sh { [&[0xa9, 20][..], &hash, &[0x87]].concat() } else { [&[0x76, 0xa9, 20][..], &hash, &[0x88, 0xac]].concat() };
        ctx.check(bytes == sized(&want), P, "script", || format!("{} instead of {}", hex(&bytes), hex(&want)));
        ctx.check(back.as_ref() == Some(&good), P, "script-address", || format!("{:?} instead of {:?}", back, good));
    }
    let other = ref_address(PREFIXES[r.usize(12)], if r.chance(1, 2) { 8 } else { 0 }, &r.bytes(20));
    for st in &p.steps {
        if !ctx.out.violations.is_empty() {
            return;
        }
        ctx.out.sim_time += 1;
        ctx.out.nontrivial = true;
        ctx.mark(&format!("{:?}", st));
        match st {
            Step::Damage(edits) => {
                for e in edits {
                    ctx.fault(e.kind());
                }
                let d = apply(text.as_bytes(), other.as_bytes(), &[], edits);
                // what reaches the parser is a string
                let d = String::from_utf8_lossy(&d).to_string();
                ev!(ctx, "damaged to {:?}", d);
                let payload = |s: &str| s.splitn(2, ':').last().unwrap_or("").to_ascii_lowercase();
                if payload(&d) == payload(&other) {
                    // nothing of the new address was written
                    continue;
                }
                arrives(ctx, "damage", &d, &good, false);
                // and the same inside a JSON file
                let j = serde_json::to_string(&d).unwrap();
                if let Some(Ok(c)) = ctx.call(P, "deserialize damaged", || from_bytes::<Address>(0, j.as_bytes()).map(|a| claim(&a))) {
                    ctx.check(c.p2sh == good.p2sh && c.hash == good.hash, P, "wrong-destination:json", || format!("{:?} from {:?}", c, d));
                }
            }
            Step::Reprefix(k) => {
                ctx.fault("prefix replaced");
                let np = PREFIXES[*k as usize % 12];
                let t = format!("{}:{}", np, text.splitn(2, ':').nth(1).unwrap());
                ev!(ctx, "re-prefixed {}", t);
                arrives(ctx, "re-prefixing", &t, &good, np == prefix);
                if np != prefix {
                    // the checksum covers the prefix
                    if let Some(g) = parse(ctx, &t) {
                        ctx.check(g.is_err(), P, "accepts-wrong-prefix", || format!("{:?} from {:?}", g, t));
                    }
                }
            }
            Step::Bare => {
                ctx.fault("prefix lost");
                let t = text.splitn(2, ':').nth(1).unwrap().to_string();
                arrives(ctx, "prefix lost", &t, &good, prefix == "bitcoincash");
                if prefix != "bitcoincash" {
                    if let Some(g) = parse(ctx, &t) {
                        ctx.check(g.is_err(), P, "accepts-wrong-prefix", || format!("{:?} from {:?}", g, t));
                    }
                }
            }
            Step::Upper => {
                ctx.fault("case change");
                arrives(ctx, "upper case", &text.to_ascii_uppercase(), &good, false);
            }
            Step::Stored(k, seed) => {
                let what = SERDE_FORMATS[*k as usize % 6];
                let x = a.clone();
                let img = match ctx.call_node(*seed, P, "export address", || to_bytes(*k, &x)) {
                    Some(Ok(b)) => b,
                    Some(Err(e)) => {
                        ctx.violate(P, "export-error", e);
                        return;
                    }
                    None => return,
                };
                match ctx.call_node(seed ^ 1, P, "import address", || from_bytes::<Address>(*k, &img).map(|b| (claim(&b), b.cash_addr().to_string()))) {
                    Some(Ok((c, t))) => {
                        ctx.check(c == good && t == text, P, &format!("stored:{}", what), || format!("{:?} {} instead of {:?} {}", c, t, good, text));
                    }
                    Some(Err(e)) => {
                        ctx.check(false, P, &format!("stored-refused:{}", what), || e);
                    }
                    None => return,
                }
            }
            Step::Convert(k) => {
                let np = PREFIXES[*k as usize % 12];
                if let Some((t, c, back)) = ctx.call(P, "with_prefix", || {
                    let b = a.with_prefix(np);
                    let b = if k % 2 == 0 { b.to_owned_address() } else { b.into_owned_address() };
                    let back = b.with_prefix(prefix).cash_addr().to_string();
                    (b.cash_addr().to_string(), claim(&b), back)
                }) {
                    let want = Claim { prefix: np.to_string(), ..good.clone() };
                    ctx.check(t == ref_address(np, if p2sh { 8 } else { 0 }, &hash) && c == want && back == text, P, "converted", || format!("{} {:?} {}", t, c, back));
                    arrives(ctx, "conversion", &t, &want, true);
                }
            }
            Step::Craft(version, len, pad, extra) => {
                ctx.fault("crafted with valid checksum");
                let mut b = vec![*version];
                b.extend(if *len == 20 { hash.clone() } else { r.bytes(*len as usize) });
                let mut five = five_bits(&b, *pad);
                if *len == 0 && *pad % 3 == 0 {
                    five.clear();
                }
                five.extend(r.bytes(*extra as usize).iter().map(|x| x & 31));
                let t = ref_encode(prefix, &five);
                ev!(ctx, "crafted {}", t);
                if let Some(g) = parse(ctx, &t) {
                    match g {
                        Ok(c) => {
                            ctx.probe("crafted accepted");
                            // what the symbols spell, whichever way they were put together
                            let bytes: Vec<u8> = (0..five.len() * 5 / 8)
                                .map(|i| (0..8).fold(0, |x, j| x << 1 | (five[(i * 8 + j) / 5] >> (4 - (i * 8 + j) % 5)) & 1))
                                .collect();
                            let ok = five.len() == 34
                                && (bytes[0] == 0 || bytes[0] == 8)
                                && c == (Claim { p2sh: bytes[0] == 8, hash: bytes[1..].to_vec(), prefix: prefix.to_string(), kind: true });
                            ctx.check(ok, P, "crafted-accepted", || format!("{:?} from {} (version {} with {} bytes, {} extra symbols)", c, t, version, len, extra));
                        }
                        Err(e) => {
                            let intact = t == text;
                            ctx.check(!intact, P, "refuses-intact", || format!("{} for {}", e, t));
                        }
                    }
                }
            }
            Step::Splice(at) => {
                ctx.fault("splice");
                let (x, y): (Vec<char>, Vec<char>) = (text.chars().collect(), other.chars().collect());
                let i = *at as usize % (x.len().min(y.len()) + 1);
                let t: String = x[..i].iter().chain(&y[i..]).collect();
                if t != other && t != text {
                    arrives(ctx, "splice", &t, &good, false);
                }
            }
            Step::Symbols(v) => {
                ctx.fault("symbols replaced");
                let at = text.find(':').unwrap() + 1;
                let mut t = text.clone().into_bytes();
                for (p, c) in v {
                    let i = at + *p as usize % (t.len() - at);
                    t[i] = CHARS[*c as usize % 32];
                }
                let t = String::from_utf8(t).unwrap();
                ev!(ctx, "symbols {}", t);
                arrives(ctx, "symbol errors", &t, &good, false);
                if t != text {
                    if let Some(g) = parse(ctx, &t) {
                        ctx.check(g.is_err(), P, "accepts-damaged", || format!("{:?} from {:?} made as {:?}", g, t, text));
                    }
                }
            }
            Step::Alias(v) => {
                ctx.fault("characters confused");
                let mut t: Vec<char> = text.chars().collect();
                for (p, k) in v {
                    let i = *p as usize % t.len();
                    t[i] = alias(t[i], *k);
                }
                let t: String = t.into_iter().collect();
                ev!(ctx, "confused {:?}", t);
                arrives(ctx, "confusion", &t, &good, t == text);
            }
            Step::Swap(p) => {
                ctx.fault("symbols swapped");
                let at = text.find(':').unwrap() + 1;
                let mut t = text.clone().into_bytes();
                let i = at + *p as usize % (t.len() - at - 1);
                t.swap(i, i + 1);
                let t = String::from_utf8(t).unwrap();
                arrives(ctx, "swap", &t, &good, t == text);
                if t != text {
                    if let Some(g) = parse(ctx, &t) {
                        ctx.check(g.is_err(), P, "accepts-damaged", || format!("{:?} from {:?} made as {:?}", g, t, text));
                    }
                }
            }
        }
    }
}

pub fn world() -> World {
    World {
        name: "address",
        gen,
        run,
        valid,
        after: None,
        quick_runs: 150_000,
        thorough_runs: 3_000_000,
        recheck: 300,
        cpu_s: 20,
        rule: "a run makes one address (from a hash, public key or redeem script, under one of 12 prefixes) and sends it 4..12 times through damage, re-prefixing, crafting, storage or conversion; distinct by address and steps",
        time_unit: "deliveries",
        real: &["bitcoin-cash address encoding, parsing, serde, script construction and classification"],
        stub: &["the channel (edits of the string)"],
        assumptions: &["prefixes without upper-case letters and colons", "random damage that meets a valid 40-bit checksum by chance (2^-40) does not occur"],
    }
}
