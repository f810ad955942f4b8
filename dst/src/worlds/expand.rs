//! C12, C13: the script macro inside a real compiler, whose file system, formatter, randomness and
//! clock are simulated by shim/shim.c.
use super::World;
use crate::ev;
use crate::rng::Rng;
use crate::sim::Ctx;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};

const STRIDE: usize = 80;
// (so that the compiler does not go looking for what the names could mean; not checked)
const IMPORTS: &str = "use bitcoin_cash::*; use bitcoin_cash::Opcode::*;";
const MACRO: &str = "bitcoin_cash_script_macro";

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Src {
    attrs: Vec<String>,
    docs: Vec<String>,
    vis: String,
    generics: String,
    args: Vec<String>,
    ret: String,
    body: Vec<String>,
}

impl Src {
    fn render(&self) -> String {
        let mut s = String::from("struct P; struct Params<'a>(&'a u8);\n");
        for d in &self.docs {
            let _ = writeln!(s, "///{}", d);
        }
        let _ = writeln!(s, "#[{}::script({})]", MACRO, self.attrs.join(", "));
        let _ = writeln!(s, "{}fn script{}({}){} {{", self.vis, self.generics, self.args.join(", "), self.ret);
        for b in &self.body {
            let _ = writeln!(s, "    {}", b);
        }
        s.push_str("}\n");
        s
    }
}

/// One environment an expansion runs in.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Env {
    seed: u64,
    clock: u64,
    /// name of the temporary directory
    tmp: u8,
    /// things other processes left in it
    junk: Vec<u8>,
    /// how the formatter is found
    fmt: u8,
    faults: Vec<(u8, u32, u8, i64)>,
    behave: Vec<(u32, u8, i64)>,
    /// which scripts are in the crate
    mask: u32,
    /// another compiler runs while this one is at its nth call of a class
    nest: Option<(u8, u32)>,
    vars: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Common {
    fmt: u8,
    behave: Option<(u8, i64)>,
    /// the temporary directory does not exist
    missing: bool,
}

impl Common {
    fn apply(&self, e: &mut Env) {
        e.fmt = self.fmt;
        e.behave = self.behave.iter().flat_map(|b| (0..40).map(move |k| (k, b.0, b.1))).collect();
        if self.missing {
            e.tmp = 3;
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    scripts: Vec<Src>,
    base: u64,
    /// what fails in the same way in every environment (C13)
    #[serde(default)]
    common: Option<Common>,
    envs: Vec<Env>,
}

// ---- scripts ----------------------------------------------------------------------------------

struct G {
    variants: Vec<(String, Vec<(String, bool)>)>,
    stacks: Vec<Vec<Option<String>>>,
    alts: Vec<Vec<Option<String>>>,
    live: Vec<bool>,
    out: Vec<String>,
    fresh: u32,
}

const EXPRS: &[&str] = &[
    "5", "-1", "b\"data\"", "b\"\\x00\\xff\"", "{ 1000 * 3 }", "params.x", "{ params.address.hash().as_slice() }", "&[1u8, 2, 3][..]",
    "{ let q = 3; q + 4 }", "\"a string with\\n    an indented line\"", "b\"__BITCOIN_CASH_SCRIPT_MACRO_LINE_SEPARATOR__();\"",
    "ByteArray::new(\"name\", params.some_long_field_name.another_long_field_name.iter().map(|x| x + 1).collect::<Vec<u8>>())",
    "Sha256::digest(ByteArray::from_slice_unnamed(b\"x\"))", "match params.y { 0 => 1, _ => 2 }", "true", "r#\"raw \"quoted\" text\"#", "'\\''", "1_000u32 as i32",
];
const NAMES: &[&str] = &["a", "b", "c", "sig", "public_key", "x1", "very_long_name_of_a_stack_item", "pkh", "preimage", "é"];

impl G {
    fn new_name(&mut self, r: &mut Rng) -> String {
        if r.chance(1, 3) {
            self.fresh += 1;
            format!("n{}", self.fresh)
        } else {
            r.pick(NAMES).to_string()
        }
    }
    fn idx(&self) -> Vec<usize> {
        (0..self.stacks.len()).filter(|i| self.live[*i]).collect()
    }
    fn depth(&self) -> usize {
        self.idx().iter().map(|i| self.stacks[*i].len()).min().unwrap_or(0)
    }
    /// The names of the top `n` items where all live variants agree.
    fn top(&self, n: usize) -> Option<Vec<Option<String>>> {
        let mut res: Option<Vec<Option<String>>> = None;
        for i in self.idx() {
            let s = &self.stacks[i];
            if s.len() < n {
                return None;
            }
            let t = s[s.len() - n..].to_vec();
            match &res {
                Some(x) if *x != t => return None,
                _ => res = Some(t),
            }
        }
        res
    }
    fn change(&mut self, pops: usize, push: &[Option<String>]) {
        for i in self.idx() {
            let n = self.stacks[i].len().saturating_sub(pops);
            self.stacks[i].truncate(n);
            self.stacks[i].extend_from_slice(push);
        }
    }
    fn args(&self, r: &mut Rng, top: &[Option<String>]) -> String {
        if r.chance(1, 3) {
            return String::new();
        }
        let names: Vec<String> = top.iter().map(|n| n.clone().filter(|_| !r.chance(1, 6)).unwrap_or_else(|| "__".into())).collect();
        format!("({})", names.join(", "))
    }

    fn stmt(&mut self, r: &mut Rng) {
        if r.chance(1, 3) || self.depth() == 0 {
            let e = *r.pick(EXPRS);
            if r.chance(1, 2) {
                let n = self.new_name(r);
                self.out.push(format!("let {} = {};", n, e));
                self.change(0, &[Some(n)]);
            } else if e.starts_with('{') || e.starts_with("match") || e.starts_with('&') || e.starts_with('-') {
                self.out.push(format!("({});", e));
                self.change(0, &[None]);
            } else if e.contains("::") || e.starts_with("Sha") {
                // (a bare call would be taken for an opcode)
                self.out.push(format!("({});", e));
                self.change(0, &[None]);
            } else {
                self.out.push(format!("{};", e));
                self.change(0, &[None]);
            }
            return;
        }
        // consistent names only
        type Shuffle = (&'static str, usize, &'static [usize]);
        const SHUFFLES: &[Shuffle] = &[
            ("OP_DUP", 1, &[0, 0]),
            ("OP_DROP", 1, &[]),
            ("OP_SWAP", 2, &[1, 0]),
            ("OP_OVER", 2, &[0, 1, 0]),
            ("OP_NIP", 2, &[1]),
            ("OP_TUCK", 2, &[1, 0, 1]),
            ("OP_ROT", 3, &[1, 2, 0]),
            ("OP_2DUP", 2, &[0, 1, 0, 1]),
            ("OP_2DROP", 2, &[]),
            ("OP_3DUP", 3, &[0, 1, 2, 0, 1, 2]),
            ("OP_2SWAP", 4, &[2, 3, 0, 1]),
        ];
        const FUNCS: &[(&str, usize, usize)] = &[
            ("OP_ADD", 2, 1),
            ("OP_SUB", 2, 1),
            ("OP_CAT", 2, 1),
            ("OP_SPLIT", 2, 2),
            ("OP_HASH160", 1, 1),
            ("OP_SHA256", 1, 1),
            ("OP_EQUAL", 2, 1),
            ("OP_EQUALVERIFY", 2, 0),
            ("OP_VERIFY", 1, 0),
            ("OP_CHECKSIG", 2, 1),
            ("OP_CHECKSIGVERIFY", 2, 0),
            ("OP_WITHIN", 3, 1),
            ("OP_NUM2BIN", 2, 1),
            ("OP_BIN2NUM", 1, 1),
            ("OP_CHECKDATASIG", 3, 1),
            ("OP_0", 0, 1),
            ("OP_16", 0, 1),
        ];
        match r.below(10) {
            0..=3 => {
                let s = r.pick(SHUFFLES);
                if let Some(top) = self.top(s.1) {
                    let a = self.args(r, &top);
                    let outs: Vec<Option<String>> = s.2.iter().map(|i| top[*i].clone()).collect();
                    if outs.is_empty() || r.chance(1, 2) {
                        self.out.push(format!("{}{};", s.0, a));
                        self.change(s.1, &outs);
                    } else {
                        let names: Vec<String> = outs.iter().map(|_| self.new_name(r)).collect();
                        let pat = if names.len() == 1 { names[0].clone() } else { format!("({})", names.join(", ")) };
                        self.out.push(format!("let {} = {}{};", pat, s.0, a));
                        self.change(s.1, &names.into_iter().map(Some).collect::<Vec<_>>());
                    }
                }
            }
            4..=7 => {
                let f = r.pick(FUNCS);
                if let Some(top) = self.top(f.1) {
                    let a = if f.1 == 0 { String::new() } else { self.args(r, &top) };
                    if f.2 == 0 || r.chance(1, 3) {
                        self.out.push(format!("{}{};", f.0, a));
                        self.change(f.1, &vec![None; f.2]);
                    } else {
                        let names: Vec<String> = (0..f.2).map(|_| self.new_name(r)).collect();
                        let pat = if names.len() == 1 { names[0].clone() } else { format!("({})", names.join(", ")) };
                        self.out.push(format!("let {} = {}{};", pat, f.0, a));
                        self.change(f.1, &names.into_iter().map(Some).collect::<Vec<_>>());
                    }
                }
            }
            8 => {
                if let Some(top) = self.top(1) {
                    let a = if top[0].is_some() { self.args(r, &top).replace("__", "") } else { String::new() };
                    let a = if a == "()" { String::new() } else { a };
                    self.out.push(format!("OP_TOALTSTACK{};", a));
                    for i in self.idx() {
                        if let Some(x) = self.stacks[i].pop() {
                            self.alts[i].push(x);
                        }
                    }
                    if r.chance(3, 4) {
                        for _ in 0..r.below(2) {
                            self.stmt(r);
                        }
                        self.out.push("OP_FROMALTSTACK;".into());
                        for i in self.idx() {
                            if let Some(x) = self.alts[i].pop() {
                                self.stacks[i].push(x);
                            }
                        }
                    }
                }
            }
            _ => {
                // fetch an item by name
                let d = self.depth() as u64;
                let k = 1 + r.below(d) as usize;
                if let Some(top) = self.top(k) {
                    if let Some(n) = &top[0] {
                        if top[1..].iter().all(|x| x.as_ref() != Some(n)) {
                            let pick = r.chance(1, 2);
                            self.out.push(format!("depth_of({});", n));
                            self.out.push(if pick { "OP_PICK;".into() } else { "OP_ROLL;".into() });
                            let mut t = top.clone();
                            let x = if pick { t[0].clone() } else { t.remove(0) };
                            t.push(x);
                            self.change(k, &t);
                            return;
                        }
                    }
                }
                if let Some(top) = self.top(1) {
                    if let Some(n) = &top[0] {
                        self.out.push(format!("transmute({}, [u8; 4]);", n));
                    }
                }
            }
        }
    }
}

fn gen_src(r: &mut Rng) -> Src {
    let nvar = *r.pick(&[0u64, 0, 0, 2, 2, 3, 4, 5]);
    let mut attrs = vec![if r.chance(1, 4) { "ScriptInputs".to_string() } else { "Inputs".to_string() }];
    const VARS: &[&str] = &["Alpha", "Beta", "Gamma", "Delta", "Omega"];
    let preds: Vec<Vec<(String, bool)>> = (0..nvar)
        .map(|i| match nvar {
            2 => vec![("p".into(), i == 1)],
            3 => match i {
                0 => vec![("p".into(), false)],
                1 => vec![("p".into(), true), ("q".into(), true)],
                _ => vec![("p".into(), true), ("q".into(), false)],
            },
            _ => vec![("p".into(), i & 1 == 1), ("q".into(), i & 2 == 2)],
        })
        .collect();
    let variants: Vec<(String, Vec<(String, bool)>)> = preds.into_iter().enumerate().map(|(i, p)| (VARS[i].to_string(), p)).collect();
    for (n, p) in &variants {
        let s: Vec<String> = p.iter().map(|(n, b)| format!("{}{}", if *b { "" } else { "!" }, n)).collect();
        attrs.push(format!("{} = \"{}\"", n, s.join("&&")));
    }
    if r.chance(1, 8) {
        attrs.push("debug = false".into());
    }
    if r.chance(1, 8) {
        attrs.push("debug = true".into());
    }
    if r.chance(1, 10) {
        attrs.push("crate = \"other_crate\"".into());
    }
    let m = variants.len().max(1);
    let mut g = G { variants, stacks: vec![vec![]; m], alts: vec![vec![]; m], live: vec![true; m], out: vec![], fresh: 0 };
    let mut args = vec![r.pick(&["params: P", "_: P", "params: &P", "params: Params<'_>"]).to_string()];
    for k in 0..r.below(4) {
        let name = format!("in{}", k);
        let ty = *r.pick(&["ByteArray", "i32", "[u8; 32]", "bool", "Integer"]);
        let mut a = String::new();
        if r.chance(1, 5) {
            a.push_str("/** an input */ ");
        }
        if nvar > 0 && r.chance(1, 2) {
            let mut which: Vec<usize> = (0..m).filter(|_| r.chance(1, 2)).collect();
            if which.is_empty() {
                which.push(r.usize(m));
            }
            let names: Vec<&str> = which.iter().map(|i| g.variants[*i].0.as_str()).collect();
            a.push_str(&format!("#[variant({})] ", names.join(", ")));
            for i in which {
                g.stacks[i].push(Some(name.clone()));
            }
        } else {
            for i in 0..m {
                g.stacks[i].push(Some(name.clone()));
            }
        }
        args.push(format!("{}{}: {}", a, name, ty));
    }
    let preds: Vec<&str> = match nvar {
        0 => vec![],
        2 => vec!["p"],
        _ => vec!["q", "p"],
    };
    for p in &preds {
        args.push(format!("{}: bool", p));
        for i in 0..m {
            g.stacks[i].push(Some(p.to_string()));
        }
    }
    fn block(g: &mut G, r: &mut Rng, n: u64) {
        for _ in 0..n {
            g.stmt(r);
        }
    }
    if nvar > 0 && r.chance(3, 4) {
        // the branch on p is taken apart right away, so that names stay in step
        if r.chance(1, 3) {
            block(&mut g, r, 1);
        }
        if g.top(1).map_or(false, |t| t[0].as_deref() == Some("p")) {
            g.out.push("OP_IF(p);".into());
            g.change(1, &[]);
            let holds: Vec<bool> = (0..m).map(|i| g.variants[i].1.iter().any(|(n, b)| n == "p" && *b)).collect();
            g.live = holds.clone();
            let n = r.below(4);
            if g.live.iter().any(|l| *l) {
                block(&mut g, r, n);
            }
            g.live = holds.iter().map(|h| !h).collect();
            if r.chance(5, 6) {
                g.out.push("OP_ELSE;".into());
                let n = r.below(4);
                if g.live.iter().any(|l| *l) {
                    block(&mut g, r, n);
                }
            }
            g.out.push("OP_ENDIF;".into());
            g.live = vec![true; m];
        }
    } else if nvar == 0 && r.chance(1, 6) && g.top(1).map_or(false, |t| t[0].is_some()) {
        // a branch that leaves the stack alone
        let n = g.top(1).unwrap()[0].clone().unwrap();
        g.out.push(format!("OP_IF({});", n));
        g.change(1, &[]);
        for _ in 0..r.below(2) {
            let e = *r.pick(&["5", "b\"data\""]);
            g.out.push(format!("{};", e));
            g.out.push("OP_DROP;".into());
        }
        g.out.push("OP_ENDIF;".into());
    }
    let n = r.below(8);
    block(&mut g, r, n);
    if r.chance(1, 4) {
        // what a user gets wrong
        let at = r.usize(g.out.len() + 1);
        const WRONG: &[&str] = &[
            "OP_DROP;", "OP_2DROP;", "OP_ADD;", "OP_DROP(nowhere);", "OP_SWAP(a, b);", "depth_of(nowhere);", "OP_ROLL;", "OP_PICK;", "OP_FROMALTSTACK;", "OP_ENDIF;", "OP_IF(p);", "OP_ELSE;",
            "OP_NOTIF(p);", "unknown_function(x);", "OP_MUL;", "OP_CHECKMULTISIG;", "OP_IFDUP;", "OP_DEPTH;", "let d = OP_DEPTH;", "OP_SIZE;", "let (__, s) = OP_SIZE(a);", "OP_RESERVED;", "OP_VERIF;",
            "for i in 0..3 { OP_DUP; }", "if true { OP_DUP; } else { OP_DROP; }", "fn inner() {}", "let x;", "let [x, y] = OP_SPLIT;", "let (x, y) = 5;", "transmute(x);", "transmute(nowhere, u8);",
            "depth_of_offset(a, 1);", "depth_of_offset(in0, 1);", "depth_of(a, b);", "let (x, y, z) = OP_DUP;", "OP_CODESEPARATOR;", "OP_RETURN;", "OP_CHECKLOCKTIMEVERIFY;", "let __ = OP_ADD;", "OP_REVERSEBYTES;",
            "a::b::c;", "return;", "x += 1;", "OP_HASH160(5);", "let mut x = 5;", "OP_2ROT;", "OP_NOP;", "OP_2;", "{ }", ";", "let (a,) = OP_DUP;", "self.x;", "OP_PICK(a);", "let r = OP_ROLL(b);",
            "OP_UNKNOWN;", "OP_INVALIDOPCODE;", "OP_ENDIF(p);", "let z = OP_IF(p);", "OP_IF;", "OP_TOALTSTACK(a, b);", "let (u, v) = OP_TOALTSTACK;", "depth_of(a)?;", "let n = !5;",
        ];
        let w = *r.pick(WRONG);
        // (a lone semicolon or item is fine for the parser too)
        g.out.insert(at, w.to_string());
    }
    let mut generics = String::new();
    let mut ret = String::new();
    if r.chance(1, 12) {
        match r.below(16) {
            0 => generics = "<const N: usize>".into(),
            1 => generics = "<'a, T: Clone>".into(),
            2 => ret = " -> u8".into(),
            3 => attrs.push("Zeta = \"é\"".into()),
            4 => attrs.push("Zeta = \"\"".into()),
            5 => attrs.push("Zeta = \"!\"".into()),
            6 => attrs.push("crate = \"1 x\"".into()),
            7 => attrs.push("crate = \"\"".into()),
            8 => attrs.push("Zeta".into()),
            9 => attrs = vec![],
            10 => args.insert(r.usize(args.len() + 1), "self".into()),
            11 => args = vec![],
            12 => {
                let n = attrs.first().cloned().unwrap_or_default();
                args.push(format!("#[variant({})] odd: i32", n));
            }
            13 => args.push("#[variant] odd: i32".into()),
            14 => args.push("(x, y): (i32, i32)".into()),
            _ => attrs.push("crate = \"crate\"".into()),
        }
        // `self` anywhere but first, and not twice, is not a function for the parser
        let k = args.iter().position(|a| a == "self");
        if let Some(k) = k {
            let a = args.remove(k);
            args.insert(0, a);
        }
    }
    let mut docs = vec![];
    if r.chance(1, 4) {
        docs.push(" A script.".to_string());
        if r.chance(1, 2) {
            docs.push(format!(" # {}", attrs.first().cloned().unwrap_or_default()));
            docs.push(" its inputs".into());
            for v in VARS.iter().take(nvar as usize) {
                if r.chance(1, 2) {
                    docs.push(format!(" ## {}", v));
                    docs.push(format!(" the case {}", v));
                }
            }
        }
    }
    g.out.truncate(40);
    Src { attrs, docs, vis: r.pick(&["", "pub ", "pub(crate) "]).to_string(), generics, args, ret, body: g.out }
}

// ---- environments -----------------------------------------------------------------------------

const CLASSES: &[&str] = &["mkdir", "open", "read", "write", "stat", "unlink", "rmdir", "list", "spawn", "wait", "other"];
const F_ERR: u8 = 0;
const KINDS: &[&str] = &["error", "short", "lost", "torn", "flipped bit", "early end"];

fn gen_fault(r: &mut Rng, scripts: u32) -> (u8, u32, u8, i64) {
    use libc::*;
    let cls = *r.pick(&[0u8, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 8, 9]);
    let per = match cls {
        0 | 6 | 7 => 1,
        1 => 13,
        2 | 3 => 8,
        4 => 5,
        5 => 2,
        _ => 4,
    };
    let nth = if r.chance(1, 8) { r.below(120) as u32 } else { r.below((per * scripts) as u64) as u32 };
    let err: &[i32] = match cls {
        0 => &[ENOSPC, EACCES, EROFS, EEXIST, ENOENT, EIO, EMLINK, EDQUOT, ENAMETOOLONG],
        1 => &[ENOSPC, EACCES, EROFS, EMFILE, ENFILE, EINTR, EIO, ENOENT, EISDIR, ELOOP],
        2 => &[EIO, EINTR, EISDIR],
        3 => &[ENOSPC, EIO, EINTR, EDQUOT, EFBIG],
        8 => &[ENOENT, EACCES, ENOMEM, EAGAIN, ENOEXEC, ETXTBSY],
        9 => &[EINTR, ECHILD],
        _ => &[EIO, EACCES, EBUSY, ENOENT, EROFS],
    };
    let kind = match cls {
        2 => *r.pick(&[F_ERR, 1, 1, 4, 5]),
        3 => *r.pick(&[F_ERR, F_ERR, 1, 1, 2, 3]),
        _ => F_ERR,
    };
    let arg = if kind == F_ERR { *r.pick(err) as i64 } else { r.below(400) as i64 };
    (cls, nth, kind, arg)
}

fn gen_behaviour(r: &mut Rng, scripts: u32) -> (u32, u8, i64) {
    use libc::*;
    let kind = *r.pick(&[1u8, 2, 2, 3, 4, 4, 5, 6, 6, 7, 8, 9, 10, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24]);
    let arg = match kind {
        2 | 3 => *r.pick(&[1, 2, 101, 126, 127, 255]),
        4 | 5 => *r.pick(&[SIGKILL, SIGTERM, SIGABRT, SIGSEGV, SIGINT, SIGPIPE]) as i64,
        10 => r.below(8) as i64,
        _ => r.below(1000) as i64,
    };
    (r.below(4 * scripts as u64) as u32, kind, arg)
}

fn gen(r: &mut Rng, p: &str, _thorough: bool) -> Value {
    let n = r.range(1, 4) as usize;
    let scripts: Vec<Src> = (0..n).map(|_| gen_src(r)).collect();
    let mut envs = vec![];
    if p == "C12" {
        let mut e = Env { seed: r.u64() >> 1, clock: r.below(1 << 30), mask: u32::MAX, ..Env::default() };
        match r.below(10) {
            0 => e.fmt = r.range(1, 7) as u8,
            1 => e.tmp = r.range(3, 5) as u8,
            _ => e.tmp = r.below(3) as u8,
        }
        for _ in 0..r.below(3) {
            e.junk.push(r.below(6) as u8);
        }
        if r.chance(2, 3) {
            for _ in 0..*r.pick(&[1u64, 1, 1, 2, 3, 6]) {
                e.faults.push(gen_fault(r, n as u32));
            }
        }
        if e.faults.is_empty() || r.chance(1, 2) {
            for _ in 0..*r.pick(&[1u64, 1, 2, 4]) {
                e.behave.push(gen_behaviour(r, n as u32));
            }
        }
        if r.chance(1, 6) {
            // the same thing every time
            if let Some(b) = e.behave.first().cloned() {
                for k in 0..4 * n as u32 {
                    e.behave.push((k, b.1, b.2));
                }
            } else if let Some(f) = e.faults.first().cloned() {
                for k in 0..8 * n as u32 {
                    e.faults.push((f.0, k, f.2, f.3));
                }
            }
        }
        if r.chance(1, 60) {
            e.behave = (0..4 * n as u32).map(|k| (k, 22, 0)).collect();
        }
        e.faults.truncate(48);
        e.behave.truncate(48);
        envs.push(e);
    } else {
        for _ in 0..r.range(1, 2) {
            let mut e = Env { seed: r.u64() >> 1, clock: r.below(1 << 30), mask: u32::MAX, tmp: r.below(3) as u8, vars: r.u8(), ..Env::default() };
            for _ in 0..r.below(4) {
                e.junk.push(r.below(6) as u8);
            }
            if n > 1 && r.chance(1, 2) {
                e.mask = r.below(1 << n) as u32 | (1 << r.usize(n)) as u32;
            }
            if r.chance(1, 3) {
                e.nest = Some((*r.pick(&[0u8, 1, 1, 2, 3, 3, 5, 6, 7, 8, 8, 9]), r.below(9) as u32));
            }
            envs.push(e);
        }
    }
    let mut common = None;
    if p == "C13" && r.chance(1, 4) {
        let mut c = Common::default();
        match r.below(4) {
            0 => c.fmt = r.range(1, 7) as u8,
            1 => c.missing = true,
            _ => {
                let b = gen_behaviour(r, n as u32);
                c.behave = Some((b.1, b.2));
            }
        }
        common = Some(c);
    }
    serde_json::to_value(Plan { scripts, base: r.u64() >> 1, common, envs }).unwrap()
}

fn valid(v: &Value) -> bool {
    match serde_json::from_value::<Plan>(v.clone()) {
        Ok(p) => {
            !p.scripts.is_empty()
                && p.scripts.len() <= 8
                && !p.envs.is_empty()
                && p.scripts.iter().all(|s| s.body.len() < 60 && s.docs.len() < 15)
                && p.envs.iter().all(|e| e.faults.len() <= 60 && e.behave.len() <= 60)
        }
        Err(_) => false,
    }
}

// ---- running the compiler ---------------------------------------------------------------------

#[derive(Default, Clone, Debug, PartialEq)]
struct Module {
    /// the text of the module after expansion
    text: Option<String>,
    /// (line in the module, message)
    errors: Vec<(i64, String)>,
}

#[derive(Default, Debug)]
struct Compiled {
    status: String,
    finished: bool,
    modules: BTreeMap<usize, Module>,
    stray: Vec<String>,
    stderr: String,
    log: Vec<String>,
    left: Vec<String>,
}

fn home() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    // (this is the forked run: the directory belongs to the worker, who removes it)
    PathBuf::from(format!("{}/dst-exp-{:08}", base, unsafe { libc::getppid() }))
}

fn after() {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let _ = std::fs::remove_dir_all(format!("{}/dst-exp-{:08}", base, std::process::id()));
}

fn macro_lib() -> String {
    if let Ok(s) = std::env::var("DST_MACRO") {
        if !s.is_empty() {
            return s;
        }
    }
    let mut best: Option<(std::time::SystemTime, String)> = None;
    for e in std::fs::read_dir("/verif/dst/target/debug/deps").expect("deps").flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with("libbitcoin_cash_script_macro-") && n.ends_with(".so") {
            let t = e.metadata().and_then(|m| m.modified()).expect("mtime");
            if best.as_ref().map_or(true, |b| t > b.0) {
                best = Some((t, e.path().to_string_lossy().to_string()));
            }
        }
    }
    best.expect("macro library").1
}

fn extra_args() -> Vec<String> {
    match std::env::var("DST_LIB") {
        Ok(s) if !s.is_empty() => {
            let dir = Path::new(&s).parent().unwrap().to_string_lossy().to_string();
            let host = Path::new(&macro_lib()).parent().unwrap().to_string_lossy().to_string();
            vec!["--extern".into(), format!("bitcoin_cash={}", s), "-L".into(), format!("dependency={}", dir), "-L".into(), format!("dependency={}", host)]
        }
        _ => vec![],
    }
}

fn formatter() -> String {
    std::env::var("RUSTFMT").unwrap_or_else(|_| "/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/bin/rustfmt".into())
}

fn walk(dir: &Path, root: &Path, out: &mut Vec<String>) {
    let mut es: Vec<_> = match std::fs::read_dir(dir) {
        Ok(d) => d.flatten().collect(),
        Err(_) => return,
    };
    es.sort_by_key(|e| e.file_name());
    for e in es {
        let p = e.path();
        let is_dir = e.file_type().map(|t| t.is_dir()).unwrap_or(false);
        let mut name = p.strip_prefix(root).unwrap_or(&p).to_string_lossy().to_string();
        if is_dir {
            name.push('/');
        }
        out.push(name);
        if is_dir {
            walk(&p, root, out);
        }
    }
}

fn source(scripts: &[Src], mask: u32) -> String {
    let mut s = String::new();
    let mut line = 0;
    for (i, x) in scripts.iter().enumerate() {
        if mask >> i & 1 == 0 {
            continue;
        }
        while line < i * STRIDE {
            s.push('\n');
            line += 1;
        }
        let m = format!("mod s{} {{ {}\n{}}}\n", i, IMPORTS, x.render());
        line += m.matches('\n').count();
        s.push_str(&m);
    }
    s
}

fn compile(scripts: &[Src], env: &Env, tag: usize, problems: &mut Vec<String>) -> Compiled {
    let root = home().join(format!("c{}", tag));
    let _ = std::fs::remove_dir_all(&root);
    let cwd = root.join("w");
    std::fs::create_dir_all(&cwd).expect("scratch");
    std::fs::create_dir_all(root.join("home")).expect("scratch");
    let tmp = root.join(match env.tmp {
        0 | 4 | 5 => "tmp",
        1 => "a much longer name for the temporary directory, with spaces and ümlauts",
        2 => "t/t/t/t",
        _ => "missing",
    });
    match env.tmp {
        3 => {}
        4 => std::fs::write(&tmp, "a file").expect("scratch"),
        _ => std::fs::create_dir_all(&tmp).expect("scratch"),
    }
    if env.tmp != 3 && env.tmp != 4 {
        for j in &env.junk {
            let w = |n: &str, c: &str| std::fs::write(tmp.join(n), c).expect("scratch");
            let d = |n: &str| std::fs::create_dir_all(tmp.join(n)).expect("scratch");
            match j {
                0 => w("expanded", "fn main() { stale(); }"),
                1 => w("rustfmt.toml", "max_width = 7\nnonsense = true\n"),
                2 => {
                    d("cargo-expand");
                    w("cargo-expand/expanded", "stale");
                }
                3 => {
                    d("cargo-expandAAAAAA");
                    w("cargo-expandAAAAAA/expanded", "stale");
                }
                4 => w("cargo-expand0", "stale"),
                _ => d("expanded.d"),
            }
        }
    }
    std::fs::write(cwd.join("lib.rs"), source(scripts, env.mask)).expect("scratch");
    let mut plan = format!("T {}\nL {}\nS {}\nC {}\n", tmp.display(), root.join("log").display(), env.seed, env.clock);
    let fmt = formatter();
    for f in &env.faults {
        let _ = writeln!(plan, "F {} {} {} {}", f.0, f.1, f.2, f.3);
    }
    for b in &env.behave {
        let _ = writeln!(plan, "B {} {} {}", b.0, b.1, b.2);
    }
    let rustc = fmt.replace("/rustfmt", "/rustc");
    let lib = macro_lib();
    let args: Vec<String> = ["--edition=2018", "--crate-type=lib", "--crate-name=scripts", "-Zunpretty=expanded", "--error-format=json", "--cap-lints=allow"]
        .iter()
        .map(|s| s.to_string())
        .chain(vec!["--extern".to_string(), format!("{}={}", MACRO, lib)])
        .chain(extra_args())
        .collect();
    if let Some((cls, nth)) = env.nest {
        // the other compiler: the same scripts, backwards, in the same temporary directory
        let mut other: Vec<Src> = scripts.to_vec();
        other.reverse();
        std::fs::create_dir_all(root.join("other")).expect("scratch");
        std::fs::write(root.join("other/lib.rs"), source(&other, u32::MAX)).expect("scratch");
        std::fs::write(root.join("plan2"), format!("T {}\nS {}\nC {}\n", tmp.display(), env.seed.rotate_left(7) >> 1, env.clock)).expect("scratch");
        let _ = writeln!(plan, "F {} {} 6 0", cls, nth);
        let _ = writeln!(plan, "P {}", root.join("plan2").display());
        let _ = writeln!(plan, "A {}", rustc);
        for a in &args {
            let _ = writeln!(plan, "A {}", a);
        }
        let _ = writeln!(plan, "A {}", root.join("other/lib.rs").display());
    }
    std::fs::write(root.join("plan"), plan).expect("scratch");
    let mut before = vec![];
    walk(&root, &root, &mut before);

    let mut c = std::process::Command::new(&rustc);
    c.args(&args).arg("lib.rs").current_dir(&cwd).env_clear();
    c.env("PATH", "/usr/bin:/bin").env("HOME", root.join("home")).env("TMPDIR", &tmp).env("RUSTC_BOOTSTRAP", "1");
    c.env("SIM_PLAN", root.join("plan")).env("LD_PRELOAD", "/verif/build/shim.so");
    match env.fmt {
        0 => {
            c.env("RUSTFMT", &fmt);
        }
        1 => {}
        2 => {
            c.env("RUSTFMT", "");
        }
        3 => {
            c.env("RUSTFMT", "/nonexistent/rustfmt");
        }
        4 => {
            c.env("RUSTFMT", "/usr");
        }
        5 => {
            c.env("RUSTFMT", "rustfmt-that-is-not-on-the-path");
        }
        6 => {
            c.env("RUSTFMT", "/etc/passwd");
        }
        _ => {
            c.env("PATH", Path::new(&fmt).parent().unwrap());
        }
    }
    if env.vars & 1 == 1 {
        c.env("LANG", "tr_TR.UTF-8").env("TZ", "Asia/Kathmandu").env("USER", "somebody");
    }
    if env.vars & 2 == 2 {
        c.env("CARGO_PKG_NAME", "other").env("CARGO_MANIFEST_DIR", "/nonexistent").env("OUT_DIR", "/nonexistent/out");
    }
    if env.vars & 4 == 4 {
        c.env("RUST_BACKTRACE", "1").env("COLUMNS", "40");
    }
    unsafe {
        c.pre_exec(|| {
            libc::personality(0x0040000);
            Ok(())
        });
    }
    let file = |n: &str| std::fs::File::create(root.join(n)).expect("scratch");
    c.stdin(std::process::Stdio::null()).stdout(file("stdout")).stderr(file("stderr"));
    let mut child = match c.spawn() {
        Ok(o) => o,
        Err(e) => {
            problems.push(format!("cannot start the compiler: {}", e));
            return Compiled::default();
        }
    };
    let t0 = std::time::Instant::now();
    let mut nap = 1;
    let mut hung = false;
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if t0.elapsed().as_secs() > 60 => {
                hung = true;
                let _ = child.kill();
                break child.wait().expect("wait");
            }
            _ => std::thread::sleep(std::time::Duration::from_millis(nap)),
        }
        nap = (nap + 1).min(3);
    };
    struct Out {
        status: std::process::ExitStatus,
        stdout: Vec<u8>,
        stderr: Vec<u8>,
    }
    let o = Out { status, stdout: std::fs::read(root.join("stdout")).unwrap_or_default(), stderr: std::fs::read(root.join("stderr")).unwrap_or_default() };
    let mut res = Compiled::default();
    res.finished = matches!(o.status.code(), Some(0) | Some(1));
    res.status = match (o.status.code(), o.status.signal()) {
        (Some(c), _) => format!("exit {}", c),
        (_, s) => format!("signal {:?}", s),
    };
    if hung {
        res.status = "hangs".into();
    }
    let rootname = root.to_string_lossy().to_string();
    // (the worker's part of the scratch directory's name is no part of the run)
    let worker = home().to_string_lossy().to_string();
    let any = "/dev/shm/dst-exp";
    res.stderr = String::from_utf8_lossy(&o.stderr).replace(&worker, any);
    for line in res.stderr.lines() {
        let v: Value = match serde_json::from_str(line) {
            Ok(v) => v,
            Err(_) => {
                res.stray.push(line.to_string());
                continue;
            }
        };
        if v["level"] != "error" || !v["code"].is_null() {
            continue;
        }
        let mut msg = v["message"].as_str().unwrap_or("").to_string();
        if msg.starts_with("aborting due to") {
            continue;
        }
        for ch in v["children"].as_array().into_iter().flatten() {
            msg.push_str(" / ");
            msg.push_str(ch["message"].as_str().unwrap_or(""));
        }
        let line = v["spans"].as_array().and_then(|a| a.iter().find(|s| s["is_primary"] == true)).and_then(|s| {
            // the place in our source, not in some macro
            s["line_start"].as_i64()
        });
        match line {
            Some(l) if l >= 1 => {
                let i = (l as usize - 1) / STRIDE;
                res.modules.entry(i).or_default().errors.push((l - (i * STRIDE) as i64, msg));
            }
            _ => res.stray.push(msg),
        }
    }
    let text = String::from_utf8_lossy(&o.stdout).replace(&worker, any);
    for i in 0..scripts.len() {
        let head = format!("mod s{} {{", i);
        let at = if text.starts_with(&head) { Some(0) } else { text.find(&format!("\n{}", head)).map(|p| p + 1) };
        if let Some(at) = at {
            let body = &text[at..];
            let end = tokens(body).1;
            res.modules.entry(i).or_default().text = Some(body[..end].to_string());
        }
    }
    res.log = std::fs::read_to_string(root.join("log")).unwrap_or_default().lines().map(|l| l.replace(&rootname, "$ROOT")).collect();
    let mut now = vec![];
    walk(&root, &root, &mut now);
    for n in now {
        if n != "log" && n != "stdout" && n != "stderr" && !before.contains(&n) {
            res.left.push(n);
        }
    }
    for n in &before {
        if !root.join(n.trim_end_matches('/')).exists() {
            res.left.push(format!("-{}", n));
        }
    }
    let _ = std::fs::remove_dir_all(&root);
    res
}

/// The tokens of the first brace group of `s` (and what precedes it), and where it ends.
fn tokens(s: &str) -> (Vec<String>, usize) {
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    let mut depth = 0;
    while i < b.len() {
        let c = b[i];
        let start = i;
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            out.push(s[start..i].trim_end().to_string());
            continue;
        }
        if c == b'/' && b.get(i + 1) == Some(&b'*') {
            i += 2;
            let mut d = 1;
            while i < b.len() && d > 0 {
                if b[i..].starts_with(b"*/") {
                    d -= 1;
                    i += 2;
                } else if b[i..].starts_with(b"/*") {
                    d += 1;
                    i += 2;
                } else {
                    i += 1;
                }
            }
            out.push(s[start..i].to_string());
            continue;
        }
        // raw strings
        let mut k = i;
        if b[k] == b'b' || b[k] == b'c' {
            k += 1;
        }
        if k < b.len() && b[k] == b'r' {
            let mut h = k + 1;
            while h < b.len() && b[h] == b'#' {
                h += 1;
            }
            if h < b.len() && b[h] == b'"' {
                let close = format!("\"{}", "#".repeat(h - k - 1));
                let e = s[h + 1..].find(&close).map(|p| h + 1 + p + close.len()).unwrap_or(b.len());
                out.push(s[start..e].to_string());
                i = e;
                continue;
            }
        }
        let q = if c == b'"' {
            Some(i)
        } else if (c == b'b' || c == b'c') && b.get(i + 1) == Some(&b'"') {
            Some(i + 1)
        } else {
            None
        };
        if let Some(q) = q {
            i = q + 1;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i = (i + 1).min(b.len());
            out.push(s[start..i].to_string());
            continue;
        }
        if c == b'\'' || (c == b'b' && b.get(i + 1) == Some(&b'\'')) {
            let q = if c == b'\'' { i } else { i + 1 };
            // a character, or a lifetime
            let rest = &s[q + 1..];
            let ch = rest.chars().next();
            let is_char = match ch {
                Some('\\') => true,
                Some(x) => rest[x.len_utf8()..].starts_with('\''),
                None => false,
            };
            if is_char {
                i = q + 1;
                while i < b.len() && b[i] != b'\'' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
                out.push(s[start..i.min(b.len())].to_string());
                continue;
            }
            i = q + 1;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            out.push(s[start..i].to_string());
            continue;
        }
        if c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80 {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] >= 0x80) {
                i += 1;
            }
            out.push(s[start..i].to_string());
            continue;
        }
        i += 1;
        out.push(s[start..i].to_string());
        if c == b'{' {
            depth += 1;
        }
        if c == b'}' {
            depth -= 1;
            if depth <= 0 {
                return (out, i);
            }
        }
    }
    (out, b.len())
}

/// The expansion without the recorded source text.
fn strip(text: &str) -> Vec<String> {
    let t = tokens(text).0;
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == "src_code" && t.get(i + 1).map(|s| s.as_str()) == Some(":") {
            out.push("src_code".to_string());
            i += 2;
            let mut d = 0i32;
            while i < t.len() {
                match t[i].as_str() {
                    "(" | "[" | "{" => d += 1,
                    ")" | "]" | "}" => {
                        d -= 1;
                        if d < 0 {
                            break;
                        }
                    }
                    "," if d == 0 => break,
                    _ => {}
                }
                i += 1;
            }
            continue;
        }
        // (width, "text".into()) wherever else it stands
        if t[i] == "(" && i + 3 < t.len() && t[i + 1].ends_with("u32") && t[i + 2] == "," && t[i + 3].starts_with('"') {
            let mut d = 0i32;
            while i < t.len() {
                match t[i].as_str() {
                    "(" => d += 1,
                    ")" => d -= 1,
                    _ => {}
                }
                i += 1;
                if d == 0 {
                    break;
                }
            }
            out.push("(source)".to_string());
            continue;
        }
        out.push(t[i].clone());
        i += 1;
    }
    out
}

fn first_diff(a: &[String], b: &[String]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let from = k.saturating_sub(6);
    let show = |v: &[String]| v[from.min(v.len())..(k + 10).min(v.len())].join(" ");
    format!("`{}` instead of `{}`", show(b), show(a))
}

fn panicked(m: &Module) -> Option<&String> {
    m.errors.iter().map(|e| &e.1).find(|e| e.contains("panicked"))
}

fn crashed(c: &Compiled) -> Option<String> {
    if !c.finished {
        return Some(c.status.clone());
    }
    for l in &c.stray {
        if l.contains("internal compiler error") || l.contains("compiler unexpectedly panicked") {
            return Some(l.clone());
        }
    }
    None
}

/// Did a fault hit the removal of the temporary files?
fn removal_hit(c: &Compiled) -> bool {
    c.log.iter().any(|l| {
        l.contains(" ! ")
            && (l.starts_with("unlink#") || l.starts_with("rmdir#") || l.starts_with("list#") || l.starts_with("stat#") || (l.starts_with("open#") && (l.ends_with(" dr") || l.contains(" dr "))))
    })
}

fn log(ctx: &mut Ctx, what: &str, c: &Compiled) {
    for l in &c.log {
        ev!(ctx, "{}: {}", what, l);
    }
    ev!(ctx, "{}: {}", what, c.status);
    for (i, m) in &c.modules {
        ev!(ctx, "{}: s{} {} bytes, errors {:?}", what, i, m.text.as_ref().map_or(0, |t| t.len()), m.errors);
    }
    for l in &c.left {
        ev!(ctx, "{}: left {}", what, l);
    }
}

fn run(ctx: &mut Ctx, prop: &str, v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).expect("plan");
    let mut problems = vec![];
    let mut healthy = Env { seed: p.base, mask: u32::MAX, ..Env::default() };
    let mut p = p;
    if let Some(c) = &p.common {
        c.apply(&mut healthy);
        for e in &mut p.envs {
            c.apply(e);
        }
    }
    let p = p;
    let h = compile(&p.scripts, &healthy, 0, &mut problems);
    assert!(problems.is_empty(), "{:?}", problems);
    log(ctx, "healthy", &h);
    ctx.out.sim_time += h.log.len() as u64;
    if let Some(c) = crashed(&h) {
        ctx.violate(&["C12"], "compiler-crash", format!("in a healthy environment: {} {}", c, h.stray.join(" | ")));
        return;
    }
    for (i, m) in &h.modules {
        if let Some(e) = panicked(m) {
            ctx.violate(&["C12"], "macro-panics", format!("script {} in a healthy environment: {}", i, e));
        }
    }
    ctx.check(h.left.is_empty(), &["C12"], "files-left", || format!("in a healthy environment: {:?}", h.left));
    if h.modules.values().all(|m| m.text.is_none()) {
        ctx.probe("the compiler's parser refuses the script");
        return;
    }
    let good = h.modules.values().filter(|m| m.errors.is_empty() && m.text.is_some()).count();
    if good > 0 {
        ctx.probe("scripts accepted");
    } else {
        ctx.probe("no script accepted");
    }
    for (k, e) in p.envs.iter().enumerate() {
        let f = compile(&p.scripts, e, k + 1, &mut problems);
        assert!(problems.is_empty(), "{:?}", problems);
        let what = format!("env {}", k);
        log(ctx, &what, &f);
        ctx.out.sim_time += f.log.len() as u64;
        let mut injected = false;
        for l in &f.log {
            ctx.mark(l.split(" = ").next().unwrap_or(""));
            if let Some(at) = l.find(" ! ") {
                let cls = l.split('#').next().unwrap_or("");
                let kind: usize = l[at + 3..].split(' ').next().and_then(|s| s.parse().ok()).unwrap_or(0);
                ctx.fault(&format!("{} {}", cls, KINDS.get(kind).unwrap_or(&"?")));
                injected = true;
            }
            if let Some(at) = l.find(" behaviour ") {
                let b = l[at + 11..].split(' ').next().unwrap_or("0");
                if b != "0" && b != "22" {
                    ctx.fault(&format!("formatter behaviour {}", b));
                    injected = true;
                }
            }
            if l.contains("another compiler starts") {
                ctx.fault("another compiler in the same temporary directory");
            }
        }
        if e.fmt != 0 {
            ctx.fault("formatter not found");
            injected = true;
        }
        if e.tmp >= 3 {
            ctx.fault("temporary directory missing");
            injected = true;
        }
        if e.seed != p.base {
            ctx.fault("other hash seed and names");
        }
        ctx.out.nontrivial |= good > 0 || prop == "C13";
        if let Some(c) = crashed(&f) {
            ctx.violate(&["C12"], "compiler-crash", format!("{} {}", c, f.stray.join(" | ")));
            continue;
        }
        let empty = Module::default();
        for (i, want) in &h.modules {
            if e.mask >> i & 1 == 0 {
                continue;
            }
            let got = f.modules.get(i).unwrap_or(&empty);
            if let Some(m) = panicked(got) {
                ctx.violate(&["C12"], "macro-panics", format!("script {}: {}", i, m));
                continue;
            }
            ctx.eval();
            let ok = want.errors.is_empty();
            if got.errors.is_empty() != ok {
                if ok {
                    ctx.check(injected, &["C12", "C13"], "refused-without-cause", || format!("script {}: {:?}", i, got.errors));
                } else {
                    ctx.violate(&["C12", "C13"], "accepted", format!("script {} is accepted; otherwise {:?}", i, want.errors));
                }
                continue;
            }
            if ok {
                let (a, b) = (strip(want.text.as_deref().unwrap_or("")), strip(got.text.as_deref().unwrap_or("")));
                if !ctx.check(a == b, &["C12", "C13"], "other-code", || format!("script {}: {}", i, first_diff(&a, &b))) {
                    continue;
                }
            }
            if prop == "C13" {
                // (the layout of the compiler's listing also depends on where the source stands)
                let same = want.errors == got.errors && want.text.as_deref().map(|t| tokens(t).0) == got.text.as_deref().map(|t| tokens(t).0);
                ctx.check(same, &["C13"], if ok { "other-text" } else { "other-error" }, || {
                    if ok {
                        let (a, b) = (tokens(want.text.as_deref().unwrap_or("")).0, tokens(got.text.as_deref().unwrap_or("")).0);
                        format!("script {}: {}", i, first_diff(&a, &b))
                    } else {
                        format!("script {}: {:?} instead of {:?}", i, got.errors, want.errors)
                    }
                });
            }
        }
        if !removal_hit(&f) {
            ctx.check(f.left.is_empty(), &["C12"], "files-left", || format!("{:?}", f.left));
        }
    }
    let _ = (CLASSES, F_ERR);
}

pub fn world(prop: &str) -> World {
    World {
        name: "expand",
        gen,
        run,
        valid,
        after: Some(after),
        quick_runs: if prop == "C12" { 1600 } else { 1200 },
        thorough_runs: 400_000,
        recheck: 100,
        cpu_s: 120,
        rule: "a run expands 1..4 generated scripts in a healthy and in a damaged environment (C12) or in several different ones (C13); distinct by the sequence of file, formatter and process calls with their faults",
        time_unit: "simulated calls",
        real: &["the script macro, compiled as shipped", "the compiler that runs it"],
        stub: &["the formatter (a simulated one that follows the plan; the real one in some runs)", "file system calls under the temporary directory", "process creation and waiting", "randomness and clocks"],
        assumptions: &["the expansion is judged after the compiler's own macro expansion, before type checking", "files outside the temporary directory are not made to fail"],
    }
}
