//! Search over seeds, minimisation, replay, evidence.
use crate::rng::{run_seed, Rng};
use crate::sim::{isolated, Ctx, Outcome, Violation};
use crate::worlds::{self, World};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

pub const VERIF: &str = "/verif";

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Found {
    run: u64,
    plan: Value,
    violation: Violation,
}

#[derive(Serialize, Deserialize, Default)]
struct Batch {
    runs: u64,
    evaluations: u64,
    events: u64,
    sim_time: u64,
    nontrivial: u64,
    fingerprints: BTreeSet<u64>,
    schedules: BTreeSet<u64>,
    edges: BTreeSet<u32>,
    edges_total: u32,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    fault_runs: u64,
    found: Vec<Found>,
    known: BTreeMap<String, u64>,
    other: BTreeMap<String, u64>,
    harness_errors: Vec<String>,
    samples: Vec<Value>,
    hashes: Vec<(u64, u64)>,
    hit_deadline: bool,
}

pub struct Known {
    pub entries: Vec<(String, String, String)>, // property, class, text
}

pub fn load_known() -> Known {
    let mut entries = vec![];
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", VERIF)).unwrap_or_default();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("").trim_start_matches("property=").to_string();
            let c = it.next().unwrap_or("").trim_start_matches("class=").to_string();
            entries.push((p, c, it.next().unwrap_or("").to_string()));
        }
    }
    Known { entries }
}

impl Known {
    fn is(&self, prop: &str, v: &Violation) -> bool {
        self.entries.iter().any(|(p, c, _)| p == prop && *c == v.class)
    }
}

fn run_plan(w: &World, prop: &str, plan: &Value, tracing: bool) -> Outcome {
    let out = isolated(tracing, w.cpu_s, |ctx: &mut Ctx| (w.run)(ctx, prop, plan));
    if let Some(after) = w.after {
        after();
    }
    out
}

fn gen_plan(w: &World, prop: &str, seed: u64, i: u64, thorough: bool) -> Value {
    let mut rng = Rng::new(run_seed(seed, prop, i));
    (w.gen)(&mut rng, prop, thorough)
}

#[allow(clippy::too_many_arguments)]
pub fn worker(prop: &str, seed: u64, start: u64, step: u64, end: u64, secs: u64, thorough: bool, out: &str) {
    let w = worlds::world_for(prop);
    let known = load_known();
    let t0 = Instant::now();
    let mut b = Batch { edges_total: crate::seams::edges_total(), ..Batch::default() };
    let mut i = start;
    while i < end {
        if t0.elapsed().as_secs() >= secs {
            b.hit_deadline = true;
            break;
        }
        let plan = gen_plan(&w, prop, seed, i, thorough);
        let o = run_plan(&w, prop, &plan, false);
        b.runs += 1;
        b.evaluations += o.evaluations;
        b.events += o.events;
        b.sim_time += o.sim_time;
        b.hashes.push((i, o.log_hash));
        if o.nontrivial {
            b.nontrivial += 1;
            b.fingerprints.insert(o.fingerprint);
        }
        b.schedules.insert(o.log_hash);
        if !o.faults.is_empty() {
            b.fault_runs += 1;
        }
        for (k, v) in &o.faults {
            *b.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *b.probes.entry(k.clone()).or_insert(0) += v;
        }
        b.edges.extend(o.edges.iter().copied());
        if b.samples.len() < 2 && o.nontrivial && i % 7 == start % 7 {
            b.samples.push(json!({"run": i, "plan": plan.clone(), "events": o.events}));
        }
        if let Some(e) = &o.harness_error {
            b.harness_errors.push(format!("run {}: {}", i, e));
            if b.harness_errors.len() > 3 {
                break;
            }
        }
        let mut stop = false;
        for v in o.violations {
            if v.props.iter().any(|p| p == prop) {
                if known.is(prop, &v) {
                    *b.known.entry(v.class.clone()).or_insert(0) += 1;
                } else {
                    b.found.push(Found { run: i, plan: plan.clone(), violation: v });
                    stop = true;
                    break;
                }
            } else {
                *b.other.entry(format!("{} {}", v.props.join(","), v.class)).or_insert(0) += 1;
            }
        }
        if stop {
            break;
        }
        i += step;
    }
    std::fs::write(out, bincode::serialize(&BatchBin::from(b)).expect("batch")).expect("write batch");
}

/// bincode cannot carry serde_json::Value; JSON inside strings.
#[derive(Serialize, Deserialize)]
struct BatchBin {
    json: String,
    fingerprints: Vec<u64>,
    schedules: Vec<u64>,
    hashes: Vec<(u64, u64)>,
}

impl From<Batch> for BatchBin {
    fn from(mut b: Batch) -> Self {
        let fingerprints = std::mem::take(&mut b.fingerprints).into_iter().collect();
        let schedules = std::mem::take(&mut b.schedules).into_iter().collect();
        let hashes = std::mem::take(&mut b.hashes);
        BatchBin { json: serde_json::to_string(&b).expect("json"), fingerprints, schedules, hashes }
    }
}

fn load_batch(path: &str) -> Option<Batch> {
    let bb: BatchBin = bincode::deserialize(&std::fs::read(path).ok()?).ok()?;
    let mut b: Batch = serde_json::from_str(&bb.json).ok()?;
    b.fingerprints = bb.fingerprints.into_iter().collect();
    b.schedules = bb.schedules.into_iter().collect();
    b.hashes = bb.hashes;
    Some(b)
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

fn spawn_workers(prop: &str, seed: u64, nw: u64, runs: u64, secs: u64, thorough: bool, dir: &str, tag: &str) -> Vec<Batch> {
    let exe = std::env::current_exe().expect("exe");
    let mut kids = vec![];
    for k in 0..nw {
        let out = format!("{}/{}-{}.bin", dir, tag, k);
        let child = std::process::Command::new(&exe)
            .arg("worker")
            .arg(prop)
            .arg(seed.to_string())
            .arg(k.to_string())
            .arg(nw.to_string())
            .arg(runs.to_string())
            .arg(secs.to_string())
            .arg(if thorough { "1" } else { "0" })
            .arg(&out)
            .stdin(std::process::Stdio::null())
            .spawn()
            .expect("spawn worker");
        kids.push((child, out));
    }
    let mut batches = vec![];
    for (mut c, out) in kids {
        let st = c.wait().expect("wait");
        match load_batch(&out) {
            Some(b) => batches.push(b),
            None => batches.push(Batch {
                harness_errors: vec![format!("worker died: {:?}", st)],
                ..Batch::default()
            }),
        }
        let _ = std::fs::remove_file(&out);
    }
    batches
}

fn merge(bs: Vec<Batch>) -> Batch {
    let mut m = Batch::default();
    for b in bs {
        m.runs += b.runs;
        m.evaluations += b.evaluations;
        m.events += b.events;
        m.sim_time += b.sim_time;
        m.nontrivial += b.nontrivial;
        m.fingerprints.extend(b.fingerprints);
        m.schedules.extend(b.schedules);
        m.edges.extend(b.edges);
        m.edges_total = m.edges_total.max(b.edges_total);
        for (k, v) in b.faults {
            *m.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in b.probes {
            *m.probes.entry(k).or_insert(0) += v;
        }
        m.fault_runs += b.fault_runs;
        m.found.extend(b.found);
        for (k, v) in b.known {
            *m.known.entry(k).or_insert(0) += v;
        }
        for (k, v) in b.other {
            *m.other.entry(k).or_insert(0) += v;
        }
        m.harness_errors.extend(b.harness_errors);
        m.samples.extend(b.samples);
        m.hashes.extend(b.hashes);
        m.hit_deadline |= b.hit_deadline;
    }
    m.found.sort_by_key(|f| f.run);
    m.hashes.sort();
    m
}

pub fn check(prop: &str) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let w = worlds::world_for(prop);
    let known = load_known();
    let t0 = Instant::now();
    let nw = env_u64("DST_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).min(16)).max(1);
    let runs = env_u64("DST_RUNS", if thorough { w.thorough_runs } else { w.quick_runs });
    let secs = env_u64("DST_SECS", if thorough { 3600 } else { 240 });
    let dir = format!("{}/build/run-{}-{}", VERIF, prop, std::process::id());
    std::fs::create_dir_all(&dir).expect("mkdir");
    println!("check property={} seed={} tier={} runs={} workers={}", prop, seed, if thorough { "thorough" } else { "quick" }, runs, nw);

    let m = merge(spawn_workers(prop, seed, nw, runs, secs, thorough, &dir, "a"));
    let search_s = t0.elapsed().as_secs_f64();

    // Determinism: a sample of the same runs again, in other processes at another worker count.
    let again = (runs / 20).clamp(1, w.recheck);
    let m2 = merge(spawn_workers(prop, seed, (nw / 2).max(1) + 1, again, secs / 4 + 10, thorough, &dir, "b"));
    let _ = std::fs::remove_dir_all(&dir);
    let first: BTreeMap<u64, u64> = m.hashes.iter().copied().collect();
    let mut rechecked = 0;
    let mut mismatches = vec![];
    for (i, h) in &m2.hashes {
        if let Some(h1) = first.get(i) {
            rechecked += 1;
            if h1 != h {
                mismatches.push(*i);
            }
        }
    }

    for (p, c, text) in &known.entries {
        if p == prop {
            if let Some(n) = m.known.get(c) {
                println!("KNOWN-FINDING: property={} {} [{} runs]", prop, text, n);
            }
        }
    }

    let mut violations = 0;
    let mut replay_info = Value::Null;
    let mut exit = 0;
    if let Some(f) = m.found.first() {
        violations = m.found.len();
        println!("violation in run {}: {} ({})", f.run, f.violation.class, f.violation.detail);
        let budget = env_u64("DST_MIN_SECS", if thorough { 120 } else { 40 });
        let (plan, tried) = minimise(&w, prop, &f.plan, &f.violation, budget);
        let o = run_plan(&w, prop, &plan, true);
        let v = o
            .violations
            .iter()
            .find(|v| same(prop, v, &f.violation))
            .cloned()
            .unwrap_or_else(|| f.violation.clone());
        let dir = format!("{}/replays", VERIF);
        std::fs::create_dir_all(&dir).expect("mkdir");
        let path = format!("{}/{}-s{}-r{}.json", dir, prop, seed, f.run);
        let doc = json!({
            "property": prop, "world": w.name, "seed": seed, "run": f.run,
            "class": v.class, "detail": v.detail, "plan": plan, "original_plan": f.plan,
            "minimisation_runs": tried, "trace": o.trace,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
        // a fresh process must fail the same way
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("replay")
            .arg(&path)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .map(|s| s.code().unwrap_or(-1))
            .unwrap_or(-1);
        println!("minimised to {} bytes in {} runs; replay in a fresh process: {}", plan.to_string().len(), tried,
            if st == 1 { "reproduced" } else { "NOT reproduced" });
        println!("class: {}\ndetail: {}", v.class, v.detail);
        println!("VIOLATION property={} replay={}", prop, path);
        replay_info = json!({"replay": path, "class": v.class, "reproduced_in_fresh_process": st == 1});
        exit = 1;
    }
    for (k, n) in &m.other {
        println!("note: also seen (other property): {} x{}", k, n);
    }
    if !m.harness_errors.is_empty() {
        for e in m.harness_errors.iter().take(5) {
            eprintln!("harness error: {}", e);
        }
        if exit == 0 {
            exit = 2;
        }
    }
    if !mismatches.is_empty() {
        println!("warning: {} of {} rerun seeds gave a different event log: {:?}", mismatches.len(), rechecked, &mismatches[..mismatches.len().min(5)]);
    }

    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": violations,
        "coverage": {
            "evaluations": m.evaluations,
            "distinct_nontrivial": m.fingerprints.len(),
            "rule": w.rule,
            "samples": m.samples.iter().take(3).map(|s| shorten(s)).collect::<Vec<_>>(),
            "simulated_runs": m.runs,
            "nontrivial_runs": m.nontrivial,
            "runs_with_faults": m.fault_runs,
            "runs_per_hour": (m.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (m.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "simulated_time": {"value": m.sim_time, "unit": w.time_unit},
            "events": m.events,
            "faults_injected": m.faults,
            "probes": m.probes,
            "distinct_event_logs": m.schedules.len(),
            "distinct_measure": "hash of the run's event log (all schedule, fault and result events); distinct_nontrivial uses the semantic fingerprint described in `rule`",
            "library_edges_reached": m.edges.len(),
            "library_edges_total": m.edges_total,
            "components_real": w.real,
            "components_stub": w.stub,
            "determinism": {"runs_repeated_in_other_processes": rechecked, "different_event_logs": mismatches.len()},
            "known_findings_seen": m.known,
            "other_property_violations": m.other,
            "hit_time_cap": m.hit_deadline,
            "replay": replay_info,
        },
        "assumptions": w.assumptions,
    });
    std::fs::create_dir_all(format!("{}/evidence", VERIF)).ok();
    std::fs::write(format!("{}/evidence/{}.json", VERIF, prop), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{}: {} runs, {} evaluations, {} distinct non-trivial, {} fault injections, {}/{} edges, {:.1}s search, {:.1}s total, determinism {}/{}",
        prop, m.runs, m.evaluations, m.fingerprints.len(), m.faults.values().sum::<u64>(), m.edges.len(), m.edges_total, search_s, wall,
        rechecked - mismatches.len() as u64, rechecked
    );
    exit
}

fn shorten(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 3000 {
        v.clone()
    } else {
        let mut e = 3000;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        Value::String(format!("{}… ({} bytes)", &s[..e], s.len()))
    }
}

fn same(prop: &str, a: &Violation, b: &Violation) -> bool {
    a.class == b.class && a.props.iter().any(|p| p == prop)
}

// ---------------------------------------------------------------- minimisation

fn variants(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Array(a) => {
            let n = a.len();
            let mut size = n;
            while size >= 1 {
                let mut at = 0;
                while at < n {
                    let mut c = a.clone();
                    c.drain(at..(at + size).min(n));
                    out.push(Value::Array(c));
                    at += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        Value::Number(x) => {
            if let Some(u) = x.as_u64() {
                if u > 0 {
                    out.push(json!(0));
                    if u > 1 {
                        out.push(json!(1));
                        out.push(json!(u / 2));
                        out.push(json!(u - 1));
                    }
                }
            } else if let Some(i) = x.as_i64() {
                out.push(json!(0));
                out.push(json!(i / 2));
                out.push(json!(i + 1));
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        Value::String(s) if !s.is_empty() => {
            out.push(json!(""));
            let cs: Vec<char> = s.chars().collect();
            if cs.len() > 1 {
                out.push(json!(cs[..cs.len() / 2].iter().collect::<String>()));
                out.push(json!(cs[cs.len() / 2..].iter().collect::<String>()));
                out.push(json!(cs[..cs.len() - 1].iter().collect::<String>()));
                out.push(json!(cs[1..].iter().collect::<String>()));
            }
        }
        Value::Object(_) => out.push(Value::Null),
        _ => {}
    }
}

fn paths(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(cur.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                cur.push(i.to_string());
                paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                cur.push(k.clone());
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        };
    }
    Some(v)
}

fn minimise(w: &World, prop: &str, plan: &Value, target: &Violation, secs: u64) -> (Value, u64) {
    let t0 = Instant::now();
    let mut best = plan.clone();
    let mut tried = 0u64;
    let fails = |p: &Value, tried: &mut u64| -> bool {
        *tried += 1;
        let o = run_plan(w, prop, p, false);
        o.harness_error.is_none() && o.violations.iter().any(|v| same(prop, v, target))
    };
    if !fails(&best, &mut tried) {
        return (best, tried);
    }
    let mut progress = true;
    while progress && t0.elapsed().as_secs() < secs && tried < 6000 {
        progress = false;
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        // shallow first: big structure before small numbers
        ps.sort_by_key(|p| p.len());
        let mut pi = 0;
        while pi < ps.len() {
            if t0.elapsed().as_secs() >= secs || tried >= 6000 {
                break;
            }
            let p = ps[pi].clone();
            pi += 1;
            let cur = match at(&mut best, &p) {
                Some(v) => v.clone(),
                None => continue,
            };
            if p.is_empty() {
                continue;
            }
            let mut vs = vec![];
            variants(&cur, &mut vs);
            for v in vs {
                if t0.elapsed().as_secs() >= secs {
                    break;
                }
                let mut cand = best.clone();
                if let Some(slot) = at(&mut cand, &p) {
                    *slot = v;
                } else {
                    break;
                }
                if cand == best || !(w.valid)(&cand) {
                    continue;
                }
                if fails(&cand, &mut tried) {
                    best = cand;
                    progress = true;
                    pi -= 1; // same place again, now smaller
                    break;
                }
            }
        }
    }
    (best, tried)
}

pub fn replay(path: &str) -> i32 {
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let prop = doc["property"].as_str().expect("property").to_string();
    let class = doc["class"].as_str().expect("class").to_string();
    let w = worlds::world_for(&prop);
    let o = run_plan(&w, &prop, &doc["plan"], true);
    for l in &o.trace {
        println!("  {}", l);
    }
    if let Some(e) = o.harness_error {
        println!("harness error: {}", e);
        return 2;
    }
    for v in &o.violations {
        println!("violation {:?} {}: {}", v.props, v.class, v.detail);
    }
    if o.violations.iter().any(|v| v.class == class && v.props.contains(&prop)) {
        println!("VIOLATION property={} replay={}", prop, path);
        1
    } else {
        println!("not reproduced");
        0
    }
}

/// Run one plan index verbosely (debugging aid).
pub fn one(prop: &str, seed: u64, i: u64) -> i32 {
    let w = worlds::world_for(prop);
    let plan = gen_plan(&w, prop, seed, i, false);
    println!("{}", serde_json::to_string_pretty(&plan).unwrap());
    let o = run_plan(&w, prop, &plan, true);
    for l in &o.trace {
        println!("  {}", l);
    }
    println!("{:?}", Outcome { trace: vec![], edges: vec![], ..o });
    0
}
