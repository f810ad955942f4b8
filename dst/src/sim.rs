//! One run: context, violations, and its execution in a forked child.
use crate::seams;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub props: Vec<String>,
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub log_hash: u64,
    pub fingerprint: u64,
    pub events: u64,
    pub evaluations: u64,
    pub sim_time: u64,
    pub nontrivial: bool,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub edges: Vec<u32>,
    #[serde(default)]
    pub trace: Vec<String>,
    /// The harness itself failed (not a verdict about the code under test).
    #[serde(default)]
    pub harness_error: Option<String>,
}

pub struct Ctx {
    pub out: Outcome,
    pub tracing: bool,
    /// Hash seed of the node currently executing.
    pub node: String,
}

fn mix(h: u64, s: &[u8]) -> u64 {
    let mut h = h;
    for &b in s {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}

#[macro_export]
macro_rules! ev {
    ($ctx:expr, $($arg:tt)*) => { $ctx.event(&format!($($arg)*)) };
}

/// For finding what makes two executions of a run differ: a directory for the event logs, one file
/// per run (named after its process).
fn dump() -> &'static Option<String> {
    static D: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    D.get_or_init(|| std::env::var("DST_DUMP").ok())
}

pub fn short(s: &str) -> String {
    if s.len() <= 400 {
        s.to_string()
    } else {
        let mut a = 200;
        while !s.is_char_boundary(a) {
            a -= 1;
        }
        let mut b = s.len() - 120;
        while !s.is_char_boundary(b) {
            b += 1;
        }
        format!("{}…[{} bytes]…{}", &s[..a], s.len(), &s[b..])
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

impl Ctx {
    pub fn new(tracing: bool) -> Self {
        Ctx {
            out: Outcome {
                log_hash: 0xcbf2_9ce4_8422_2325,
                fingerprint: 0xcbf2_9ce4_8422_2325,
                ..Outcome::default()
            },
            tracing,
            node: String::new(),
        }
    }
    /// An event of the run; part of the log that must be identical on replay.
    pub fn event(&mut self, s: &str) {
        self.out.events += 1;
        self.out.log_hash = mix(self.out.log_hash, s.as_bytes());
        if let Some(d) = dump() {
            use std::io::Write;
            let n = format!("{}/{}", d, std::process::id());
            let _ = std::fs::OpenOptions::new().create(true).append(true).open(n).and_then(|mut f| writeln!(f, "{}", s));
        }
        if self.tracing {
            self.out.trace.push(short(s));
        }
    }
    /// A step that distinguishes this run from others (the "distinct" measure).
    pub fn mark(&mut self, s: &str) {
        self.out.fingerprint = mix(self.out.fingerprint, s.as_bytes());
    }
    pub fn mark_bytes(&mut self, s: &[u8]) {
        self.out.fingerprint = mix(self.out.fingerprint, s);
    }
    pub fn fault(&mut self, kind: &str) {
        *self.out.faults.entry(kind.to_string()).or_insert(0) += 1;
    }
    pub fn probe(&mut self, kind: &str) {
        *self.out.probes.entry(kind.to_string()).or_insert(0) += 1;
    }
    pub fn eval(&mut self) {
        self.out.evaluations += 1;
    }
    pub fn violate(&mut self, props: &[&str], class: &str, detail: impl Into<String>) {
        let v = Violation {
            props: props.iter().map(|s| s.to_string()).collect(),
            class: class.to_string(),
            detail: short(&detail.into()),
        };
        self.event(&format!("VIOLATION {:?} {}", v.props, v.class));
        if self.out.violations.len() < 20 {
            self.out.violations.push(v);
        }
    }
    /// Check a condition, recording a violation if it does not hold.
    pub fn check(&mut self, ok: bool, props: &[&str], class: &str, detail: impl FnOnce() -> String) -> bool {
        self.eval();
        if !ok {
            self.violate(props, class, detail());
        }
        ok
    }
    /// Run code under test. A panic is a violation of `props`.
    pub fn call<T>(&mut self, props: &[&str], label: &str, f: impl FnOnce() -> T) -> Option<T> {
        match self.call_raw(props, label, f) {
            Ok(v) => Some(v),
            Err(msg) => {
                self.violate(props, &format!("panic:{}", label), msg);
                None
            }
        }
    }
    /// Run code under test that is allowed to panic; the message is returned.
    pub fn call_raw<T>(&mut self, props: &[&str], label: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        enter(props, label);
        let r = guarded(f);
        leave();
        r
    }
    /// As `call`, with at most `limit` additional live bytes.
    pub fn call_mem<T>(&mut self, props: &[&str], label: &str, limit: usize, f: impl FnOnce() -> T) -> Option<T> {
        enter(props, label);
        let r = guarded(|| seams::with_memory_limit(limit, f));
        seams::lift_memory_limit();
        leave();
        match r {
            Ok(v) => Some(v),
            Err(msg) => {
                self.violate(props, &format!("panic:{}", label), msg);
                None
            }
        }
    }
    /// As `call`, on a fresh node (thread) with its own hash seed.
    pub fn call_node<T: Send>(&mut self, seed: u64, props: &[&str], label: &str, f: impl FnOnce() -> T + Send) -> Option<T> {
        enter(props, label);
        let r = seams::on_node(seed, || guarded(f));
        leave();
        match r {
            Ok(Ok(v)) => Some(v),
            Ok(Err(msg)) => {
                self.violate(props, &format!("panic:{}", label), msg);
                None
            }
            Err(_) => {
                self.violate(props, &format!("panic:{}", label), "thread panicked");
                None
            }
        }
    }
}

pub fn enter(props: &[&str], label: &str) {
    seams::shm_label(props, label);
    if let Some(s) = seams::shm() {
        s.in_code.store(1, std::sync::atomic::Ordering::SeqCst);
    }
}

pub fn leave() {
    if let Some(s) = seams::shm() {
        s.in_code.store(0, std::sync::atomic::Ordering::SeqCst);
    }
}

/// catch_unwind with the panic message as a string.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub struct Isolated {
    pub cpu_s: u64,
}

/// Execute `f` in a forked child: fresh statics, and every way of dying is an outcome.
pub fn isolated(tracing: bool, cpu_s: u64, f: impl FnOnce(&mut Ctx)) -> Outcome {
    seams::shm_reset();
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) == 0);
    }
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
            libc::dup2(null, 1);
            if !tracing {
                libc::dup2(null, 2);
            }
            let lim = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            // the stack of a thread, as std makes them (compilers, which run longer, keep theirs)
            if cpu_s < 100 {
                let lim = libc::rlimit { rlim_cur: 2 << 20, rlim_max: 2 << 20 };
                libc::setrlimit(libc::RLIMIT_STACK, &lim);
            }
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
        }
        let mut ctx = Ctx::new(tracing);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
        let mut out = ctx.out;
        if let Err(e) = r {
            let msg = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            out.harness_error = Some(format!("{} @ {}", msg, last_panic()));
        }
        out.edges = seams::edges_hit();
        let bytes = bincode::serialize(&out).expect("outcome");
        let mut off = 0;
        while off < bytes.len() {
            let n = unsafe { libc::write(fds[1], bytes[off..].as_ptr() as *const _, bytes.len() - off) };
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        unsafe {
            libc::_exit(0);
        }
    }
    unsafe {
        libc::close(fds[1]);
    }
    let mut data = Vec::new();
    let mut buf = [0u8; 65536];
    let start = std::time::Instant::now();
    let mut wall_killed = false;
    loop {
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, 1000) };
        if r == 0 {
            if start.elapsed().as_secs() > 60 + cpu_s * 4 {
                wall_killed = true;
                unsafe { libc::kill(pid, libc::SIGKILL) };
                break;
            }
            continue;
        }
        let n = unsafe { libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 {
            break;
        }
        data.extend_from_slice(&buf[..n as usize]);
    }
    unsafe {
        libc::close(fds[0]);
    }
    let mut status = 0;
    unsafe {
        libc::waitpid(pid, &mut status, 0);
    }
    if let Ok(out) = bincode::deserialize::<Outcome>(&data) {
        if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 {
            return out;
        }
    }
    // The run died. Find out what it was doing.
    let mut out = Outcome::default();
    let s = seams::shm().unwrap();
    use std::sync::atomic::Ordering::SeqCst;
    let label = String::from_utf8_lossy(&s.label[..s.label_len.load(SeqCst) as usize]).to_string();
    let (props, op) = match label.split_once('|') {
        Some((p, o)) => (p.to_string(), o.to_string()),
        None => (String::new(), label.clone()),
    };
    let how = match s.verdict.load(SeqCst) {
        77 => "memory-out-of-proportion".to_string(),
        78 => "deadlock".to_string(),
        79 => "livelock".to_string(),
        _ => {
            if wall_killed {
                "hang".to_string()
            } else if libc::WIFSIGNALED(status) {
                match libc::WTERMSIG(status) {
                    libc::SIGXCPU => "hang".to_string(),
                    libc::SIGKILL => "killed".to_string(),
                    sig => format!("signal{}", sig),
                }
            } else {
                format!("exit{}", libc::WEXITSTATUS(status))
            }
        }
    };
    if s.in_code.load(SeqCst) == 1 && how != "killed" {
        out.violations.push(Violation {
            props: props.split(',').map(|s| s.to_string()).collect(),
            class: format!("{}:{}", how, op),
            detail: format!("the process died ({}) during {}", how, op),
        });
    } else {
        out.harness_error = Some(format!("run died outside code under test: {} in {}", how, label));
    }
    out.nontrivial = true;
    out
}

static mut LAST_PANIC: String = String::new();

pub fn last_panic() -> String {
    unsafe {
        let p: &String = &*std::ptr::addr_of!(LAST_PANIC);
        p.clone()
    }
}

/// Panics of the code under test are outcomes, not noise on stderr.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe {
            *std::ptr::addr_of_mut!(LAST_PANIC) = loc.clone();
        }
        if std::env::var_os("DST_PANICS").is_some() {
            eprintln!("panic: {}", info);
        }
    }));
}
