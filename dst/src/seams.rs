//! Everything nondeterministic the code under test could touch, behind hooks the simulator owns:
//! the allocator, hash seeds (`getrandom`), futexes and yields (thread scheduling), sleeping, and
//! the edge callbacks of the instrumented crates (preemption points and coverage).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- shared status page

/// One page shared between a run and the process that watches it: survives any way of dying.
#[repr(C)]
pub struct Shm {
    /// 0 running, 1 result written, 77 memory limit, 78 deadlock, 79 livelock.
    pub verdict: AtomicU32,
    /// Set while code under test runs.
    pub in_code: AtomicU32,
    pub label_len: AtomicU32,
    pub label: [u8; 200],
    pub requested: AtomicU64,
}

static SHM: AtomicUsize = AtomicUsize::new(0);

pub fn shm() -> Option<&'static mut Shm> {
    let p = SHM.load(Relaxed);
    if p == 0 {
        None
    } else {
        Some(unsafe { &mut *(p as *mut Shm) })
    }
}

pub fn shm_init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHM.store(p as usize, Relaxed);
    }
}

pub fn shm_reset() {
    if let Some(s) = shm() {
        s.verdict.store(0, SeqCst);
        s.in_code.store(0, SeqCst);
        s.label_len.store(0, SeqCst);
        s.requested.store(0, SeqCst);
    }
}

/// Record which operation is running (label = "props|operation").
pub fn shm_label(props: &[&str], label: &str) {
    if let Some(s) = shm() {
        let mut n = 0;
        let mut put = |b: &[u8]| {
            for &c in b {
                if n < 200 {
                    s.label[n] = c;
                    n += 1;
                }
            }
        };
        for (i, p) in props.iter().enumerate() {
            if i > 0 {
                put(b",");
            }
            put(p.as_bytes());
        }
        put(b"|");
        put(label.as_bytes());
        s.label_len.store(n as u32, SeqCst);
    }
}

fn die(verdict: u32) -> ! {
    if let Some(s) = shm() {
        s.verdict.store(verdict, SeqCst);
    }
    unsafe { libc::_exit(verdict as i32) }
}

// ---------------------------------------------------------------- allocator

pub struct SimAlloc;

static LIVE: AtomicI64 = AtomicI64::new(0);
static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
static PEAK: AtomicI64 = AtomicI64::new(0);

fn account(delta: i64) {
    let now = LIVE.fetch_add(delta, Relaxed) + delta;
    if delta > 0 {
        if now > LIMIT.load(Relaxed) {
            if let Some(s) = shm() {
                s.requested.store(delta as u64, SeqCst);
            }
            die(77);
        }
        if now > PEAK.load(Relaxed) {
            PEAK.store(now, Relaxed);
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        preempt(Point::Alloc);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        preempt(Point::Alloc);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        account(new as i64 - l.size() as i64);
        System.realloc(p, l, new)
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

/// Run `f` with at most `extra` more live bytes than now; exceeding it ends the run with verdict 77.
pub fn with_memory_limit<T>(extra: usize, f: impl FnOnce() -> T) -> T {
    let base = LIVE.load(Relaxed);
    let old = LIMIT.swap(base + extra as i64, Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    LIMIT.store(old, Relaxed);
    r
}

/// Restore the limit after an unwinding call.
pub fn lift_memory_limit() {
    LIMIT.store(i64::MAX, Relaxed);
}

// ---------------------------------------------------------------- hash seeds

static HASH_STATE: AtomicU64 = AtomicU64::new(0x1234_5678);

/// The next `getrandom` calls of the process return a stream derived from `seed`.
pub fn set_hash_seed(seed: u64) {
    HASH_STATE.store(seed, SeqCst);
}

pub static GETRANDOM_CALLS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    GETRANDOM_CALLS.fetch_add(1, Relaxed);
    let mut x = HASH_STATE.load(SeqCst);
    for i in 0..len {
        *buf.add(i) = (crate::rng::splitmix(&mut x) >> 24) as u8;
    }
    HASH_STATE.store(x, SeqCst);
    len as isize
}

/// Run `f` on a fresh thread whose hash maps use hash seed `seed` (a new "process" as far as the
/// library's observable state is concerned).
pub fn on_node<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> std::thread::Result<T> {
    set_hash_seed(seed);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, f)
            .expect("spawn")
            .join()
    })
}

// ---------------------------------------------------------------- coverage and preemption

const MAX_EDGES: usize = 1 << 17;
static mut EDGE_HIT: [u8; MAX_EDGES] = [0; MAX_EDGES];
static EDGES: AtomicU32 = AtomicU32::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, end: *mut u32) {
    while start < end {
        if *start == 0 {
            *start = EDGES.fetch_add(1, Relaxed) + 1;
        }
        start = start.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let i = *guard as usize;
    if i < MAX_EDGES {
        *(std::ptr::addr_of_mut!(EDGE_HIT) as *mut u8).add(i) = 1;
    }
    if SCHED_ON.load(Relaxed) {
        if i < MAX_EDGES && RARE.load(Relaxed) > 0 {
            rare(i);
        }
        preempt_slow(Point::Edge);
    }
}

pub fn edges_total() -> u32 {
    EDGES.load(Relaxed)
}

/// The set of edges reached so far as a list.
pub fn edges_hit() -> Vec<u32> {
    let n = (edges_total() as usize + 1).min(MAX_EDGES);
    (0..n as u32)
        .filter(|&i| unsafe { *(std::ptr::addr_of!(EDGE_HIT) as *const u8).add(i as usize) } != 0)
        .collect()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Point {
    Edge,
    Alloc,
    Harness,
    Yield,
}

// ---------------------------------------------------------------- baton scheduler

pub const MAX_THREADS: usize = 8;
const RUNNABLE: u32 = 1;
const BLOCKED: u32 = 2;
const DONE: u32 = 3;

static SCHED_ON: AtomicBool = AtomicBool::new(false);
static NTHREADS: AtomicUsize = AtomicUsize::new(0);
static STATE: [AtomicU32; MAX_THREADS] = [const { AtomicU32::new(0) }; MAX_THREADS];
static WAIT_ADDR: [AtomicUsize; MAX_THREADS] = [const { AtomicUsize::new(0) }; MAX_THREADS];
static WAIT_TIMED: [AtomicBool; MAX_THREADS] = [const { AtomicBool::new(false) }; MAX_THREADS];
static TIMED_OUT: [AtomicBool; MAX_THREADS] = [const { AtomicBool::new(false) }; MAX_THREADS];
static GO: [AtomicU32; MAX_THREADS] = [const { AtomicU32::new(0) }; MAX_THREADS];
static ALL_DONE: AtomicU32 = AtomicU32::new(0);
static STEP: AtomicU64 = AtomicU64::new(0);
static LAST_SWITCH: AtomicU64 = AtomicU64::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static PREEMPTIONS: AtomicU64 = AtomicU64::new(0);
static BLOCKS: AtomicU64 = AtomicU64::new(0);
static SCHED_HASH: AtomicU64 = AtomicU64::new(0);
static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
const MAX_PLAN: usize = 4096;
/// Preemption plan: at step `.0` switch to runnable thread number `.1`.
static mut PLAN: [(u64, u32); MAX_PLAN] = [(0, 0); MAX_PLAN];
static PLAN_LEN: AtomicUsize = AtomicUsize::new(0);
static PLAN_POS: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_HOOK: Cell<bool> = const { Cell::new(false) };
}

unsafe fn raw_syscall(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1],
        in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

fn real_wait(w: &AtomicU32, val: u32) {
    unsafe {
        raw_syscall(
            libc::SYS_futex,
            [w as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0],
        );
    }
}

fn real_wake(w: &AtomicU32) {
    unsafe {
        raw_syscall(
            libc::SYS_futex,
            [w as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, i32::MAX as i64, 0, 0, 0],
        );
    }
}

fn runnable() -> ([usize; MAX_THREADS], usize) {
    let mut r = [0; MAX_THREADS];
    let mut n = 0;
    for i in 0..NTHREADS.load(Relaxed) {
        if STATE[i].load(SeqCst) == RUNNABLE {
            r[n] = i;
            n += 1;
        }
    }
    (r, n)
}

fn hand_to(next: usize) {
    SWITCHES.fetch_add(1, Relaxed);
    LAST_SWITCH.store(STEP.load(Relaxed), Relaxed);
    let h = SCHED_HASH.load(Relaxed) ^ (STEP.load(Relaxed) << 4) ^ next as u64;
    SCHED_HASH.store(h.wrapping_mul(0x100_0000_01b3).rotate_left(23), Relaxed);
    GO[next].store(1, SeqCst);
    real_wake(&GO[next]);
}

fn wait_turn(me: usize) {
    while GO[me].swap(0, SeqCst) == 0 {
        real_wait(&GO[me], 0);
    }
}

fn switch(me: usize, next: usize) {
    if me != next {
        hand_to(next);
        wait_turn(me);
    }
}

/// Somebody else must run; me is not runnable any more (blocked or done).
fn yield_away(me: usize) {
    let (r, n) = runnable();
    if n > 0 {
        // next in cyclic order
        let next = *r[..n].iter().find(|&&i| i > me).unwrap_or(&r[0]);
        hand_to(next);
        return;
    }
    // simulated time jumps to the first timed wait
    for i in 0..NTHREADS.load(Relaxed) {
        if STATE[i].load(SeqCst) == BLOCKED && WAIT_TIMED[i].load(SeqCst) {
            TIMED_OUT[i].store(true, SeqCst);
            STATE[i].store(RUNNABLE, SeqCst);
            hand_to(i);
            return;
        }
    }
    let n = NTHREADS.load(Relaxed);
    if (0..n).all(|i| STATE[i].load(SeqCst) == DONE) {
        ALL_DONE.store(1, SeqCst);
        real_wake(&ALL_DONE);
        return;
    }
    die(78);
}

#[inline]
pub fn preempt(kind: Point) {
    if !SCHED_ON.load(Relaxed) {
        return;
    }
    preempt_slow(kind);
}

#[cold]
fn preempt_slow(kind: Point) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX || IN_HOOK.with(|h| h.replace(true)) {
        return;
    }
    let step = STEP.fetch_add(1, Relaxed) + 1;
    if step > STEP_LIMIT.load(Relaxed) {
        die(79);
    }
    let pos = PLAN_POS.load(Relaxed);
    let mut target = None;
    let rare = RARE_NEXT.swap(0, Relaxed);
    if rare != 0 {
        let (r, n) = runnable();
        if n > 0 {
            target = Some(r[(rare >> 1) as usize % n]);
            PREEMPTIONS.fetch_add(1, Relaxed);
        }
    }
    if pos < PLAN_LEN.load(Relaxed) {
        let (at, who) = unsafe {
            let p: &[(u64, u32); MAX_PLAN] = &*std::ptr::addr_of!(PLAN);
            p[pos]
        };
        if step >= at {
            PLAN_POS.store(pos + 1, Relaxed);
            let (r, n) = runnable();
            if n > 0 {
                target = Some(r[who as usize % n]);
                PREEMPTIONS.fetch_add(1, Relaxed);
            }
        }
    }
    if target.is_none()
        && (kind == Point::Yield || step - LAST_SWITCH.load(Relaxed) > 2_000_000)
    {
        let (r, n) = runnable();
        target = r[..n].iter().copied().find(|&i| i > me).or(if n > 0 { Some(r[0]) } else { None });
        LAST_SWITCH.store(step, Relaxed);
    }
    if let Some(t) = target {
        switch(me, t);
    }
    IN_HOOK.with(|h| h.set(false));
}

/// Code that runs seldom is preempted more often: at the first few executions of an edge within a
/// run, with a probability (in percent) the plan gives.
static RARE: AtomicU32 = AtomicU32::new(0);
static RARE_SEED: AtomicU64 = AtomicU64::new(0);
static RARE_NEXT: AtomicU32 = AtomicU32::new(0);
static mut RARE_HITS: [u8; MAX_EDGES] = [0; MAX_EDGES];
const RARE_MAX: u8 = 6;

unsafe fn rare(edge: usize) {
    if ME.with(|m| m.get()) == usize::MAX || IN_HOOK.with(|h| h.get()) {
        return;
    }
    let n = (std::ptr::addr_of_mut!(RARE_HITS) as *mut u8).add(edge);
    if *n < RARE_MAX {
        *n += 1;
        let mut x = RARE_SEED.load(Relaxed).wrapping_add(1);
        let h = crate::rng::splitmix(&mut x);
        RARE_SEED.store(x, Relaxed);
        if h % 100 < RARE.load(Relaxed) as u64 {
            RARE_NEXT.store((h >> 32) as u32 | 1, Relaxed);
        }
    }
}

pub fn set_rare(percent: u32, seed: u64) {
    RARE.store(percent, SeqCst);
    RARE_SEED.store(seed, SeqCst);
    RARE_NEXT.store(0, SeqCst);
    unsafe {
        let p: &mut [u8; MAX_EDGES] = &mut *std::ptr::addr_of_mut!(RARE_HITS);
        p.fill(0);
    }
}

#[derive(Default, Clone, Debug)]
pub struct SchedStats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub blocks: u64,
    pub hash: u64,
}

/// Run the closures as real threads, one at a time, switching exactly where `plan` says (and where
/// a thread blocks or yields). The interleaving is a function of the plan and the code.
pub fn run_scheduled<'a>(
    plan: &[(u64, u32)],
    step_limit: u64,
    hash_seeds: &[u64],
    tasks: Vec<Box<dyn FnOnce() + Send + 'a>>,
) -> SchedStats {
    let n = tasks.len().min(MAX_THREADS);
    NTHREADS.store(n, SeqCst);
    STEP.store(0, SeqCst);
    LAST_SWITCH.store(0, SeqCst);
    SWITCHES.store(0, SeqCst);
    PREEMPTIONS.store(0, SeqCst);
    BLOCKS.store(0, SeqCst);
    SCHED_HASH.store(0x811c_9dc5, SeqCst);
    STEP_LIMIT.store(step_limit, SeqCst);
    ALL_DONE.store(0, SeqCst);
    let len = plan.len().min(MAX_PLAN);
    unsafe {
        let p: &mut [(u64, u32); MAX_PLAN] = &mut *std::ptr::addr_of_mut!(PLAN);
        p[..len].copy_from_slice(&plan[..len]);
    }
    PLAN_LEN.store(len, SeqCst);
    PLAN_POS.store(0, SeqCst);
    for i in 0..n {
        STATE[i].store(RUNNABLE, SeqCst);
        GO[i].store(0, SeqCst);
        WAIT_TIMED[i].store(false, SeqCst);
        TIMED_OUT[i].store(false, SeqCst);
    }
    let ready: Vec<AtomicU32> = (0..n).map(|_| AtomicU32::new(0)).collect();
    std::thread::scope(|s| {
        for (i, task) in tasks.into_iter().take(n).enumerate() {
            let ready = &ready;
            set_hash_seed(hash_seeds.get(i).copied().unwrap_or(i as u64));
            s.spawn(move || {
                // draw this thread's hash seed before scheduling starts
                let _ = std::collections::hash_map::RandomState::new();
                ME.with(|m| m.set(i));
                ready[i].store(1, SeqCst);
                real_wake(&ready[i]);
                wait_turn(i);
                task();
                IN_HOOK.with(|h| h.set(true));
                STATE[i].store(DONE, SeqCst);
                ME.with(|m| m.set(usize::MAX));
                yield_away(i);
            });
            while ready[i].load(SeqCst) == 0 {
                real_wait(&ready[i], 0);
            }
        }
        SCHED_ON.store(true, SeqCst);
        hand_to(0);
        while ALL_DONE.load(SeqCst) == 0 {
            real_wait(&ALL_DONE, 0);
        }
        SCHED_ON.store(false, SeqCst);
    });
    SchedStats {
        steps: STEP.load(SeqCst),
        switches: SWITCHES.load(SeqCst),
        preemptions: PREEMPTIONS.load(SeqCst),
        blocks: BLOCKS.load(SeqCst),
        hash: SCHED_HASH.load(SeqCst),
    }
}

fn scheduled_me() -> Option<usize> {
    if !SCHED_ON.load(Relaxed) {
        return None;
    }
    let me = ME.with(|m| m.get());
    if me == usize::MAX || IN_HOOK.with(|h| h.get()) {
        None
    } else {
        Some(me)
    }
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

/// Replaces libc's `syscall`: futexes of scheduled threads are simulated, everything else is real.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a1: i64, a2: i64, a3: i64, a4: i64, a5: i64, a6: i64) -> i64 {
    if n == libc::SYS_futex {
        if let Some(me) = scheduled_me() {
            let addr = a1 as usize;
            match (a2 as i32) & 0x7f {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    if (*(addr as *const AtomicU32)).load(SeqCst) != a3 as u32 {
                        set_errno(libc::EAGAIN);
                        return -1;
                    }
                    IN_HOOK.with(|h| h.set(true));
                    BLOCKS.fetch_add(1, Relaxed);
                    WAIT_ADDR[me].store(addr, SeqCst);
                    WAIT_TIMED[me].store(a4 != 0, SeqCst);
                    TIMED_OUT[me].store(false, SeqCst);
                    STATE[me].store(BLOCKED, SeqCst);
                    yield_away(me);
                    wait_turn(me);
                    IN_HOOK.with(|h| h.set(false));
                    if TIMED_OUT[me].swap(false, SeqCst) {
                        set_errno(libc::ETIMEDOUT);
                        return -1;
                    }
                    return 0;
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    let mut woken = 0;
                    for i in 0..NTHREADS.load(Relaxed) {
                        if woken < a3
                            && STATE[i].load(SeqCst) == BLOCKED
                            && WAIT_ADDR[i].load(SeqCst) == addr
                        {
                            STATE[i].store(RUNNABLE, SeqCst);
                            woken += 1;
                        }
                    }
                    preempt(Point::Harness);
                    return woken;
                }
                _ => {}
            }
        }
    }
    let r = raw_syscall(n, [a1, a2, a3, a4, a5, a6]);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if scheduled_me().is_some() {
        preempt(Point::Yield);
        0
    } else {
        raw_syscall(libc::SYS_sched_yield, [0; 6]) as i32
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if scheduled_me().is_some() {
        preempt(Point::Yield);
        0
    } else {
        raw_syscall(libc::SYS_nanosleep, [req as i64, rem as i64, 0, 0, 0, 0]) as i32
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clock: i32,
    flags: i32,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    if scheduled_me().is_some() {
        preempt(Point::Yield);
        0
    } else {
        -raw_syscall(
            libc::SYS_clock_nanosleep,
            [clock as i64, flags as i64, req as i64, rem as i64, 0, 0],
        ) as i32
    }
}
