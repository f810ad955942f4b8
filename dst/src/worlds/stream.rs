//! C11: variable-length integers over unreliable streams. A simulated writer and reader decide,
//! call by call, how many bytes pass, when a call is interrupted, fails or hits end of stream.
use super::World;
use crate::ev;
use crate::rng::Rng;
use crate::sim::{hex, Ctx};
use bitcoin_cash::encoding_utils::{encode_var_int, read_var_int, write_var_int};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::io;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    /// Pass at most this many bytes (at least 1).
    Pass(u8),
    Interrupted,
    /// Fail with this kind.
    Fail(u8),
    /// Writer: accept nothing. Reader: end of stream for good.
    Nothing,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    values: Vec<u64>,
    write: Vec<Step>,
    read: Vec<Step>,
    /// Bytes of something else following the numbers on the wire.
    trailer: u8,
    /// Cut the stored image to this many bytes (lost tail), if smaller.
    cut: u64,
    /// The reader reports the failure as an OS error instead of a kind.
    os_errors: bool,
}

const KINDS: [io::ErrorKind; 8] = [
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::Other,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::UnexpectedEof,
];
const ERRNOS: [i32; 8] = [
    libc::EIO, libc::ENOSPC, libc::EAGAIN, libc::ETIMEDOUT, libc::EPIPE, libc::EBADF, libc::ECONNRESET, libc::EFBIG,
];

fn error(k: u8, os: bool) -> io::Error {
    if os {
        io::Error::from_raw_os_error(ERRNOS[k as usize % 8])
    } else {
        io::Error::new(KINDS[k as usize % 8], "simulated")
    }
}

pub fn model_var_int(n: u64) -> Vec<u8> {
    let mut v = vec![];
    if n < 0xfd {
        v.push(n as u8);
    } else if n < 0x1_0000 {
        v.push(0xfd);
        v.extend_from_slice(&(n as u16).to_le_bytes());
    } else if n < 0x1_0000_0000 {
        v.push(0xfe);
        v.extend_from_slice(&(n as u32).to_le_bytes());
    } else {
        v.push(0xff);
        v.extend_from_slice(&n.to_le_bytes());
    }
    v
}

#[derive(Default)]
struct Stats {
    short: u64,
    interrupted: u64,
    failed: Option<u8>,
    nothing: bool,
    calls: u64,
    past_end: bool,
}

struct SimWriter<'a> {
    steps: &'a [Step],
    pos: usize,
    got: Vec<u8>,
    os: bool,
    st: Stats,
    after_failure: bool,
}

impl io::Write for SimWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.st.calls += 1;
        if self.st.failed.is_some() || self.st.nothing {
            self.after_failure = true;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let step = self.steps.get(self.pos).cloned();
        self.pos += 1;
        match step {
            None => {
                self.got.extend_from_slice(buf);
                Ok(buf.len())
            }
            Some(Step::Pass(n)) => {
                let n = (n as usize).max(1).min(buf.len());
                if n < buf.len() {
                    self.st.short += 1;
                }
                self.got.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            Some(Step::Interrupted) => {
                self.st.interrupted += 1;
                Err(io::ErrorKind::Interrupted.into())
            }
            Some(Step::Fail(k)) => {
                self.st.failed = Some(k);
                Err(error(k, self.os))
            }
            Some(Step::Nothing) => {
                self.st.nothing = true;
                Ok(0)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct SimReader<'a> {
    steps: &'a [Step],
    pos: usize,
    data: &'a [u8],
    off: usize,
    os: bool,
    st: Stats,
}

impl io::Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.st.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.st.nothing {
            return Ok(0);
        }
        let step = self.steps.get(self.pos).cloned();
        self.pos += 1;
        let left = self.data.len() - self.off;
        let want = match step {
            None => buf.len(),
            Some(Step::Pass(n)) => (n as usize).max(1),
            Some(Step::Interrupted) => {
                self.st.interrupted += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
            Some(Step::Fail(k)) => {
                self.st.failed = Some(k);
                return Err(error(k, self.os));
            }
            Some(Step::Nothing) => {
                self.st.nothing = true;
                return Ok(0);
            }
        };
        let n = want.min(buf.len()).min(left);
        if left == 0 {
            self.st.past_end = true;
        }
        if n < buf.len() && n > 0 {
            self.st.short += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.off..self.off + n]);
        self.off += n;
        Ok(n)
    }
}

fn gen_value(r: &mut Rng) -> u64 {
    const EDGE: [u64; 17] = [
        0, 1, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xfffe, 0xffff, 0x1_0000, 0x1_0001, 0xffff_fffe, 0xffff_ffff,
        0x1_0000_0000, u64::MAX - 1, u64::MAX,
    ];
    match r.below(4) {
        0 => *r.pick(&EDGE),
        1 => {
            let base = *r.pick(&EDGE);
            base.wrapping_add(r.below(5)).wrapping_sub(2)
        }
        2 => r.u64() >> r.below(64),
        _ => {
            // a recognisable byte pattern in every position
            let b = r.u64();
            match r.below(3) {
                0 => b & 0xffff,
                1 => b & 0xffff_ffff,
                _ => b,
            }
        }
    }
}

fn gen_steps(r: &mut Rng, n: u64, fail: u64) -> Vec<Step> {
    let len = r.below(n + 1);
    let mut v: Vec<Step> = (0..len)
        .map(|_| match r.below(10) {
            0..=4 => Step::Pass(1 + r.below(3) as u8),
            5..=7 => Step::Interrupted,
            _ => Step::Pass(9),
        })
        .collect();
    // place a failure somewhere inside, biased to the middle of an encoding
    if r.chance(fail, 10) {
        let at = r.usize(v.len() + 1);
        let k = r.u8() % 8;
        let s = if r.chance(1, 4) { Step::Nothing } else { Step::Fail(k) };
        v.insert(at, s);
    }
    v
}

fn gen(r: &mut Rng, _prop: &str, _thorough: bool) -> Value {
    let n = 1 + r.below(6);
    let mut plan = Plan {
        values: (0..n).map(|_| gen_value(r)).collect(),
        write: gen_steps(r, 24, 4),
        read: gen_steps(r, 30, 5),
        trailer: r.below(4) as u8,
        cut: 1_000_000,
        os_errors: r.chance(1, 3),
    };
    if r.chance(1, 3) {
        plan.cut = r.below(n * 5 + 1);
    }
    if r.chance(1, 6) {
        plan.write.clear();
    }
    serde_json::to_value(plan).unwrap()
}

fn valid(v: &Value) -> bool {
    serde_json::from_value::<Plan>(v.clone()).is_ok()
}

const P: &[&str] = &["C11"];

fn run(ctx: &mut Ctx, _prop: &str, v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).expect("plan");
    // ---- writing
    let mut w = SimWriter { steps: &p.write, pos: 0, got: vec![], os: p.os_errors, st: Stats::default(), after_failure: false };
    let mut sent = vec![]; // full encodings of values written successfully
    let mut written = vec![];
    for &n in &p.values {
        let enc = model_var_int(n);
        let before = w.got.len();
        let (i0, s0) = (w.st.interrupted, w.st.short);
        let r = match ctx.call(P, "write_var_int", || write_var_int(&mut w, n)) {
            Some(r) => r,
            None => return,
        };
        let got = w.got[before..].to_vec();
        ev!(ctx, "write {} -> {:?} stream got {} calls {}", n, r.as_ref().map_err(|e| e.kind()), hex(&got), w.st.calls);
        if w.st.interrupted > i0 {
            ctx.fault("write interrupted");
        }
        if w.st.short > s0 {
            ctx.fault("short write");
        }
        match r {
            Ok(()) => {
                ctx.check(w.st.failed.is_none() && !w.st.nothing, P, "write-failure-swallowed", || {
                    format!("writing {} succeeded although the stream failed", n)
                });
                if !ctx.check(got == enc, P, "write-bytes", || format!("{} written as {} instead of {}", n, hex(&got), hex(&enc))) {
                    return;
                }
                sent.extend_from_slice(&enc);
                written.push(n);
            }
            Err(e) => {
                ctx.fault(if w.st.nothing { "writer full" } else { "write error" });
                ctx.check(enc.starts_with(&got), P, "write-not-prefix", || {
                    format!("failed write of {} left {} on the stream", n, hex(&got))
                });
                ctx.check(!w.after_failure, P, "write-after-failure", || "stream written again after it failed".into());
                if let Some(k) = w.st.failed {
                    let want = error(k, p.os_errors);
                    ctx.check(e.kind() == want.kind() && e.raw_os_error() == want.raw_os_error(), P, "write-error-kind", || {
                        format!("stream failed with {:?}, caller got {:?}", want, e)
                    });
                } else if w.st.nothing {
                    ctx.check(e.kind() == io::ErrorKind::WriteZero, P, "write-error-kind", || format!("{:?}", e));
                } else {
                    ctx.violate(P, "write-spurious-error", format!("{:?} without any stream failure", e));
                }
                if got.len() > 0 && got.len() < enc.len() {
                    ctx.probe("torn write inside a number");
                }
                break;
            }
        }
        // in-memory encoding agrees
        if let Some(m) = ctx.call(P, "encode_var_int", || encode_var_int(n)) {
            ctx.check(m == enc, P, "encode-bytes", || format!("{} encoded as {}", n, hex(&m)));
        }
    }
    // ---- the image that reaches the reader: everything the stream accepted, maybe cut, or (after
    // a failed write) the intact encodings
    let mut image = w.got.clone();
    let torn = image.len() != sent.len();
    if !torn {
        image.extend((0..p.trailer).map(|i| 0xf0 | i));
    }
    let cut = (p.cut as usize) < image.len();
    if cut {
        image.truncate(p.cut as usize);
        ctx.fault("lost tail");
    }
    let mut rd = SimReader { steps: &p.read, pos: 0, data: &image, off: 0, os: p.os_errors, st: Stats::default() };
    let mut expect_at = 0usize;
    let mut all: Vec<u64> = written.clone();
    if torn && w.got.len() > sent.len() && written.len() < p.values.len() {
        all.push(p.values[written.len()]); // the torn number: must not read back
    }
    if cut && !torn {
        // nothing more
    }
    for &n in &all {
        let enc = model_var_int(n);
        let available = image.len() - expect_at;
        let (i0, s0) = (rd.st.interrupted, rd.st.short);
        let r = match ctx.call(P, "read_var_int", || read_var_int(&mut rd)) {
            Some(r) => r,
            None => return,
        };
        let used = rd.off - expect_at;
        ev!(ctx, "read -> {:?} used {} calls {}", r.as_ref().map_err(|e| e.kind()), used, rd.st.calls);
        if rd.st.interrupted > i0 {
            ctx.fault("read interrupted");
        }
        if rd.st.short > s0 {
            ctx.fault("short read");
        }
        match r {
            Ok(m) => {
                if !ctx.check(available >= enc.len(), P, "read-from-torn-data", || {
                    format!("read {} although only {} of {} bytes were there", m, available, enc.len())
                }) {
                    return;
                }
                ctx.check(rd.st.failed.is_none() && !rd.st.nothing, P, "read-failure-swallowed", || {
                    format!("reading succeeded with {} although the stream failed", m)
                });
                ctx.check(m == n, P, "read-value", || format!("{} read back as {}", n, m));
                if !ctx.check(used == enc.len(), P, "read-consumed", || format!("{} bytes consumed for {} ({})", used, n, hex(&enc))) {
                    return;
                }
                expect_at += enc.len();
            }
            Err(e) => {
                ctx.check(used <= enc.len(), P, "read-consumed-on-error", || format!("{} bytes consumed of {}", used, enc.len()));
                if let Some(k) = rd.st.failed {
                    ctx.fault("read error");
                    let want = error(k, p.os_errors);
                    ctx.check(e.kind() == want.kind() && e.raw_os_error() == want.raw_os_error(), P, "read-error-kind", || {
                        format!("stream failed with {:?}, caller got {:?}", want, e)
                    });
                } else if rd.st.nothing || available < enc.len() {
                    ctx.fault("end of stream");
                    ctx.check(e.kind() == io::ErrorKind::UnexpectedEof, P, "eof-kind", || format!("{:?}", e));
                } else {
                    ctx.violate(P, "read-spurious-error", format!("{:?} without any stream failure", e));
                }
                if used > 0 {
                    ctx.probe("stream ended inside a number");
                }
                break;
            }
        }
    }
    ctx.out.sim_time = w.st.calls + rd.st.calls;
    ctx.out.nontrivial = !ctx.out.faults.is_empty();
    let s = format!("{:?}{:?}{:?}{}", p.values, p.write, p.read, image.len());
    ctx.mark(&s);
}

pub fn world() -> World {
    World {
        name: "stream",
        gen,
        run,
        valid,
        after: None,
        quick_runs: 60_000,
        thorough_runs: 1_500_000,
        recheck: 2000,
        cpu_s: 10,
        rule: "a run writes 1..6 integers (boundary-biased) through a simulated stream whose every call is scheduled (bytes passed, interruption, failure, end), then reads the stored image back through another; non-trivial if at least one fault fired; distinct by values, both schedules and image length",
        time_unit: "stream calls",
        real: &["bitcoin_cash::encoding_utils::{read_var_int, write_var_int, encode_var_int}"],
        stub: &["io::Read and io::Write ends (simulated)"],
        assumptions: &["streams obey the io::Read/io::Write contracts (never claim more bytes than the buffer holds)"],
    }
}
