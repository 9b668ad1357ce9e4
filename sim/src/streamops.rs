//! Shared workload for everything that is observed as a DataStream: a seeded history of
//! seek/read operations checked step by step against a byte-vector model, under short reads and
//! transient errors, followed by a fault-free sweep.

use std::io::SeekFrom;
use std::sync::atomic::Ordering;

use keramics_core::{DataStreamReference, ErrorTrace};

use crate::case::{Case, Op};
use crate::data::Data;
use crate::env;
use crate::rng::Rng;
use crate::runner::{RunResult, Violation};

/// Fault profile of a run.
pub const F_NONE: i64 = 0;
pub const F_SHORT: i64 = 1;
pub const F_MIXED: i64 = 2;
pub const F_ERR: i64 = 3;

/// Draws a fault plan for the ops of the case (and the set up phase, op 0).
pub fn gen_faults(rng: &mut Rng, case: &mut Case, os: bool, open_ios: u64, op_ios: u64) {
    let mode = *rng.pick(&[F_NONE, F_SHORT, F_SHORT, F_MIXED, F_MIXED, F_ERR]);
    case.set("fmode", mode);
    if mode == F_NONE {
        return;
    }
    let den = *rng.pick(&[1u64, 2, 4, 16]);
    let err_den = *rng.pick(&[4u64, 12, 40]);
    let mut ids: Vec<u32> = case.ops.iter().map(|o| o.id).collect();
    ids.push(0);
    // half the runs leave the set up phase alone, so that most of the work happens
    let skip_open = rng.chance(1, 2) && mode != F_SHORT;
    for id in ids {
        if id == 0 && skip_open {
            continue;
        }
        let k = if id == 0 { open_ios } else { op_ios };
        if mode == F_SHORT || mode == F_MIXED {
            for io in 0..k {
                if rng.chance(1, den) {
                    match rng.below(8) {
                        0 => case.fault(id, io as u32, "short", 1),
                        1 if os => case.fault(id, io as u32, "eintr", 0),
                        2 | 3 => {
                            let a = rng.range(1, 999) as i64;
                            case.fault(id, io as u32, "shortfrac", a)
                        }
                        _ => {
                            let a = rng.range(1, 1 << 20) as i64;
                            case.fault(id, io as u32, "short", a)
                        }
                    }
                }
            }
        }
        if (mode == F_MIXED || mode == F_ERR) && rng.chance(1, err_den.min(6)) {
            // one error somewhere inside the operation, biased to its first calls
            let io = if rng.chance(1, 2) { rng.below(4) } else { rng.below(k.max(1)) };
            case.faults.retain(|f| !(f.op == id && f.io == io as u32));
            case.fault(id, io as u32, "err", 0);
        }
    }
}

/// Offsets of interest: around the given boundaries.
pub fn pick_offset(rng: &mut Rng, size: u64, hot: &[u64]) -> u64 {
    match rng.below(10) {
        0 => 0,
        1 => size.saturating_sub(rng.skewed(4096)),
        2 => size,
        3 => size.saturating_add(rng.skewed(100_000)),
        4 | 5 => rng.below(size.saturating_add(1)),
        _ => {
            if hot.is_empty() {
                rng.below(size.saturating_add(1))
            } else {
                let h = *rng.pick(hot);
                let d = rng.skewed(1024);
                if rng.chance(1, 2) { h.saturating_sub(d) } else { h.saturating_add(d) }
            }
        }
    }
}

pub fn gen_ops(rng: &mut Rng, case: &mut Case, size: u64, hot: &[u64], n: u64, max_len: u64, actor: u32) {
    for _ in 0..n {
        let len = match rng.below(6) {
            0 => 0,
            1 => rng.range(1, 16),
            2 => 512,
            3 => rng.range(1, max_len),
            _ => rng.skewed(max_len),
        } as i64;
        let off = pick_offset(rng, size, hot) as i64;
        match rng.below(12) {
            0 => case.op_by(actor, "size", &[]),
            1 => case.op_by(actor, "seek", &[0, off]),
            2 => {
                let d = rng.irange(-(max_len as i64), max_len as i64);
                case.op_by(actor, "seek", &[1, d])
            }
            3 => {
                let d = -(rng.skewed(size.max(1)) as i64);
                case.op_by(actor, "seek", &[2, d])
            }
            4 | 5 => case.op_by(actor, "read", &[len]),
            6 => case.op_by(actor, "exact", &[len]),
            7 => case.op_by(actor, "tell", &[]),
            8 | 9 => case.op_by(actor, "readat", &[off, len]),
            _ => case.op_by(actor, "exactat", &[off, len]),
        };
    }
}

fn fault_allowed(id: u32) -> bool {
    env::op_errors(id) > 0
}

fn err_text(e: &ErrorTrace) -> String {
    let mut s = e.to_string();
    s.truncate(s.floor_char_boundary(400));
    s
}

pub struct Session<'a> {
    pub stream: DataStreamReference,
    pub guest: &'a Data,
    pub pos: u64,
    pub pos_known: bool,
    pub tag: String,
}

fn diff(want: &[u8], got: &[u8]) -> String {
    for i in 0..want.len().min(got.len()) {
        if want[i] != got[i] {
            return format!(
                "first difference at +{i}: expected {:02x}.. got {:02x}.. ({} bytes)",
                want[i],
                got[i],
                want.len()
            );
        }
    }
    format!("lengths {} and {}", want.len(), got.len())
}

impl<'a> Session<'a> {
    pub fn new(stream: DataStreamReference, guest: &'a Data, tag: &str) -> Self {
        Session {
            stream,
            guest,
            pos: 0,
            pos_known: false,
            tag: tag.to_string(),
        }
    }

    fn bad<T>(&self, class: &str, op: &Op, text: String) -> Result<T, Violation> {
        Err(Violation::new(
            class,
            &format!("{}:{}", self.tag, class),
            format!("{}: op {} {} {:?}: {}", self.tag, op.id, op.kind, op.a, text),
        ))
    }

    /// Makes the stream's position equal the model's. Fault-free.
    fn resync(&mut self, op: &Op) -> RunResult {
        if self.pos_known {
            return Ok(());
        }
        let on = env::FAULTS_ON.swap(false, Ordering::SeqCst);
        let r = lock(&self.stream, |s| s.seek(SeekFrom::Start(self.pos)));
        env::FAULTS_ON.store(on, Ordering::SeqCst);
        match r {
            Err(m) => self.bad("lock", op, m),
            Ok(Err(e)) => self.bad("unexpected-error", op, format!("seek failed: {}", err_text(&e))),
            Ok(Ok(p)) if p != self.pos => {
                self.bad("wrong-position", op, format!("seek to {} returned {}", self.pos, p))
            }
            _ => {
                self.pos_known = true;
                Ok(())
            }
        }
    }

    /// Applies one operation to the stream and to the model. Ok(false): it failed because of an
    /// injected error.
    pub fn step(&mut self, op: &Op) -> Result<bool, Violation> {
        let a = |i: usize| op.a.get(i).copied().unwrap_or(0);
        let size = self.guest.size;
        env::log(
            || format!("  {} {:?}", op.kind, op.a),
            crate::rng::hash_i64(&op.a) ^ crate::rng::hash_str(&op.kind),
        );
        if matches!(op.kind.as_str(), "read" | "exact" | "tell") || (op.kind == "seek" && a(0) == 1) {
            self.resync(op)?;
        }
        match op.kind.as_str() {
            "size" => match lock(&self.stream, |s| s.get_size()) {
                Err(m) => self.bad("lock", op, m),
                Ok(Err(e)) => self.failed(op, &e),
                Ok(Ok(n)) => {
                    env::checked(0);
                    if n != size {
                        return self.bad("wrong-size", op, format!("size {n}, expected {size}"));
                    }
                    Ok(true)
                }
            },
            "seek" | "tell" => {
                let whence = if op.kind == "tell" { 1 } else { a(0) };
                let d = if op.kind == "tell" { 0 } else { a(1) };
                let (from, want) = match whence {
                    0 => (SeekFrom::Start(d.max(0) as u64), d.max(0) as u64),
                    1 => {
                        let d = if (self.pos as i128 + d as i128) < 0 { -(self.pos as i64) } else { d };
                        (SeekFrom::Current(d), (self.pos as i128 + d as i128) as u64)
                    }
                    _ => {
                        let d = if (size as i128 + d as i128) < 0 { -(size as i64) } else { d };
                        (SeekFrom::End(d), (size as i128 + d as i128) as u64)
                    }
                };
                match lock(&self.stream, |s| s.seek(from)) {
                    Err(m) => self.bad("lock", op, m),
                    Ok(Err(e)) => self.failed(op, &e),
                    Ok(Ok(p)) => {
                        env::checked(0);
                        if p != want {
                            return self.bad(
                                "wrong-position",
                                op,
                                format!("seek returned {p}, expected {want}"),
                            );
                        }
                        self.pos = want;
                        self.pos_known = true;
                        Ok(true)
                    }
                }
            }
            "read" | "readat" | "exact" | "exactat" => {
                let at = op.kind.ends_with("at");
                let exact = op.kind.starts_with("exact");
                let start = if at { a(0).max(0) as u64 } else { self.pos };
                let len = a(if at { 1 } else { 0 }).clamp(0, 1 << 26) as usize;
                let mut buf = vec![0xa5u8; len];
                let r = lock(&self.stream, |s| match (at, exact) {
                    (false, false) => s.read(&mut buf).map(|n| (n, start)),
                    (true, false) => {
                        s.read_at_position(&mut buf, SeekFrom::Start(start)).map(|n| (n, start))
                    }
                    (false, true) => s.read_exact(&mut buf).map(|_| (len, start)),
                    (true, true) => s
                        .read_exact_at_position(&mut buf, SeekFrom::Start(start))
                        .map(|o| (len, o)),
                });
                self.pos_known = false;
                let remain = size.saturating_sub(start);
                let (n, o) = match r {
                    Err(m) => return self.bad("lock", op, m),
                    Ok(Err(e)) => {
                        if exact && len as u64 > remain {
                            env::checked(0);
                            self.pos = start;
                            return Ok(true); // cannot be satisfied
                        }
                        self.pos = start;
                        return self.failed(op, &e);
                    }
                    Ok(Ok(x)) => x,
                };
                if exact && len as u64 > remain {
                    return self.bad(
                        "wrong-count",
                        op,
                        format!("exact read of {len} bytes at {start} succeeded, {remain} bytes remain"),
                    );
                }
                if o != start {
                    return self.bad("wrong-position", op, format!("returned offset {o}, expected {start}"));
                }
                let max = (len as u64).min(remain) as usize;
                if n > max {
                    return self.bad("wrong-count", op, format!("read returned {n} bytes, at most {max} possible at {start} of {size}"));
                }
                if n == 0 && max > 0 {
                    return self.bad(
                        "wrong-count",
                        op,
                        format!("read returned end of data at {start} of {size}"),
                    );
                }
                let want = self.guest.slice(start, n as u64);
                if want[..] != buf[..n] {
                    return self.bad(
                        "wrong-data",
                        op,
                        format!("at {start}, {n} bytes: {}", diff(&want, &buf[..n])),
                    );
                }
                env::checked(n as u64);
                self.pos = start + n as u64;
                // the stream must stand right after what it delivered
                self.pos_known = true;
                Ok(true)
            }
            _ => Ok(true),
        }
    }

    fn failed(&self, op: &Op, e: &ErrorTrace) -> Result<bool, Violation> {
        if fault_allowed(op.id) {
            return Ok(false);
        }
        self.bad("unexpected-error", op, err_text(e))
    }

    /// Reads every byte (bounded by max, else sampled windows) without faults.
    pub fn sweep(&mut self, chunk: usize, max: u64, hot: &[u64], rng: &mut Rng) -> RunResult {
        let size = self.guest.size;
        if size <= max {
            let mut off = 0u64;
            while off < size {
                let op = Op {
                    id: 1_000_000,
                    actor: 0,
                    kind: "readat".into(),
                    a: vec![off as i64, chunk as i64],
                };
                env::op_begin(op.id);
                self.step(&op)?;
                if self.pos <= off {
                    return self.bad("wrong-count", &op, "no progress".into());
                }
                off = self.pos;
            }
            // end of data
            let op = Op {
                id: 1_000_000,
                actor: 0,
                kind: "readat".into(),
                a: vec![size as i64, 16],
            };
            env::op_begin(op.id);
            self.step(&op)?;
        } else {
            for _ in 0..24 {
                let off = pick_offset(rng, size, hot);
                let op = Op {
                    id: 1_000_000,
                    actor: 0,
                    kind: "readat".into(),
                    a: vec![off as i64, chunk as i64],
                };
                env::op_begin(op.id);
                self.step(&op)?;
            }
        }
        Ok(())
    }
}

pub fn lock<R>(
    s: &DataStreamReference,
    f: impl FnOnce(&mut dyn keramics_core::DataStream) -> R,
) -> Result<R, String> {
    match s.write() {
        Ok(mut g) => Ok(f(&mut *g)),
        Err(_) => Err("lock is poisoned".to_string()),
    }
}

/// Runs `open` under the fault plan of op 0; a failure is only legitimate when an error was
/// injected, and then a fault-free retry must succeed.
pub fn open_with_faults<T>(
    tag: &str,
    open: &dyn Fn() -> Result<T, ErrorTrace>,
) -> Result<T, Violation> {
    env::op_begin(0);
    match open() {
        Ok(t) => Ok(t),
        Err(e) => {
            if env::op_errors(0) == 0 {
                return Err(Violation::new(
                    "unexpected-error",
                    &format!("{tag}:open-error"),
                    format!("{tag}: open failed: {}", err_text(&e)),
                ));
            }
            env::probe("open-failed-then-retried");
            let on = env::FAULTS_ON.swap(false, Ordering::SeqCst);
            let r = open();
            env::FAULTS_ON.store(on, Ordering::SeqCst);
            r.map_err(|e| {
                Violation::new(
                    "unexpected-error",
                    &format!("{tag}:open-retry-error"),
                    format!("{tag}: open after the fault healed failed: {}", err_text(&e)),
                )
            })
        }
    }
}

/// The complete single client history for a stream: open, operations, heal, sweep.
pub fn run_history(
    case: &Case,
    tag: &str,
    guest: &Data,
    hot: &[u64],
    open: &dyn Fn() -> Result<DataStreamReference, ErrorTrace>,
) -> RunResult {
    let stream = open_with_faults(tag, open)?;
    let mut s = Session::new(stream, guest, tag);
    run_ops(case, &mut s)?;
    finish(case, &mut s, hot)
}

pub fn run_ops(case: &Case, s: &mut Session) -> RunResult {
    for op in &case.ops {
        env::op_begin(op.id);
        if !s.step(op)? {
            env::probe("op-failed-by-fault");
            if op.id % 2 == 0 {
                // heal, then the same operation must succeed
                let on = env::FAULTS_ON.swap(false, Ordering::SeqCst);
                env::op_begin(op.id);
                let r = s.step(op);
                env::FAULTS_ON.store(on, Ordering::SeqCst);
                r?;
                env::probe("op-retried-after-heal");
            }
        }
    }
    Ok(())
}

pub fn finish(case: &Case, s: &mut Session, hot: &[u64]) -> RunResult {
    env::FAULTS_ON.store(false, Ordering::SeqCst);
    let mut rng = Rng::new(case.seed ^ 0x5eeb);
    let chunk = *rng.pick(&[512usize, 4096, 65536, 1000, 131_072]);
    let cap = if chunk < 4096 { 1 << 18 } else { 4 << 20 };
    s.sweep(chunk, cap, hot, &mut rng)
}
