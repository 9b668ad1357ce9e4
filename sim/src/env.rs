//! The simulated environment of one run: simulated disk, fault plan, event log, counters,
//! virtual clock. One run per process at a time; one sim thread runs at a time.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

use crate::case::Case;
use crate::data::Data;

pub struct SimFile {
    pub name: String,
    pub data: Data,
    /// Permanently unreadable ranges.
    pub bad: Vec<(u64, u64)>,
}

#[derive(Default)]
pub struct Env {
    pub faults: BTreeMap<(u32, u32), (String, i64)>,
    io_idx: BTreeMap<u32, u32>,
    op_err: BTreeMap<u32, u32>,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub files: Vec<SimFile>,
    pub names: BTreeMap<String, usize>,
    pub log_hash: u64,
    pub log: Option<Vec<String>>,
    pub events: u64,
    pub io_total: u64,
    pub io_op_budget: u64,
    pub vtime_us: u64,
    pub compared_bytes: u64,
    /// Ranges read, while they are recorded.
    pub reads: Option<std::collections::BTreeSet<(usize, u64, u64)>>,
    pub checks: u64,
}

static ENV: Mutex<Option<Box<Env>>> = Mutex::new(None);
/// Seed for getrandom() inside simulated threads.
pub static RANDOM_SEED: AtomicU64 = AtomicU64::new(0);
pub static FAULTS_ON: AtomicBool = AtomicBool::new(false);

thread_local! {
    pub static IN_SIM: Cell<bool> = const { Cell::new(false) };
    pub static CUR_OP: Cell<u32> = const { Cell::new(0) };
}

pub fn with<R>(f: impl FnOnce(&mut Env) -> R) -> R {
    let mut g = match ENV.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    f(g.get_or_insert_with(|| Box::new(Env::default())))
}

pub fn begin(case: &Case, verbose: bool) {
    let mut e = Env {
        log_hash: 0xcbf2_9ce4_8422_2325,
        io_op_budget: 400_000,
        ..Default::default()
    };
    if verbose {
        e.log = Some(Vec::new());
    }
    for f in &case.faults {
        e.faults.insert((f.op, f.io), (f.kind.clone(), f.arg));
    }
    with(|g| *g = e);
    RANDOM_SEED.store(case.seed ^ (case.p("hashseed") as u64).wrapping_mul(0x9e37), Ordering::SeqCst);
    FAULTS_ON.store(true, Ordering::SeqCst);
}

pub fn take() -> Env {
    with(|g| std::mem::take(g))
}

fn add_event(e: &mut Env, args: (u64, u64, u64, u64)) {
    let mut h = e.log_hash;
    for v in [args.0, args.1, args.2, args.3] {
        h ^= v;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    e.log_hash = h;
    e.events += 1;
}

/// Adds a line to the event log (hash always, text only on replay).
pub fn log(text: impl FnOnce() -> String, key: u64) {
    with(|e| {
        add_event(e, (0xffff, key, 0, 0));
        if e.log.is_some() {
            let t = text();
            e.log.as_mut().unwrap().push(t);
        }
    })
}

pub fn probe(name: &str) {
    with(|e| {
        if let Some(x) = e.probes.get_mut(name) {
            *x += 1;
        } else {
            e.probes.insert(name.to_string(), 1);
        }
    })
}

/// Counts one oracle evaluation over n bytes.
pub fn checked(n: u64) {
    with(|e| {
        e.checks += 1;
        e.compared_bytes += n;
    })
}

pub fn op_begin(id: u32) {
    CUR_OP.with(|c| c.set(id));
    with(|e| {
        e.io_idx.insert(id, 0);
        e.op_err.insert(id, 0);
    });
    log(|| format!("op {id} begins"), id as u64);
}

/// Number of error faults that fired within an operation.
pub fn op_errors(id: u32) -> u32 {
    with(|e| *e.op_err.get(&id).unwrap_or(&0))
}

pub fn op_ios(id: u32) -> u32 {
    with(|e| *e.io_idx.get(&id).unwrap_or(&0))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IoKind {
    Read = 1,
    Seek = 2,
    Size = 3,
    Open = 4,
    Write = 5,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Decision {
    Ok,
    Short(usize),
    Err,
    Eintr,
    /// No space left (writes).
    NoSpace,
}

pub struct IoBudget;

/// Every simulated I/O call passes here: it advances the virtual clock, is logged, is a
/// scheduling point, and may be hit by a planned fault.
pub fn io_point(kind: IoKind, file: usize, off: u64, len: usize) -> Decision {
    crate::sched::yield_point();
    let op = CUR_OP.with(|c| c.get());
    let mut over = false;
    let d = with(|e| {
        let idx = {
            let x = e.io_idx.entry(op).or_insert(0);
            let i = *x;
            *x += 1;
            i
        };
        e.io_total += 1;
        if kind == IoKind::Read {
            if let Some(r) = e.reads.as_mut() {
                if r.len() < 20_000 {
                    r.insert((file, off, len as u64));
                }
            }
        }
        if idx as u64 > e.io_op_budget {
            over = true;
        }
        e.vtime_us += 50 + (len as u64 >> 8);
        let mut d = Decision::Ok;
        if FAULTS_ON.load(Ordering::Relaxed) {
            if let Some((k, arg)) = e.faults.get(&(op, idx)).cloned() {
                d = match (k.as_str(), kind) {
                    ("short", IoKind::Read | IoKind::Write) if len > 1 => {
                        Decision::Short(((arg.unsigned_abs() as usize) % (len - 1)).max(1))
                    }
                    // a fraction of the request, in 1/1000
                    ("shortfrac", IoKind::Read | IoKind::Write) if len > 1 => Decision::Short(
                        ((len as u128 * (arg.unsigned_abs() as u128 % 1000) / 1000) as usize)
                            .clamp(1, len - 1),
                    ),
                    ("eintr", IoKind::Read | IoKind::Write | IoKind::Open) => Decision::Eintr,
                    ("err", _) => Decision::Err,
                    ("nospace", IoKind::Write) => Decision::NoSpace,
                    _ => Decision::Ok,
                };
                if d != Decision::Ok {
                    let name = format!("{}:{:?}", k, kind);
                    *e.fired.entry(name).or_insert(0) += 1;
                }
            }
        }
        if d == Decision::Ok && kind == IoKind::Read {
            if let Some(f) = e.files.get(file) {
                for (s, t) in &f.bad {
                    if off < *t && off + len as u64 > *s {
                        d = Decision::Err;
                    }
                }
                if d == Decision::Err {
                    *e.fired.entry("badsector:Read".to_string()).or_insert(0) += 1;
                }
            }
        }
        if matches!(d, Decision::Err | Decision::NoSpace) {
            *e.op_err.entry(op).or_insert(0) += 1;
        }
        let dk = match d {
            Decision::Ok => 0,
            Decision::Short(n) => 16 + n as u64,
            Decision::Err => 1,
            Decision::Eintr => 2,
            Decision::NoSpace => 3,
        };
        add_event(
            e,
            (
                (kind as u64) | ((file as u64) << 8) | ((op as u64) << 32),
                off,
                len as u64,
                dk,
            ),
        );
        if e.log.is_some() {
            let name = e.files.get(file).map(|f| f.name.clone()).unwrap_or_default();
            let line = format!(
                "  [t={}us] op {} io {} actor {} {:?} {} off={} len={} -> {:?}",
                e.vtime_us,
                op,
                idx,
                crate::sched::current_actor(),
                kind,
                name,
                off,
                len,
                d
            );
            let l = e.log.as_mut().unwrap();
            if l.len() < 20_000 {
                l.push(line);
            }
        }
        d
    });
    if over {
        if SYSTEM_CALL.with(|c| c.get()) {
            // a panic cannot unwind through the C library interface
            crate::runner::fatal(crate::runner::FATAL_BUDGET);
        }
        std::panic::panic_any(IoBudget);
    }
    d
}

thread_local! {
    static SYSTEM_CALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// An I/O point of an interposed system call.
pub fn sys_point(kind: IoKind, file: usize, off: u64, len: usize) -> Decision {
    SYSTEM_CALL.with(|c| c.set(true));
    let d = io_point(kind, file, off, len);
    SYSTEM_CALL.with(|c| c.set(false));
    d
}

/// Records an I/O call that a process of a tool made, and the fault that hit it.
pub fn external(op: u32, kind: &str, io: u64, file: u64, len: u64, fault: &str) {
    with(|e| {
        e.io_total += 1;
        e.vtime_us += 50 + (len >> 8);
        if fault != "-" {
            *e.fired.entry(format!("{fault}:{kind}")).or_insert(0) += 1;
        }
        add_event(e, (crate::rng::hash_str(kind) ^ op as u64, io | file << 32, len, crate::rng::hash_str(fault)));
        if let Some(l) = e.log.as_mut() {
            if l.len() < 20_000 {
                l.push(format!("    io {io} {kind} file {file} len={len} {fault}"));
            }
        }
    })
}

/// Debugging aid: writes a file of the simulated disk to the directory in KSIM_DUMP.
fn dump(name: &str, data: &Data) {
    use std::os::unix::fs::FileExt;
    let Some(dir) = std::env::var_os("KSIM_DUMP") else { return };
    let path = std::path::Path::new(&dir).join(name);
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    let f = std::fs::File::create(path).unwrap();
    f.set_len(data.size).unwrap();
    for (at, n) in data.pages_in(0, data.size) {
        f.write_all_at(&data.slice(at, n), at).unwrap();
    }
}

/// Debugging aid: notes the name of the file to open beside the dumped files.
pub fn dump_main(name: &str) {
    if let Some(dir) = std::env::var_os("KSIM_DUMP") {
        let _ = std::fs::write(std::path::Path::new(&dir).join("MAIN"), name);
    }
}

/// Registers a file on the simulated disk.
pub fn add_file(name: &str, data: Data) -> usize {
    dump(name, &data);
    with(|e| {
        let id = e.files.len();
        e.files.push(SimFile {
            name: name.to_string(),
            data,
            bad: Vec::new(),
        });
        e.names.insert(name.to_string(), id);
        id
    })
}

pub fn file_id(name: &str) -> Option<usize> {
    with(|e| e.names.get(name).copied())
}

/// Records the ranges read from now on; returns those recorded so far.
pub fn record_reads(on: bool) -> Vec<(usize, u64, u64)> {
    with(|e| std::mem::replace(&mut e.reads, on.then(Default::default))).map(|r| r.into_iter().collect()).unwrap_or_default()
}

pub fn file_size(id: usize) -> u64 {
    with(|e| e.files[id].data.size)
}
