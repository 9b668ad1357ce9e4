//! C18: concurrent readers of one source never disturb each other.

use std::collections::BTreeMap;
use std::io::SeekFrom;
use std::path::PathBuf;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

use keramics_core::{DataStreamReference, ErrorTrace, open_fake_data_stream, open_os_data_stream};

use crate::case::{Case, Op};
use crate::data::Data;
use crate::env;
use crate::images::{self, fs::Kind};
use crate::props::{filesystems, images as disks};
use crate::rng::{Rng, hash_i64};
use crate::runner::{Prop, RunResult, Violation};
use crate::{sched, stream, streamops};

pub struct C18Threads;
pub static C18: C18Threads = C18Threads;

/// Positions a stream may have been left at are bounded by this.
const MAX_READ: usize = 20_000;

type Opener = Arc<dyn Fn() -> Result<Vec<DataStreamReference>, ErrorTrace> + Send + Sync>;

/// What the threads read from.
struct Source {
    name: String,
    /// Opens a set of streams that share a source.
    open: Opener,
    /// Opens a set of streams on a given source, for threads that each open their own.
    open_on: Option<Arc<dyn Fn(&DataStreamReference) -> Result<Vec<DataStreamReference>, ErrorTrace> + Send + Sync>>,
    file: usize,
    hot: Vec<u64>,
}

fn source(case: &Case) -> Source {
    let k = case.p("source") as usize;
    let nd = disks::ALL.len();
    let nf = filesystems::ALL.len();
    if k < nd {
        let p = disks::ALL[k];
        let image = (p.build)(case);
        image.install("img/");
        let hot = image.hot.clone();
        let image = Arc::new(image);
        return Source {
            name: p.tag.to_string(),
            open: Arc::new(move || match &image.streams {
                Some(f) => f("img/"),
                None => Ok(vec![(image.open)("img/")?]),
            }),
            open_on: None,
            file: 0,
            hot,
        };
    }
    if k < nd + nf {
        let p = filesystems::ALL[k - nd];
        let image = (p.build)(case);
        let file = env::add_file("volume", image.volume.clone());
        let hot: Vec<u64> = image.nodes.iter().flat_map(|n| n.hot.iter().copied()).collect();
        let mut paths = Vec::new();
        for (i, n) in image.nodes.iter().enumerate() {
            if n.kind == Kind::File && paths.len() < 6 {
                paths.push(image.path(i));
            }
        }
        let open = image.open;
        let streams = move |ds: &DataStreamReference| -> Result<Vec<DataStreamReference>, ErrorTrace> {
            let fs = open(ds)?;
            let mut v = Vec::new();
            for p in &paths {
                if let Some(mut e) = fs.by_path(p)? {
                    if let Some(s) = e.stream()? {
                        v.push(s);
                    }
                }
            }
            Ok(v)
        };
        let streams = Arc::new(streams);
        let s2 = streams.clone();
        return Source {
            name: p.tag.to_string(),
            open: Arc::new(move || s2(&stream::open(file))),
            open_on: Some(streams),
            file,
            hot,
        };
    }
    // clones of a reference to one stream
    let mut rng = Rng::new(case.seed);
    let mut d = Data::new(case.p("size").max(0) as u64);
    let n = d.size.min(300_000);
    d.write(0, &rng.bytes(n as usize));
    let v = if k == nd + nf + 2 { d.to_vec() } else { Vec::new() };
    let file = env::add_file("image.raw", d);
    let (name, open): (&str, Opener) = match k - nd - nf {
        0 => ("stream", Arc::new(move || Ok(vec![stream::open(file)]))),
        1 => ("os-file", Arc::new(|| Ok(vec![open_os_data_stream(&PathBuf::from("/simfs/image.raw"))?]))),
        _ => ("memory", Arc::new(move || Ok(vec![open_fake_data_stream(&v)]))),
    };
    Source { name: name.to_string(), open, open_on: None, file, hot: vec![] }
}

fn kinds() -> usize {
    disks::ALL.len() + filesystems::ALL.len() + 3
}

/// Offset and size of a read.
fn place(op: &Op, size: u64, hot: &[u64]) -> (u64, usize) {
    let a = |i: usize| op.a.get(i).copied().unwrap_or(0) as u64;
    let len = (a(3) as usize).min(MAX_READ);
    let r = a(2);
    let off = match a(1) % 6 {
        0 => 0,
        1 => size.saturating_sub(r % 3000),
        2 if !hot.is_empty() => hot[r as usize % hot.len()].saturating_sub(r >> 8 & 0x3ff),
        3 => (r % 64) * 512,
        _ => r % (size + 1),
    };
    (off.min(size + 10), len)
}

/// One operation of a reader. None: it failed.
fn read(s: &DataStreamReference, op: &Op, off: u64, len: usize) -> Result<Result<Vec<u8>, ErrorTrace>, String> {
    let mut b = vec![0u8; len];
    streamops::lock(s, |d| {
        if op.a.get(4).copied().unwrap_or(0) % 2 == 0 {
            d.read_exact_at_position(&mut b, SeekFrom::Start(off))?;
            Ok(b)
        } else {
            let n = d.read_at_position(&mut b, SeekFrom::Start(off))?;
            if n > b.len() {
                return Err(ErrorTrace::new(format!("{n} bytes read into a buffer of {len}")));
            }
            b.truncate(n);
            Ok(b)
        }
    })
}

/// All of a range, read alone.
fn alone(s: &DataStreamReference, off: u64, len: usize) -> Result<Vec<u8>, ErrorTrace> {
    let mut v = Vec::new();
    while v.len() < len {
        let mut b = vec![0u8; len - v.len()];
        let n = streamops::lock(s, |d| d.read_at_position(&mut b, SeekFrom::Start(off + v.len() as u64))).map_err(ErrorTrace::new)??;
        if n == 0 {
            break;
        }
        v.extend_from_slice(&b[..n.min(len)]);
    }
    Ok(v)
}

impl Prop for C18Threads {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn quick_runs(&self) -> u64 {
        15_000
    }
    fn gen_case(&self, rng: &mut Rng, _index: u64, thorough: bool) -> Case {
        let nd = disks::ALL.len();
        let nf = filesystems::ALL.len();
        let k = rng.below(kinds() as u64) as usize;
        let mut c = Case::new("C18", "threads", rng.next());
        if k < nd {
            (disks::ALL[k].draw)(rng, &mut c, false);
            if c.params.contains_key("layers") && rng.chance(2, 3) {
                c.set("layers", rng.range(2, 4) as i64);
            }
        } else if k < nd + nf {
            (filesystems::ALL[k - nd].draw)(rng, &mut c, false);
        } else {
            c.set("size", rng.range(1, 200_000) as i64);
        }
        c.set("source", k as i64);
        let n = rng.range(2, if thorough { 6 } else { 4 });
        c.set("actors", n as i64);
        c.set("own", rng.chance(1, 3) as i64);
        // threads that meet at the same stream
        c.set("one", rng.chance(1, 3) as i64);
        let ops = rng.range(2, if thorough { 24 } else { 12 }).max(n);
        for i in 0..ops {
            let actor = if i < n { i } else { rng.below(n) } as u32;
            let a = [
                rng.below(1 << 16) as i64,
                rng.below(6) as i64,
                rng.below(1 << 40) as i64,
                match rng.below(4) {
                    0 => rng.range(0, 16) as i64,
                    1 => 512,
                    2 => rng.range(1, 5000) as i64,
                    _ => rng.range(1, MAX_READ as u64) as i64,
                },
                rng.below(2) as i64,
            ];
            c.op_by(actor, "read", &a);
        }
        streamops::gen_faults(rng, &mut c, false, 0, 12);
        c.faults.retain(|f| f.op != 0);
        let len = rng.range(20, 400);
        let stay = rng.below(4);
        c.sched = (0..len).map(|_| if stay > 0 && rng.below(4) < stay { 0 } else { rng.range(1, n) as u32 }).collect();
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        let src = source(case);
        let tag = src.name.clone();
        let fail = |key: &str, d: String| Violation::new(key, &format!("threads:{tag}:{key}"), d);
        let own = case.p("own") == 1 && src.open_on.is_some();
        let one = case.p("one") == 1;
        // what each operation gives when its thread runs alone
        let on = env::FAULTS_ON.swap(false, Ordering::SeqCst);
        env::op_begin(0);
        let list = (src.open)().map_err(|e| fail("open-error", format!("{tag}: opening failed: {e}")))?;
        if list.is_empty() {
            return Ok(());
        }
        let mut want: BTreeMap<u32, (usize, u64, usize, Vec<u8>)> = BTreeMap::new();
        for op in &case.ops {
            env::op_begin(0);
            let i = if one { 0 } else { op.a[0] as usize % list.len() };
            let size = streamops::lock(&list[i], |d| d.get_size()).map_err(|e| fail("lock", e))?.map_err(|e| fail("size-error", e.to_string()))?;
            let (off, len) = place(op, size, &src.hot);
            let v = alone(&list[i], off, len).map_err(|e| fail("alone-error", format!("{tag}: reading {len} bytes at {off} alone failed: {e}")))?;
            want.insert(op.id, (i, off, len, v));
        }
        // the readers
        env::op_begin(0);
        let list = Arc::new((src.open)().map_err(|e| fail("open-error", format!("{tag}: opening failed: {e}")))?);
        let shared = stream::open(src.file);
        env::FAULTS_ON.store(on, Ordering::SeqCst);
        let want = Arc::new(want);
        let found: Arc<Mutex<Vec<Violation>>> = Arc::new(Mutex::new(Vec::new()));
        let n = case.p("actors").clamp(1, 8) as u32;
        let mut actors: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for actor in 0..n {
            let ops: Vec<Op> = case.ops.iter().filter(|o| o.actor == actor).cloned().collect();
            let (list, want, found, tag, shared) = (list.clone(), want.clone(), found.clone(), tag.clone(), shared.clone());
            let open_on = if own { src.open_on.clone() } else { None };
            actors.push(Box::new(move || {
                let report = |key: &str, d: String| {
                    found.lock().unwrap().push(Violation::new(key, &format!("threads:{tag}:{key}"), format!("{tag}: thread {actor}: {d}")));
                };
                let mine: Arc<Vec<DataStreamReference>> = match open_on {
                    Some(f) => {
                        let id = 2_000_000 + actor;
                        env::op_begin(id);
                        match f(&shared) {
                            Ok(v) => Arc::new(v),
                            Err(e) => return report("open-error", format!("opening while others read failed: {e}")),
                        }
                    }
                    None => list,
                };
                for op in &ops {
                    sched::yield_point();
                    env::op_begin(op.id);
                    let (i, off, len, expected) = &want[&op.id];
                    if *i >= mine.len() {
                        return report("missing-stream", format!("{} streams were opened, expected more than {i}", mine.len()));
                    }
                    let r = read(&mine[*i], op, *off, *len);
                    env::checked(*len as u64);
                    let errors = env::op_errors(op.id);
                    env::log(|| format!("  thread {actor} op {} stream {i} at {off} len {len}: {:?}", op.id, r.as_ref().map(|r| r.as_ref().map(|v| v.len()).map_err(|_| "error"))), hash_i64(&op.a));
                    match r {
                        Err(e) => return report("lock", e),
                        Ok(Err(e)) => {
                            if errors == 0 && !(op.a[4] % 2 == 0 && expected.len() < *len) {
                                return report("disturbed", format!("reading {len} bytes of stream {i} at {off} failed without a fault of its own: {e}"));
                            }
                            if errors > 0 {
                                env::probe("op-failed-by-fault");
                            }
                        }
                        Ok(Ok(v)) => {
                            let exact = op.a[4] % 2 == 0;
                            if (exact && v != *expected) || !expected.starts_with(&v) || (v.is_empty() && !expected.is_empty()) {
                                let k = v.iter().zip(expected.iter()).position(|(a, b)| a != b);
                                return report("wrong-bytes", format!("reading {len} bytes of stream {i} at {off} gives {} bytes, alone {} bytes, first difference {k:?}", v.len(), expected.len()));
                            }
                        }
                    }
                }
            }));
        }
        let st = sched::run_actors(&case.sched, actors);
        env::log(|| format!("schedule: {} points, {} switches, {} waits", st.points, st.switches, st.blocks), st.hash);
        if st.blocks > 0 {
            env::probe("contended");
        }
        env::probe(&format!("source-{tag}"));
        let mut g = found.lock().unwrap();
        if !g.is_empty() {
            return Err(g.remove(0));
        }
        Ok(())
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        vec![("own", 0)]
    }
    fn alloc_limit(&self) -> usize {
        2 << 30
    }
    fn rule(&self) -> &'static str {
        "a case is a source (layers of a disk image, partitions of a disk, files of a volume, clones of an image, file or memory stream), 2-4 threads with 2-12 positioned reads on streams that share the source (a third of the volumes opened by every thread itself), a schedule of 20-400 decisions taken at every stream I/O, lock wait and lock hand-over, and a fault plan; oracle: the bytes each read gives when its thread runs alone, an error is only accepted from the thread whose own I/O failed, a state in which every thread waits is a deadlock"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["keramics-formats (all image, partition and file system streams)", "keramics-core DataStream", "std RwLock and Mutex"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["futex system calls and thread scheduler (seeded, one thread at a time)", "data streams of the sources (simulated disk with fault injection)", "kernel file system"]
    }
}
