//! Batch runner: seeds -> cases -> runs across worker processes, evidence, minimisation, replay.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::alloc;
use crate::case::{Case, Json, jstr};
use crate::env;
use crate::rng::{Rng, hash_str, mix};

pub const FATAL_DEADLOCK: i32 = 95;
pub const FATAL_ALLOC: i32 = 96;
pub const FATAL_HANG: i32 = 97;
pub const FATAL_BUDGET: i32 = 98;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    /// Identity of what fails (used to match known findings).
    pub key: String,
    pub detail: String,
}

impl Violation {
    pub fn new(class: &str, key: &str, detail: String) -> Self {
        Violation {
            class: class.to_string(),
            key: key.to_string(),
            detail,
        }
    }
}

pub type RunResult = Result<(), Violation>;

pub trait Prop: Sync + Send {
    fn id(&self) -> &'static str;
    fn gen_case(&self, rng: &mut Rng, index: u64, thorough: bool) -> Case;
    fn run(&self, case: &Case) -> RunResult;
    fn quick_runs(&self) -> u64;
    fn thorough_runs(&self) -> u64 {
        self.quick_runs() * 40
    }
    fn rule(&self) -> &'static str;
    fn real(&self) -> Vec<&'static str>;
    fn stubs(&self) -> Vec<&'static str>;
    /// Parameters the minimiser may lower, with their lowest legal value.
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        Vec::new()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        Vec::new()
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    /// Memory a run may use (bytes).
    fn alloc_limit(&self) -> usize {
        1 << 30
    }
}

pub fn fatal(code: i32) -> ! {
    unsafe {
        crate::sysio::raw_syscall(231, [code as usize, 0, 0, 0, 0, 0]);
    }
    loop {}
}

static PANIC_INFO: Mutex<Option<(String, String)>> = Mutex::new(None);
static ACTOR_PANIC: Mutex<Option<Violation>> = Mutex::new(None);

fn panic_violation(payload: Option<&(dyn std::any::Any + Send)>) -> Violation {
    if let Some(p) = payload {
        if p.downcast_ref::<env::IoBudget>().is_some() {
            return Violation::new(
                "io-budget",
                "io-budget",
                "an operation issued an unbounded number of I/O calls".to_string(),
            );
        }
    }
    let (loc, msg) = PANIC_INFO
        .lock()
        .map(|mut g| g.take())
        .unwrap_or(None)
        .unwrap_or((String::from("?"), String::from("?")));
    if loc.starts_with("src/") {
        return Violation::new("harness", "harness", format!("harness panic at {loc}: {msg}"));
    }
    // key without line numbers
    let file = loc.split(':').next().unwrap_or("").to_string();
    let file = match file.find("keramics-") {
        Some(i) => file[i..].to_string(),
        None => file,
    };
    let mut short: String = msg.chars().filter(|c| !c.is_ascii_digit()).collect();
    short.truncate(short.floor_char_boundary(60));
    Violation::new(
        "panic",
        &format!("panic@{file}:{short}"),
        format!("panic at {loc}: {msg}"),
    )
}

pub fn note_panic_payload(p: Option<Box<dyn std::any::Any + Send>>) {
    let v = panic_violation(p.as_deref());
    if let Ok(mut g) = ACTOR_PANIC.lock() {
        if g.is_none() {
            *g = Some(v);
        }
    }
}

pub fn take_actor_panic() -> Option<Violation> {
    ACTOR_PANIC.lock().ok().and_then(|mut g| g.take())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("(payload)")
        };
        if let Ok(mut g) = PANIC_INFO.lock() {
            *g = Some((loc, msg));
        }
    }));
}

static CASE_START: AtomicU64 = AtomicU64::new(0);

pub fn start_watchdog() {
    // processor time, so that a busy machine does not look like a hang; the wall clock only
    // catches what waits for ever
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = (Instant::now(), processor_seconds());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CASE_START.load(Ordering::SeqCst);
            if c != last {
                last = c;
                since = (Instant::now(), processor_seconds());
            } else if c % 2 == 1
                && (processor_seconds() - since.1 > 45 || since.0.elapsed() > Duration::from_secs(200))
            {
                fatal(FATAL_HANG);
            }
        }
    });
}

/// Processor time used by this process.
fn processor_seconds() -> i64 {
    let mut t = [0i64; 2];
    unsafe {
        crate::sysio::raw_syscall(228, [2, t.as_mut_ptr() as usize, 0, 0, 0, 0]);
    }
    t[0]
}

/// Executes one case in a fresh simulated world.
pub fn exec(prop: &'static dyn Prop, case: &Case, verbose: bool) -> (RunResult, env::Env) {
    env::begin(case, verbose);
    crate::sysio::reset();
    let _ = take_actor_panic();
    CASE_START.fetch_add(1, Ordering::SeqCst);
    let base = alloc::LIVE.load(Ordering::Relaxed);
    alloc::LIMIT.store(base.saturating_add(prop.alloc_limit()), Ordering::Relaxed);
    let c = case.clone();
    let r = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            env::IN_SIM.with(|x| x.set(true));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prop.run(&c)));
            let r = match r {
                Ok(r) => match take_actor_panic() {
                    Some(v) => Err(v),
                    None => r,
                },
                Err(p) => Err(panic_violation(Some(&*p))),
            };
            env::FAULTS_ON.store(false, Ordering::SeqCst);
            env::IN_SIM.with(|x| x.set(false));
            r
        })
        .expect("spawn case thread")
        .join();
    alloc::LIMIT.store(usize::MAX, Ordering::Relaxed);
    if verbose && std::env::var("KSIM_PEAK").is_ok() {
        eprintln!("peak {} MiB", (alloc::PEAK.load(Ordering::Relaxed) - base) >> 20);
    }
    CASE_START.fetch_add(1, Ordering::SeqCst);
    let e = env::take();
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(Violation::new("harness", "harness", "case thread died".to_string())),
    };
    (r, e)
}

pub fn case_for(prop: &'static dyn Prop, seed: u64, index: u64, thorough: bool) -> Case {
    let s = mix(&[seed, hash_str(prop.id()), index]);
    let mut rng = Rng::new(s);
    let mut c = prop.gen_case(&mut rng, index, thorough);
    c.prop = prop.id().to_string();
    c
}

fn known_keys(dir: &Path, prop: &str) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    if let Ok(t) = fs::read_to_string(dir.join("known-findings.txt")) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut it = rest.splitn(3, " | ");
                let p = it.next().unwrap_or("").trim().to_string();
                let k = it.next().unwrap_or("").trim().to_string();
                if p == format!("property={prop}") {
                    r.insert(k);
                }
            }
        }
    }
    r
}

/// Worker process: runs the indices from, from+step, ... and writes a summary.
pub fn worker(
    prop: &'static dyn Prop,
    seed: u64,
    from: u64,
    step: u64,
    count: u64,
    cap_s: f64,
    thorough: bool,
    dir: &Path,
    out: &Path,
) -> i32 {
    install_panic_hook();
    start_watchdog();
    let known = known_keys(dir, prop.id());
    let slot = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(out.with_extension("slot"))
        .expect("slot");
    use std::os::unix::fs::FileExt;
    let t0 = Instant::now();
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: Vec<u64> = Vec::new();
    let mut runs = 0u64;
    let (mut events, mut ios, mut vtime, mut checks, mut bytes, mut nops, mut faulty) =
        (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut nontrivial = 0u64;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<(u64, Violation)> = None;
    let mut i = from;
    while i < count {
        if t0.elapsed().as_secs_f64() > cap_s {
            break;
        }
        let _ = slot.write_all_at(&(i + 1).to_le_bytes(), 0);
        let case = case_for(prop, seed, i, thorough);
        nops += case.ops.len() as u64;
        let (r, e) = exec(prop, &case, false);
        runs += 1;
        for (k, v) in &e.fired {
            *fired.entry(k.clone()).or_insert(0) += v;
        }
        if !e.fired.is_empty() {
            faulty += 1;
        }
        for (k, v) in &e.probes {
            *probes.entry(k.clone()).or_insert(0) += v;
        }
        events += e.events;
        ios += e.io_total;
        vtime += e.vtime_us;
        checks += e.checks;
        bytes += e.compared_bytes;
        if e.checks > 0 {
            nontrivial += 1;
            hashes.push(e.log_hash);
        }
        if let Err(v) = r {
            if known.contains(&v.key) {
                *known_hits.entry(v.key.clone()).or_insert(0) += 1;
            } else {
                violation = Some((i, v));
                break;
            }
        }
        i += step;
    }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    let _ = fs::write(out.with_extension("hashes"), &hb);
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"runs\":{runs},\"events\":{events},\"ios\":{ios},\"vtime_us\":{vtime},\"checks\":{checks},\"bytes\":{bytes},\"ops\":{nops},\"faulty\":{faulty},\"nontrivial\":{nontrivial},\"fired\":{},\"probes\":{},\"known\":{}",
        map_json(&fired),
        map_json(&probes),
        map_json(&known_hits)
    );
    if let Some((i, v)) = violation {
        let _ = write!(
            s,
            ",\"violation\":{{\"index\":{i},\"class\":{},\"key\":{},\"detail\":{}}}",
            jstr(&v.class),
            jstr(&v.key),
            jstr(&v.detail)
        );
    }
    s.push('}');
    fs::write(out.with_extension("json"), s).expect("write summary");
    0
}

fn map_json(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn add_map(m: &mut BTreeMap<String, u64>, j: Option<&Json>) {
    if let Some(o) = j.and_then(|x| x.obj()) {
        for (k, v) in o {
            *m.entry(k.clone()).or_insert(0) += v.num().unwrap_or(0) as u64;
        }
    }
}

fn exit_violation(code: Option<i32>, signal: Option<i32>) -> Violation {
    match (code, signal) {
        (Some(FATAL_DEADLOCK), _) => Violation::new(
            "deadlock",
            "deadlock",
            "all simulated threads are blocked".to_string(),
        ),
        (Some(FATAL_ALLOC), _) => Violation::new(
            "alloc",
            "alloc",
            "memory limit of the run exceeded (unbounded allocation)".to_string(),
        ),
        (Some(FATAL_BUDGET), _) => Violation::new(
            "io-budget",
            "io-budget",
            "an operation issued an unbounded number of I/O calls".to_string(),
        ),
        (Some(FATAL_HANG), _) => Violation::new(
            "hang",
            "hang",
            "no progress within the time limit of a run".to_string(),
        ),
        (c, s) => Violation::new("crash", "crash", format!("process died: exit {c:?} signal {s:?}")),
    }
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("exe")
}

fn wait_timeout(ch: &mut std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => {}
            Err(_) => return None,
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// Executes a case in a fresh process.
fn exec_in_child(case: &Case, tmp: &Path) -> Result<Option<Violation>, String> {
    let f = tmp.join("candidate.json");
    fs::write(&f, case.to_json()).map_err(|e| e.to_string())?;
    let mut ch = Command::new(exe())
        .arg("exec")
        .arg(&f)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let st = wait_timeout(&mut ch, Duration::from_secs(60));
    let mut t = String::new();
    if let Some(mut o) = ch.stdout.take() {
        let _ = o.read_to_string(&mut t);
    }
    use std::os::unix::process::ExitStatusExt;
    match st {
        None => Ok(Some(Violation::new("hang", "hang", "run did not end".to_string()))),
        Some(s) => {
            for l in t.lines() {
                if l == "RESULT ok" {
                    return Ok(None);
                }
                if let Some(r) = l.strip_prefix("RESULT violation ") {
                    if let Some(j) = Json::parse(r) {
                        let o = j.obj().ok_or("bad result")?;
                        let g = |k: &str| {
                            o.get(k).and_then(|x| x.str()).unwrap_or_default().to_string()
                        };
                        return Ok(Some(Violation {
                            class: g("class"),
                            key: g("key"),
                            detail: g("detail"),
                        }));
                    }
                }
            }
            Ok(Some(exit_violation(s.code(), s.signal())))
        }
    }
}

struct Min<'a> {
    best: Case,
    v: Violation,
    tmp: &'a Path,
    deadline: Instant,
    tried: u64,
}

impl Min<'_> {
    fn attempt(&mut self, c: Case) -> bool {
        if Instant::now() > self.deadline || c == self.best {
            return false;
        }
        self.tried += 1;
        match exec_in_child(&c, self.tmp) {
            Ok(Some(v)) if v.class == self.v.class && (v.class != "panic" || v.key == self.v.key) => {
                self.best = c;
                self.v = v;
                true
            }
            _ => false,
        }
    }
    fn ddmin<T: Clone>(&mut self, get: fn(&Case) -> Vec<T>, set: fn(&mut Case, Vec<T>)) -> bool {
        let mut changed = false;
        let mut size = get(&self.best).len();
        if size > 0 {
            let mut c = self.best.clone();
            set(&mut c, Vec::new());
            if self.attempt(c) {
                return true;
            }
        }
        while size >= 1 {
            let mut i = 0;
            loop {
                let v = get(&self.best);
                if i >= v.len() {
                    break;
                }
                let mut w = v[..i].to_vec();
                w.extend_from_slice(&v[(i + size).min(v.len())..]);
                let mut c = self.best.clone();
                set(&mut c, w);
                if self.attempt(c) {
                    changed = true;
                } else {
                    i += size;
                }
                if Instant::now() > self.deadline {
                    return changed;
                }
            }
            size /= 2;
        }
        changed
    }
}

fn minimise(prop: &'static dyn Prop, case: Case, v: Violation, tmp: &Path, secs: u64) -> (Case, Violation, u64) {
    let mut m = Min {
        best: case,
        v,
        tmp,
        deadline: Instant::now() + Duration::from_secs(secs),
        tried: 0,
    };
    for _ in 0..6 {
        let before = m.best.clone();
        m.ddmin(|c| c.ops.clone(), |c, v| c.ops = v);
        m.ddmin(|c| c.faults.clone(), |c, v| c.faults = v);
        // schedule: shorter, then fewer switches
        if !m.best.sched.is_empty() {
            let mut len = m.best.sched.len();
            while len > 0 {
                len /= 2;
                let mut c = m.best.clone();
                c.sched.truncate(len);
                if !m.attempt(c) {
                    break;
                }
            }
            let mut size = m.best.sched.len();
            while size >= 1 {
                let mut i = 0;
                while i < m.best.sched.len() {
                    let e = (i + size).min(m.best.sched.len());
                    if m.best.sched[i..e].iter().any(|x| *x != 0) {
                        let mut c = m.best.clone();
                        c.sched[i..e].fill(0);
                        m.attempt(c);
                    }
                    i += size;
                }
                size /= 2;
                if Instant::now() > m.deadline {
                    break;
                }
            }
            while m.best.sched.last() == Some(&0) {
                m.best.sched.pop();
            }
        }
        for (name, lo) in prop.shrink_params() {
            loop {
                let x = m.best.p(name);
                if x <= lo {
                    break;
                }
                let mut done = true;
                for y in [lo, lo + (x - lo) / 2, x - 1] {
                    let mut c = m.best.clone();
                    c.set(name, y);
                    if m.attempt(c) {
                        done = false;
                        break;
                    }
                }
                if done {
                    break;
                }
            }
        }
        for oi in 0..m.best.ops.len() {
            for ai in 0..m.best.ops.get(oi).map(|o| o.a.len()).unwrap_or(0) {
                let mut tries = 0;
                loop {
                    let x = m.best.ops[oi].a[ai];
                    if x == 0 || tries > 12 {
                        break;
                    }
                    tries += 1;
                    let mut ok = false;
                    for y in [0, 1, x / 2, x - x.signum()] {
                        if y.abs() >= x.abs() {
                            continue;
                        }
                        let mut c = m.best.clone();
                        c.ops[oi].a[ai] = y;
                        if m.attempt(c) {
                            ok = true;
                            break;
                        }
                    }
                    if !ok {
                        break;
                    }
                }
            }
        }
        if m.best == before || Instant::now() > m.deadline {
            break;
        }
    }
    (m.best, m.v, m.tried)
}

pub struct CheckArgs {
    pub seed: u64,
    pub thorough: bool,
    pub dir: PathBuf,
    pub workers: u64,
    pub runs: Option<u64>,
    pub cap_s: f64,
}

pub fn check(prop: &'static dyn Prop, a: &CheckArgs) -> i32 {
    #[cfg(feature = "full")]
    crate::props::c22_tools::sweep();
    let t0 = Instant::now();
    let id = prop.id();
    let tmp = std::env::temp_dir().join(format!("ksim-{}-{}", id, std::process::id()));
    let _ = fs::create_dir_all(&tmp);
    let count = a.runs.unwrap_or(if a.thorough {
        prop.thorough_runs()
    } else {
        prop.quick_runs()
    });
    println!("seed {} property {id} runs {count} workers {}", a.seed, a.workers);
    let mut children = Vec::new();
    for w in 0..a.workers {
        let out = tmp.join(format!("w{w}"));
        let ch = Command::new(exe())
            .args([
                "worker",
                id,
                &a.seed.to_string(),
                &w.to_string(),
                &a.workers.to_string(),
                &count.to_string(),
                &a.cap_s.to_string(),
                if a.thorough { "1" } else { "0" },
            ])
            .arg(&a.dir)
            .arg(&out)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn();
        match ch {
            Ok(c) => children.push((c, out)),
            Err(e) => {
                eprintln!("cannot start worker: {e}");
                return 2;
            }
        }
    }
    let mut fired = BTreeMap::new();
    let mut probes = BTreeMap::new();
    let mut known = BTreeMap::new();
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut found: Vec<(u64, Violation)> = Vec::new();
    let mut broken = false;
    for (ch, out) in children.iter_mut() {
        use std::os::unix::process::ExitStatusExt;
        let st = match wait_timeout(ch, Duration::from_secs_f64(a.cap_s + 120.0)) {
            Some(s) => s,
            None => {
                eprintln!("worker did not end");
                broken = true;
                continue;
            }
        };
        if st.code() != Some(0) {
            // the run the worker was executing killed it
            let mut b = [0u8; 8];
            if let Ok(mut f) = fs::File::open(out.with_extension("slot")) {
                let _ = f.read_exact(&mut b);
            }
            let idx = u64::from_le_bytes(b);
            if idx > 0 {
                found.push((idx - 1, exit_violation(st.code(), st.signal())));
            } else {
                broken = true;
            }
            continue;
        }
        let j = fs::read_to_string(out.with_extension("json"))
            .ok()
            .and_then(|t| Json::parse(&t));
        let Some(j) = j else {
            broken = true;
            continue;
        };
        let o = j.obj().unwrap().clone();
        for k in [
            "runs", "events", "ios", "vtime_us", "checks", "bytes", "ops", "faulty", "nontrivial",
        ] {
            *tot.entry(k.to_string()).or_insert(0) +=
                o.get(k).and_then(|x| x.num()).unwrap_or(0) as u64;
        }
        add_map(&mut fired, o.get("fired"));
        add_map(&mut probes, o.get("probes"));
        add_map(&mut known, o.get("known"));
        if let Ok(h) = fs::read(out.with_extension("hashes")) {
            for c in h.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if let Some(v) = o.get("violation").and_then(|x| x.obj()) {
            let g = |k: &str| v.get(k).and_then(|x| x.str()).unwrap_or_default().to_string();
            found.push((
                v.get("index").and_then(|x| x.num()).unwrap_or(0) as u64,
                Violation {
                    class: g("class"),
                    key: g("key"),
                    detail: g("detail"),
                },
            ));
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();
    found.sort_by_key(|x| x.0);
    let mut code = 0;
    let mut violations = 0;
    for (_, v) in &found {
        if v.class == "harness" {
            eprintln!("harness error: {}", v.detail);
            broken = true;
        }
    }
    let keys = known_keys(&a.dir, id);
    found.retain(|(_, v)| v.class != "harness" && !keys.contains(&v.key));
    // Listed findings are re-examined by their committed cases.
    let kdir = a.dir.join("known");
    if let Ok(rd) = fs::read_dir(&kdir) {
        let mut fs_: Vec<PathBuf> = rd.filter_map(|x| x.ok()).map(|x| x.path()).collect();
        fs_.sort();
        for f in fs_ {
            let Some(c) = load_case(&f) else { continue };
            if c.prop != id {
                continue;
            }
            match exec_in_child(&c, &tmp) {
                Ok(Some(v)) if keys.contains(&v.key) => {
                    println!("KNOWN-FINDING: property={id} {} ({})", v.key, v.detail);
                }
                Ok(Some(v)) => {
                    found.push((u64::MAX, v));
                }
                _ => {}
            }
        }
    }
    if let Some((idx, v)) = found.first().cloned() {
        let case = case_for(prop, a.seed, idx, a.thorough);
        println!("run {idx} violates the property: {} {}", v.class, v.detail);
        let secs = if v.class == "hang" { 1 } else { 60 };
        let (c, v, tried) = minimise(prop, case, v, &tmp, secs);
        let rdir = a.dir.join("replays");
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}-seed{}-run{idx}.json", a.seed));
        let trace = trace_of(&c, &tmp);
        let text = format!(
            "{{\"verif_seed\":\"{}\",\"run\":\"{idx}\",\"minimiser_runs\":{tried},\n\"violation\":{{\"class\":{},\"key\":{},\"detail\":{}}},\n\"case\":{},\n\"trace\":[{}]}}\n",
            a.seed,
            jstr(&v.class),
            jstr(&v.key),
            jstr(&v.detail),
            c.to_json(),
            trace.iter().map(|l| format!("\n  {}", jstr(l))).collect::<Vec<_>>().join(",")
        );
        if fs::write(&path, text).is_err() {
            broken = true;
        }
        // the minimised file must fail the same way in a fresh process
        let again = load_case(&path).map(|c| exec_in_child(&c, &tmp));
        match again {
            Some(Ok(Some(w))) if w.class == v.class => {
                println!(
                    "minimised to {} operations, {} faults, {} schedule entries: {}",
                    c.ops.len(),
                    c.faults.len(),
                    c.sched.len(),
                    v.detail
                );
                violations = 1;
                code = 1;
                println!("VIOLATION property={id} replay={}", path.display());
            }
            other => {
                eprintln!("violation does not replay: {v:?} / {other:?}");
                broken = true;
            }
        }
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let runs = *tot.get("runs").unwrap_or(&0);
    let mut samples = Vec::new();
    for i in 0..2u64.min(count) {
        let mut c = case_for(prop, a.seed, i, a.thorough);
        c.ops.truncate(12);
        c.faults.truncate(12);
        c.sched.truncate(24);
        samples.push(c.to_json());
    }
    let g = |k: &str| *tot.get(k).unwrap_or(&0);
    let ev = format!(
        "{{\"property\":\"{id}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\"coverage\":{{\"evaluations\":{runs},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"planned_runs\":{count},\"runs_per_hour\":{},\"operations\":{},\"oracle_checks\":{},\"bytes_compared\":{},\"simulated_io_calls\":{},\"events\":{},\"simulated_time_s\":{:.3},\"runs_with_fired_faults\":{},\"faults_fired\":{},\"probes\":{},\"distinct_measure\":\"hash of the complete event log (operations, I/O calls with offsets and sizes, faults fired, scheduling decisions) of a run in which at least one oracle comparison was made\",\"components_real\":[{}],\"components_stubbed\":[{}],\"known_finding_hits\":{},\"workers\":{},\"exploration_s\":{:.2}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{violations}}}\n",
        if a.thorough { "thorough" } else { "quick" },
        a.seed,
        prop.level(),
        distinct.len(),
        jstr(prop.rule()),
        samples.join(","),
        (runs as f64 / explore_s.max(0.001) * 3600.0) as u64,
        g("ops"),
        g("checks"),
        g("bytes"),
        g("ios"),
        g("events"),
        g("vtime_us") as f64 / 1e6,
        g("faulty"),
        map_json(&fired),
        map_json(&probes),
        prop.real().iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
        prop.stubs().iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
        map_json(&known),
        a.workers,
        explore_s,
        prop.assumptions().iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
        wall,
    );
    let evd = a.dir.join("evidence");
    let _ = fs::create_dir_all(&evd);
    if fs::write(evd.join(format!("{id}.json")), ev).is_err() {
        eprintln!("cannot write evidence");
        broken = true;
    }
    let _ = fs::remove_dir_all(&tmp);
    println!(
        "property {id}: {runs} runs, {} distinct, {} checks, faults fired {}, {:.1}s",
        distinct.len(),
        g("checks"),
        map_json(&fired),
        wall
    );
    println!("probes {}", map_json(&probes));
    if code == 0 && broken {
        return 2;
    }
    code
}

pub fn load_case(path: &Path) -> Option<Case> {
    let t = fs::read_to_string(path).ok()?;
    let j = Json::parse(&t)?;
    let o = j.obj()?;
    match o.get("case") {
        Some(c) => Case::from_json(c),
        None => Case::from_json(&j),
    }
}

fn trace_of(c: &Case, tmp: &Path) -> Vec<String> {
    let f = tmp.join("trace.json");
    if fs::write(&f, c.to_json()).is_err() {
        return Vec::new();
    }
    let out = Command::new(exe()).arg("replay").arg(&f).stderr(Stdio::null()).output();
    match out {
        Ok(o) => String::from_utf8_lossy(&o.stdout)
            .lines()
            .take(400)
            .map(|s| s.to_string())
            .collect(),
        Err(_) => Vec::new(),
    }
}

pub fn exec_cmd(prop: &'static dyn Prop, case: &Case, verbose: bool) -> i32 {
    install_panic_hook();
    start_watchdog();
    let (r, e) = exec(prop, case, verbose);
    let so = std::io::stdout();
    let mut so = so.lock();
    if verbose {
        for l in e.log.unwrap_or_default() {
            let _ = writeln!(so, "{l}");
        }
        let _ = writeln!(so, "event log hash {:016x}", e.log_hash);
    }
    match r {
        Ok(()) => {
            let _ = writeln!(so, "RESULT ok");
            0
        }
        Err(v) => {
            let _ = writeln!(
                so,
                "RESULT violation {{\"class\":{},\"key\":{},\"detail\":{}}}",
                jstr(&v.class),
                jstr(&v.key),
                jstr(&v.detail)
            );
            1
        }
    }
}
