//! C03: digests do not depend on how the data is delivered.

use std::fs::File;
use std::io::{BufReader, Read};
use std::sync::{Arc, Mutex};

use keramics_hashes::{
    DigestHashContext, Md5Context, Sha1Context, Sha224Context, Sha256Context, Sha512Context,
};
use keramics_toolscore::enums::DigestHashType;
use keramics_toolscore::hasher::DigestHasher;

use crate::case::{Case, Op};
use crate::data::Data;
use crate::env;
use crate::refhash;
use crate::rng::{Rng, mix};
use crate::runner::{Prop, RunResult, Violation};
use crate::{sched, stream, streamops};

pub struct C03Hashes;
pub static C03: C03Hashes = C03Hashes;

pub const ALGOS: [&str; 5] = ["md5", "sha1", "sha224", "sha256", "sha512"];

const LONG: [&str; 5] = [
    "e7b96e31656d524cc0e818567ab17c82",
    "1a6d4422ee81d88ef22f2706c4ad7ecd5283b6ce",
    "91bb173954b6687723f8b5cfe0a05176f8ee1e7a6ad98009a89de542",
    "8891fb7214eef30c4a3c659d767df3214ecbf1345bf95d20341dafbb57ee8baa",
    "884697482c0c521d112dbacc1038ed11a08052c61a415f7f7b5b32628a56cdd3118ae9024cedef78a48b73cd814da211dac9cb8d28619934b36647d7f176ace5",
];

fn new_context(algo: usize) -> Box<dyn DigestHashContext + Send> {
    match algo {
        0 => Box::new(Md5Context::new()),
        1 => Box::new(Sha1Context::new()),
        2 => Box::new(Sha224Context::new()),
        3 => Box::new(Sha256Context::new()),
        _ => Box::new(Sha512Context::new()),
    }
}

pub fn hash_type(algo: usize) -> DigestHashType {
    match algo {
        0 => DigestHashType::Md5,
        1 => DigestHashType::Sha1,
        2 => DigestHashType::Sha224,
        3 => DigestHashType::Sha256,
        _ => DigestHashType::Sha512,
    }
}

/// The bytes of one update: a function of the case's seed and the operation.
pub fn chunk(seed: u64, id: u32, len: usize) -> Vec<u8> {
    let s = mix(&[seed, id as u64]);
    match s % 8 {
        0 => vec![0u8; len],
        1 => vec![0xffu8; len],
        2 => vec![0x80u8; len],
        3 => (0..len).map(|i| (i as u64 + s) as u8).collect(),
        _ => Rng::new(s).bytes(len),
    }
}

/// An update size: block boundaries and their neighbours, and everything in between.
pub fn pick_len(rng: &mut Rng, max: u64) -> u64 {
    let n = match rng.below(10) {
        0 => 0,
        1 => rng.range(1, 3),
        2 => *rng.pick(&[55u64, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129]),
        3 | 4 => {
            let b = *rng.pick(&[64u64, 128]);
            (b * rng.range(1, 20) + rng.below(4)).saturating_sub(rng.below(4))
        }
        5 => rng.range(1, 64),
        6 => rng.range(1, 300),
        7 => rng.range(1, 5000),
        _ => rng.skewed(max),
    };
    n.min(max)
}

struct Ctx {
    algo: usize,
    real: Box<dyn DigestHashContext + Send>,
    data: Vec<u8>,
}

impl Ctx {
    fn apply(&mut self, seed: u64, op: &Op) -> RunResult {
        match op.kind.as_str() {
            "update" => {
                let v = chunk(seed, op.id, op.a[1].max(0) as usize);
                self.real.update(&v);
                self.data.extend_from_slice(&v);
            }
            "finalize" => {
                let got = self.real.finalize();
                let want = refhash::digest(ALGOS[self.algo], &self.data);
                env::checked(self.data.len() as u64);
                if got != want {
                    return Err(Violation::new(
                        "wrong-digest",
                        &format!("{}:wrong-digest", ALGOS[self.algo]),
                        format!(
                            "op {} {:?}: {} of {} bytes is {}, expected {}",
                            op.id,
                            op.a,
                            ALGOS[self.algo],
                            self.data.len(),
                            refhash::hex(&got),
                            refhash::hex(&want)
                        ),
                    ));
                }
                self.data.clear();
            }
            "new" => {
                self.real = new_context(self.algo);
                self.data.clear();
            }
            _ => {}
        }
        Ok(())
    }
}

fn run_contexts(case: &Case) -> RunResult {
    let n = case.p("contexts").max(1) as usize;
    let mk = |i: usize| {
        let algo = case.p(&format!("algo{i}")).clamp(0, 4) as usize;
        Ctx {
            algo,
            real: new_context(algo),
            data: Vec::new(),
        }
    };
    let last = |k: usize| Op {
        id: 900_000 + k as u32,
        actor: 0,
        kind: "finalize".into(),
        a: vec![k as i64],
    };
    if case.p("threads") <= 1 {
        let mut ctx: Vec<Ctx> = (0..n).map(mk).collect();
        for op in &case.ops {
            env::op_begin(op.id);
            env::log(|| format!("  {} {:?}", op.kind, op.a), crate::rng::hash_i64(&op.a));
            let k = (op.a[0].max(0) as usize) % n;
            ctx[k].apply(case.seed, op)?;
        }
        // every context is finished, and finished again: it must start afresh
        for round in 0..2u32 {
            for (k, c) in ctx.iter_mut().enumerate() {
                let mut op = last(k);
                op.id += round * 1000;
                env::op_begin(op.id);
                c.apply(case.seed, &op)?;
            }
        }
        return Ok(());
    }
    // one actor per context
    let bad: Arc<Mutex<Option<Violation>>> = Arc::new(Mutex::new(None));
    let mut actors: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for i in 0..n {
        let mut c = mk(i);
        let mut ops: Vec<Op> =
            case.ops.iter().filter(|o| (o.a[0].max(0) as usize) % n == i).cloned().collect();
        ops.push(last(i));
        let seed = case.seed;
        let bad = bad.clone();
        actors.push(Box::new(move || {
            for op in &ops {
                sched::yield_point();
                env::op_begin(op.id);
                if let Err(v) = c.apply(seed, op) {
                    let mut g = bad.lock().unwrap();
                    if g.is_none() {
                        *g = Some(v);
                    }
                    return;
                }
            }
        }));
    }
    let st = sched::run_actors(&case.sched, actors);
    env::log(|| format!("schedule: {} points, {} switches", st.points, st.switches), st.hash);
    env::probe("threads");
    let g = bad.lock().unwrap().take();
    match g {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

/// Hashing what a reader delivers, under short reads, interruptions and errors.
fn run_stream(case: &Case) -> RunResult {
    let algo = case.p("algo0").clamp(0, 4) as usize;
    let data = chunk(case.seed, 7, case.p("data").max(0) as usize);
    let want = refhash::hex(&refhash::digest(ALGOS[algo], &data));
    let f = env::add_file("image.raw", Data::from_vec(&data));
    let bufsize = case.p("bufsize").max(1) as usize;
    let via = case.p("via");
    let attempt = |id: u32| -> Result<String, String> {
        env::op_begin(id);
        match via {
            0 => {
                let mut file = File::open("/simfs/image.raw").map_err(|e| e.to_string())?;
                DigestHasher::new(&hash_type(algo))
                    .calculate_hash_from_reader(&mut file)
                    .map_err(|e| e.to_string())
            }
            1 => {
                let file = File::open("/simfs/image.raw").map_err(|e| e.to_string())?;
                let mut r = BufReader::with_capacity(bufsize, file);
                DigestHasher::new(&hash_type(algo))
                    .calculate_hash_from_reader(&mut r as &mut dyn Read)
                    .map_err(|e| e.to_string())
            }
            _ => {
                let s = if via == 2 {
                    stream::open(f)
                } else {
                    keramics_core::open_os_data_stream(&std::path::PathBuf::from("/simfs/image.raw"))
                        .map_err(|e| e.to_string())?
                };
                let mut c = new_context(algo);
                let mut buf = vec![0u8; bufsize];
                loop {
                    let n = streamops::lock(&s, |s| s.read(&mut buf))?.map_err(|e| e.to_string())?;
                    if n == 0 {
                        break;
                    }
                    c.update(&buf[..n]);
                }
                Ok(refhash::hex(&c.finalize()))
            }
        }
    };
    let check = |r: Result<String, String>, id: u32| -> Result<bool, Violation> {
        let errors = env::op_errors(id);
        env::checked(data.len() as u64);
        match r {
            Ok(h) if errors > 0 => Err(Violation::new(
                "digest-after-error",
                "digest-after-error",
                format!("via {via}: {} read errors, but digest {h} was reported", errors),
            )),
            Ok(h) if h != want => Err(Violation::new(
                "wrong-digest",
                &format!("stream:{}:wrong-digest", ALGOS[algo]),
                format!("via {via}: {} of {} bytes is {h}, expected {want}", ALGOS[algo], data.len()),
            )),
            Ok(_) => Ok(true),
            Err(e) if errors == 0 => Err(Violation::new(
                "unexpected-error",
                &format!("stream-via{via}:unexpected-error"),
                format!("via {via}: {e}"),
            )),
            Err(_) => Ok(false),
        }
    };
    if !check(attempt(1), 1)? {
        env::probe("failed-by-fault");
    }
    // healed
    env::FAULTS_ON.store(false, std::sync::atomic::Ordering::SeqCst);
    check(attempt(2), 2)?;
    Ok(())
}

fn run_long(case: &Case) -> RunResult {
    let algo = case.p("algo0").clamp(0, 4) as usize;
    let block: Vec<u8> = (0..1usize << 20).map(|i| ((i * 31) >> 3) as u8).collect();
    let mut c = new_context(algo);
    let mut rng = Rng::new(case.seed);
    let whole = rng.chance(1, 2);
    for _ in 0..600 {
        if whole {
            c.update(&block);
        } else {
            let k = rng.below(block.len() as u64) as usize;
            c.update(&block[..k]);
            c.update(&block[k..]);
        }
    }
    c.update(b"abc");
    let got = refhash::hex(&c.finalize());
    env::checked(600 << 20);
    env::log(|| format!("long {}", ALGOS[algo]), algo as u64);
    if got != LONG[algo] {
        return Err(Violation::new(
            "wrong-digest",
            &format!("{}:long", ALGOS[algo]),
            format!("{} of 629145603 bytes is {got}, expected {}", ALGOS[algo], LONG[algo]),
        ));
    }
    let again = refhash::hex(&c.finalize());
    if again != refhash::hex(&refhash::digest(ALGOS[algo], b"")) {
        return Err(Violation::new(
            "wrong-digest",
            &format!("{}:reuse", ALGOS[algo]),
            format!("{}: a finished context does not start afresh", ALGOS[algo]),
        ));
    }
    Ok(())
}

impl Prop for C03Hashes {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn quick_runs(&self) -> u64 {
        60_000
    }
    fn gen_case(&self, rng: &mut Rng, index: u64, thorough: bool) -> Case {
        if index < 5 {
            let mut c = Case::new("C03", "long", rng.next());
            c.set("algo0", index as i64);
            return c;
        }
        if rng.chance(1, 4) {
            let mut c = Case::new("C03", "stream", rng.next());
            c.set("algo0", rng.below(5) as i64);
            let max = if thorough { 1 << 20 } else { 300_000 };
            let n = if rng.chance(1, 6) {
                65536 * rng.range(1, 4) + rng.below(3) - 1
            } else {
                pick_len(rng, max)
            };
            c.set("data", n as i64);
            c.set("via", rng.below(4) as i64);
            c.set("bufsize", *rng.pick(&[1i64, 7, 64, 127, 512, 4096, 65536]));
            if c.p("bufsize") < 64 {
                c.set("data", c.p("data").min(3000));
            }
            c.op("hash", &[]);
            streamops::gen_faults(rng, &mut c, true, 2, 24);
            return c;
        }
        let mut c = Case::new("C03", "contexts", rng.next());
        let n = rng.range(1, 4);
        c.set("contexts", n as i64);
        let same = rng.chance(1, 3);
        let a = rng.below(5) as i64;
        for i in 0..n {
            let x = if same { a } else { rng.below(5) as i64 };
            c.set(&format!("algo{i}"), x);
        }
        let threads = n > 1 && rng.chance(1, 6);
        c.set("threads", if threads { n as i64 } else { 1 });
        let nops = rng.range(2, 24);
        let max = *rng.pick(&[200u64, 1000, 20_000, if thorough { 1 << 20 } else { 100_000 }]);
        for _ in 0..nops {
            let k = rng.below(n) as i64;
            match rng.below(8) {
                0 => c.op("finalize", &[k]),
                1 if rng.chance(1, 4) => c.op("new", &[k]),
                _ => {
                    let l = pick_len(rng, max) as i64;
                    c.op("update", &[k, l])
                }
            };
        }
        if threads {
            c.sched = (0..nops * 3).map(|_| rng.below(n + 1) as u32).collect();
        }
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        match case.scenario.as_str() {
            "long" => run_long(case),
            "stream" => run_stream(case),
            _ => run_contexts(case),
        }
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        vec![("data", 0), ("threads", 1), ("contexts", 1)]
    }
    fn rule(&self) -> &'static str {
        "a case is a history of 2-24 update/finalize/new operations over 1-4 interleaved digest contexts (on one thread or one scheduled thread each), or one hashing of a simulated file through a reader or data stream under a fault plan (short reads, EINTR, EIO), or a 600 MiB input; digests are compared with an independent implementation written from RFC 1321 and FIPS 180-4 (for the 600 MiB input with digests computed by Python's hashlib); distinct: event log hash"
    }
    fn real(&self) -> Vec<&'static str> {
        vec![
            "keramics-hashes (all five contexts)",
            "keramics-tools DigestHasher",
            "keramics-core OS stream",
            "std::fs::File, std::io::BufReader",
        ]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["kernel file system (simulated disk)", "thread scheduler (seeded, one thread at a time)"]
    }
}
