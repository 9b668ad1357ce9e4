//! C04: checksums do not depend on how the data is delivered.

use std::sync::{Arc, Mutex};

use keramics_checksums::{Adler32Context, Crc32Context, ReversedCrc32Context};

use crate::case::{Case, Op};
use crate::env;
use crate::props::c03_hashes::{chunk, pick_len};
use crate::refhash;
use crate::rng::{Rng, hash_i64};
use crate::runner::{Prop, RunResult, Violation};
use crate::sched;

pub struct C04Checksums;
pub static C04: C04Checksums = C04Checksums;

enum Real {
    Adler(Adler32Context),
    Crc(Crc32Context),
    Rev(ReversedCrc32Context),
}

struct Ctx {
    kind: i64,
    poly: u32,
    initial: u32,
    real: Real,
    data: Vec<u8>,
}

impl Ctx {
    fn new(kind: i64, poly: u32, initial: u32) -> Self {
        let initial = if kind == 0 {
            // both halves of an Adler-32 value are below 65521
            ((initial >> 16) % 65521) << 16 | ((initial & 0xffff) % 65521)
        } else {
            initial
        };
        Ctx {
            kind,
            poly,
            initial,
            real: Self::make(kind, poly, initial),
            data: Vec::new(),
        }
    }
    fn make(kind: i64, poly: u32, initial: u32) -> Real {
        match kind {
            0 => Real::Adler(Adler32Context::new(initial)),
            1 => Real::Crc(Crc32Context::new(poly, initial)),
            _ => Real::Rev(ReversedCrc32Context::new(poly, initial)),
        }
    }
    fn name(&self) -> &'static str {
        match self.kind {
            0 => "adler32",
            1 => "crc32",
            _ => "reversed-crc32",
        }
    }
    fn apply(&mut self, seed: u64, op: &Op) -> RunResult {
        match op.kind.as_str() {
            "update" => {
                let v = chunk(seed, op.id, op.a[1].max(0) as usize);
                match &mut self.real {
                    Real::Adler(c) => c.update(&v),
                    Real::Crc(c) => c.update(&v),
                    Real::Rev(c) => c.update(&v),
                }
                self.data.extend_from_slice(&v);
            }
            "finalize" => {
                let got = match &mut self.real {
                    Real::Adler(c) => c.finalize(),
                    Real::Crc(c) => c.finalize(),
                    Real::Rev(c) => c.finalize(),
                };
                let want = match self.kind {
                    0 => refhash::adler32(self.initial, &self.data),
                    1 => refhash::crc32_forward(self.poly, self.initial, &self.data),
                    _ => refhash::crc32_reversed(self.poly, self.initial, &self.data),
                };
                env::checked(self.data.len() as u64);
                if got != want {
                    return Err(Violation::new(
                        "wrong-checksum",
                        &format!("{}:wrong-checksum", self.name()),
                        format!(
                            "op {}: {} (poly {:08x}, initial {:08x}) of {} bytes is {got:08x}, expected {want:08x}",
                            op.id,
                            self.name(),
                            self.poly,
                            self.initial,
                            self.data.len()
                        ),
                    ));
                }
                self.data.clear();
            }
            "new" => {
                self.real = Self::make(self.kind, self.poly, self.initial);
                self.data.clear();
            }
            _ => {}
        }
        Ok(())
    }
}

impl Prop for C04Checksums {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn quick_runs(&self) -> u64 {
        60_000
    }
    fn gen_case(&self, rng: &mut Rng, _index: u64, thorough: bool) -> Case {
        let mut c = Case::new("C04", "contexts", rng.next());
        let n = rng.range(1, 4);
        c.set("contexts", n as i64);
        for i in 0..n {
            c.set(&format!("kind{i}"), rng.below(3) as i64);
            let poly = if rng.chance(1, 2) {
                *rng.pick(&[0xedb8_8320u32, 0x82f6_3b78, 0x04c1_1db7, 0x1edc_6f41])
            } else {
                rng.next() as u32
            };
            c.set(&format!("poly{i}"), poly as i64);
            let init = if rng.chance(1, 2) {
                *rng.pick(&[0u32, 1, 0xffff_ffff, 0xffff, 0xfff0_fff0, 0xffff_0000])
            } else {
                rng.next() as u32
            };
            c.set(&format!("init{i}"), init as i64);
        }
        let threads = n > 1 && rng.chance(1, 6);
        c.set("threads", if threads { n as i64 } else { 1 });
        let nops = rng.range(2, 24);
        let max = *rng.pick(&[200u64, 1000, 20_000, if thorough { 1 << 20 } else { 100_000 }]);
        for _ in 0..nops {
            let k = rng.below(n) as i64;
            match rng.below(8) {
                0 => c.op("finalize", &[k]),
                1 if rng.chance(1, 4) => c.op("new", &[k]),
                _ => {
                    let l = match rng.below(5) {
                        // block sizes used by Adler-32 implementations and their neighbours
                        0 => (*rng.pick(&[16u64, 32, 360, 361, 3854, 3855, 3856, 5536, 5552, 5553, 5568]) * rng.range(1, 3)
                            + rng.below(2)).saturating_sub(rng.below(2)).min(max),
                        _ => pick_len(rng, max),
                    };
                    c.op("update", &[k, l as i64])
                }
            };
        }
        if threads {
            c.sched = (0..nops * 3).map(|_| rng.below(n + 1) as u32).collect();
        }
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        let n = case.p("contexts").max(1) as usize;
        let mk = |i: usize| {
            Ctx::new(
                case.p(&format!("kind{i}")),
                case.p(&format!("poly{i}")) as u32,
                case.p(&format!("init{i}")) as u32,
            )
        };
        let last = |k: usize, r: u32| Op {
            id: 900_000 + k as u32 + r * 1000,
            actor: 0,
            kind: "finalize".into(),
            a: vec![k as i64],
        };
        if case.p("threads") <= 1 {
            let mut ctx: Vec<Ctx> = (0..n).map(mk).collect();
            for op in &case.ops {
                env::op_begin(op.id);
                env::log(|| format!("  {} {:?}", op.kind, op.a), hash_i64(&op.a));
                let k = (op.a[0].max(0) as usize) % n;
                ctx[k].apply(case.seed, op)?;
            }
            for r in 0..2 {
                for (k, c) in ctx.iter_mut().enumerate() {
                    c.apply(case.seed, &last(k, r))?;
                }
            }
            return Ok(());
        }
        let bad: Arc<Mutex<Option<Violation>>> = Arc::new(Mutex::new(None));
        let mut actors: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for i in 0..n {
            let mut ops: Vec<Op> =
                case.ops.iter().filter(|o| (o.a[0].max(0) as usize) % n == i).cloned().collect();
            ops.push(last(i, 0));
            let (kind, poly, init) = (
                case.p(&format!("kind{i}")),
                case.p(&format!("poly{i}")) as u32,
                case.p(&format!("init{i}")) as u32,
            );
            let seed = case.seed;
            let bad = bad.clone();
            actors.push(Box::new(move || {
                let mut c = Ctx::new(kind, poly, init);
                for op in &ops {
                    sched::yield_point();
                    env::op_begin(op.id);
                    if let Err(v) = c.apply(seed, op) {
                        let mut g = bad.lock().unwrap();
                        if g.is_none() {
                            *g = Some(v);
                        }
                        return;
                    }
                }
            }));
        }
        let st = sched::run_actors(&case.sched, actors);
        env::log(|| format!("schedule: {} points, {} switches", st.points, st.switches), st.hash);
        env::probe("threads");
        let g = bad.lock().unwrap().take();
        match g {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        vec![("threads", 1), ("contexts", 1)]
    }
    fn rule(&self) -> &'static str {
        "a case is a history of 2-24 update/finalize/new operations over 1-4 interleaved checksum contexts (Adler-32, CRC-32, reversed CRC-32 with standard or random polynomials and initial values) on one thread or one scheduled thread each; every value is compared with a bitwise (CRC) or modular (Adler) definition; distinct: event log hash"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["keramics-checksums"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["thread scheduler (seeded, one thread at a time)"]
    }
}
