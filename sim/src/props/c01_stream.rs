//! C01: a data stream behaves as the byte sequence it stands for.

use std::path::PathBuf;
use std::sync::{Arc, RwLock};

use keramics_core::{DataStreamReference, ErrorTrace, FakeDataStream, open_fake_data_stream, open_os_data_stream};

use crate::case::Case;
use crate::data::Data;
use crate::env;
use crate::rng::Rng;
use crate::runner::{Prop, RunResult};
use crate::streamops;
use crate::stream;

pub struct C01Stream;
pub static C01: C01Stream = C01Stream;

fn content(case: &Case) -> Data {
    let mut rng = Rng::new(case.seed);
    let mut d = Data::new(0);
    let n = case.p("data").max(0) as usize;
    d.write(0, &rng.bytes(n));
    let extra = case.p("extra").max(0) as u64;
    d.size = n as u64 + extra;
    d
}

impl Prop for C01Stream {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn quick_runs(&self) -> u64 {
        60_000
    }
    fn gen_case(&self, rng: &mut Rng, index: u64, thorough: bool) -> Case {
        let kind = *rng.pick(&["os", "os", "sim", "fake", "fakesize"]);
        let mut c = Case::new("C01", kind, rng.next());
        let max = if thorough { 1 << 17 } else { 1 << 15 };
        c.set("data", rng.skewed(max) as i64);
        if kind == "fakesize" || kind == "sim" {
            // a stream larger than its data reads as zero there; also beyond 4 GiB
            let e = if rng.chance(1, 8) { rng.skewed(1 << 42) } else { rng.skewed(9000) };
            c.set("extra", e as i64);
        }
        let size = (c.p("data") + c.p("extra")) as u64;
        let n = rng.range(3, 24);
        let hot = [c.p("data") as u64];
        streamops::gen_ops(rng, &mut c, size, &hot, n, 8192, 0);
        streamops::gen_faults(rng, &mut c, kind == "os", 4, 24);
        let _ = index;
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        let guest = content(case);
        let hot = [case.p("data") as u64];
        match case.scenario.as_str() {
            "os" => {
                env::add_file("image.raw", guest.clone());
                streamops::run_history(case, "os-stream", &guest, &hot, &|| {
                    open_os_data_stream(&PathBuf::from("/simfs/image.raw"))
                })
            }
            "sim" => {
                // the trait's provided methods over a stream with short reads and errors
                let f = env::add_file("image.raw", guest.clone());
                streamops::run_history(case, "stream-default-methods", &guest, &hot, &|| {
                    Ok(stream::open(f))
                })
            }
            "fake" => {
                let v = guest.to_vec();
                streamops::run_history(case, "fake-stream", &guest, &hot, &|| {
                    Ok(open_fake_data_stream(&v))
                })
            }
            _ => {
                let v = guest.slice(0, case.p("data") as u64);
                let size = guest.size;
                streamops::run_history(case, "sized-fake-stream", &guest, &hot, &move || {
                    let s: DataStreamReference = Arc::new(RwLock::new(FakeDataStream::new(&v, size)));
                    Ok::<_, ErrorTrace>(s)
                })
            }
        }
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        vec![("data", 0), ("extra", 0)]
    }
    fn rule(&self) -> &'static str {
        "a case is a stream kind (OS file over intercepted system calls, in-memory stream, sized in-memory stream, the trait's provided read_exact/read_at over a simulated stream), a content, a history of 3-24 seek/read/exact-read/size operations and a fault plan (short reads, EINTR, EIO placed at I/O call k of operation n); non-trivial: at least one oracle comparison was made"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["keramics-core DataStream provided methods", "keramics-core OS stream", "keramics-core fake stream", "std::fs::File"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["kernel file system (open/read/lseek/statx answered by the simulated disk)"]
    }
}
