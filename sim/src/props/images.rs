//! C07-C13: the virtual disk of a storage image has the bytes the image stores.

use crate::case::Case;
use crate::env;
use crate::images::{self, Image};
use crate::rng::Rng;
use crate::runner::{Prop, RunResult};
use crate::streamops;

pub struct ImageProp {
    pub id: &'static str,
    pub tag: &'static str,
    pub runs: u64,
    pub draw: fn(&mut Rng, &mut Case, bool),
    pub build: fn(&Case) -> Image,
    pub shrink: &'static [(&'static str, i64)],
    pub rule: &'static str,
    pub real: &'static [&'static str],
}

impl Prop for ImageProp {
    fn id(&self) -> &'static str {
        self.id
    }
    fn quick_runs(&self) -> u64 {
        self.runs
    }
    fn gen_case(&self, rng: &mut Rng, _index: u64, thorough: bool) -> Case {
        let mut c = Case::new(self.id, self.tag, rng.next());
        (self.draw)(rng, &mut c, thorough);
        let image = (self.build)(&c);
        let n = rng.range(3, if thorough { 40 } else { 20 });
        let max = *rng.pick(&[2048u64, 16384, 100_000]);
        streamops::gen_ops(rng, &mut c, image.guest.size, &image.hot, n, max, 0);
        streamops::gen_faults(rng, &mut c, false, 40, 40);
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        let image = (self.build)(case);
        image.install("img/");
        env::dump_main(&image.main);
        env::log(|| format!("files {:?}", image.files.iter().map(|f| (&f.0, f.1.size)).collect::<Vec<_>>()), image.files.len() as u64);
        streamops::run_history(case, self.tag, &image.guest, &image.hot, &|| (image.open)("img/"))
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        self.shrink.to_vec()
    }
    fn alloc_limit(&self) -> usize {
        2 << 30
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real(&self) -> Vec<&'static str> {
        self.real.to_vec()
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["file system and operating system streams (simulated disk and resolver with fault injection)"]
    }
}

const RULE: &str = "a case is an image written by an independent builder from a random guest (block and table geometry, sparse and partial blocks, layers, storage order), a history of 3-20 seek/read/exact-read/size operations aimed at structure boundaries, and a fault plan (short reads and read/seek/open/size errors at I/O call k of operation n); after the faults stop every byte is read back; non-trivial: at least one oracle comparison was made";

/// Size with an odd tail now and then.
fn draw_size(rng: &mut Rng, block: u64, max_blocks: u64, unit: u64) -> i64 {
    let n = rng.range(1, max_blocks);
    let s = n * block;
    let s = match rng.below(3) {
        0 => s,
        1 => s - rng.below(block.min(s)),
        _ => s - (rng.below(block / unit + 1) * unit).min(s - unit.min(s)),
    };
    (s.max(unit).div_ceil(unit) * unit) as i64
}

fn guest(case: &Case, rng: &mut Rng, block: u64) -> crate::data::Data {
    images::random_guest(rng, case.p("size").max(1) as u64, block)
}

pub static ALL: [&ImageProp; 8] = [&C07, &C08, &C09, &C10, &C11, &C12, &C13, &C14];

pub static C07: ImageProp = ImageProp {
    id: "C07",
    tag: "sparseimage",
    runs: 12_000,
    draw: |rng, c, _| {
        // big bands: the media and the file go beyond 4 GiB
        let big = rng.chance(1, 10);
        let spb = if big { *rng.pick(&[1u64 << 13, 1 << 16, 1 << 20, 1 << 22]) } else { *rng.pick(&[1u64, 2, 3, 8, 16, 100, 2048]) };
        c.set("spb", spb as i64);
        let max = (1008).min((1 << 20) / (spb * 512)).max(3);
        let max = if big || spb == 2048 && rng.chance(1, 4) { 1008 } else { max };
        let s = draw_size(rng, spb * 512, max, 512);
        c.set("size", s);
    },
    build: |c| {
        let mut rng = Rng::new(c.seed);
        let spb = c.p("spb").max(1) as u64;
        let g = guest(c, &mut rng, spb * 512);
        images::sparseimage::build(&mut rng, &g, spb as u32)
    },
    shrink: &[("size", 512)],
    rule: RULE,
    real: &["keramics-formats sparseimage", "keramics-formats block_tree", "keramics-core DataStream"],
};

pub static C08: ImageProp = ImageProp {
    id: "C08",
    tag: "sparsebundle",
    runs: 12_000,
    draw: |rng, c, _| {
        let band = *rng.pick(&[512u64, 513, 4096, 10_000, 65536, 8 << 20, 8 << 20, 1 << 31, u32::MAX as u64]);
        c.set("band", band as i64);
        let max = if rng.chance(1, 8) { 1 << 22 } else { ((1u64 << 20) / band).clamp(3, 64) };
        let s = draw_size(rng, band, max, 1);
        c.set("size", s);
    },
    build: |c| {
        let mut rng = Rng::new(c.seed);
        let band = c.p("band").max(1) as u64;
        let g = guest(c, &mut rng, band);
        images::sparsebundle::build(&mut rng, &g, band)
    },
    shrink: &[("size", 1)],
    rule: RULE,
    real: &["keramics-formats sparsebundle", "keramics-formats plist", "keramics-core DataStream"],
};

pub static C09: ImageProp = ImageProp {
    id: "C09",
    tag: "vhd",
    runs: 10_000,
    draw: |rng, c, _| {
        let layers = *rng.pick(&[0i64, 1, 1, 2, 2, 3, 4]);
        c.set("layers", layers);
        let block = *rng.pick(&[512u64, 1024, 4096, 8192, 32768, 1 << 19, 2 << 20]);
        c.set("block", block as i64);
        let max = if rng.chance(1, 10) && layers > 0 { (200u64 << 30) / (2 << 20) } else { ((1u64 << 19) / block).clamp(3, 48) };
        let s = draw_size(rng, block, max, 512);
        c.set("size", s);
    },
    build: |c| {
        let mut rng = Rng::new(c.seed);
        let block = c.p("block").max(512) as u64;
        let g = guest(c, &mut rng, block);
        images::vhd::build(&mut rng, &g, &images::vhd::Params { layers: c.p("layers") as u32, block: block as u32 })
    },
    shrink: &[("size", 512), ("layers", 0)],
    rule: RULE,
    real: &["keramics-formats vhd", "keramics-formats block_tree", "keramics-core DataStream"],
};

pub static C10: ImageProp = ImageProp {
    id: "C10",
    tag: "vhdx",
    runs: 4_000,
    draw: |rng, c, _| {
        let mut layers = *rng.pick(&[0i64, 1, 1, 2, 2, 3, 4]);
        let block = *rng.pick(&[1u64, 1, 1, 2, 4, 32, 256]) << 20;
        let sector = *rng.pick(&[512u64, 512, 4096]);
        let chunk = (1 << 23) * sector;
        if layers == 0 && block > 4 << 20 {
            layers = 1;
        }
        c.set("layers", layers);
        c.set("block", block as i64);
        c.set("sector", sector as i64);
        let s = if layers > 0 && rng.chance(1, 4) {
            // several chunks
            (chunk * rng.range(1, 3) + rng.below(64) * block + sector) as i64
        } else {
            draw_size(rng, block, if block > 4 << 20 { 3 } else { 8 }, sector)
        };
        c.set("size", s);
    },
    build: |c| {
        let mut rng = Rng::new(c.seed);
        let block = c.p("block").max(1 << 20) as u64;
        let sector = c.p("sector").max(512) as u64;
        let mut g = guest(c, &mut rng, block);
        // around the boundaries between chunks
        let epc = (1 << 23) * sector / block;
        for k in 1..=g.size / block / epc {
            for b in [k * epc - 1, k * epc, k * epc + 1] {
                if (b + 1) * block <= g.size {
                    images::fill_block(&mut rng, &mut g, b * block, block);
                }
            }
        }
        images::vhdx::build(&mut rng, &g, &images::vhdx::Params { layers: c.p("layers") as u32, block, sector })
    },
    shrink: &[("layers", 0)],
    rule: RULE,
    real: &["keramics-formats vhdx", "keramics-formats block_tree", "keramics-checksums", "keramics-core DataStream"],
};

pub static C11: ImageProp = ImageProp {
    id: "C11",
    tag: "qcow",
    runs: 5_000,
    draw: |rng, c, _| {
        c.set("layers", *rng.pick(&[1i64, 1, 1, 2, 2, 3, 4]));
        let version = rng.range(1, 3);
        c.set("version", version as i64);
        let bits = *rng.pick(&[9u64, 9, 10, 12, 12, 16, 21]);
        let bits = if version == 1 { bits.min(16) } else { bits };
        c.set("bits", bits as i64);
        c.set("l2", if version == 1 { rng.range(2, 10) as i64 } else { bits as i64 - 3 });
        let cs = 1u64 << bits;
        let s = if rng.chance(1, 10) {
            (rng.below(1 << 12) * cs * 64 + rng.below(cs) + 1) as i64
        } else {
            let unit = *rng.pick(&[1, 512]);
            draw_size(rng, cs, ((1u64 << 19) / cs).clamp(3, 200), unit)
        };
        c.set("size", s);
    },
    build: |c| {
        let mut rng = Rng::new(c.seed);
        let bits = c.p("bits").clamp(9, 21) as u32;
        let g = guest(c, &mut rng, 1 << bits);
        let version = c.p("version").clamp(1, 3) as u32;
        let l2 = if version == 1 { c.p("l2").max(1) as u32 } else { bits - 3 };
        images::qcow::build(&mut rng, &g, &images::qcow::Params { layers: c.p("layers").max(1) as u32, version, bits, l2_bits: l2 })
    },
    shrink: &[("size", 512), ("layers", 1)],
    rule: RULE,
    real: &["keramics-formats qcow", "keramics-formats block_tree", "keramics-compression deflate", "keramics-core DataStream"],
};

pub static C12: ImageProp = ImageProp {
    id: "C12",
    tag: "udif",
    runs: 3_000,
    draw: |rng, c, _| {
        c.set("method", rng.below(6) as i64);
        let sectors = *rng.pick(&[1u64, 2, 3, 8, 16, 64, 64, 512, 2048]);
        c.set("sectors", sectors as i64);
        let max = match rng.below(24) {
            // beyond 4 GiB
            0 if sectors >= 64 => 1 << 25,
            1..=3 => 20_000,
            _ => 1200,
        };
        let s = draw_size(rng, sectors * 512, (max / sectors).max(2), 512);
        c.set("size", s);
    },
    build: |c| {
        let mut rng = Rng::new(c.seed);
        let sectors = c.p("sectors").clamp(1, 2048) as u64;
        let g = guest(c, &mut rng, sectors * 512);
        images::udif::build(&mut rng, &g, &images::udif::Params { method: c.p("method") as u32, sectors })
    },
    shrink: &[("size", 512)],
    rule: RULE,
    real: &["keramics-formats udif", "keramics-formats plist", "keramics-formats block_tree", "keramics-compression adc, zlib, bzip2, lzfse, lzvn", "keramics-core DataStream"],
};

pub static C13: ImageProp = ImageProp {
    id: "C13",
    tag: "ewf",
    runs: 3_000,
    draw: |rng, c, _| {
        c.set("kind", rng.below(3) as i64);
        let bps = *rng.pick(&[512u64, 512, 512, 2048, 4096]);
        c.set("bps", bps as i64);
        let spc = *rng.pick(&[1u64, 2, 3, 8, 16, 64, 64, 128, 1024]);
        c.set("spc", spc as i64);
        let block = bps * spc;
        let many = rng.chance(1, 12);
        // more segment files than the first letter of the extension covers
        let most = many && rng.chance(1, 20);
        let (bps, spc) = if most { (512, 1) } else { (bps, spc) };
        c.set("bps", bps as i64);
        c.set("spc", spc as i64);
        let block = bps * spc;
        let chunks = if most { 1600 } else if many { 300 } else { ((1u64 << 20) / block).clamp(3, 60) };
        let s = draw_size(rng, block, chunks.min((4 << 20) / block).max(2), bps);
        let s = if most { s.max(800 * 512) } else { s };
        // media beyond 4 GiB
        let big = rng.chance(1, 100);
        let (spc, s) = if big { ((1 << 20) / bps, ((4u64 << 30) + rng.below(64 << 20) / bps * bps) as i64) } else { (spc, s) };
        c.set("spc", spc as i64);
        c.set("size", s);
        c.set("segment", if big { *rng.pick(&[1000, 3000, 5000]) } else if most { 1 } else if many { rng.range(1, 3) as i64 } else { *rng.pick(&[1, 3, 10, 1000, 1000]) });
        c.set("overflow", rng.chance(1, 8) as i64);
    },
    build: |c| {
        let mut rng = Rng::new(c.seed);
        let bps = c.p("bps").max(512) as u32;
        let spc = c.p("spc").max(1) as u32;
        let kind = [images::ewf::Kind::EnCase, images::ewf::Kind::EnCase1, images::ewf::Kind::Smart][c.p("kind") as usize % 3];
        let g = guest(c, &mut rng, bps as u64 * spc as u64);
        images::ewf::build(
            &mut rng,
            &g,
            &images::ewf::Params {
                kind,
                sectors_per_chunk: spc,
                bytes_per_sector: bps,
                per_segment: c.p("segment").max(1) as u64,
                overflow: c.p("overflow") == 1 && kind == images::ewf::Kind::EnCase,
            },
        )
    },
    shrink: &[("size", 512), ("overflow", 0)],
    rule: RULE,
    real: &["keramics-formats ewf", "keramics-formats block_tree, lru_cache", "keramics-compression zlib", "keramics-checksums adler32", "keramics-core DataStream"],
};

pub static C14: ImageProp = ImageProp {
    id: "C14",
    tag: "partitions",
    runs: 60_000,
    draw: |rng, c, _| {
        let kind = rng.below(3);
        c.set("kind", kind as i64);
        c.set("damage", *rng.pick(&[0i64, 0, 1, 2, 3, 4, 5]));
        let bps = match kind {
            0 => 512,
            1 => *rng.pick(&[512u64, 512, 4096]),
            _ => *rng.pick(&[512u64, 512, 1024, 2048, 4096]),
        };
        c.set("bps", bps as i64);
        let limit = if kind == 1 { (1u64 << 54) / bps } else { 1 << 32 };
        let n = match rng.below(8) {
            0 => rng.range(1 << 20, limit - 1),
            1 => limit - rng.range(1, 9),
            2 => rng.range(64, 200),
            _ => rng.range(200, 20_000),
        };
        c.set("sectors", n as i64);
    },
    build: |c| {
        let mut rng = Rng::new(c.seed);
        let sectors = c.p("sectors").max(64) as u64;
        match c.p("kind") {
            0 => images::partitions::apm(&mut rng, sectors),
            1 => images::partitions::gpt(&mut rng, c.p("bps").max(512) as u64, sectors, c.p("damage") as u64),
            _ => images::partitions::mbr(&mut rng, c.p("bps").max(512) as u64, sectors),
        }
    },
    shrink: &[("sectors", 64), ("damage", 0)],
    rule: RULE,
    real: &["keramics-formats apm, gpt, mbr", "keramics-checksums crc32", "keramics-core DataStream"],
};
