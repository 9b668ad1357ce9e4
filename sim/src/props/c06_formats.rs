//! C06: format detection sees every signature in the data.

use std::collections::BTreeSet;

use keramics_core::ErrorTrace;
use keramics_formats::{FormatIdentifier, FormatScanner};

use crate::case::Case;
use crate::data::Data;
use crate::env;
use crate::rng::{Rng, hash_i64, hash_str};
use crate::runner::{Prop, RunResult, Violation};
use crate::{stream, streamops};

pub struct C06Formats;
pub static C06: C06Formats = C06Formats;

struct Sig {
    format: &'static str,
    /// Relative to the end of the data.
    end: bool,
    offset: u64,
    pattern: &'static [u8],
}

const fn start(format: &'static str, offset: u64, pattern: &'static [u8]) -> Sig {
    Sig { format, end: false, offset, pattern }
}

const FORMATS: [&str; 12] =
    ["apm", "ext", "ewf", "fat", "gpt", "mbr", "ntfs", "qcow", "sparseimage", "udif", "vhd", "vhdx"];

/// From the format documentation.
static SIGS: [Sig; 23] = [
    start("apm", 512 + 48, b"Apple_partition_map\0\0\0\0\0\0\0\0\0\0\0\0\0"),
    start("ext", 1024 + 56, b"\x53\xef"),
    start("ewf", 0, b"EVF\x09\x0d\x0a\xff\x00"),
    start("fat", 54, b"FAT12   "),
    start("fat", 54, b"FAT16   "),
    start("fat", 82, b"FAT32   "),
    start("gpt", 512, b"EFI PART"),
    start("gpt", 1024, b"EFI PART"),
    start("gpt", 2048, b"EFI PART"),
    start("gpt", 4096, b"EFI PART"),
    start("mbr", 512 - 2, b"\x55\xaa"),
    start("mbr", 1024 - 2, b"\x55\xaa"),
    start("mbr", 2048 - 2, b"\x55\xaa"),
    start("mbr", 4096 - 2, b"\x55\xaa"),
    start("ntfs", 3, b"NTFS    "),
    start("qcow", 0, b"QFI\xfb\x00\x00\x00\x01"),
    start("qcow", 0, b"QFI\xfb\x00\x00\x00\x02"),
    start("qcow", 0, b"QFI\xfb\x00\x00\x00\x03"),
    start("sparseimage", 0, b"sprs"),
    start("vhdx", 0, b"vhdxfile"),
    Sig { format: "udif", end: true, offset: 512, pattern: b"koly" },
    Sig { format: "vhd", end: true, offset: 512, pattern: b"conectix" },
    // not a signature: looks like the start of one
    start("", 0, b"conectix"),
];

impl Sig {
    fn place(&self, size: u64) -> Option<u64> {
        let o = if self.end { size.checked_sub(self.offset)? } else { self.offset };
        (o + self.pattern.len() as u64 <= size).then_some(o)
    }
    fn present(&self, data: &Data) -> bool {
        match self.place(data.size) {
            Some(o) => data.slice(o, self.pattern.len() as u64) == self.pattern,
            None => false,
        }
    }
}

fn name(f: &FormatIdentifier) -> &'static str {
    match f {
        FormatIdentifier::Apm => "apm",
        FormatIdentifier::Ext => "ext",
        FormatIdentifier::Ewf => "ewf",
        FormatIdentifier::Fat => "fat",
        FormatIdentifier::Gpt => "gpt",
        FormatIdentifier::Mbr => "mbr",
        FormatIdentifier::Ntfs => "ntfs",
        FormatIdentifier::Qcow => "qcow",
        FormatIdentifier::SparseImage => "sparseimage",
        FormatIdentifier::Udif => "udif",
        FormatIdentifier::Vhd => "vhd",
        FormatIdentifier::Vhdx => "vhdx",
        _ => "unknown",
    }
}

fn content(case: &Case) -> Data {
    let size = case.p("size").max(0) as u64;
    let mut rng = Rng::new(case.seed);
    let mut d = Data::new(size);
    if case.p("fill") == 1 {
        let n = size.min(5000) as usize;
        d.write(0, &rng.bytes(n));
        let n = size.min(1200);
        d.write(size - n, &rng.bytes(n as usize));
    }
    for op in &case.ops {
        if op.kind != "plant" {
            continue;
        }
        let s = &SIGS[op.a[0] as usize % SIGS.len()];
        // shifted, cut off or damaged plants are not signatures
        let o = if s.end { size as i64 - s.offset as i64 } else { s.offset as i64 } + op.a[2];
        let mut p = s.pattern.to_vec();
        if op.a[1] > 0 {
            let k = (op.a[1] as usize - 1) % p.len();
            p[k] = p[k].wrapping_add(1 + (op.a[1] as u8 & 0x1f));
        }
        for (i, b) in p.iter().enumerate() {
            let at = o + i as i64;
            if at >= 0 && (at as u64) < size {
                d.write(at as u64, &[*b]);
            }
        }
    }
    d
}

fn scanner(groups: &[usize]) -> Result<FormatScanner, Violation> {
    let mut s = FormatScanner::new();
    for g in groups {
        match FORMATS[*g] {
            "apm" => s.add_apm_signatures(),
            "ext" => s.add_ext_signatures(),
            "ewf" => s.add_ewf_signatures(),
            "fat" => s.add_fat_signatures(),
            "gpt" => s.add_gpt_signatures(),
            "mbr" => s.add_mbr_signatures(),
            "ntfs" => s.add_ntfs_signatures(),
            "qcow" => s.add_qcow_signatures(),
            "sparseimage" => s.add_sparseimage_signatures(),
            "udif" => s.add_udif_signatures(),
            "vhd" => s.add_vhd_signatures(),
            _ => s.add_vhdx_signatures(),
        }
    }
    match s.build() {
        Ok(_) => Ok(s),
        Err(e) => Err(Violation::new("build-error", "formats:build-error", format!("the format scanner cannot be built: {e}"))),
    }
}

impl C06Formats {
    fn judge(
        &self,
        groups: &[usize],
        data: &Data,
        r: &Result<BTreeSet<&'static str>, ErrorTrace>,
        errors: u32,
    ) -> RunResult {
        let bad = |key: &str, d: String| Err(Violation::new(key, &format!("formats:{key}"), d));
        let enabled: Vec<&Sig> =
            SIGS.iter().filter(|s| groups.iter().any(|g| FORMATS[*g] == s.format)).collect();
        let present = |end: bool| -> Vec<&'static str> {
            enabled.iter().filter(|s| s.end == end && s.present(data)).map(|s| s.format).collect()
        };
        env::checked(1);
        match r {
            Err(e) => {
                if errors == 0 {
                    return bad("scan-failed", format!("scan fails although no read failed: {}", e.to_string().lines().next().unwrap_or("")));
                }
                Ok(())
            }
            Ok(set) => {
                if errors > 0 {
                    return bad("error-swallowed", format!("a failed read is not reported, the scan gives {set:?}"));
                }
                let (s, e) = (present(false), present(true));
                for f in set {
                    if !s.contains(f) && !e.contains(f) {
                        return bad("false-format", format!("{f} is reported but its signature is not in the data of {} bytes", data.size));
                    }
                }
                for (what, list) in [("start", s), ("end", e)] {
                    if !list.is_empty() && !list.iter().any(|f| set.contains(f)) {
                        return bad("missed-format", format!("of the formats with a signature at the {what} of the data of {} bytes, {list:?}, none is reported: {set:?}", data.size));
                    }
                    if !list.is_empty() {
                        env::probe(&format!("present-at-{what}"));
                    }
                }
                Ok(())
            }
        }
    }
}

impl Prop for C06Formats {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn quick_runs(&self) -> u64 {
        22_000
    }
    fn gen_case(&self, rng: &mut Rng, _index: u64, thorough: bool) -> Case {
        let mut c = Case::new("C06", "formats", rng.next());
        let mut ids: Vec<i64> = (0..FORMATS.len() as i64).collect();
        rng.shuffle(&mut ids);
        let n = match rng.below(4) {
            0 => FORMATS.len(),
            1 => 1,
            _ => rng.range(1, FORMATS.len() as u64) as usize,
        };
        for g in &ids[..n] {
            c.op("add", &[*g]);
        }
        let target = rng.below(SIGS.len() as u64);
        let edge = SIGS[target as usize].offset as i64 + SIGS[target as usize].pattern.len() as i64;
        let size = match rng.below(8) {
            0 => rng.range(0, 12) as i64,
            1 => edge + rng.irange(-3, 3),
            2 => *rng.pick(&[512i64, 592, 1024, 1082, 2048, 4096, 4104, 8192]) + rng.irange(-9, 9),
            3 => rng.range(0, 1100) as i64,
            4 => rng.range(0, 10_000) as i64,
            5 => 512 * rng.range(1, 20) as i64,
            6 => rng.range(10_000, 1 << 20) as i64,
            _ => rng.range(1 << 31, 1 << 44) as i64,
        };
        c.set("size", size.max(0));
        c.set("fill", rng.chance(1, 2) as i64);
        let plants = *rng.pick(&[0u64, 1, 1, 1, 2, 2, 3, 6]);
        for k in 0..plants {
            let s = if k == 0 && rng.chance(2, 3) { target } else { rng.below(SIGS.len() as u64) };
            let damage = if rng.chance(1, 5) { rng.range(1, 40) as i64 } else { 0 };
            let shift = if rng.chance(1, 8) { *rng.pick(&[-512i64, -2, -1, 1, 2, 512]) } else { 0 };
            c.op("plant", &[s as i64, damage, shift]);
        }
        for _ in 0..rng.range(1, if thorough { 8 } else { 4 }) {
            c.op("scan", &[rng.below(size.max(0) as u64 + 10) as i64]);
        }
        streamops::gen_faults(rng, &mut c, false, 4, 8);
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        let mut groups: Vec<usize> = Vec::new();
        for op in &case.ops {
            env::log(|| format!("  {} {:?}", op.kind, op.a), hash_i64(&op.a) ^ hash_str(&op.kind));
            if op.kind == "add" {
                let g = op.a[0] as usize % FORMATS.len();
                if !groups.contains(&g) {
                    groups.push(g);
                }
            }
        }
        let data = content(case);
        let file = env::add_file("data", data.clone());
        let ds = stream::open(file);
        let s = scanner(&groups)?;
        let mut seen: Option<BTreeSet<&'static str>> = None;
        for op in case.ops.iter().filter(|o| o.kind == "scan") {
            for again in [false, true] {
                let id = op.id + if again { 500_000 } else { 0 };
                env::op_begin(id);
                // the position another user of the stream left behind
                let _ = streamops::lock(&ds, |d| d.seek(std::io::SeekFrom::Start(op.a[0] as u64)));
                let seek_errors = env::op_errors(id);
                let r = s.scan_data_stream(&ds).map(|r| r.iter().map(name).collect::<BTreeSet<_>>());
                env::log(|| format!("  scan gives {:?}", r.as_ref().map_err(|_| "an error")), 0);
                self.judge(&groups, &data, &r, env::op_errors(id) - seek_errors)?;
                if let Ok(r) = r {
                    if let Some(x) = &seen {
                        env::checked(1);
                        if *x != r {
                            return Err(Violation::new(
                                "not-deterministic",
                                "formats:not-deterministic",
                                format!("the same data gives {x:?} and then {r:?}"),
                            ));
                        }
                    }
                    seen = Some(r);
                    break;
                }
                env::probe("op-failed-by-fault");
            }
        }
        Ok(())
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        vec![("fill", 0)]
    }
    fn rule(&self) -> &'static str {
        "a case is a set of enabled formats in random order, a stream of 0 bytes to 16 TiB with sizes aimed at the edges of the header and footer ranges, 0-6 planted signatures of which some are damaged, shifted or cut off by the end of the stream, and 1-4 scans from an arbitrary stream position under a fault plan (short reads and read/seek/size errors); oracle: an own table of signatures and places looked up in the content"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["keramics-formats FormatScanner", "keramics-sigscan", "keramics-core DataStream"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["data stream (simulated disk with fault injection)", "getrandom (hash map seeds drawn from the case)"]
    }
}
