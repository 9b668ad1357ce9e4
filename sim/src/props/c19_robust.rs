//! C19: damaged storage gives results or errors, in bounded time and memory.

use std::collections::BTreeSet;

use keramics_compression::{AdcContext, Bzip2Context, DeflateContext, LzfseContext, Lznt1Context, LzvnContext, LzxContext, ZlibContext};
use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_datetime::DateTime;
use keramics_vfs::{VfsContext, VfsFileEntry, VfsFinder, VfsLocation, VfsPath, VfsScanContext, VfsScanNode, VfsScanner, VfsType};
use std::io::SeekFrom;
use std::sync::atomic::Ordering;

use crate::alloc;
use crate::case::{Case, Op};
use crate::data::Data;
use crate::env;
use crate::images::fs::{Entry, Fs, FsImage, Name};
use crate::images::shield::{self, Shield};
use crate::images::{self, Image, pack};
use crate::rng::Rng;
use crate::runner::{Prop, RunResult};
use crate::stream;
use crate::streamops;

use super::filesystems as volumes;
use super::images as storage;

pub struct C19Prop;
pub static C19: C19Prop = C19Prop;

enum Built {
    Image(Image),
    Volume(FsImage),
    Stack(images::nest::Stack),
}

const FORMATS: [&str; 12] = ["sparseimage", "sparsebundle", "vhd", "vhdx", "qcow", "udif", "ewf", "partitions", "fat", "ext", "ntfs", "nested"];
const CODEC: i64 = 12;

fn storage_prop(format: i64) -> Option<&'static storage::ImageProp> {
    Some(match format {
        0 => &storage::C07,
        1 => &storage::C08,
        2 => &storage::C09,
        3 => &storage::C10,
        4 => &storage::C11,
        5 => &storage::C12,
        6 => &storage::C13,
        7 => &storage::C14,
        _ => return None,
    })
}

fn volume_prop(format: i64) -> Option<&'static volumes::FsProp> {
    Some(match format {
        8 => &volumes::C15,
        9 => &volumes::C16,
        10 => &volumes::C17,
        _ => return None,
    })
}

fn build(case: &Case) -> (Built, Vec<Shield>) {
    let f = case.p("format");
    shield::collect(|| {
        if let Some(p) = storage_prop(f) {
            Built::Image((p.build)(case))
        } else if let Some(p) = volume_prop(f) {
            Built::Volume((p.build)(case))
        } else {
            let mut c = case.clone();
            c.set("format", case.p("image"));
            Built::Stack(super::c21_vfs::build(&c))
        }
    })
}

/// Reads here and there; what is read does not matter.
fn taste(s: &DataStreamReference, rng: &mut Rng, hot: &[u64], n: u64) -> Result<(), ErrorTrace> {
    let size = s.write().map_err(|_| ErrorTrace::new("lock".into()))?.get_size()?;
    let mut buf = vec![0u8; 65536];
    for i in 0..n {
        let at = match i {
            0 => 0,
            1 => size.saturating_sub(1 + rng.below(1000)),
            2 if size > 0 => rng.below(size),
            _ => streamops::pick_offset(rng, size, hot),
        };
        let len = *rng.pick(&[1usize, 512, 4096, 30_000, 65536]);
        let mut s = s.write().map_err(|_| ErrorTrace::new("lock".into()))?;
        env::checked(1);
        match s.read_at_position(&mut buf[..len], SeekFrom::Start(at)) {
            Ok(_) => {
                let _ = s.read(&mut buf[..len]);
            }
            Err(_) => env::probe("read-failed"),
        }
    }
    Ok(())
}

fn explore_image(image: &Image, rng: &mut Rng) {
    match (image.open)("img/") {
        Ok(s) => {
            env::probe("opened");
            let _ = taste(&s, rng, &image.hot, 12);
        }
        Err(_) => env::probe("open-failed"),
    }
    if let Some(open) = &image.streams {
        if let Ok(v) = open("img/") {
            for s in v.iter().take(6) {
                let _ = taste(s, rng, &image.hot, 4);
            }
        }
    }
}

fn look(e: &mut Box<dyn Entry>, rng: &mut Rng, names: &[Name]) -> Result<usize, ErrorTrace> {
    env::checked(1);
    let _ = e.name();
    let _ = e.kind();
    let _ = e.size();
    let _ = e.link();
    let _ = e.unused();
    if let Ok(Some(s)) = e.stream() {
        let _ = taste(&s, rng, &[4096, 16384], 5);
    }
    if let Ok(Some(v)) = e.stream_names() {
        for n in v.iter().take(4) {
            if let Ok(Some(s)) = e.named_stream(n) {
                let _ = taste(&s, rng, &[4096], 3);
            }
        }
    }
    if !names.is_empty() {
        let n = rng.pick(names).clone();
        let _ = e.child_named(&n);
    }
    let n = e.count();
    if n.is_err() {
        env::probe("list-failed");
    }
    n
}

fn explore_volume(image: &FsImage, fs: Box<dyn Fs>, rng: &mut Rng) {
    let names: Vec<Name> = image.nodes.iter().map(|n| n.name.clone()).collect();
    let mut budget = 120;
    if let Ok(root) = fs.root() {
        let mut todo = vec![root];
        while let Some(mut e) = todo.pop() {
            env::op_begin(0);
            if budget == 0 {
                break;
            }
            budget -= 1;
            let n = look(&mut e, rng, &names).unwrap_or(0);
            let step = n.div_ceil(40).max(1);
            for i in (0..n).step_by(step) {
                match e.child(i) {
                    Ok(c) => todo.push(c),
                    Err(_) => env::probe("entry-failed"),
                }
            }
            if n > 0 {
                let _ = e.child(n);
            }
        }
    }
    for _ in 0..12 {
        env::op_begin(0);
        let i = rng.below(image.nodes.len() as u64) as usize;
        if let Ok(Some(mut e)) = fs.by_path(&image.path(i)) {
            let _ = look(&mut e, rng, &names);
        }
        let id = match image.nodes[i].id {
            Some(id) if rng.chance(2, 3) => id,
            _ => *rng.pick(&[0, 1, 2, 5, 11, 0xffff_ffff, rng.clone().below(64)]),
        };
        if let Ok(Some(mut e)) = fs.by_id(id) {
            let _ = look(&mut e, rng, &names);
        }
    }
}

fn dated(t: &DateTime) -> String {
    match t {
        DateTime::FatDate(t) => t.to_iso8601_string(),
        DateTime::FatTimeDate(t) => t.to_iso8601_string(),
        DateTime::FatTimeDate10Ms(t) => t.to_iso8601_string(),
        DateTime::Filetime(t) => t.to_iso8601_string(),
        DateTime::PosixTime32(t) => t.to_iso8601_string(),
        DateTime::PosixTime64Ns(t) => t.to_iso8601_string(),
        _ => String::new(),
    }
}

fn explore_node(node: &VfsScanNode, context: &mut VfsContext, rng: &mut Rng, depth: usize) {
    env::op_begin(0);
    let _ = node.location.to_string();
    let _ = node.is_empty();
    if let Ok(Some(s)) = context.get_data_stream_by_path_and_name(&node.location, None) {
        let _ = taste(&s, rng, &[512, 4096], 4);
    }
    if !matches!(node.location, VfsLocation::Base { .. }) {
        if let Ok(fs) = context.open_file_system(&node.location) {
            let _ = fs.get_root_file_entry();
            let mut finder = VfsFinder::new(&fs);
            for _ in 0..100 {
                env::op_begin(0);
                let Some(found) = finder.next() else { break };
                let Ok((mut e, names)) = found else { continue };
                env::checked(1);
                let _ = names.iter().map(|n| n.to_string()).collect::<Vec<_>>();
                let _ = e.get_name().map(|n| n.to_string());
                for t in [e.get_access_time(), e.get_change_time(), e.get_creation_time(), e.get_modification_time()].into_iter().flatten() {
                    let _ = dated(t);
                }
                let _ = e.get_size();
                let _ = e.get_symbolic_link_target().map(|p| p.map(|p| p.to_string()));
                if let Ok(Some(s)) = e.get_data_stream() {
                    let _ = taste(&s, rng, &[4096], 3);
                }
                if !matches!(e, VfsFileEntry::Ext(_) | VfsFileEntry::Fat(_) | VfsFileEntry::Ntfs(_)) {
                    continue; // forks of the other types are not implemented
                }
                for i in 0..e.get_number_of_data_forks().unwrap_or(0).min(4) {
                    if let Ok(f) = e.get_data_fork_by_index(i) {
                        if let Ok(s) = f.get_data_stream() {
                            let _ = taste(&s, rng, &[4096], 3);
                        }
                    }
                }
            }
        }
    }
    if depth < 12 {
        for n in node.sub_nodes.iter().take(8) {
            explore_node(n, context, rng, depth + 1);
        }
    }
}

fn explore_stack(main: &str, rng: &mut Rng) {
    let base = VfsLocation::new_base(&VfsType::Os, VfsPath::from_path(&VfsType::Os, &format!("/simfs/dir/{main}")));
    let mut scanner = VfsScanner::new();
    let _ = scanner.build();
    let mut context = VfsScanContext::new();
    if scanner.scan(&mut context, &base).is_err() {
        env::probe("scan-failed");
    }
    if let Some(root) = &context.root_node {
        env::probe("scanned");
        explore_node(root, &mut VfsContext::new(), rng, 0);
    }
}

fn explore(built: &Built, files: &[usize], seed: u64) {
    let mut rng = Rng::new(seed);
    env::op_begin(0);
    match built {
        Built::Image(i) => explore_image(i, &mut rng),
        Built::Volume(v) => match (v.open)(&stream::open(files[0])) {
            Ok(f) => {
                env::probe("opened");
                explore_volume(v, f, &mut rng)
            }
            Err(_) => env::probe("open-failed"),
        },
        Built::Stack(s) => explore_stack(&s.main, &mut rng),
    }
}

const VALUES: [u64; 22] = [
    0,
    1,
    2,
    3,
    7,
    16,
    63,
    64,
    0x7f,
    0x80,
    0xff,
    0x7fff,
    0x8000,
    0xffff,
    0x7fff_ffff,
    0x8000_0000,
    0xffff_fff0,
    0xffff_ffff,
    0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000,
    0xffff_ffff_ffff_fff0,
    u64::MAX,
];

fn get(b: &[u8], big: bool) -> u64 {
    let mut v = 0;
    for i in 0..b.len() {
        v = v << 8 | b[if big { i } else { b.len() - 1 - i }] as u64;
    }
    v
}

fn put(b: &mut [u8], v: u64, big: bool) {
    let n = b.len();
    for i in 0..n {
        b[if big { n - 1 - i } else { i }] = (v >> (8 * i)) as u8;
    }
}

/// A value near what a check could allow.
fn hostile(rng: &mut Rng, old: u64, size: u64) -> u64 {
    match rng.below(12) {
        0..=3 => *rng.pick(&VALUES),
        4 => old.wrapping_add(*rng.pick(&[1, 2, 4, 8, 512])),
        5 => old.wrapping_sub(*rng.pick(&[1, 2, 4, 8, 512])),
        6 => (old.wrapping_mul(*rng.pick(&[2, 3, 16, 256, 4096]))).wrapping_sub(rng.below(2)),
        7 => old / *rng.pick(&[2, 8, 512]),
        8 => old.wrapping_neg(),
        9 => (size / *rng.pick(&[1, 2, 512, 1024, 4096])).wrapping_add(rng.below(3)).wrapping_sub(1),
        10 => rng.next() >> rng.below(64),
        _ => old ^ 1 << rng.below(64),
    }
}

/// Damages bytes that were read; returns the range that changed.
fn spoil(rng: &mut Rng, d: &mut Data, range: (u64, u64), others: &[(u64, u64)]) -> (&'static str, u64, u64) {
    let (start, len) = range;
    let mut at = start;
    for _ in 0..8 {
        at = start
            + match rng.below(4) {
                0 => rng.below(len.min(64)),
                _ => rng.below(len),
            };
        // rather where something is stored
        if rng.chance(1, 8) || at >= d.size || d.slice(at, 4.min(d.size - at)).iter().any(|b| *b != 0) {
            break;
        }
    }
    let left = (d.size - at.min(d.size)).max(1);
    let small = rng.range(1, 40).min(left);
    let mut b = d.slice(at, 64.min(left));
    match rng.below(16) {
        0 | 1 => {
            b[0] ^= 1 << rng.below(8);
            d.write(at, &b[..1]);
            ("bit", at, 1)
        }
        2 => {
            b[0] = rng.next() as u8;
            d.write(at, &b[..1]);
            ("byte", at, 1)
        }
        3..=9 => {
            let width = *rng.pick(&[1u64, 2, 2, 4, 4, 4, 8, 8]);
            let at = start + (at - start) / width * width;
            if at + width > d.size {
                return ("nothing", at, 0);
            }
            let mut b = d.slice(at, width);
            let big = rng.chance(1, 3);
            let old = get(&b, big);
            let size = d.size;
            put(&mut b, hostile(rng, old, size), big);
            d.write(at, &b);
            ("field", at, width)
        }
        10 => {
            let s = at / 512 * 512;
            let n = 512.min(d.size - s.min(d.size));
            d.write(s, &vec![0u8; n as usize]);
            ("lost sector", s, n)
        }
        11 => {
            let n = small as usize;
            let v = rng.bytes(n);
            d.write(at, &v);
            ("noise", at, small)
        }
        12 => {
            let fill = if rng.chance(1, 3) { 0 } else { 0xff };
            d.write(at, &vec![fill; small as usize]);
            ("fill", at, small)
        }
        13 => {
            // another structure in its place
            let o = *rng.pick(others);
            let n = o.1.min(len).min(d.size - start.min(d.size)).min(65536);
            let v = d.slice(o.0, n);
            d.write(start, &v);
            ("misdirected write", start, n)
        }
        14 => {
            // part of it, moved
            let n = len.min(4096).min(left) as usize;
            let mut v = d.slice(at, n as u64);
            if rng.chance(1, 2) {
                v.rotate_left(1.max(n / 7));
            } else {
                v.rotate_right(1);
            }
            d.write(at, &v);
            ("shifted bytes", at, n as u64)
        }
        _ => {
            d.truncate(if rng.chance(1, 2) { at } else { start + len }.min(d.size));
            ("truncation", at, 0)
        }
    }
}

fn codec(case: &Case) {
    let mut rng = Rng::new(case.seed);
    let n = *rng.pick(&[1usize, 20, 600, 4096, 32768, 70_000]);
    let n = rng.range(1, n as u64) as usize;
    let data = images::compressible(&mut rng, n);
    let kind = case.p("codec") % 8;
    let z = match kind {
        0 => pack::deflate(&mut rng, &data, 32768),
        1 => pack::zlib(&mut rng, &data),
        2 => pack::adc(&mut rng, &data),
        3 => pack::lzvn(&mut rng, &data),
        4 => pack::lzfse(&mut rng, &data),
        5 => pack::bzip2(&mut rng, &data),
        6 => pack::lznt1(&mut rng, &data),
        _ => match pack::lzx(&mut rng, &data[..data.len().min(32768)]) {
            Some(z) => z,
            None => return,
        },
    };
    let mut d = Data::from_vec(&z);
    for op in &case.ops {
        let mut r = Rng::new(op.a[1] as u64);
        if d.size == 0 {
            break;
        }
        let all = (0, d.size);
        let (how, at, len) = spoil(&mut r, &mut d, all, &[all]);
        env::log(|| format!("  {how} at {at}, {len} bytes"), at);
        env::with(|e| *e.fired.entry(format!("damage:{how}")).or_insert(0) += 1);
    }
    let z = d.to_vec();
    let size = match case.p("room") {
        0 => data.len(),
        1 => data.len() + 1,
        2 => data.len() / 2,
        3 => 0,
        _ => 65536,
    };
    let mut out = vec![0u8; size];
    env::checked(1);
    env::log(|| format!("  codec {kind}, {} bytes to {size}", z.len()), crate::rng::hash_str("codec") ^ z.len() as u64);
    let r = match kind {
        0 => DeflateContext::new().decompress(&z, &mut out),
        1 => ZlibContext::new().decompress(&z, &mut out),
        2 => AdcContext::new().decompress(&z, &mut out),
        3 => LzvnContext::new().decompress(&z, &mut out),
        4 => LzfseContext::new().decompress(&z, &mut out),
        5 => Bzip2Context::new().decompress(&z, &mut out),
        6 => Lznt1Context::new().decompress(&z, &mut out),
        _ => LzxContext::new().decompress(&z, &mut out),
    };
    env::probe(if r.is_ok() { "decompressed" } else { "decompression-failed" });
}

impl Prop for C19Prop {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn quick_runs(&self) -> u64 {
        60_000
    }
    fn gen_case(&self, rng: &mut Rng, _index: u64, _thorough: bool) -> Case {
        let mut c = Case::new("C19", "robust", rng.next());
        let format = *rng.pick(&[0i64, 1, 2, 3, 4, 4, 5, 6, 6, 7, 7, 8, 8, 9, 9, 9, 9, 10, 10, 10, 10, 10, 11, 11, 12, 12, 12, 12]);
        c.set("format", format);
        if let Some(p) = storage_prop(format) {
            (p.draw)(rng, &mut c, false);
            if format == 7 {
                c.set("damage", 0);
            }
        } else if let Some(p) = volume_prop(format) {
            (p.draw)(rng, &mut c, false);
            c.set("nodes", rng.range(1, 12) as i64);
        } else if format == 11 {
            c.set("image", rng.below(7) as i64);
            c.set("layers", rng.range(1, 3) as i64);
            c.set("table", *rng.pick(&[0i64, 1, 2, 3, 2, 3]));
            c.set("volumes", rng.range(1, 3) as i64);
            c.set("nodes", rng.range(1, 8) as i64);
            c.set("depth", *rng.pick(&[0i64, 0, 0, 1]));
            c.set("wild", 1);
            c.set("small", 1);
        } else {
            c.set("codec", rng.below(8) as i64);
            c.set("room", rng.below(5) as i64);
        }
        for _ in 0..*rng.pick(&[1u64, 1, 1, 2, 2, 3, 5]) {
            c.op("damage", &[rng.next() as i64 & 0xffff_ffff, rng.next() as i64 & 0xffff_ffff, rng.below(40) as i64]);
        }
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        env::with(|e| e.io_op_budget = 1_000_000);
        let format = case.p("format");
        if format == CODEC {
            env::op_begin(0);
            codec(case);
            return Ok(());
        }
        // the memory limit is for the code under test, not for the generated image
        let limit = alloc::LIMIT.swap(usize::MAX, Ordering::Relaxed);
        let before = alloc::LIVE.load(Ordering::Relaxed);
        let (built, shields) = build(case);
        let files: Vec<usize> = match &built {
            Built::Image(i) => {
                i.install("img/");
                i.files.iter().map(|f| env::file_id(&format!("img/{}", f.0)).unwrap()).collect()
            }
            Built::Volume(v) => vec![env::add_file("volume", v.volume.clone())],
            Built::Stack(s) => s.files.iter().map(|(name, data)| env::add_file(&format!("dir/{name}"), data.clone())).collect(),
        };
        let image = alloc::LIVE.load(Ordering::Relaxed).saturating_sub(before);
        alloc::LIMIT.store(limit.saturating_add(image), Ordering::Relaxed);
        env::log(|| format!("{} image", FORMATS[format as usize % 12]), format as u64);
        // what is read of the undamaged image is what can matter
        env::record_reads(true);
        explore(&built, &files, case.seed);
        let reads = env::record_reads(false);
        if reads.is_empty() {
            return Ok(());
        }
        let all: BTreeSet<usize> = reads.iter().map(|r| r.0).collect();
        let all: Vec<usize> = all.into_iter().collect();
        for op in &case.ops {
            self.damage(op, &all, &reads, &files, &shields);
        }
        explore(&built, &files, case.seed ^ 1);
        Ok(())
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        vec![("nodes", 1), ("groups", 1), ("overflow", 0), ("volumes", 1), ("depth", 0)]
    }
    fn alloc_limit(&self) -> usize {
        512 << 20
    }
    fn rule(&self) -> &'static str {
        "a case is an image, volume or stack of them from the builders of C07-C17 and C21 (or a compressed stream), of which the reads of a first visit are recorded; then bytes that were read are damaged (bits, fields set to extreme and to nearby values, lost sectors, noise, misdirected writes, shifted bytes, truncation, missing and swapped files), with checksums made to match in half of the cases so that what they protect is reached, and everything is opened, listed, looked up and read again: no panic, no stack overflow, no end of the process, no more than 1000000 I/O calls per operation, 45 seconds per run and 512 MiB; integer overflow is a panic; non-trivial: at least one entry or stream was reached or one decompression was tried"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["keramics-formats (all formats)", "keramics-compression", "keramics-checksums", "keramics-vfs scanner, finder and resolver", "keramics-types", "keramics-core"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["file system and operating system streams (simulated disk with damage)", "LZXPRESS decompression, which the pinned commit lacks"]
    }
}

impl C19Prop {
    fn damage(&self, op: &Op, all: &[usize], reads: &[(usize, u64, u64)], files: &[usize], shields: &[Shield]) {
        let mut rng = Rng::new(op.a[1] as u64);
        if rng.chance(1, 40) && files.len() > 1 {
            // a file that is missing, or another one in its place
            let a = *rng.pick(files);
            let b = *rng.pick(files);
            let gone = rng.chance(1, 2);
            env::log(|| format!("  file {a} {}", if gone { "removed".to_string() } else { format!("replaced by {b}") }), a as u64);
            env::with(|e| {
                *e.fired.entry(if gone { "damage:missing file" } else { "damage:other file" }.to_string()).or_insert(0) += 1;
                if gone {
                    let name = e.files[a].name.clone();
                    e.names.remove(&name);
                } else {
                    e.files[a].data = e.files[b].data.clone();
                }
            });
            return;
        }
        // a file, and a range that was read from it
        let file = all[op.a[0] as usize % all.len()];
        let of: Vec<(u64, u64)> = reads.iter().filter(|r| r.0 == file && r.2 > 0).map(|r| (r.1, r.2)).collect();
        if of.is_empty() {
            return;
        }
        // half of the time with the first ones, which describe the rest
        let n = if rng.chance(1, 3) { of.len().min(8) } else { of.len() };
        let range = of[rng.below(n as u64) as usize];
        let index = files.iter().position(|f| *f == file);
        env::with(|e| {
            let d = &mut e.files[file].data;
            if range.0 >= d.size {
                return;
            }
            let range = (range.0, range.1.min(d.size - range.0));
            let (how, at, len) = spoil(&mut rng, d, range, &of);
            let mut repaired = false;
            if op.a[2] % 2 == 0 {
                for s in shields.iter().filter(|s| Some(s.file) == index && s.at < at + len && at < s.at + s.len) {
                    s.repair(d);
                    repaired = true;
                }
            }
            *e.fired.entry(format!("damage:{how}")).or_insert(0) += 1;
            if let Some(l) = e.log.as_mut() {
                l.push(format!("  {how} in file {file} at {at}, {len} bytes, within the {} bytes read at {}{}", range.1, range.0, if repaired { ", checksum repaired" } else { "" }));
            }
        });
    }
}
