//! Opens the images listed in img/LIST (lines: directory, kind, main file) through the public
//! interfaces and prints what they expose: sizes, bytes read in several ways, partitions,
//! directory trees. Compares it with expect.txt, which is what the images were made to hold.
//! Then does it again with one read of the files that fails, or with reads that are cut short:
//! whatever succeeds must be the same.
use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
use keramics_formats::{apm::*, ewf::*, ext::*, fat::*, gpt::*, mbr::*, ntfs::*, qcow::*, sparsebundle::*, sparseimage::*, udif::*, vhd::*, vhdx::*, FileResolver, FileResolverReference, PathComponent};
use std::fmt::Write;
use std::io::SeekFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, RwLock};

type R<T> = Result<T, ErrorTrace>;

/// Number of reads of files so far, the one to fail, and the most a read returns.
static READS: AtomicU64 = AtomicU64::new(0);
static FAIL: AtomicU64 = AtomicU64::new(u64::MAX);
static SHORT: AtomicU64 = AtomicU64::new(u64::MAX);
/// Whether to do less, and to retry what fails.
static FAULTY: AtomicU64 = AtomicU64::new(0);

struct File(std::fs::File, u64, u64);

impl DataStream for File {
    fn get_size(&mut self) -> R<u64> {
        Ok(self.2)
    }
    fn read(&mut self, buf: &mut [u8]) -> R<usize> {
        use std::os::unix::fs::FileExt;
        if READS.fetch_add(1, SeqCst) == FAIL.load(SeqCst) {
            return Err(ErrorTrace::new("read failed".to_string()));
        }
        let n = (buf.len() as u64).min(SHORT.load(SeqCst)) as usize;
        let n = self.0.read_at(&mut buf[..n], self.1).unwrap();
        self.1 += n as u64;
        Ok(n)
    }
    fn seek(&mut self, pos: SeekFrom) -> R<u64> {
        let n = match pos {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::Current(n) => self.1 as i64 + n,
            SeekFrom::End(n) => self.2 as i64 + n,
        };
        if n < 0 {
            return Err(ErrorTrace::new("seek before the start".to_string()));
        }
        self.1 = n as u64;
        Ok(self.1)
    }
}

fn file(path: &Path) -> R<DataStreamReference> {
    let f = std::fs::File::open(path).unwrap();
    let size = f.metadata().unwrap().len();
    Ok(Arc::new(RwLock::new(File(f, 0, size))))
}

struct Files(PathBuf);

impl FileResolver for Files {
    fn get_data_stream(&self, parts: &[PathComponent]) -> R<Option<DataStreamReference>> {
        let mut p = self.0.clone();
        for c in parts {
            p.push(c.to_string());
        }
        if p.is_file() { file(&p).map(Some) } else { Ok(None) }
    }
}

fn resolver(dir: &Path) -> FileResolverReference {
    Arc::new(Box::new(Files(dir.to_path_buf())))
}

/// Does it, and once more after a failure.
macro_rules! twice {
    ($e:expr) => {
        match $e {
            Err(_) if FAULTY.load(SeqCst) != 0 => $e,
            r => r,
        }
    };
}

fn hash(mut h: u64, d: &[u8]) -> u64 {
    for b in d {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

struct Rng(u64);
impl Rng {
    fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.0 >> 33;
        x % n.max(1)
    }
}

/// Reads up to n bytes at the current position, however they are split.
fn get(s: &DataStreamReference, n: usize) -> R<Vec<u8>> {
    let mut v = vec![0xa5u8; n];
    let mut at = 0;
    while at < n {
        let k = s.write().unwrap().read(&mut v[at..])?;
        if k == 0 {
            break;
        }
        at += k;
    }
    v.truncate(at);
    Ok(v)
}

const FULL: u64 = 24 << 20;

fn stream(out: &mut String, name: &str, s: &DataStreamReference, random: u64) {
    let size = match twice!(s.write().unwrap().get_size()) {
        Ok(n) => n,
        Err(_) => {
            writeln!(out, "{name} size error").unwrap();
            return;
        }
    };
    writeln!(out, "{name} size {size}").unwrap();
    let mut rng = Rng(size ^ 0x5eed);
    let light = FAULTY.load(SeqCst) != 0;
    let random = if light { random.min(20) } else { random };
    for (pass, count) in [random, 0, random].into_iter().enumerate() {
        if pass == 1 {
            // all of it, in order (the beginning when there is a lot)
            let r = (|| -> R<u64> {
                let mut h = 0;
                let full = size.min(if light { 400_000 } else { FULL });
                let mut left = full;
                while left > 0 {
                    let v = twice!({
                        s.write().unwrap().seek(SeekFrom::Start(full - left))?;
                        get(s, left.min(100_000) as usize)
                    })?;
                    if v.is_empty() {
                        break;
                    }
                    h = hash(h, &v);
                    left -= v.len() as u64;
                }
                Ok(h ^ left)
            })();
            writeln!(out, "{name} all {}", show(r)).unwrap();
        }
        let mut h = 0;
        for _ in 0..count {
            let at = match rng.below(4) {
                0 => rng.below(size + 10),
                1 => rng.below(size / 4096 + 1) * 4096,
                2 => (rng.below(size / 512 + 1) * 512).saturating_sub(rng.below(9)),
                _ => size.saturating_sub(rng.below(5000)),
            };
            let n = [1u64, 7, 512, 513, 4096, 10_000, 70_000][rng.below(7) as usize];
            let how = rng.below(3);
            let once = || -> R<u64> {
                let p = match how {
                    0 => SeekFrom::Start(at),
                    1 => SeekFrom::End(at as i64 - size as i64),
                    _ => {
                        let here = s.write().unwrap().seek(SeekFrom::Current(0))?;
                        SeekFrom::Current(at as i64 - here as i64)
                    }
                };
                let there = s.write().unwrap().seek(p)?;
                Ok(hash(there, &get(s, n as usize)?))
            };
            let r = twice!(once());
            h = hash(h, show(r).as_bytes());
        }
        if count > 0 {
            writeln!(out, "{name} random {h:x}").unwrap();
        }
    }
}

fn show(r: R<u64>) -> String {
    match r {
        Ok(n) => format!("{n:x}"),
        Err(_) => "error".to_string(),
    }
}

macro_rules! layers {
    ($t:ident, $out:expr, $dir:expr, $main:expr) => {{
        let r = resolver(&$dir);
        let mut image = $t::new();
        image.open(&r, &PathComponent::from($main))?;
        for i in 0..image.get_number_of_layers() {
            let s: DataStreamReference = image.get_layer_by_index(i)?;
            stream($out, &format!("layer{i}"), &s, 150);
        }
    }};
}

macro_rules! parts {
    ($t:ident, $out:expr, $s:expr) => {{
        let mut v = $t::new();
        v.read_data_stream(&$s)?;
        for i in 0..v.get_number_of_partitions() {
            let p = v.get_partition_by_index(i)?;
            writeln!($out, "partition {i} {} {}", p.offset, p.size).unwrap();
            let s: DataStreamReference = Arc::new(RwLock::new(p));
            stream($out, &format!("partition{i}"), &s, 40);
        }
    }};
}

macro_rules! times {
    ($e:expr) => {
        format!("{:?} {:?} {:?} {:?}", $e.get_modification_time(), $e.get_access_time(), $e.get_change_time(), $e.get_creation_time())
    };
}

macro_rules! walk {
    ($name:ident, $t:ty, $extra:expr, $times:expr) => {
        fn $name(out: &mut String, path: &str, e: &mut $t, depth: usize) -> R<()> {
            let extra: fn(&mut String, &mut $t) -> R<()> = $extra;
            let times: fn(&$t) -> String = $times;
            writeln!(out, "{path} size {} {}", e.get_size(), times(e)).unwrap();
            extra(out, e)?;
            match twice!(e.get_data_stream()) {
                Ok(Some(s)) => stream(out, path, &s, 6),
                Ok(None) => {}
                Err(_) => writeln!(out, "{path} error").unwrap(),
            }
            if depth > 40 {
                return Ok(());
            }
            let n = twice!(e.get_number_of_sub_file_entries())?;
            writeln!(out, "{path} has {n}").unwrap();
            for i in 0..n {
                let mut c = twice!(e.get_sub_file_entry_by_index(i))?;
                let name = c.get_name().map(|x| x.to_string()).unwrap_or_default();
                if let Some(x) = c.get_name() {
                    let x = x.to_owned();
                    let found = twice!(e.get_sub_file_entry_by_name(&x))?;
                    writeln!(out, "{path} {name} by name {}", found.map(|f| f.get_size() == c.get_size()).unwrap_or(false)).unwrap();
                }
                $name(out, &format!("{path}/{name}"), &mut c, depth + 1)?;
            }
            Ok(())
        }
    };
}

walk!(walk_ext, ExtFileEntry, |out, e| {
    writeln!(out, "mode {:o} {} {} links {} target {:?}", e.get_file_mode(), e.get_owner_identifier(), e.get_group_identifier(), e.get_number_of_links(), twice!(e.get_symbolic_link_target())?.map(|x| x.to_string())).unwrap();
    Ok(())
}, |e| times!(e));
walk!(walk_fat, FatFileEntry, |_, _| Ok(()), |e| format!("{:?} {:?} {:?}", e.get_modification_time(), e.get_access_time(), e.get_creation_time()));
walk!(walk_ntfs, NtfsFileEntry, |out, e| {
    writeln!(out, "flags {:x} target {:?}", e.get_file_attribute_flags(), twice!(e.get_symbolic_link_target())?.map(|x| x.to_string())).unwrap();
    for i in 0..e.get_number_of_data_forks()? {
        let f = e.get_data_fork_by_index(i)?;
        let name = f.get_name().map(|x| x.to_string());
        writeln!(out, "fork {name:?}").unwrap();
        let s = f.get_data_stream()?;
        stream(out, "fork", &s, 6);
    }
    Ok(())
}, |e| times!(e));

fn image(out: &mut String, dir: &Path, kind: &str, main: &str) -> R<()> {
    let dir: PathBuf = dir.to_path_buf();
    let path = dir.join(main);
    match kind {
        "vhd" => layers!(VhdImage, out, dir, main),
        "vhdx" => layers!(VhdxImage, out, dir, main),
        "qcow" => layers!(QcowImage, out, dir, main),
        "ewf" => {
            let r = resolver(&dir);
            let mut image = EwfImage::new();
            image.open(&r, &PathComponent::from(main))?;
            writeln!(out, "md5 {:?} media size {}", image.md5_hash, image.media_size).unwrap();
            let s: DataStreamReference = Arc::new(RwLock::new(image));
            stream(out, "media", &s, 300);
        }
        "udif" | "sparseimage" => {
            let s = file(&path)?;
            let s: DataStreamReference = if kind == "udif" {
                let mut f = UdifFile::new();
                f.read_data_stream(&s)?;
                Arc::new(RwLock::new(f))
            } else {
                let mut f = SparseImageFile::new();
                f.read_data_stream(&s)?;
                Arc::new(RwLock::new(f))
            };
            stream(out, "media", &s, 300);
        }
        "sparsebundle" => {
            let r = resolver(&dir);
            let mut image = SparseBundleImage::new();
            image.open(&r)?;
            let s: DataStreamReference = Arc::new(RwLock::new(image));
            stream(out, "media", &s, 300);
        }
        "apm" => parts!(ApmVolumeSystem, out, file(&path)?),
        "gpt" => parts!(GptVolumeSystem, out, file(&path)?),
        "mbr" => parts!(MbrVolumeSystem, out, file(&path)?),
        "ext" => {
            let mut f = ExtFileSystem::new();
            f.read_data_stream(&file(&path)?)?;
            if let Some(mut e) = twice!(f.get_root_directory())? {
                walk_ext(out, "", &mut e, 0)?;
            }
        }
        "fat" => {
            let mut f = FatFileSystem::new();
            f.read_data_stream(&file(&path)?)?;
            walk_fat(out, "", &mut twice!(f.get_root_directory())?, 0)?;
        }
        "ntfs" => {
            let mut f = NtfsFileSystem::new();
            f.read_data_stream(&file(&path)?)?;
            walk_ntfs(out, "", &mut twice!(f.get_root_directory())?, 0)?;
        }
        _ => panic!("unknown kind"),
    }
    Ok(())
}

/// What an image exposes: None when it cannot be opened or read to the end.
fn describe(dir: &Path, kind: &str, main: &str, out: &mut String) -> bool {
    let part = RwLock::new(String::new());
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut o = String::new();
        let r = image(&mut o, dir, kind, main);
        *part.write().unwrap() = o;
        r
    }));
    out.push_str(&part.read().unwrap());
    match r {
        Ok(Ok(())) => return true,
        Ok(Err(e)) => {
            if std::env::var_os("SHOW").is_some() {
                eprintln!("{} {}", dir.display(), e.to_string());
            }
            out.push_str("failed\n")
        }
        Err(_) => out.push_str("panicked\n"),
    }
    false
}

fn main() {
    let mut out = String::new();
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::fs::read_to_string("img/LIST").unwrap().lines() {
        let w: Vec<&str> = line.splitn(3, ' ').collect();
        writeln!(out, "== {} {}", w[0], w[1]).unwrap();
        let dir = Path::new("img").join(w[0]);
        let good = describe(&dir, w[1], w[2], &mut out);
        if !good {
            continue;
        }
        FAULTY.store(1, SeqCst);
        READS.store(0, SeqCst);
        let mut base = String::new();
        describe(&dir, w[1], w[2], &mut base);
        let total = READS.load(SeqCst);
        let mut faults: Vec<(u64, u64)> = (0..25).map(|i| (i * total / 25, u64::MAX)).collect();
        faults.extend((0..15).map(|i| (i, u64::MAX)));
        faults.extend([(u64::MAX, 509), (u64::MAX, 4000), (u64::MAX, 65_000)]);
        let mut seen = "same".to_string();
        for (fail, short) in faults {
            FAIL.store(fail, SeqCst);
            SHORT.store(short, SeqCst);
            READS.store(0, SeqCst);
            let mut got = String::new();
            let whole = describe(&dir, w[1], w[2], &mut got);
            // a failed read may make opening fail, a short one may not
            if got != base && (whole || fail == u64::MAX || got.contains("panicked")) {
                let a = base.lines().zip(got.lines()).find(|(a, b)| a != b);
                seen = format!("differs with fault {fail} {short}: {a:?}");
                break;
            }
        }
        FAIL.store(u64::MAX, SeqCst);
        SHORT.store(u64::MAX, SeqCst);
        FAULTY.store(0, SeqCst);
        writeln!(out, "with faults: {seen}").unwrap();
    }
    if let Some(p) = std::env::var_os("RECORD") {
        std::fs::write(p, out).unwrap();
        return;
    }
    let expect = std::fs::read_to_string("expect.txt").unwrap();
    for (i, (a, b)) in expect.lines().zip(out.lines()).enumerate() {
        if a != b {
            println!("line {}: expected {a}, got {b}", i + 1);
            std::process::exit(1);
        }
    }
    if expect.lines().count() != out.lines().count() {
        println!("expected {} lines, got {}", expect.lines().count(), out.lines().count());
        std::process::exit(1);
    }
    println!("all as expected");
}
