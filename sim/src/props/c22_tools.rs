//! C22: the command line tools, as processes of which every I/O call goes through the simulator.

use std::collections::BTreeMap;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, RwLock};

use keramics_core::DataStreamReference;
use keramics_toolscore::range_stream::FileRangeDataStream;

use crate::case::{Case, Op};
use crate::data::Data;
use crate::env;
use crate::images::fs::{FsImage, Kind, Name, Node, fold};
use crate::images::nest::{self, Content, Format, Stack, Table, Volume};
use crate::refhash;
use crate::rng::{Rng, hash_str};
use crate::runner::{Prop, RunResult, Violation};
use crate::streamops;

pub struct C22Tools;
pub static C22: C22Tools = C22Tools;

const HASHES: [&str; 5] = ["md5", "sha1", "sha224", "sha256", "sha512"];

fn bad(class: &str, key: &str, detail: String) -> Violation {
    Violation::new(class, key, detail)
}

/// The directory in which the tools run; all they may write to.
struct Scratch {
    path: PathBuf,
}

impl Scratch {
    fn new() -> Scratch {
        static COUNT: AtomicU64 = AtomicU64::new(0);
        loop {
            let n = COUNT.fetch_add(1, Ordering::SeqCst);
            let path = std::env::temp_dir().join(format!("ksim-tools-{:010}-{n:08}", std::process::id()));
            if std::fs::create_dir(&path).is_ok() {
                return Scratch { path };
            }
        }
    }
    fn put(&self, name: &str, data: &Data) -> PathBuf {
        let path = self.path.join(name);
        if let Some(p) = path.parent() {
            std::fs::create_dir_all(p).unwrap();
        }
        let f = std::fs::File::create(&path).unwrap();
        f.set_len(data.size).unwrap();
        for (at, n) in data.pages_in(0, data.size) {
            f.write_all_at(&data.slice(at, n), at).unwrap();
        }
        path
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

/// Removes what processes that were ended left behind.
pub fn sweep() {
    let Ok(dir) = std::fs::read_dir(std::env::temp_dir()) else { return };
    for e in dir.flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let Some(rest) = name.strip_prefix("ksim-tools-") else { continue };
        let pid = rest.split('-').next().unwrap_or("");
        if pid.parse::<u32>().is_ok_and(|p| !Path::new("/proc").join(p.to_string()).exists()) {
            let _ = std::fs::remove_dir_all(e.path());
        }
    }
}

struct Output {
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
    /// Faults of the kinds that a tool cannot hide.
    errors: u32,
    killed: bool,
    /// An error hit the standard output.
    mute: bool,
}

impl Output {
    fn ok(&self) -> bool {
        self.code == Some(0)
    }
}

struct Sim<'a> {
    case: &'a Case,
    scratch: Scratch,
    stack: Option<Stack>,
    source: PathBuf,
    turns: u64,
}

fn quoted(s: &str) -> String {
    let t: String = s.chars().take(900).collect();
    format!("{t:?}")
}

fn cut(v: &[String]) -> String {
    let t: Vec<&String> = v.iter().take(6).collect();
    format!("{t:?}")
}

/// Whether all names of a path are text.
fn readable(content: Content, path: &[Name]) -> bool {
    content != Content::Ext || path.iter().all(|n| std::str::from_utf8(&n.iter().map(|c| *c as u8).collect::<Vec<_>>()).is_ok())
}

/// A name as text: ext has bytes.
fn characters(content: Content, name: &[u16]) -> String {
    if content == Content::Ext {
        let b: Vec<u8> = name.iter().map(|c| *c as u8).collect();
        return String::from_utf8_lossy(&b).into_owned();
    }
    String::from_utf16_lossy(name)
}

/// The mode of an entry as text; empty: not known.
fn file_mode(content: Content, n: &Node) -> String {
    let Some((_, x)) = n.meta.iter().find(|m| m.0 == if content == Content::Ext { "mode" } else { "flags" }) else { return String::new() };
    let x = *x as u32;
    if content != Content::Ext {
        let kind = if n.kind == Kind::Dir { "d" } else { "-" };
        // read-only or system
        return kind.to_string() + if x & 5 != 0 { "r-xr-xr-x" } else { "rwxrwxrwx" };
    }
    if x & 0xe00 != 0 {
        return String::new();
    }
    let mut s: String = match x >> 12 {
        1 => "p",
        2 => "c",
        4 => "d",
        6 => "b",
        10 => "l",
        12 => "s",
        _ => "-",
    }
    .into();
    for i in 0..9 {
        s.push(if x & (0x100 >> i) != 0 { ['r', 'w', 'x'][i % 3] } else { '-' });
    }
    s
}

/// Nanoseconds from 1970 of a FAT date and time.
fn fat_time(key: &str, t: i128) -> i128 {
    let (date, time, more) = match key {
        "accessed" => (t, 0, 0),
        "modified" => (t >> 16, t & 0xffff, 0),
        _ => (t >> 24, t >> 8 & 0xffff, t & 0xff),
    };
    let (year, month, day) = (1980 + (date >> 9), date >> 5 & 15, date & 31);
    let leap = |y: i128| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let mut days: i128 = (1970..year).map(|y| if leap(y) { 366 } else { 365 }).sum();
    for m in 1..month {
        days += match m {
            2 => 28 + leap(year) as i128,
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
    }
    let seconds = (days + day - 1) * 86400 + (time >> 11) * 3600 + (time >> 5 & 63) * 60 + (time & 31) * 2;
    seconds * 1_000_000_000 + more * 10_000_000
}

/// A time as listed: -1 if there is none.
fn nanoseconds(s: &str) -> i128 {
    if s.is_empty() {
        return -1;
    }
    let (a, b) = s.split_once('.').unwrap_or((s, ""));
    let (Ok(a), Ok(f)) = (a.parse::<i128>(), format!("{b:0<9}").parse::<i128>()) else { return -2 };
    a * 1_000_000_000 + f
}

/// The path of an entry, as the tools show it.
fn display(content: Content, path: &[Name], escape_bar: bool) -> String {
    if path.is_empty() {
        return "/".into();
    }
    let mut s = String::new();
    for n in path {
        s.push('/');
        if content == Content::Fat && n.iter().any(|c| (0xd800..0xe000).contains(c)) {
            // shown by element
            for c in n {
                match char::from_u32(*c as u32) {
                    Some(ch) if ch != ':' && ch != '\\' => s.push(ch),
                    Some(ch) => s.extend(['\\', ch]),
                    None => s.push_str(&format!("\\U{c:08x}")),
                }
            }
            continue;
        }
        for c in characters(content, n).chars() {
            match c as u32 {
                0..=0x1f | 0x7f..=0x9f => s.push_str(&format!("\\x{:02x}", c as u32)),
                0x2f | 0x3a | 0x5c => {
                    s.push('\\');
                    s.push(c);
                }
                0x7c if escape_bar => s.push_str("\\|"),
                _ => s.push(c),
            }
        }
    }
    s
}

/// The name of a partition, as the tools show it.
fn volume_name(stack: &Stack, i: usize, identifiers: bool) -> String {
    match stack.table {
        Table::None => String::new(),
        Table::Gpt if identifiers => {
            let b = stack.disk.slice(1024 + 128 * i as u64 + 16, 16);
            let hex = |v: &[u8]| refhash::hex(v);
            let rev = |v: &[u8]| hex(&v.iter().rev().copied().collect::<Vec<u8>>());
            format!("/gpt{{{}-{}-{}-{}-{}}}", rev(&b[..4]), rev(&b[4..6]), rev(&b[6..8]), hex(&b[8..10]), hex(&b[10..]))
        }
        _ => format!("/p{}", i + 1),
    }
}

fn file_systems(stack: &Stack) -> Vec<(usize, &Volume, &FsImage)> {
    stack.volumes.iter().enumerate().filter_map(|(i, v)| v.fs.as_ref().map(|f| (i, v, f))).collect()
}

/// Counts how often each line is expected.
fn bag(lines: impl Iterator<Item = String>) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for l in lines {
        *m.entry(l).or_insert(0) += 1;
    }
    m
}

impl Sim<'_> {
    /// Runs a tool; with the faults planned for the operation, or without.
    fn spawn(&mut self, op: &Op, faults: bool, tool: &str, args: &[String], stdin: Option<&Path>) -> Output {
        self.turns += 1;
        let dir = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
        let base = self.scratch.path.clone();
        let file = |n: &str| std::fs::File::create(base.join(n)).unwrap();
        let log = base.join(".log");
        let _ = std::fs::remove_file(&log);
        let plan: Vec<String> = if faults {
            self.case.faults.iter().filter(|f| f.op == op.id).map(|f| format!("{}:{}:{}", f.io, f.kind, f.arg.unsigned_abs())).collect()
        } else {
            Vec::new()
        };
        let mut c = Command::new(dir.join(tool));
        c.args(args)
            .env_clear()
            .env("LD_PRELOAD", dir.join("libkpreload.so"))
            .env("KSIM_DIR", &base)
            .env("KSIM_LOG", &log)
            .env("KSIM_FAULTS", plan.join(";"))
            .env("KSIM_SEED", (self.case.seed ^ self.turns).to_string())
            .env("KSIM_BUDGET", "200000")
            .current_dir(&base)
            .stdin(match stdin {
                Some(p) => Stdio::from(std::fs::File::open(p).unwrap()),
                None => Stdio::null(),
            })
            .stdout(file(".out"))
            .stderr(file(".err"));
        let shown: Vec<String> = args.iter().map(|a| a.replace(&*base.to_string_lossy(), "@")).collect();
        env::log(|| format!("  {tool} {}", shown.join(" ")), hash_str(&shown.join("\n")));
        let status = c.status().expect("cannot start the tool");
        let read = |n: &str| {
            let b = std::fs::read(base.join(n)).unwrap_or_default();
            String::from_utf8_lossy(&b).replace(&*base.to_string_lossy(), "@")
        };
        let mut o = Output { code: status.code(), signal: status.signal(), out: read(".out"), err: read(".err"), errors: 0, killed: false, mute: false };
        for l in std::fs::read_to_string(&log).unwrap_or_default().lines() {
            let p: Vec<&str> = l.split(' ').collect();
            if p.len() != 5 {
                continue;
            }
            let n = |i: usize| p[i].parse::<u64>().unwrap_or(0);
            env::external(op.id, p[0], n(1), n(2), n(3), p[4]);
            match p[4] {
                "err" | "nospace" => {
                    o.errors += 1;
                    o.mute |= n(2) == 1;
                }
                "kill" => o.killed = true,
                _ => {}
            }
        }
        env::log(
            || format!("  ended with {:?}{}: {}", o.code, o.signal.map(|s| format!(" by signal {s}")).unwrap_or_default(), quoted(&o.out)),
            hash_str(&o.out) ^ o.code.unwrap_or(-1) as u64,
        );
        o
    }

    /// What holds for every run of a tool.
    fn sane(&self, tool: &str, o: &Output) -> RunResult {
        let what = || format!("{tool} ended with {:?}, stdout {}, stderr {}", o.code, quoted(&o.out), quoted(&o.err));
        if let Some(s) = o.signal {
            let class = if s == 14 { "hang" } else { "crash" };
            return Err(bad(class, tool, format!("signal {s}: {}", what())));
        }
        if o.killed {
            return Ok(());
        }
        match o.code {
            Some(97) => return Err(bad("hang", tool, format!("over 200000 I/O calls: {}", what()))),
            Some(101) if o.mute && o.err.contains("failed printing to stdout") => {}
            Some(101) => return Err(bad("panic", tool, what())),
            Some(0) => {}
            Some(1) if o.errors > 0 => {}
            _ => return Err(bad("unexpected-error", tool, what())),
        }
        if o.ok() && o.mute {
            return Err(bad("lost-output", tool, format!("writing failed, still: {}", what())));
        }
        Ok(())
    }

    /// Runs the tool under the faults of the operation, and again without if it could not finish.
    fn attempt(&mut self, op: &Op, tool: &str, args: &[String], stdin: Option<&Path>, check: &mut dyn FnMut(&Self, &Output) -> RunResult) -> RunResult {
        let o = self.spawn(op, true, tool, args, stdin);
        self.sane(tool, &o)?;
        check(self, &o)?;
        env::checked(o.out.len() as u64);
        if o.errors > 0 || o.killed {
            env::probe(if o.killed { "run after a kill" } else { "run after an error" });
            let o = self.spawn(op, false, tool, args, stdin);
            self.sane(tool, &o)?;
            check(self, &o)?;
            env::checked(o.out.len() as u64);
        }
        Ok(())
    }

    fn source_arg(&self) -> String {
        self.source.to_string_lossy().into_owned()
    }

    /// hash of the standard input or of a file of no known format
    fn hash_plain(&mut self, op: &Op, stdin: bool) -> RunResult {
        let a = |i: usize| op.a.get(i).copied().unwrap_or(0);
        let name = HASHES[a(0) as usize % 5];
        let mut rng = Rng::new(a(2) as u64);
        let mut bytes = vec![0u8; a(1).clamp(0, 4 << 20) as usize];
        for b in bytes.iter_mut() {
            *b = b'a' + rng.below(26) as u8;
        }
        let path = self.scratch.put("plain.txt", &Data::from_vec(&bytes));
        let digest = refhash::hex(&refhash::digest(name, &bytes));
        let stop = a(3) == 1;
        let mut args = vec!["-d".to_string(), name.to_string()];
        if stop {
            args.push("--stop-on-error".into());
        }
        let (want, alternative) = if stdin {
            (format!("{digest}  -\n"), String::new())
        } else {
            args.push(path.to_string_lossy().into_owned());
            (format!("{digest}  @/plain.txt\n"), "N/A (error)  @/plain.txt\n".to_string())
        };
        self.attempt(op, "keramicshash", &args, stdin.then_some(&path), &mut |_, o| {
            if o.ok() && o.out != want && !(o.errors > 0 && !stop && o.out == alternative) {
                return Err(bad("wrong-hash", "keramicshash", format!("{name} of {} bytes: {} instead of {}", bytes.len(), quoted(&o.out), quoted(&want))));
            }
            Ok(())
        })
    }

    /// hash of all files of a stack
    fn hash_files(&mut self, op: &Op) -> RunResult {
        let a = |i: usize| op.a.get(i).copied().unwrap_or(0);
        let name = HASHES[a(0) as usize % 5];
        let stop = a(1) == 1;
        let identifiers = a(2) == 1;
        let mut args = vec!["-d".to_string(), name.to_string()];
        if stop {
            args.push("--stop-on-error".into());
        }
        if identifiers {
            args.extend(["--volume-path-type".to_string(), "identifier".to_string()]);
        }
        args.push(self.source_arg());
        let stack = self.stack.as_ref().unwrap();
        let systems = file_systems(stack);
        if systems.is_empty() {
            return Ok(());
        }
        let mut want: Vec<(String, String)> = Vec::new();
        // what has a name that is no text can be shown in any way
        let mut odd: Vec<String> = Vec::new();
        for (i, v, f) in &systems {
            for (k, n) in f.nodes.iter().enumerate() {
                if n.kind == Kind::File && !readable(v.content, &f.path(k)) {
                    odd.push(refhash::hex(&refhash::digest(name, &n.data.to_vec())));
                } else if n.kind == Kind::File {
                    let path = format!("{}{}", volume_name(stack, *i, identifiers), display(v.content, &f.path(k), false));
                    want.push((refhash::hex(&refhash::digest(name, &n.data.to_vec())), path));
                }
            }
        }
        self.attempt(op, "keramicshash", &args, None, &mut |_, o| {
            let mut left = bag(want.iter().map(|(h, p)| format!("{h}\t{p}")));
            let mut lost = 0;
            let mut odd = bag(odd.iter().cloned());
            for l in o.out.lines() {
                match left.get_mut(l) {
                    Some(n) if *n > 0 => *n -= 1,
                    _ => {
                        let path = l.strip_prefix("N/A (error)\t");
                        if path.is_some_and(|p| want.iter().any(|w| w.1 == p)) && o.errors > 0 && !stop {
                            lost += 1;
                            continue;
                        }
                        let digest = l.split('\t').next().unwrap_or("");
                        if let Some(n) = odd.get_mut(digest) {
                            if *n > 0 && l.contains("\\") {
                                *n -= 1;
                                continue;
                            }
                        }
                        if path.is_some_and(|p| p.contains("\\")) && o.errors > 0 && !stop {
                            lost += 1;
                            continue;
                        }
                        let shown = digest.len() >= 32 && digest.bytes().all(|c| c.is_ascii_hexdigit());
                        let last = !o.out.ends_with('\n') && o.out.ends_with(l);
                        if (o.ok() || shown) && !(last && !o.ok()) {
                            return Err(bad("wrong-hash", "keramicshash", format!("line {} is not one of {}", quoted(l), cut(&left.keys().cloned().collect::<Vec<_>>()))));
                        }
                    }
                }
            }
            let missing: usize = left.values().sum::<usize>() + odd.values().sum::<usize>();
            if o.ok() && missing != lost {
                let v: Vec<String> = left.iter().filter(|x| *x.1 > 0).map(|x| x.0.clone()).collect();
                return Err(bad("missing-hash", "keramicshash", format!("{missing} of {} lines missing, {lost} errors: {}", want.len(), cut(&v))));
            }
            Ok(())
        })
    }

    fn export(&mut self, op: &Op) -> RunResult {
        let a = |i: usize| op.a.get(i).copied().unwrap_or(0);
        let stack = self.stack.as_ref().unwrap();
        let systems = file_systems(stack);
        if systems.is_empty() {
            return Ok(());
        }
        let (_, volume, image) = &systems[a(0) as usize % systems.len()];
        let given = |p: &[Name]| readable(volume.content, p) && p.iter().flatten().all(|c| !(0xd800..0xe000).contains(c));
        let files: Vec<usize> = (1..image.nodes.len()).filter(|i| image.nodes[*i].kind == Kind::File && given(&image.path(*i))).collect();
        let absent = a(3) == 1 || files.is_empty();
        let path = if absent {
            vec![Name::from([b'n' as u16, b'o' as u16, b'!' as u16])]
        } else {
            image.path(files[a(1) as usize % files.len()])
        };
        // the tool takes what it finds last
        let alike: Vec<Name> = path.iter().map(|n| fold(n)).collect();
        let mut found = Vec::new();
        for (_, v, f) in &systems {
            for (k, n) in f.nodes.iter().enumerate() {
                let p = f.path(k);
                let same = if v.content == Content::Fat { p.iter().map(|n| fold(n)).collect::<Vec<_>>() == alike } else { p == path };
                if same {
                    found.push((n.kind, n.data.clone()));
                }
            }
        }
        if found.len() > 1 {
            return Ok(());
        }
        let folded = volume.content == Content::Fat && a(2) & 2 != 0;
        let shown: Vec<Name> = if folded { path.iter().map(|n| crate::images::fs::swap_case(n)).collect() } else { path.clone() };
        if folded && systems.len() > 1 {
            return Ok(());
        }
        let text: String = shown.iter().map(|n| format!("/{}", characters(volume.content, n))).collect();
        let source = self.source_arg();
        let target = self.scratch.path.join("target");
        let _ = std::fs::remove_dir_all(&target);
        std::fs::create_dir(&target).unwrap();
        let output = target.join("keramics.bin");
        let old = vec![0x5a; (a(4) & 0xf_ffff) as usize];
        if a(2) & 1 != 0 {
            std::fs::write(&output, &old).unwrap();
        }
        let before = a(2) & 1 != 0;
        let args = vec!["-t".to_string(), target.to_string_lossy().into_owned(), source, "path".to_string(), text.clone()];
        self.attempt(op, "keramicsexport", &args, None, &mut |_, o| {
            let names: Vec<String> = std::fs::read_dir(&target).unwrap().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
            if names.iter().any(|n| n != "keramics.bin") {
                return Err(bad("stray-file", "keramicsexport", format!("{names:?}")));
            }
            if !o.ok() {
                return Ok(());
            }
            let got = std::fs::read(&output).ok();
            match found.first() {
                Some((Kind::File, data)) => {
                    let want = data.to_vec();
                    let n = got.as_ref().map(|g| g.len());
                    if got.as_deref() != Some(&want) {
                        let at = got.as_ref().and_then(|g| g.iter().zip(&want).position(|(a, b)| a != b));
                        return Err(bad(
                            "wrong-export",
                            "keramicsexport",
                            format!("{text}: {n:?} bytes instead of {}, first difference at {at:?}, stdout {}", want.len(), quoted(&o.out)),
                        ));
                    }
                    if o.out.contains("No data streams") {
                        return Err(bad("wrong-report", "keramicsexport", format!("{text} was exported: {}", quoted(&o.out))));
                    }
                }
                _ => {
                    if !o.out.contains("No data streams exported") {
                        return Err(bad("wrong-report", "keramicsexport", format!("nothing to export at {text}: {}", quoted(&o.out))));
                    }
                    if got.is_some() != before || before && got.as_deref() != Some(&old) {
                        return Err(bad("wrong-export", "keramicsexport", format!("nothing to export at {text}, output changed")));
                    }
                }
            }
            Ok(())
        })
    }

    /// hash of the media that an image stores
    fn hash_image(&mut self, op: &Op) -> RunResult {
        let stack = self.stack.as_ref().unwrap();
        if !matches!(stack.format, Format::SparseImage | Format::Udif | Format::Ewf) {
            return Ok(());
        }
        let digest = refhash::hex(&refhash::md5(&stack.disk.to_vec()));
        let want = format!("Calculated MD5 hash\t: {digest}");
        let args = vec![self.source_arg(), "hash".to_string()];
        self.attempt(op, "keramicsimage", &args, None, &mut |_, o| {
            let got = o.out.lines().find(|l| l.starts_with("Calculated MD5 hash"));
            if got.is_some_and(|g| g != want && !(o.mute && want.starts_with(g))) || o.ok() && got.is_none() {
                return Err(bad("wrong-hash", "keramicsimage", format!("{} instead of {want}", quoted(&o.out))));
            }
            Ok(())
        })
    }

    fn bodyfile(&mut self, op: &Op) -> RunResult {
        if self.case.p("wild") == 1 {
            // targets of links are shown as they are
            return Ok(());
        }
        let a = |i: usize| op.a.get(i).copied().unwrap_or(0);
        let md5 = a(0) == 1;
        let mut args = vec![self.source_arg(), "bodyfile".to_string()];
        if md5 {
            args.push("--calculate-md5".into());
        }
        let stack = self.stack.as_ref().unwrap();
        // md5, path, identifier, type or mode, size, owner, group; empty: any; times in nanoseconds
        let mut want: Vec<([String; 7], [Option<i128>; 4])> = Vec::new();
        for (i, v, f) in file_systems(stack) {
            for (k, n) in f.nodes.iter().enumerate() {
                let mut path = format!("{}{}", volume_name(stack, i, false), display(v.content, &f.path(k), true));
                if n.kind == Kind::Link {
                    path.push_str(" -> ");
                    path.push_str(&String::from_utf16_lossy(&n.link));
                }
                let hash = match n.kind {
                    _ if !md5 => "0".to_string(),
                    Kind::File => refhash::hex(&refhash::md5(&n.data.to_vec())),
                    _ => String::new(),
                };
                let id = match (v.content, n.id) {
                    (Content::Ext, Some(id)) => id.to_string(),
                    (Content::Fat, Some(id)) if k != 0 => format!("0x{id:08x}"),
                    _ => String::new(),
                };
                let mode = file_mode(v.content, n);
                let kind = match n.kind {
                    _ if !mode.is_empty() => &*mode,
                    Kind::Dir => "d",
                    Kind::Link => "l",
                    Kind::File => "-",
                    Kind::Other => "",
                };
                let size = if n.kind == Kind::File { n.data.size.to_string() } else { String::new() };
                let value = |key: &str| n.meta.iter().find(|m| m.0 == key).map(|m| m.1);
                let number = |key: &str| value(key).map_or(String::new(), |x| x.to_string());
                let times = ["accessed", "modified", "changed", "created"].map(|key| value(key).map(|t| if v.content == Content::Fat { fat_time(key, t) } else { t }));
                want.push(([hash, path, id, kind.to_string(), size, number("owner"), number("group")], times));
            }
        }
        self.attempt(op, "keramicsimage", &args, None, &mut |_, o| {
            let mut left: Vec<&([String; 7], [Option<i128>; 4])> = want.iter().collect();
            for (i, l) in o.out.lines().enumerate() {
                let last = !o.out.ends_with('\n') && o.out.ends_with(l);
                if i == 0 && l == "# extended bodyfile 3 format" || !o.ok() && last {
                    continue;
                }
                let p: Vec<&str> = l.split('|').collect();
                if p.len() != 11 {
                    if o.ok() {
                        return Err(bad("wrong-line", "bodyfile", quoted(l)));
                    }
                    continue;
                }
                let fits = |(w, times): &&([String; 7], [Option<i128>; 4])| {
                    let same = |i: usize| w[i].is_empty() || w[i] == p[[0, 1, 2, 3, 6, 4, 5][i]];
                    same(5) && same(6) && (0..4).all(|i| times[i].is_none_or(|t| t == nanoseconds(p[7 + i]))) && w[1] == p[1] && (w[0].is_empty() || w[0] == p[0]) && (w[2].is_empty() || w[2] == p[2]) && p[3].starts_with(&*w[3]) && (w[4].is_empty() || w[4] == p[6])
                };
                match left.iter().position(|w| fits(w)) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => {
                        let near: Vec<String> = left.iter().filter(|w| w.0[1] == p[1]).map(|w| format!("{} {:?}", w.0.join("|"), w.1)).collect();
                        return Err(bad("wrong-line", "bodyfile", format!("{}; expected {}", quoted(l), cut(&near))));
                    }
                }
            }
            if o.ok() && !left.is_empty() {
                let v: Vec<String> = left.iter().map(|w| w.0.join("|")).collect();
                return Err(bad("missing-line", "bodyfile", format!("{} of {}: {}", left.len(), want.len(), cut(&v))));
            }
            if o.ok() && !o.out.starts_with("# extended bodyfile 3 format\n") {
                return Err(bad("missing-line", "bodyfile", quoted(&o.out)));
            }
            Ok(())
        })
    }

    fn hierarchy(&mut self, op: &Op) -> RunResult {
        let stack = self.stack.as_ref().unwrap();
        let mut want = Vec::new();
        let mut depth = 1;
        let mut add = |depth: usize, kind: &str, path: &str| want.push(format!("{}{kind}: path: {path}", "    ".repeat(depth)));
        add(0, "OS", "@/source/");
        let image = match stack.format {
            Format::Raw => None,
            Format::SparseImage => Some("SPARSEIMAGE"),
            Format::Vhd => Some("VHD"),
            Format::Vhdx => Some("VHDX"),
            Format::Qcow => Some("QCOW"),
            Format::Udif => Some("UDIF"),
            Format::Ewf => Some("EWF"),
        };
        if let Some(k) = image {
            add(1, k, "/");
            depth = 2;
        }
        let table = match stack.table {
            Table::None => None,
            Table::Apm => Some(("APM", "apm")),
            Table::Gpt => Some(("GPT", "gpt")),
            Table::Mbr => Some(("MBR", "mbr")),
        };
        if let Some((k, _)) = table {
            add(depth, k, "/");
            depth += 1;
        }
        for (i, v) in stack.volumes.iter().enumerate() {
            let mut d = depth;
            if let Some((k, p)) = table {
                let suffix = if stack.table == Table::Gpt { format!(" (alias: {})", volume_name(stack, i, true)) } else { String::new() };
                add(d, k, &format!("/{p}{}{suffix}", i + 1));
                d += 1;
            }
            match v.content {
                Content::Fat => add(d, "FAT", "/"),
                Content::Ext => add(d, "EXT", "/"),
                Content::Other => {}
            }
        }
        let args = vec![self.source_arg()];
        self.attempt(op, "keramicsimage", &args, None, &mut |_, o| {
            if !o.ok() {
                return Ok(());
            }
            let got: Vec<String> = o.out.lines().map(|l| l.to_string()).collect();
            // the names of the types are not part of the check
            let plain = |l: &String| match l.split_once(": path: ") {
                Some((a, b)) => format!("{}: {b}", " ".repeat(a.len() - a.trim_start().len())),
                None => l.clone(),
            };
            let g: Vec<String> = got.iter().skip(1).map(plain).collect();
            let w: Vec<String> = want.iter().skip(1).map(plain).collect();
            if g != w {
                return Err(bad("wrong-hierarchy", "keramicsimage", format!("{} instead of {}", quoted(&o.out), quoted(&want.join("\n")))));
            }
            Ok(())
        })
    }

    /// keramicsinfo of the image or of a volume in it
    fn info(&mut self, op: &Op) -> RunResult {
        let a = |i: usize| op.a.get(i).copied().unwrap_or(0);
        let stack = self.stack.as_ref().unwrap();
        let source = self.source_arg();
        let mut args = Vec::new();
        let mut volume = None;
        if stack.format == Format::Raw {
            let i = a(0) as usize % (stack.volumes.len() + 1);
            if i < stack.volumes.len() {
                let v = &stack.volumes[i];
                if v.fs.is_none() {
                    return Ok(());
                }
                if v.offset > 0 || a(1) & 1 != 0 {
                    args.push(format!("--offset={}", if a(1) & 2 != 0 { v.offset.to_string() } else { format!("0x{:x}", v.offset) }));
                }
                volume = Some(v);
            } else if stack.table == Table::None {
                return Ok(());
            }
        }
        let first = stack.files.iter().find(|f| f.0 == stack.main).map(|f| f.1.slice(0, 8)).unwrap();
        if stack.format == Format::Vhd && first != b"conectix" {
            // a fixed disk is taken for what it holds
            return Ok(());
        }
        if stack.format != Format::Raw && stack.format != Format::Ewf {
            // as what it starts with, if that is not compressed
            let main = &stack.files.iter().find(|f| f.0 == stack.main).unwrap().1;
            let known = main.slice(0, 2) == b"ER" || [512, 1024, 2048, 4096].iter().any(|o| main.slice(*o, 8) == b"EFI PART");
            if known || !nest::recognized(main, true).is_empty() {
                return Ok(());
            }
        }
        args.push(source);
        let mut want = Vec::new();
        let mut exact = false;
        match volume {
            Some(v) => {
                let f = v.fs.as_ref().unwrap();
                // a volume in a raw image goes on to the end of it: other formats can show up there
                if stack.volumes.len() > 1 || stack.table != Table::None {
                    let rest = tail(&stack.disk, v.offset);
                    if rest {
                        return Ok(());
                    }
                }
                if a(1) & 4 != 0 && self.case.p("wild") == 0 {
                    args.push("hierarchy".into());
                    exact = true;
                    for k in 0..f.nodes.len() {
                        want.push(display(v.content, &f.path(k), false));
                    }
                } else {
                    want.push(if v.content == Content::Fat { "File Allocation Table (FAT)" } else { "Extended File System (ext)" }.into());
                }
            }
            None if stack.format == Format::Raw => {
                want.push(format!("Number of partitions\t\t: {}", stack.volumes.len()));
                for (i, v) in stack.volumes.iter().enumerate() {
                    want.push(format!("Partition: {}", i + 1));
                    want.push(format!("Offset\t\t\t\t: {} (0x{:08x})", v.offset, v.offset));
                    want.push(format!("({} bytes)", v.size));
                }
            }
            None => {
                want.push("Media size".into());
                want.push(format!("{} bytes", stack.disk.size));
            }
        }
        self.attempt(op, "keramicsinfo", &args, None, &mut |_, o| {
            if !o.ok() {
                return Ok(());
            }
            if exact {
                let mut got: Vec<&str> = o.out.lines().skip(1).collect();
                let mut w: Vec<&str> = want.iter().map(|s| s.as_str()).collect();
                got.sort();
                w.sort();
                if got != w {
                    return Err(bad("wrong-hierarchy", "keramicsinfo", format!("{got:?} instead of {w:?}")));
                }
                return Ok(());
            }
            let mut at = 0;
            for w in &want {
                match o.out[at..].find(w.as_str()) {
                    Some(i) => at += i + w.len(),
                    None => return Err(bad("wrong-info", "keramicsinfo", format!("{} lacks {}", quoted(&o.out), quoted(w)))),
                }
            }
            Ok(())
        })
    }
}

/// Whether there are signatures of other formats at the end of a disk.
fn tail(disk: &Data, offset: u64) -> bool {
    let size = disk.size - offset;
    let at = |o: u64, n: u64| disk.slice(offset + o, n);
    let e = |o: u64| at(size.saturating_sub(o), 8);
    &e(512)[..4] == b"koly" || &e(512) == b"conectix" || &e(511) == b"conectix" || &at(512, 8) == b"EFI PART" || &at(4096, 8) == b"EFI PART"
}

fn plain_link(v: &mut Volume) {
    let Some(f) = &mut v.fs else { return };
    for n in &mut f.nodes {
        if n.kind == Kind::File {
            n.streams.clear();
        }
    }
}

fn range(case: &Case) -> RunResult {
    let mut rng = Rng::new(case.seed);
    let size = case.p("size").max(1) as u64;
    let start = (case.p("start").max(0) as u64).min(size - 1);
    let bytes = rng.bytes(size as usize);
    env::add_file("range", Data::from_vec(&bytes));
    let part = Data::from_vec(&bytes[start as usize..]);
    streamops::run_history(case, "range", &part, &[], &|| {
        let mut s = FileRangeDataStream::new(start);
        s.open("/simfs/range")?;
        let s: DataStreamReference = Arc::new(RwLock::new(s));
        Ok(s)
    })
}

impl Prop for C22Tools {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn quick_runs(&self) -> u64 {
        2_000
    }
    fn gen_case(&self, rng: &mut Rng, index: u64, thorough: bool) -> Case {
        if index % 4 == 3 {
            let mut c = Case::new("C22", "range", rng.next());
            let size = *rng.pick(&[1i64, 100, 4096, 70_000, 200_000]);
            c.set("size", size);
            c.set("start", match rng.below(3) {
                0 => 0,
                1 => size - 1,
                _ => rng.below(size as u64) as i64,
            });
            let left = size - c.p("start");
            streamops::gen_ops(rng, &mut c, left as u64, &[], 12, 5000, 0);
            streamops::gen_faults(rng, &mut c, true, 3, 4);
            return c;
        }
        let mut c = Case::new("C22", "tools", rng.next());
        c.set("format", rng.below(7) as i64);
        c.set("layers", rng.range(1, 3) as i64);
        c.set("table", *rng.pick(&[0i64, 1, 2, 3]));
        c.set("volumes", rng.range(1, 3) as i64);
        c.set("nodes", rng.range(1, if thorough { 24 } else { 12 }) as i64);
        c.set("depth", rng.chance(1, 6) as i64);
        c.set("wild", rng.chance(1, 3) as i64);
        let n = rng.range(2, if thorough { 10 } else { 6 });
        for _ in 0..n {
            let x = rng.next() as i64 & 0xffff_ffff;
            let y = rng.next() as i64 & 0xffff_ffff;
            let t = rng.below(5) as i64;
            let size = match rng.below(4) {
                0 => rng.below(200),
                1 => *rng.pick(&[0u64, 8191, 8192, 65535, 65536, 65537, 131072]),
                _ => rng.below(400_000),
            } as i64;
            let id = match rng.below(12) {
                0 => c.op("stdin", &[t, size, x, 0]),
                1 => c.op("file", &[t, size, x, rng.below(2) as i64]),
                2..=4 => c.op("hash", &[t, rng.below(2) as i64, rng.below(2) as i64]),
                5 | 6 => c.op("export", &[rng.below(4) as i64, x, rng.below(4) as i64, rng.chance(1, 8) as i64, y]),
                7 => c.op("imagehash", &[]),
                8 | 9 => c.op("bodyfile", &[rng.below(2) as i64]),
                10 => c.op("hierarchy", &[]),
                _ => c.op("info", &[x, rng.below(8) as i64]),
            };
            // faults
            if rng.chance(1, 2) {
                let span = *rng.pick(&[20u64, 100, 400, 2000]);
                for io in 0..span {
                    if rng.chance(1, 3) {
                        let kind = *rng.pick(&["short", "shortfrac", "eintr"]);
                        let arg = rng.below(5000) as i64;
                        c.fault(id, io as u32, kind, arg);
                    }
                }
            }
            if rng.chance(1, 3) {
                let at = rng.skewed(1500) as u32;
                c.faults.retain(|f| f.op != id || f.io != at);
                let kind = *rng.pick(&["err", "err", "nospace", "kill"]);
                c.fault(id, at, kind, 0);
            }
        }
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        if case.scenario == "range" {
            return range(case);
        }
        let mut sim = Sim { case, scratch: Scratch::new(), stack: None, source: PathBuf::new(), turns: 0 };
        if case.ops.iter().any(|o| o.kind != "stdin" && o.kind != "file") {
            let mut rng = Rng::new(case.seed);
            let mut stack = nest::build(
                &mut rng,
                &nest::Params {
                    format: nest::FORMATS[case.p("format") as usize % 7],
                    layers: case.p("layers").max(1) as u32,
                    table: nest::TABLES[case.p("table") as usize % 4],
                    volumes: case.p("volumes").max(1) as usize,
                    nodes: case.p("nodes").max(1) as usize,
                    depth: case.p("depth").max(0) as u32,
                    wild: case.p("wild") == 1,
                    small: true,
                    only_fs: false,
                    room: 6 << 20,
                },
            );
            for v in &mut stack.volumes {
                plain_link(v);
            }
            for (name, data) in &stack.files {
                sim.scratch.put(&format!("source/{name}"), data);
            }
            sim.source = sim.scratch.path.join("source").join(&stack.main);
            env::log(|| format!("{}: {:?} with {} layers, {:?} with {} volumes", stack.main, stack.format, stack.layers, stack.table, stack.volumes.len()), stack.disk.size);
            sim.stack = Some(stack);
        }
        for op in &case.ops {
            env::op_begin(op.id);
            match op.kind.as_str() {
                "stdin" => sim.hash_plain(op, true)?,
                "file" => sim.hash_plain(op, false)?,
                "hash" => sim.hash_files(op)?,
                "export" => sim.export(op)?,
                "imagehash" => sim.hash_image(op)?,
                "bodyfile" => sim.bodyfile(op)?,
                "hierarchy" => sim.hierarchy(op)?,
                "info" => sim.info(op)?,
                _ => {}
            }
            env::probe(&op.kind);
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a tool that ends with success has reported, listed, hashed or exported exactly what its source holds, whatever interruptions and short transfers it meets; one that meets an error says so and ends with failure, and repeated after the error or after being killed it succeeds"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["keramics-tools (the four tools as processes)", "keramics-vfs", "keramics-formats", "keramics-core", "keramics-hashes"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["I/O calls of the processes (preloaded library in front of libc, real files in a scratch directory)", "image builders"]
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        vec![("nodes", 1), ("volumes", 1), ("layers", 1), ("depth", 0)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["names of letters and digits; time fields of listings are not compared"]
    }
}
