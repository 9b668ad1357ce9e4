//! C20: damage to bytes that a checksum protects is an error, or does not matter.

use std::collections::BTreeSet;
use std::sync::atomic::Ordering;

use crate::case::{Case, Op};
use crate::data::Data;
use crate::env;
use crate::images::fs::FsImage;
use crate::images::shield::{self, Shield};
use crate::images::{self, Image};
use crate::rng::Rng;
use crate::runner::{Prop, RunResult, Violation};
use crate::stream;
use crate::streamops::{self, Session};

use super::filesystems::{self, Run, SLOTS};
use super::images as storage;

pub struct C20Prop;
pub static C20: C20Prop = C20Prop;

enum Built {
    Image(Image),
    Volume(FsImage),
}

const FORMATS: [&str; 5] = ["ewf", "gpt", "vhdx", "udif", "ext"];

fn build(case: &Case) -> (Built, Vec<Shield>) {
    shield::collect(|| match case.p("format") {
        0 => Built::Image((storage::C13.build)(case)),
        1 => Built::Image((storage::C14.build)(case)),
        2 => Built::Image((storage::C10.build)(case)),
        3 => Built::Image((storage::C12.build)(case)),
        _ => Built::Volume((filesystems::C16.build)(case)),
    })
}

/// Changes bytes the way storage does.
fn spoil(rng: &mut Rng, b: &mut [u8], others: &[Vec<u8>]) -> &'static str {
    let n = b.len() as u64;
    let at = match rng.below(4) {
        0 => rng.below(n.min(16)),
        1 => n - 1 - rng.below(n.min(16)),
        _ => rng.below(n),
    } as usize;
    let run = (rng.range(1, 64) as usize).min(b.len() - at);
    match rng.below(11) {
        0 | 1 => {
            b[at] ^= 1 << rng.below(8);
            "bit"
        }
        2 => {
            for _ in 0..rng.range(2, 8) {
                b[rng.below(n) as usize] ^= 1 << rng.below(8);
            }
            "bits"
        }
        3 => {
            b[at] = rng.next() as u8;
            "byte"
        }
        4 => {
            // a sector that was not written
            let s = at / 512 * 512;
            let e = (s + 512).min(b.len());
            b[s..e].fill(0);
            "lost sector"
        }
        5 => {
            b[at..].fill(0);
            "torn write"
        }
        6 => {
            let v = rng.bytes(run);
            b[at..at + run].copy_from_slice(&v);
            "noise"
        }
        7 => {
            b[at..at + run].fill(0xff);
            "ones"
        }
        8 if at + 1 < b.len() => {
            b.swap(at, at + 1);
            "swapped bytes"
        }
        9 if at / 4 * 4 + 4 <= b.len() => {
            let o = at / 4 * 4;
            let v = u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
            let d = *rng.pick(&[1u32, 2, 8, 512, 0x1000_0000]);
            let v = if rng.chance(1, 2) { v.wrapping_add(d) } else { v.wrapping_sub(d) };
            b[o..o + 4].copy_from_slice(&v.to_le_bytes());
            "other value"
        }
        10 if !others.is_empty() => {
            let o = rng.pick(others);
            b.copy_from_slice(o);
            "misdirected write"
        }
        _ => {
            b[at..].rotate_left(1);
            "shifted bytes"
        }
    }
}

struct Damage {
    files: Vec<(usize, Data)>,
    shields: Vec<Shield>,
}

impl Damage {
    fn read(&self, s: &Shield) -> Vec<u8> {
        let id = self.files[s.file].0;
        env::with(|e| e.files[id].data.slice(s.at, s.len))
    }

    fn write(&self, s: &Shield, b: &[u8]) {
        let id = self.files[s.file].0;
        env::with(|e| e.files[id].data.write(s.at, b));
    }

    fn original(&self, s: &Shield) -> Vec<u8> {
        self.files[s.file].1.slice(s.at, s.len)
    }

    fn apply(&self, op: &Op) {
        if self.shields.is_empty() {
            return;
        }
        let mut rng = Rng::new(op.a[1] as u64);
        let pick = op.a[0] as usize;
        // by what it protects, or any
        let s = if op.a[2] == 0 {
            &self.shields[pick % self.shields.len()]
        } else {
            let labels: Vec<&str> = self.shields.iter().map(|s| s.label).collect::<BTreeSet<_>>().into_iter().collect();
            let label = labels[op.a[2] as usize % labels.len()];
            let of: Vec<&Shield> = self.shields.iter().filter(|s| s.label == label).collect();
            of[pick % of.len()]
        };
        let old = self.original(s);
        if op.kind == "mend" {
            self.write(s, &old);
            env::log(|| format!("  mend {} in file {} at {}", s.label, s.file, s.at), s.at);
            env::probe("mended");
            return;
        }
        let before = self.read(s);
        let others: Vec<Vec<u8>> = if matches!(s.label, "inode" | "group descriptor") {
            self.shields.iter().filter(|o| o.label == s.label && o.at != s.at).map(|o| self.original(o)).collect()
        } else {
            Vec::new()
        };
        let mut b = before.clone();
        let how = spoil(&mut rng, &mut b, &others);
        if b == old || s.guard.passes(&b) {
            env::probe("damage-without-effect");
            return;
        }
        env::log(
            || {
                let d: Vec<usize> = (0..b.len()).filter(|i| b[*i] != old[*i]).collect();
                format!(
                    "  damage ({how}) {} in file {} at {}, {} bytes: {} differ, the first at {}",
                    s.label,
                    s.file,
                    s.at,
                    s.len,
                    d.len(),
                    d[0]
                )
            },
            s.at ^ crate::rng::hash_str(how),
        );
        env::with(|e| *e.fired.entry(format!("damage:{how}")).or_insert(0) += 1);
        env::probe(&format!("damaged {}", s.label));
        self.write(s, &b);
    }
}

/// An error is an answer, unless it is about what was read.
fn tolerate<T>(r: Result<T, Violation>) -> Result<Option<T>, Violation> {
    match r {
        Ok(t) => Ok(Some(t)),
        Err(v) if v.class == "unexpected-error" && !v.detail.contains(images::WRONG) => {
            env::probe("damage-reported");
            Ok(None)
        }
        Err(v) => Err(v),
    }
}

fn is_damage(op: &Op) -> bool {
    matches!(op.kind.as_str(), "damage" | "mend")
}

impl Prop for C20Prop {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn quick_runs(&self) -> u64 {
        6_000
    }
    fn gen_case(&self, rng: &mut Rng, _index: u64, thorough: bool) -> Case {
        let mut c = Case::new("C20", "damage", rng.next());
        let format = *rng.pick(&[0i64, 0, 0, 0, 1, 1, 2, 3, 4, 4, 4, 4]);
        c.set("format", format);
        match format {
            0 => (storage::C13.draw)(rng, &mut c, thorough),
            1 => {
                (storage::C14.draw)(rng, &mut c, thorough);
                let bps = *rng.pick(&[512i64, 512, 4096]);
                c.set("kind", 1);
                c.set("bps", bps);
                c.set("damage", *rng.pick(&[0i64, 0, 0, 5]));
            }
            2 => (storage::C10.draw)(rng, &mut c, thorough),
            3 => {
                (storage::C12.draw)(rng, &mut c, thorough);
                c.set("method", rng.range(3, 4) as i64);
            }
            _ => {
                (filesystems::C16.draw)(rng, &mut c, thorough);
                let mut f = c.p("features");
                if f & images::ext::REV0 == 0 {
                    f |= images::ext::CSUM;
                }
                c.set("features", f);
                c.set("nodes", rng.range(1, 20) as i64);
            }
        }
        let damage = |rng: &mut Rng, c: &mut Case| {
            let label = if rng.chance(1, 2) { 0 } else { rng.below(100) as i64 + 1 };
            let kind = if rng.chance(1, 12) { "mend" } else { "damage" };
            c.op(kind, &[rng.next() as i64 & 0xffff_ffff, rng.next() as i64 & 0xffff_ffff, label]);
        };
        // before the first open
        for _ in 0..*rng.pick(&[0u64, 1, 1, 1, 2, 4]) {
            damage(rng, &mut c);
        }
        let rounds = rng.range(1, 4);
        for _ in 0..rounds {
            if format == 4 {
                for _ in 0..rng.range(1, 6) {
                    let node = rng.next() as i64 & 0xffff_ffff;
                    let slot = rng.below(SLOTS as u64) as i64;
                    let x = rng.next() as i64 & 0xffff_ffff;
                    match rng.below(12) {
                        0..=3 => c.op("open", &[rng.below(5) as i64, node, slot]),
                        4 | 5 => c.op("absent", &[node, x, rng.below(4) as i64]),
                        6 => c.op("list", &[slot]),
                        7 | 8 => c.op("childname", &[slot, x]),
                        _ => c.op("read", &[slot, x, rng.below(8) as i64 + 1]),
                    };
                }
            } else if let (Built::Image(image), _) = build(&c) {
                let max = *rng.pick(&[2048u64, 16384, 100_000]);
                let n = rng.range(1, 5);
                streamops::gen_ops(rng, &mut c, image.guest.size, &image.hot, n, max, 0);
            }
            if rng.chance(1, 2) {
                damage(rng, &mut c);
            }
            if rng.chance(1, 4) {
                c.op("reopen", &[]);
            }
        }
        if rng.chance(1, 4) {
            streamops::gen_faults(rng, &mut c, false, 40, 40);
        }
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        let (built, shields) = build(case);
        let tag = format!("{}-damage", FORMATS[case.p("format").clamp(0, 4) as usize]);
        match built {
            Built::Image(image) => {
                image.install("img/");
                let files = image.files.iter().map(|f| (env::file_id(&format!("img/{}", f.0)).unwrap(), f.1.clone())).collect();
                run_image(case, &tag, &image, &Damage { files, shields })
            }
            Built::Volume(image) => {
                let file = env::add_file("volume", image.volume.clone());
                let d = Damage { files: vec![(file, image.volume.clone())], shields };
                run_volume(case, &tag, &image, file, &d)
            }
        }
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        vec![("size", 512), ("nodes", 1), ("groups", 1), ("layers", 0), ("overflow", 0), ("sectors", 64)]
    }
    fn alloc_limit(&self) -> usize {
        2 << 30
    }
    fn rule(&self) -> &'static str {
        "a case is an EWF, GPT, VHDX, UDIF (zlib, bzip2) or ext (metadata checksums) image from the builders of C10, C12-C14 and C16, which note the byte ranges that a checksum protects; damage to those ranges (flipped bits, lost sectors, torn and misdirected writes, noise, other values, shifted bytes) at points of a history of opens, reads, lookups and listings, before or after the open; damage that the checksum cannot show, because it matches or none is stored, is not applied; every operation must give an error or exactly what the undamaged image holds; non-trivial: at least one oracle comparison was made"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["keramics-formats ewf, gpt, vhdx, udif, ext", "keramics-checksums", "keramics-compression zlib, bzip2", "keramics-core DataStream"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["file system and operating system streams (simulated disk with damage and fault injection)"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a stored checksum of zero in VHDX and ext means that there is none"]
    }
}

fn opened<T>(tag: &str, r: Result<T, keramics_core::ErrorTrace>) -> Result<Option<T>, Violation> {
    match r {
        Ok(t) => Ok(Some(t)),
        Err(e) => {
            let mut t = e.to_string();
            if let Some(i) = t.find(images::WRONG) {
                t.truncate(t.floor_char_boundary(i + 400));
                return Err(Violation::new("wrong-metadata", &format!("{tag}:wrong-metadata"), format!("{tag}: {t}")));
            }
            env::probe("damage-reported-at-open");
            Ok(None)
        }
    }
}

fn run_image(case: &Case, tag: &str, image: &Image, damage: &Damage) -> RunResult {
    let mut session: Option<Session> = None;
    let mut tried = false;
    for op in &case.ops {
        env::op_begin(op.id);
        if is_damage(op) {
            damage.apply(op);
            continue;
        }
        if op.kind == "reopen" || !tried {
            tried = true;
            session = opened(tag, (image.open)("img/"))?.map(|s| Session::new(s, &image.guest, tag));
        }
        if let Some(s) = session.as_mut() {
            tolerate(s.step(op))?;
        }
    }
    env::FAULTS_ON.store(false, Ordering::SeqCst);
    let mut rng = Rng::new(case.seed ^ 0x5eeb);
    let chunk = *rng.pick(&[4096u64, 65536, 1000, 131_072]);
    let size = image.guest.size;
    if session.is_none() {
        session = opened(tag, (image.open)("img/"))?.map(|s| Session::new(s, &image.guest, tag));
    }
    let Some(mut s) = session else {
        env::checked(0);
        return Ok(());
    };
    let all = size <= 4 << 20;
    let mut at = 0;
    for _ in 0..if all { 1 + size * 2 / chunk } else { 32 } {
        if !all {
            at = streamops::pick_offset(&mut rng, size, &image.hot);
        } else if at >= size {
            break;
        }
        let op = Op { id: 1_000_000, actor: 0, kind: "readat".into(), a: vec![at as i64, chunk as i64] };
        env::op_begin(op.id);
        at = match tolerate(s.step(&op))? {
            Some(_) if s.pos > at => s.pos,
            // every failure decompresses the block again
            _ => at + chunk.max(size / 64),
        };
    }
    Ok(())
}

fn run_volume(case: &Case, tag: &str, image: &FsImage, file: usize, damage: &Damage) -> RunResult {
    let mut run: Option<Run> = None;
    let mut tried = false;
    for op in &case.ops {
        env::op_begin(op.id);
        if is_damage(op) {
            damage.apply(op);
            continue;
        }
        if op.kind == "reopen" || !tried {
            tried = true;
            run = opened(tag, (image.open)(&stream::open(file)))?.map(|f| Run::new(tag, image, f, false));
        }
        if let Some(r) = run.as_mut() {
            tolerate(r.attempt(op))?;
        }
    }
    env::FAULTS_ON.store(false, Ordering::SeqCst);
    if run.is_none() {
        run = opened(tag, (image.open)(&stream::open(file)))?.map(|f| Run::new(tag, image, f, false));
    }
    let Some(mut r) = run else {
        env::checked(0);
        return Ok(());
    };
    for node in 0..image.nodes.len() {
        let op = Op { id: 1_000_000, actor: 0, kind: "visit".into(), a: vec![node as i64] };
        env::op_begin(op.id);
        tolerate(r.attempt(&op))?;
    }
    Ok(())
}
