//! C15-C17: the files and directories of a volume are those stored on it.

use std::sync::atomic::Ordering;

use keramics_core::{DataStreamReference, ErrorTrace};

use crate::case::{Case, Op};
use crate::data::Data;
use crate::env;
use crate::images::fs::{self, Entry, Fs, FsImage, Kind, Name, show};
use crate::rng::Rng;
use crate::runner::{Prop, RunResult, Violation};
use crate::stream;
use crate::streamops::{self, Session};

pub struct FsProp {
    pub id: &'static str,
    pub tag: &'static str,
    pub runs: u64,
    pub draw: fn(&mut Rng, &mut Case, bool),
    pub build: fn(&Case) -> FsImage,
    pub shrink: &'static [(&'static str, i64)],
    pub rule: &'static str,
    pub real: &'static [&'static str],
}

pub(super) const SLOTS: usize = 3;

impl Prop for FsProp {
    fn id(&self) -> &'static str {
        self.id
    }
    fn quick_runs(&self) -> u64 {
        self.runs
    }
    fn gen_case(&self, rng: &mut Rng, _index: u64, thorough: bool) -> Case {
        let mut c = Case::new(self.id, self.tag, rng.next());
        (self.draw)(rng, &mut c, thorough);
        c.set("clash", rng.chance(1, 100) as i64);
        let n = rng.range(3, if thorough { 40 } else { 18 });
        for _ in 0..n {
            let node = rng.next() as i64 & 0xffff_ffff;
            let slot = rng.below(SLOTS as u64) as i64;
            let x = rng.next() as i64 & 0xffff_ffff;
            match rng.below(12) {
                0..=3 => c.op("open", &[rng.below(6) as i64, node, slot]),
                4 | 5 => c.op("absent", &[node, x, rng.below(4) as i64]),
                6 => c.op("list", &[slot]),
                7 | 8 => c.op("childname", &[slot, x]),
                _ => c.op("read", &[slot, x, rng.below(8) as i64 + 1]),
            };
        }
        streamops::gen_faults(rng, &mut c, false, 40, 60);
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        let image = (self.build)(case);
        let file = env::add_file("volume", image.volume.clone());
        env::log(|| format!("{} nodes, volume of {} bytes", image.nodes.len(), image.volume.size), image.nodes.len() as u64);
        run_fs(case, self.tag, &image, &|| (image.open)(&stream::open(file)))
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        self.shrink.to_vec()
    }
    fn alloc_limit(&self) -> usize {
        2 << 30
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real(&self) -> Vec<&'static str> {
        self.real.to_vec()
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["the volume's data stream (simulated disk with fault injection)"]
    }
}

pub(super) struct Slot<'a> {
    entry: Box<dyn Entry>,
    node: usize,
    session: Option<(usize, Session<'a>)>,
}

pub(super) struct Run<'a> {
    tag: &'a str,
    image: &'a FsImage,
    fs: Box<dyn Fs>,
    slots: Vec<Option<Slot<'a>>>,
    /// Whether to use an identifier that is also that of the root.
    clash: bool,
}

/// Outcome of a step: an error is judged by the caller, which knows about faults.
pub(super) enum Fail {
    Error(ErrorTrace),
    Wrong(Violation),
}

impl From<ErrorTrace> for Fail {
    fn from(e: ErrorTrace) -> Self {
        Fail::Error(e)
    }
}

pub(super) type Step<T> = Result<T, Fail>;

pub fn run_fs(case: &Case, tag: &str, image: &FsImage, open: &dyn Fn() -> Result<Box<dyn Fs>, ErrorTrace>) -> RunResult {
    let fs = streamops::open_with_faults(tag, open)?;
    let mut r = Run::new(tag, image, fs, case.p("clash") == 1);
    for op in &case.ops {
        env::op_begin(op.id);
        if !r.attempt(op)? {
            env::probe("op-failed-by-fault");
            if op.id % 2 == 0 {
                let on = env::FAULTS_ON.swap(false, Ordering::SeqCst);
                env::op_begin(op.id);
                let x = r.attempt(op);
                env::FAULTS_ON.store(on, Ordering::SeqCst);
                x?;
                env::probe("op-retried-after-heal");
            }
        }
    }
    r.about()?;
    // the faults stop: everything must be there
    env::FAULTS_ON.store(false, Ordering::SeqCst);
    let op = Op {
        id: 1_000_000,
        actor: 0,
        kind: "walk".into(),
        a: vec![],
    };
    for s in 0..SLOTS {
        env::op_begin(op.id);
        let l = Op {
            kind: "list".into(),
            a: vec![s as i64],
            ..op.clone()
        };
        r.attempt(&l)?;
    }
    env::op_begin(op.id);
    r.attempt(&op)?;
    Ok(())
}

impl<'a> Run<'a> {
    pub(super) fn new(tag: &'a str, image: &'a FsImage, fs: Box<dyn Fs>, clash: bool) -> Run<'a> {
        Run {
            tag,
            image,
            fs,
            slots: (0..SLOTS).map(|_| None).collect(),
            clash,
        }
    }

    fn wrong<T>(&self, class: &str, text: String) -> Step<T> {
        Err(Fail::Wrong(Violation::new(class, &format!("{}:{}", self.tag, class), format!("{}: {}", self.tag, text))))
    }

    pub(super) fn attempt(&mut self, op: &Op) -> Result<bool, Violation> {
        env::log(|| format!("  {} {:?}", op.kind, op.a), crate::rng::hash_i64(&op.a) ^ crate::rng::hash_str(&op.kind));
        let r = match op.kind.as_str() {
            "open" => self.open(op),
            "absent" => self.absent(op),
            "list" => self.list(op),
            "childname" => self.childname(op),
            "read" => self.read(op),
            "walk" => self.walk(op),
            "visit" => self.visit(op),
            _ => Ok(true),
        };
        match r {
            Ok(b) => Ok(b),
            Err(Fail::Wrong(v)) => Err(v),
            Err(Fail::Error(e)) => {
                if env::op_errors(op.id) > 0 {
                    return Ok(false);
                }
                let mut t = e.to_string();
                t.truncate(t.floor_char_boundary(500));
                Err(Violation::new(
                    "unexpected-error",
                    &format!("{}:unexpected-error", self.tag),
                    format!("{}: op {} {} {:?}: {}", self.tag, op.id, op.kind, op.a, t),
                ))
            }
        }
    }

    /// What is known of the volume was read when it was opened.
    fn about(&self) -> Result<(), Violation> {
        let (label, meta) = self.fs.about();
        env::checked(label.len() as u64);
        let wrong = |text: String| Err(Violation::new("wrong-metadata", &format!("{}:wrong-volume-metadata", self.tag), format!("{}: {}", self.tag, text)));
        if label != self.image.label {
            return wrong(format!("volume label {:?} instead of {:?}", show(&label), show(&self.image.label)));
        }
        for (key, want) in &self.image.meta {
            if let Some((_, got)) = meta.iter().find(|m| m.0 == *key)
                && got != want
            {
                return wrong(format!("volume {key} is {got} instead of {want}"));
            }
        }
        Ok(())
    }

    fn describe(&self, node: usize) -> String {
        format!("/{}", self.image.path(node).iter().map(|n| show(n)).collect::<Vec<_>>().join("/"))
    }

    /// The entry must be the node.
    fn check(&self, e: &mut Box<dyn Entry>, node: usize, how: &str) -> Step<()> {
        let n = &self.image.nodes[node];
        let name = e.name()?;
        let unnamed = self.image.unnamed && name.is_none() && (how == "identified" || how == "entry");
        let name = name.unwrap_or_default();
        env::checked(name.len() as u64 * 2);
        if node != 0 && name != n.name && !unnamed {
            return self.wrong("wrong-name", format!("{} {}: name {:?}", how, self.describe(node), show(&name)));
        }
        let k = e.kind();
        if k != n.kind {
            return self.wrong("wrong-kind", format!("{} {}: {:?} instead of {:?}", how, self.describe(node), k, n.kind));
        }
        if n.kind == Kind::File {
            let s = e.size();
            if s != n.data.size {
                return self.wrong("wrong-size", format!("{} {}: size {} instead of {}", how, self.describe(node), s, n.data.size));
            }
        }
        let l = e.link()?;
        let want = if n.kind == Kind::Link { Some(&n.link) } else { None };
        if l.as_ref() != want {
            return self.wrong(
                "wrong-link",
                format!("{} {}: link {:?} instead of {:?}", how, self.describe(node), l.map(|x| show(&x)), want.map(|x| show(x))),
            );
        }
        let meta = e.meta()?;
        for (key, want) in &n.meta {
            if let Some((_, got)) = meta.iter().find(|m| m.0 == *key)
                && got != want
            {
                return self.wrong("wrong-metadata", format!("{} {}: {} is {} instead of {}", how, self.describe(node), key, got, want));
            }
        }
        if let Some(mut names) = e.stream_names()? {
            let mut want: Vec<Name> = n.streams.iter().map(|s| s.0.clone()).collect();
            want.sort();
            names.sort();
            if names != want {
                return self.wrong(
                    "wrong-streams",
                    format!(
                        "{} {}: streams {:?} instead of {:?}",
                        how,
                        self.describe(node),
                        names.iter().map(|x| show(x)).collect::<Vec<_>>(),
                        want.iter().map(|x| show(x)).collect::<Vec<_>>()
                    ),
                );
            }
        }
        Ok(())
    }

    fn open(&mut self, op: &Op) -> Step<bool> {
        if op.a[0] == 5 && !self.image.unused.is_empty() {
            let id = self.image.unused[op.a[1] as usize % self.image.unused.len()];
            env::checked(1);
            return match self.fs.by_id(id)? {
                Some(mut e) => match e.unused() {
                    true => Ok(true),
                    false => self.wrong("found-absent", format!("entry {id} is in use")),
                },
                None => Ok(true),
            };
        }
        let node = op.a[1] as usize % self.image.nodes.len();
        let slot = op.a[2] as usize % SLOTS;
        let mut path = self.image.path(node);
        let how = op.a[0];
        let clash = self.image.root_id.is_some() && self.image.nodes[node].id == self.image.root_id && node != 0;
        let mut e = match how {
            2 if self.image.nodes[node].id.is_some() && (!clash || self.clash) => match self.fs.by_id(self.image.nodes[node].id.unwrap())? {
                Some(mut e) => {
                    if clash && e.name()?.is_none() {
                        // the root and its first entry are known by the same identifier
                        return Err(Fail::Wrong(Violation::new(
                            "wrong-name",
                            &format!("{}:root-identifier-clash", self.tag),
                            format!("{}: the root directory was returned for the identifier of {}", self.tag, self.describe(node)),
                        )));
                    }
                    e
                }
                None => return self.wrong("not-found", format!("no entry by identifier for {}", self.describe(node))),
            },
            3 => {
                let mut e = self.fs.root()?;
                let mut at = Vec::new();
                for p in &path {
                    at.push(p.clone());
                    e = match e.child_named(p)? {
                        Some(e) => e,
                        None => return self.wrong("not-found", format!("no sub entry {} for {}", show(p), self.describe(node))),
                    };
                }
                e
            }
            4 => {
                let mut e = self.fs.root()?;
                'next: for p in &path {
                    for i in 0..e.count()? {
                        let mut c = e.child(i)?;
                        if c.name()?.as_ref() == Some(p) {
                            e = c;
                            continue 'next;
                        }
                    }
                    return self.wrong("not-found", format!("{} is not listed, for {}", show(p), self.describe(node)));
                }
                e
            }
            _ => {
                if how == 1 && self.image.fold {
                    for p in path.iter_mut() {
                        *p = fs::swap_case(p);
                    }
                }
                match self.fs.by_path(&path)? {
                    Some(e) => e,
                    None => return self.wrong("not-found", format!("no entry at path {} (how {how})", self.describe(node))),
                }
            }
        };
        self.check(&mut e, node, if how == 2 { "identified" } else { "opened" })?;
        self.slots[slot] = Some(Slot {
            entry: e,
            node,
            session: None,
        });
        Ok(true)
    }

    /// A name that is not in the directory.
    fn other_name(&self, node: usize, x: u64, how: i64) -> Name {
        let n = &self.image.nodes[node];
        let mut rng = Rng::new(x);
        for _ in 0..50 {
            let mut name = match (how, n.children.is_empty()) {
                (0 | 1, false) => {
                    let c = n.children[rng.below(n.children.len() as u64) as usize];
                    let mut name = self.image.nodes[c].name.clone();
                    match rng.below(5) {
                        0 => {
                            name.pop();
                        }
                        1 => name.push(b'x' as u16),
                        2 => {
                            let i = rng.below(name.len() as u64) as usize;
                            name[i] = b'q' as u16;
                        }
                        3 => {
                            let i = rng.below(name.len() as u64) as usize;
                            name.remove(i);
                        }
                        _ => {
                            if !self.image.fold {
                                name = fs::swap_case(&name);
                            } else {
                                name.insert(0, b'a' as u16);
                            }
                        }
                    }
                    name
                }
                _ => fs::random_name(&mut rng, 30, &[]),
            };
            name.truncate(255);
            if name.is_empty() || name.iter().all(|c| *c == b'.' as u16) || name.contains(&(b'/' as u16)) {
                continue;
            }
            let same = |a: &Name, b: &Name| if self.image.fold { fs::fold(a) == fs::fold(b) } else { a == b };
            if !n.children.iter().any(|c| same(&self.image.nodes[*c].name, &name)) {
                return name;
            }
        }
        b"no such name at all".iter().map(|c| *c as u16).collect()
    }

    fn absent(&mut self, op: &Op) -> Step<bool> {
        let node = op.a[0] as usize % self.image.nodes.len();
        // through a link there may be more
        if matches!(self.image.nodes[node].kind, Kind::Link) {
            return Ok(true);
        }
        let mut path = self.image.path(node);
        path.push(self.other_name(node, op.a[1] as u64, op.a[2]));
        if op.a[2] == 3 {
            path.push(b"x".iter().map(|c| *c as u16).collect());
        }
        env::checked(1);
        if self.fs.by_path(&path)?.is_some() {
            return self.wrong(
                "found-absent",
                format!("an entry was found at /{}", path.iter().map(|n| show(n)).collect::<Vec<_>>().join("/")),
            );
        }
        Ok(true)
    }

    fn childname(&mut self, op: &Op) -> Step<bool> {
        let slot = op.a[0] as usize % SLOTS;
        let x = op.a[1] as usize;
        let Some(mut s) = self.slots[slot].take() else { return Ok(true) };
        let r = self.childname_in(&mut s, x);
        self.slots[slot] = Some(s);
        if let Some((e, node)) = r? {
            self.slots[(slot + 1) % SLOTS] = Some(Slot {
                entry: e,
                node,
                session: None,
            });
        }
        Ok(true)
    }

    fn childname_in(&mut self, s: &mut Slot<'a>, x: usize) -> Step<Option<(Box<dyn Entry>, usize)>> {
        let n = &self.image.nodes[s.node];
        if n.kind != Kind::Dir {
            return Ok(None);
        }
        if n.children.is_empty() || x % 4 == 0 {
            let name = self.other_name(s.node, x as u64, (x % 3) as i64);
            env::checked(1);
            if s.entry.child_named(&name)?.is_some() {
                return self.wrong("found-absent", format!("{} has a sub entry {}", self.describe(s.node), show(&name)));
            }
            return Ok(None);
        }
        let c = n.children[x % n.children.len()];
        match s.entry.child_named(&self.image.nodes[c].name)? {
            Some(mut e) => {
                self.check(&mut e, c, "sub entry")?;
                Ok(Some((e, c)))
            }
            None => self.wrong("not-found", format!("no sub entry for {}", self.describe(c))),
        }
    }

    fn list(&mut self, op: &Op) -> Step<bool> {
        let slot = op.a[0] as usize % SLOTS;
        let Some(mut s) = self.slots[slot].take() else { return Ok(true) };
        let node = s.node;
        let r = self.list_in(&mut s.entry, node);
        self.slots[slot] = Some(s);
        r.map(|_| true)
    }

    /// Compares a directory with the model; returns the entries with their nodes.
    fn list_in(&mut self, e: &mut Box<dyn Entry>, node: usize) -> Step<Vec<(Box<dyn Entry>, usize)>> {
        self.check(e, node, "entry")?;
        if self.image.nodes[node].kind != Kind::Dir {
            return Ok(Vec::new());
        }
        let n = e.count()?;
        let mut left: Vec<usize> = self.image.nodes[node].children.clone();
        let mut v = Vec::new();
        for i in 0..n {
            let mut c = e.child(i)?;
            let name = c.name()?.unwrap_or_default();
            match left.iter().position(|k| self.image.nodes[*k].name == name) {
                Some(p) => {
                    let k = left.swap_remove(p);
                    self.check(&mut c, k, "listed")?;
                    v.push((c, k));
                }
                None => return self.wrong("wrong-tree", format!("{} lists {:?}", self.describe(node), show(&name))),
            }
        }
        env::checked(n as u64);
        if !left.is_empty() {
            return self.wrong("wrong-tree", format!("{} is not listed ({} entries of {})", self.describe(left[0]), n, self.image.nodes[node].children.len()));
        }
        Ok(v)
    }

    /// The data of stream k of a node: the default stream, or a named one.
    fn guest(&self, node: usize, k: usize) -> &'a Data {
        let n: &'a crate::images::fs::Node = &self.image.nodes[node];
        if k == 0 { &n.data } else { &n.streams[k - 1].1 }
    }

    fn open_stream(&self, e: &mut Box<dyn Entry>, node: usize, k: usize) -> Step<Option<DataStreamReference>> {
        let n = &self.image.nodes[node];
        let r = if k == 0 { e.stream()? } else { e.named_stream(&n.streams[k - 1].0)? };
        if r.is_none() && (k > 0 || n.kind == Kind::File) {
            return self.wrong("no-stream", format!("{} has no data stream {k}", self.describe(node)));
        }
        if r.is_some() && k == 0 && n.kind == Kind::Dir {
            return self.wrong("no-stream", format!("directory {} has a data stream", self.describe(node)));
        }
        Ok(r)
    }

    fn read(&mut self, op: &Op) -> Step<bool> {
        let slot = op.a[0] as usize % SLOTS;
        if self.slots[slot].is_none() {
            let files: Vec<usize> = (0..self.image.nodes.len()).filter(|i| self.image.nodes[*i].kind == Kind::File).collect();
            if files.is_empty() {
                return Ok(true);
            }
            let node = files[op.a[1] as usize % files.len()];
            self.open(&Op {
                a: vec![op.a[1] % 5, node as i64, slot as i64],
                ..op.clone()
            })?;
        }
        let Some(mut s) = self.slots[slot].take() else { return Ok(true) };
        let r = self.read_in(&mut s, op);
        self.slots[slot] = Some(s);
        r
    }

    fn read_in(&mut self, s: &mut Slot<'a>, op: &Op) -> Step<bool> {
        let n = &self.image.nodes[s.node];
        let mut rng = Rng::new(op.a[1] as u64);
        let k = if n.kind == Kind::File { rng.below(n.streams.len() as u64 + 1) as usize } else { 0 };
        if n.kind != Kind::File {
            if n.kind == Kind::Dir {
                self.open_stream(&mut s.entry, s.node, 0)?;
            }
            return Ok(true);
        }
        if s.session.as_ref().is_none_or(|x| x.0 != k) || rng.chance(1, 3) {
            let st = self.open_stream(&mut s.entry, s.node, k)?.unwrap();
            let tag = format!("{}:content", self.tag);
            s.session = Some((k, Session::new(st, self.guest(s.node, k), &tag)));
        }
        let session = &mut s.session.as_mut().unwrap().1;
        let mut c = Case::new("", "", 0);
        let size = session.guest.size;
        let max = *rng.pick(&[600u64, 5000, 70_000]);
        streamops::gen_ops(&mut rng, &mut c, size, &n.hot, op.a[2].max(1) as u64, max, 0);
        let mut all = true;
        for mut o in c.ops {
            o.id = op.id;
            match session.step(&o) {
                Ok(true) => {}
                Ok(false) => all = false,
                Err(mut v) => {
                    v.detail = format!("{} stream {k}: {}", self.describe(s.node), v.detail);
                    return Err(Fail::Wrong(v));
                }
            }
        }
        Ok(all)
    }

    /// Finds one node, lists and reads it.
    fn visit(&mut self, op: &Op) -> Step<bool> {
        let node = op.a[0] as usize;
        let Some(mut e) = self.fs.by_path(&self.image.path(node))? else {
            return self.wrong("not-found", format!("no entry at path {}", self.describe(node)));
        };
        self.list_in(&mut e, node)?;
        let n = &self.image.nodes[node];
        let mut rng = Rng::new(node as u64);
        for k in if n.kind == Kind::File { 0 } else { 1 }..=n.streams.len() {
            let st = self.open_stream(&mut e, node, k)?.unwrap();
            let tag = format!("{}:content", self.tag);
            let mut session = Session::new(st, self.guest(node, k), &tag);
            if let Err(mut v) = session.sweep(16384, 1 << 20, &n.hot, &mut rng) {
                v.detail = format!("{} stream {k}: {}", self.describe(node), v.detail);
                return Err(Fail::Wrong(v));
            }
        }
        Ok(true)
    }

    /// Walks and reads everything.
    fn walk(&mut self, op: &Op) -> Step<bool> {
        let root = self.fs.root()?;
        let mut todo = vec![(root, 0usize)];
        let mut rng = Rng::new(0x77a1 ^ self.image.nodes.len() as u64);
        let mut seen = 0;
        let mut budget = 8u64 << 20;
        while let Some((mut e, node)) = todo.pop() {
            env::op_begin(op.id);
            seen += 1;
            let v = self.list_in(&mut e, node)?;
            todo.extend(v);
            let n = &self.image.nodes[node];
            {
                for k in if n.kind == Kind::File { 0 } else { 1 }..=n.streams.len() {
                    let st = self.open_stream(&mut e, node, k)?.unwrap();
                    let tag = format!("{}:content", self.tag);
                    let mut session = Session::new(st, self.guest(node, k), &tag);
                    let size = session.guest.size;
                    let cap = if size <= budget { 1 << 22 } else { 0 };
                    budget = budget.saturating_sub(size);
                    if let Err(mut v) = session.sweep(16384, cap, &n.hot, &mut rng) {
                        v.detail = format!("{} stream {k}: {}", self.describe(node), v.detail);
                        return Err(Fail::Wrong(v));
                    }
                }
            }
        }
        if seen != self.image.nodes.len() {
            return self.wrong("wrong-tree", format!("walked {seen} entries of {}", self.image.nodes.len()));
        }
        Ok(true)
    }
}

const RULE: &str = "a case is a volume written by an independent builder from a random tree (names, sizes, layout, fragmentation, leftovers of deleted entries), a history of 3-18 operations (open by path, by other case, by identifier, by walking; absent names; listings; sub entries of kept handles; reads of kept streams) and a fault plan (short reads and read/seek/size errors at I/O call k of operation n); after the faults stop the whole tree is walked and read; non-trivial: at least one oracle comparison was made";

pub static ALL: [&FsProp; 3] = [&C15, &C16, &C17];

pub static C15: FsProp = FsProp {
    id: "C15",
    tag: "fat",
    runs: 50_000,
    draw: |rng, c, thorough| {
        let kind = *rng.pick(&[12i64, 12, 16, 16, 32, 32]);
        c.set("kind", kind);
        let bps = *rng.pick(&[512i64, 512, 512, 1024, 2048, 4096]);
        c.set("bps", bps);
        let spc = *rng.pick(&[1i64, 1, 2, 4, 8, 64, 128]);
        c.set("spc", spc);
        let n = match (kind, rng.below(4)) {
            (12, 0) => rng.range(4080, 4084),
            (12, _) => rng.range(3000, 4084),
            (16, 0) => rng.range(4085, 4090),
            (16, 1) => rng.range(65515, 65524),
            (16, _) => rng.range(4085, 65524),
            (_, 0) => rng.range(65525, 65530),
            (_, 1) => rng.range(65525, 0x0fff_ffee).min(((u32::MAX as i64 - 5_000_000) / spc) as u64),
            (_, _) => rng.range(65525, 300_000),
        };
        c.set("clusters", n as i64);
        c.set("nodes", rng.range(1, if thorough { 60 } else { 30 }) as i64);
        c.set("fats", *rng.pick(&[1i64, 2, 2, 3]));
    },
    build: |c| {
        let mut rng = Rng::new(c.seed);
        crate::images::fat::build(
            &mut rng,
            &crate::images::fat::Params {
                kind: c.p("kind") as u32,
                bps: c.p("bps").max(512) as u64,
                spc: c.p("spc").max(1) as u64,
                clusters: c.p("clusters").max(1) as u64,
                nodes: c.p("nodes").max(1) as usize,
                fats: c.p("fats").max(1) as u64,
            },
        )
    },
    shrink: &[("nodes", 1), ("fats", 1)],
    rule: RULE,
    real: &["keramics-formats fat", "keramics-formats block_tree", "keramics-types", "keramics-core DataStream"],
};

pub static C16: FsProp = FsProp {
    id: "C16",
    tag: "ext",
    runs: 50_000,
    draw: |rng, c, thorough| {
        use crate::images::ext::*;
        let version = *rng.pick(&[2i64, 3, 4, 4, 4]);
        c.set("version", version);
        let log = *rng.pick(&[0i64, 0, 1, 2, 2, 3, 4, 6]);
        c.set("log", log);
        let most = if rng.chance(1, 12) { 200 } else if thorough { 60 } else { 30 };
        c.set("nodes", rng.range(1, most) as i64);
        c.set("groups", *rng.pick(&[1i64, 1, 2, 3, 4, 10, 28]));
        let mut f = 0;
        for (bit, n, d) in [(SPARSE_SUPER, 3, 4), (FILETYPE, 7, 8), (LARGE, 3, 4), (FULL, 1, 8), (CSUM, 1, if version == 4 { 2 } else { 12 }), (SEED, 1, 3)] {
            if rng.chance(n, d) {
                f |= bit;
            }
        }
        let mut inode_size = *rng.pick(&[128i64, 128, 256]);
        if version == 4 {
            f |= EXTENTS;
            for (bit, n, d) in [(BIT64, 1, 2), (FLEX, 1, 2), (INLINE, 1, 2), (SPARSE2, 1, 8), (GDT_CSUM, 1, 3), (HUGE, 1, 3)] {
                if rng.chance(n, d) {
                    f |= bit;
                }
            }
            inode_size = *rng.pick(&[128i64, 256, 256, 256, 512, 1024]);
            if f & BIT64 != 0 && log >= 6 && rng.chance(1, 3) {
                f |= FAR | LARGE | SPARSE_SUPER;
            }
        }
        if version == 2 && rng.chance(1, 8) {
            f = REV0 | (f & FULL);
            inode_size = 128;
        }
        c.set("features", f);
        c.set("inode_size", inode_size);
    },
    build: |c| {
        let mut rng = Rng::new(c.seed);
        crate::images::ext::build(
            &mut rng,
            &crate::images::ext::Params {
                version: c.p("version"),
                log: c.p("log") as u32,
                nodes: c.p("nodes").max(1) as usize,
                groups: c.p("groups").max(1) as u64,
                features: c.p("features"),
                inode_size: c.p("inode_size") as u64,
            },
        )
    },
    shrink: &[("nodes", 1), ("groups", 1)],
    rule: RULE,
    real: &["keramics-formats ext", "keramics-formats block_tree", "keramics-types", "keramics-checksums", "keramics-core DataStream"],
};

pub static C17: FsProp = FsProp {
    id: "C17",
    tag: "ntfs",
    runs: 6_000,
    draw: |rng, c, thorough| {
        use crate::images::ntfs::*;
        let bps = *rng.pick(&[512i64, 512, 512, 512, 1024, 2048, 4096]);
        c.set("bps", bps);
        let mut spc = *rng.pick(&[1i64, 2, 4, 8, 8, 8, 16, 32, 128]);
        if rng.chance(1, 12) {
            spc = *rng.pick(&[256i64, 512, 1024]);
        }
        while bps * spc > 2 << 20 {
            spc /= 2;
        }
        c.set("spc", spc);
        let cluster = bps * spc;
        c.set("record", *rng.pick(&[1024i64, 1024, 1024, 2048, 4096]));
        c.set("index", *rng.pick(&[4096i64, 4096, 4096, 4096, 2048, 8192]));
        let _ = cluster;
        let most = if rng.chance(1, 12) { 200 } else if thorough { 60 } else { 30 };
        c.set("nodes", rng.range(1, most) as i64);
        let mut f = 0;
        for (bit, n, d) in [(SENSITIVE, 1, 16), (SYSTEM, 1, 3), (OLD, 1, 6), (LISTS, 1, 3), (TABLE_LIST, 1, 4), (FAR, 1, 4)] {
            if rng.chance(n, d) {
                f |= bit;
            }
        }
        c.set("features", f);
    },
    build: |c| {
        let mut rng = Rng::new(c.seed);
        crate::images::ntfs::build(
            &mut rng,
            &crate::images::ntfs::Params {
                bps: c.p("bps").max(512) as u64,
                spc: c.p("spc").max(1) as u64,
                record: c.p("record").max(1024) as u64,
                index: c.p("index").max(2048) as u64,
                nodes: c.p("nodes").max(1) as usize,
                features: c.p("features"),
            },
        )
    },
    shrink: &[("nodes", 1), ("features", 0)],
    rule: RULE,
    real: &["keramics-formats ntfs", "keramics-compression lznt1, lzx", "keramics-formats block_tree", "keramics-types", "keramics-core DataStream"],
};
