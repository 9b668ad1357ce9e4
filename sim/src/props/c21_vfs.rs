//! C21: through the virtual file system every storage layer is found, and delivers the content of
//! the layer below it, however the layers are stacked and whatever was opened before.

use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::Ordering;

use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_formats::ext::ExtPath;
use keramics_formats::fat::{FatPath, FatString};
use keramics_types::{ByteString, Ucs2String};
use keramics_vfs::{
    VfsContext, VfsFileEntry, VfsFileSystem, VfsFileType, VfsFinder, VfsLocation, VfsPath, VfsResolver, VfsScanContext, VfsScanNode, VfsScanner,
    VfsString, VfsType,
};

use super::filesystems::{Run, SLOTS};
use crate::case::{Case, Op};
use crate::data::Data;
use crate::env;
use crate::images::fs::{self, Entry, Fs, FsImage, Kind, Name, show};
use crate::images::nest::{self, Content, Format, Stack, Table};
use crate::images::sparseimage;
use crate::rng::Rng;
use crate::runner::{Prop, RunResult, Violation};
use crate::streamops::{self, Session};

pub struct C21Vfs;
pub static C21: C21Vfs = C21Vfs;

/// How file systems are got hold of.
const HELD: i64 = 0;
const CONTEXT: i64 = 1;
const RESOLVER: i64 = 2;

#[derive(Clone)]
struct Access {
    mode: i64,
    context: Rc<RefCell<VfsContext>>,
}

impl Access {
    fn fs(&self, location: &VfsLocation) -> Result<Arc<VfsFileSystem>, ErrorTrace> {
        if self.mode == RESOLVER {
            VfsResolver::current().open_file_system(location)
        } else {
            self.context.borrow_mut().open_file_system(location)
        }
    }
    fn entry(&self, location: &VfsLocation) -> Result<Option<VfsFileEntry>, ErrorTrace> {
        if self.mode == RESOLVER {
            VfsResolver::current().get_file_entry_by_location(location)
        } else {
            self.context.borrow_mut().get_file_entry_by_location(location)
        }
    }
    fn stream(&self, location: &VfsLocation, name: Option<&str>) -> Result<Option<DataStreamReference>, ErrorTrace> {
        if self.mode == RESOLVER {
            VfsResolver::current().get_data_stream_by_path_and_name(location, name)
        } else {
            self.context.borrow_mut().get_data_stream_by_path_and_name(location, name)
        }
    }
}

fn ext_path(path: &[Name]) -> VfsPath {
    let mut p = ExtPath::from("/");
    for n in path {
        let b: Vec<u8> = n.iter().map(|c| *c as u8).collect();
        p.push(ByteString::from(&b[..]));
    }
    VfsPath::Ext(p)
}

fn fat_path(path: &[Name]) -> VfsPath {
    let mut p = FatPath::from("/");
    for n in path {
        p.push(FatString::Ucs2String(Ucs2String::from(&n[..])));
    }
    VfsPath::Fat(p)
}

fn fs_path(kind: &VfsType, path: &[Name]) -> VfsPath {
    if *kind == VfsType::Ext { ext_path(path) } else { fat_path(path) }
}

/// A file system behind the virtual file system.
struct Adapter {
    access: Access,
    /// Where the file system is stored.
    under: VfsLocation,
    kind: VfsType,
    held: RefCell<Option<Arc<VfsFileSystem>>>,
}

impl Adapter {
    fn root_location(&self) -> VfsLocation {
        self.under.new_with_layer(&self.kind, fs_path(&self.kind, &[]))
    }
    fn fs(&self) -> Result<Arc<VfsFileSystem>, ErrorTrace> {
        if self.access.mode != HELD {
            return self.access.fs(&self.root_location());
        }
        if let Some(f) = self.held.borrow().as_ref() {
            return Ok(f.clone());
        }
        let f = self.access.fs(&self.root_location())?;
        *self.held.borrow_mut() = Some(f.clone());
        Ok(f)
    }
}

struct VfsEntry {
    entry: VfsFileEntry,
    turn: Cell<u32>,
}

fn boxed(entry: VfsFileEntry) -> Box<dyn Entry> {
    Box::new(VfsEntry { entry, turn: Cell::new(0) })
}

impl Fs for Adapter {
    fn root(&self) -> Result<Box<dyn Entry>, ErrorTrace> {
        match self.fs()?.get_root_file_entry()? {
            Some(e) => Ok(boxed(e)),
            None => Err(ErrorTrace::new("no root directory".to_string())),
        }
    }
    fn by_path(&self, path: &[Name]) -> Result<Option<Box<dyn Entry>>, ErrorTrace> {
        let path = fs_path(&self.kind, path);
        let found = if self.access.mode == HELD {
            self.fs()?.get_file_entry_by_path(&path)?
        } else {
            self.access.entry(&self.under.new_with_layer(&self.kind, path))?
        };
        Ok(found.map(boxed))
    }
    fn by_id(&self, _id: u64) -> Result<Option<Box<dyn Entry>>, ErrorTrace> {
        Ok(None)
    }
    fn about(&self) -> (Name, fs::Meta) {
        (Vec::new(), Vec::new())
    }
}

fn characters(s: &VfsString) -> Name {
    match s {
        VfsString::Byte(b) => b.elements.iter().map(|c| *c as u16).collect(),
        VfsString::Ucs2(s) => s.elements.clone(),
        VfsString::String(s) => s.encode_utf16().collect(),
        VfsString::OsString(s) => s.to_string_lossy().encode_utf16().collect(),
        VfsString::Empty => Vec::new(),
    }
}

impl Entry for VfsEntry {
    fn name(&mut self) -> Result<Option<Name>, ErrorTrace> {
        Ok(self.entry.get_name().map(|s| characters(&s)))
    }
    fn kind(&mut self) -> Kind {
        match self.entry.get_file_type() {
            VfsFileType::Directory => Kind::Dir,
            VfsFileType::File => Kind::File,
            VfsFileType::SymbolicLink => Kind::Link,
            _ => Kind::Other,
        }
    }
    fn size(&mut self) -> u64 {
        self.entry.get_size()
    }
    fn meta(&mut self) -> Result<fs::Meta, ErrorTrace> {
        Ok(vec![
            ("created", fs::time(self.entry.get_creation_time())),
            ("modified", fs::time(self.entry.get_modification_time())),
            ("changed", fs::time(self.entry.get_change_time())),
            ("accessed", fs::time(self.entry.get_access_time())),
        ])
    }
    fn link(&mut self) -> Result<Option<Vec<u16>>, ErrorTrace> {
        Ok(match self.entry.get_symbolic_link_target()? {
            Some(VfsPath::Ext(p)) => {
                let mut v = Vec::new();
                for (i, c) in p.components.iter().enumerate() {
                    if i > 0 {
                        v.push(b'/' as u16);
                    }
                    v.extend(c.elements.iter().map(|c| *c as u16));
                }
                Some(v)
            }
            Some(p) => Some(p.to_string().encode_utf16().collect()),
            None => None,
        })
    }
    fn count(&mut self) -> Result<usize, ErrorTrace> {
        self.entry.get_number_of_sub_file_entries()
    }
    fn child(&mut self, i: usize) -> Result<Box<dyn Entry>, ErrorTrace> {
        Ok(boxed(self.entry.get_sub_file_entry_by_index(i)?))
    }
    fn child_named(&mut self, name: &[u16]) -> Result<Option<Box<dyn Entry>>, ErrorTrace> {
        for e in self.entry.sub_file_entries()? {
            let e = e?;
            if e.get_name().map(|n| characters(&n)).as_deref() == Some(name) {
                return Ok(Some(boxed(e)));
            }
        }
        Ok(None)
    }
    fn stream(&mut self) -> Result<Option<DataStreamReference>, ErrorTrace> {
        self.turn.set(self.turn.get() + 1);
        match self.turn.get() % 3 {
            0 => self.entry.get_data_stream_by_name(None),
            1 if self.entry.get_number_of_data_forks()? > 0 => Ok(Some(self.entry.get_data_fork_by_index(0)?.get_data_stream()?)),
            _ => self.entry.get_data_stream(),
        }
    }
}

fn image_type(f: Format) -> Option<(VfsType, &'static str)> {
    Some(match f {
        Format::Raw => return None,
        Format::SparseImage => (VfsType::SparseImage, "sparseimage"),
        Format::Vhd => (VfsType::Vhd, "vhd"),
        Format::Vhdx => (VfsType::Vhdx, "vhdx"),
        Format::Qcow => (VfsType::Qcow, "qcow"),
        Format::Udif => (VfsType::Udif, "udif"),
        Format::Ewf => (VfsType::Ewf, "ewf"),
    })
}

fn table_type(t: Table) -> Option<(VfsType, &'static str)> {
    Some(match t {
        Table::None => return None,
        Table::Apm => (VfsType::Apm, "apm"),
        Table::Gpt => (VfsType::Gpt, "gpt"),
        Table::Mbr => (VfsType::Mbr, "mbr"),
    })
}

fn content_type(c: Content) -> Option<VfsType> {
    match c {
        Content::Fat => Some(VfsType::Fat),
        Content::Ext => Some(VfsType::Ext),
        Content::Other => None,
    }
}

fn at(under: &VfsLocation, kind: &VfsType, path: &str) -> VfsLocation {
    under.new_with_layer(kind, VfsPath::from_path(kind, path))
}

/// A stack with its place.
struct Level<'a> {
    stack: &'a Stack,
    base: VfsLocation,
    disk: VfsLocation,
    volumes: Vec<VfsLocation>,
}

/// A file system volume.
struct Spot<'a> {
    under: VfsLocation,
    kind: VfsType,
    image: &'a FsImage,
}

/// Something with a data stream of which the content is known.
struct Raw {
    location: VfsLocation,
    data: Data,
    what: String,
}

/// A file system of layers or partitions.
struct Layers {
    /// Where it is stored.
    under: VfsLocation,
    kind: VfsType,
    prefix: &'static str,
    count: usize,
}

#[derive(Default)]
struct World<'a> {
    levels: Vec<Level<'a>>,
    spots: Vec<Spot<'a>>,
    raws: Vec<Raw>,
    layers: Vec<Layers>,
}

fn part(d: &Data, off: u64, size: u64) -> Data {
    let mut p = Data::new(size);
    let n = size.min(d.size.saturating_sub(off));
    sparseimage::copy(d, off, &mut p, 0, n);
    p
}

impl<'a> World<'a> {
    fn add(&mut self, stack: &'a Stack, base: VfsLocation, depth: usize) {
        let main = stack.files.iter().find(|f| f.0 == stack.main).unwrap();
        self.raws.push(Raw { location: base.clone(), data: main.1.clone(), what: format!("file {} at depth {depth}", stack.main) });
        let disk = match image_type(stack.format) {
            Some((kind, prefix)) => {
                let n = stack.layers;
                let disk = at(&base, &kind, &format!("/{prefix}{n}"));
                self.layers.push(Layers { under: base.clone(), kind, prefix, count: n });
                self.raws.push(Raw { location: disk.clone(), data: stack.disk.clone(), what: format!("{prefix} layer {n} at depth {depth}") });
                disk
            }
            None => base.clone(),
        };
        let mut volumes = Vec::new();
        for (i, v) in stack.volumes.iter().enumerate() {
            volumes.push(match table_type(stack.table) {
                Some((kind, prefix)) => {
                    let l = at(&disk, &kind, &format!("/{prefix}{}", i + 1));
                    self.raws.push(Raw {
                        location: l.clone(),
                        data: part(&stack.disk, v.offset, v.size),
                        what: format!("{prefix} partition {} at depth {depth}", i + 1),
                    });
                    l
                }
                None => disk.clone(),
            });
        }
        if let Some((kind, prefix)) = table_type(stack.table) {
            self.layers.push(Layers { under: disk.clone(), kind, prefix, count: volumes.len() });
        }
        self.levels.push(Level { stack, base, disk, volumes: volumes.clone() });
        for (v, l) in stack.volumes.iter().zip(volumes) {
            let (Some(image), Some(kind)) = (&v.fs, content_type(v.content)) else { continue };
            self.spots.push(Spot { under: l.clone(), kind: kind.clone(), image });
            if let Some((node, inner)) = &v.inner {
                let p = fs_path(&kind, &image.path(*node));
                self.add(inner, l.new_with_layer(&kind, p), depth + 1);
            }
        }
    }
}

struct Node {
    location: VfsLocation,
    sub: Vec<Node>,
}

/// What a scan must find in the outermost stack.
fn expected(level: &Level) -> Node {
    let s = level.stack;
    let mut below = Vec::new();
    let fs = |under: &VfsLocation, c: Content| -> Vec<Node> {
        content_type(c).map(|k| Node { location: at(under, &k, "/"), sub: vec![] }).into_iter().collect()
    };
    match table_type(s.table) {
        Some((kind, _)) => {
            let sub = s.volumes.iter().zip(&level.volumes).map(|(v, l)| Node { location: l.clone(), sub: fs(l, v.content) }).collect();
            below.push(Node { location: at(&level.disk, &kind, "/"), sub });
        }
        None => below.extend(fs(&level.disk, s.volumes[0].content)),
    }
    if let Some((kind, _)) = image_type(s.format) {
        below = vec![Node { location: at(&level.base, &kind, "/"), sub: below }];
    }
    Node { location: level.base.clone(), sub: below }
}

fn same(want: &Node, got: &VfsScanNode) -> Result<(), String> {
    if want.location != got.location {
        return Err(format!("{} instead of {}", line(&got.location), line(&want.location)));
    }
    if want.sub.len() != got.sub_nodes.len() {
        let v: Vec<String> = got.sub_nodes.iter().map(|n| line(&n.location)).collect();
        let w: Vec<String> = want.sub.iter().map(|n| line(&n.location)).collect();
        return Err(format!("below {}: {v:?} instead of {w:?}", line(&want.location)));
    }
    let fs = matches!(want.location.get_type(), VfsType::Fat | VfsType::Ext);
    if got.is_empty() != want.sub.is_empty() || got.is_file_system() != fs {
        return Err(format!("{}: is_empty() or is_file_system()", line(&want.location)));
    }
    for (a, b) in want.sub.iter().zip(&got.sub_nodes) {
        same(a, b)?;
    }
    Ok(())
}

fn line(l: &VfsLocation) -> String {
    let own = format!("{}:{}", l.get_type().as_str(), l.get_path().to_string());
    match l.get_parent() {
        Some(p) => format!("{} > {own}", line(p)),
        None => own,
    }
}

fn clear_ids(s: &mut Stack) {
    for v in &mut s.volumes {
        if let Some(f) = &mut v.fs {
            f.root_id = None;
            for n in &mut f.nodes {
                n.id = None;
            }
        }
        if let Some((_, i)) = &mut v.inner {
            clear_ids(i);
        }
    }
}

pub fn build(case: &Case) -> Stack {
    let mut rng = Rng::new(case.seed);
    nest::build(
        &mut rng,
        &nest::Params {
            format: nest::FORMATS[case.p("format") as usize % 7],
            layers: case.p("layers").max(1) as u32,
            table: nest::TABLES[case.p("table") as usize % 4],
            volumes: case.p("volumes").max(1) as usize,
            nodes: case.p("nodes").max(1) as usize,
            depth: case.p("depth").max(0) as u32,
            wild: case.p("wild") == 1,
            small: case.p("small") == 1,
            only_fs: false,
            room: 24 << 20,
        },
    )
}

enum Stop {
    Error(ErrorTrace),
    Wrong(&'static str, String),
    Found(Violation),
}

impl From<ErrorTrace> for Stop {
    fn from(e: ErrorTrace) -> Stop {
        Stop::Error(e)
    }
}

struct Sim<'a> {
    world: &'a World<'a>,
    access: Access,
    runs: Vec<Run<'a>>,
    sessions: Vec<Option<(usize, Session<'a>)>>,
    held: Vec<Arc<VfsFileSystem>>,
}

impl<'a> Sim<'a> {
    fn attempt(&mut self, op: &Op) -> Result<bool, Violation> {
        if matches!(op.kind.as_str(), "open" | "absent" | "list" | "childname" | "read" | "walk") {
            if self.runs.is_empty() {
                return Ok(true);
            }
            let n = op.actor as usize % self.runs.len();
            return self.runs[n].attempt(op);
        }
        env::log(|| format!("  {} {:?}", op.kind, op.a), crate::rng::hash_i64(&op.a) ^ crate::rng::hash_str(&op.kind));
        let a = |i: usize| op.a.get(i).copied().unwrap_or(0);
        let r = match op.kind.as_str() {
            "scan" => self.scan(),
            "stream" => self.stream(op, a(0) as usize, a(1) as u64, a(2).max(1) as u64),
            "layers" => self.list_layers(a(0) as usize),
            "missing" => self.missing(a(0) as u64),
            "hybrid" => self.hybrid(a(0) as usize),
            "find" => self.find(a(0) as usize),
            "hold" => self.hold(a(0) as usize),
            "drop" => {
                if !self.held.is_empty() {
                    let i = a(0) as usize % self.held.len();
                    self.held.remove(i);
                }
                Ok(true)
            }
            _ => Ok(true),
        };
        match r {
            Ok(b) => Ok(b),
            Err(Stop::Found(v)) => Err(v),
            Err(Stop::Wrong(class, text)) => Err(Violation::new(class, &format!("vfs:{}:{class}", op.kind), format!("vfs: op {} {} {:?}: {text}", op.id, op.kind, op.a))),
            Err(Stop::Error(e)) => {
                if env::op_errors(op.id) > 0 {
                    return Ok(false);
                }
                let mut t = e.to_string();
                t.truncate(600);
                Err(Violation::new(
                    "unexpected-error",
                    &format!("vfs:{}:unexpected-error", op.kind),
                    format!("vfs: op {} {} {:?}: {t}", op.id, op.kind, op.a),
                ))
            }
        }
    }

    fn scan(&mut self) -> Result<bool, Stop> {
        let level = &self.world.levels[0];
        let mut scanner = VfsScanner::new();
        if let Err(e) = scanner.build() {
            return Err(Stop::Wrong("no-scanner", e.to_string()));
        }
        let mut context = VfsScanContext::new();
        scanner.scan(&mut context, &level.base)?;
        let Some(root) = &context.root_node else {
            return Err(Stop::Wrong("wrong-scan", "no root node".into()));
        };
        env::checked(1);
        same(&expected(level), root).map_err(|t| Stop::Wrong("wrong-scan", t))?;
        Ok(true)
    }

    fn stream(&mut self, op: &Op, which: usize, seed: u64, n: u64) -> Result<bool, Stop> {
        let mut rng = Rng::new(seed);
        let i = which % self.world.raws.len();
        let slot = (seed % self.sessions.len() as u64) as usize;
        if self.sessions[slot].as_ref().is_none_or(|s| s.0 != i) || rng.chance(1, 3) {
            let session = self.open_raw(i)?;
            self.sessions[slot] = Some((i, session));
        }
        let session = &mut self.sessions[slot].as_mut().unwrap().1;
        let mut c = Case::new("", "", 0);
        // streams of one layer can share their position
        session.pos_known = false;
        let size = session.guest.size;
        let max = *rng.pick(&[600u64, 5000, 70_000]);
        streamops::gen_ops(&mut rng, &mut c, size, &[512, 1024, 4096, size / 2], n, max, 0);
        let mut all = true;
        for mut o in c.ops {
            o.id = op.id;
            all &= session.step(&o).map_err(Stop::Found)?;
        }
        Ok(all)
    }

    fn open_raw(&self, i: usize) -> Result<Session<'a>, Stop> {
        let raw = &self.world.raws[i];
        match self.access.stream(&raw.location, None)? {
            Some(s) => Ok(Session::new(s, &raw.data, &format!("vfs:{}", raw.what.split(' ').next().unwrap()))),
            None => Err(Stop::Wrong("no-stream", format!("{} has no data stream: {}", raw.what, line(&raw.location)))),
        }
    }

    fn list_layers(&mut self, which: usize) -> Result<bool, Stop> {
        if self.world.layers.is_empty() {
            return Ok(true);
        }
        let l = &self.world.layers[which % self.world.layers.len()];
        let root = at(&l.under, &l.kind, "/");
        env::log(|| format!("  list {}", line(&root)), 0);
        let fs = self.access.fs(&root)?;
        let mut entries = vec![fs.get_root_file_entry()?];
        entries.push(fs.get_file_entry_by_path(root.get_path())?);
        entries.push(self.access.entry(&root)?);
        for e in entries {
            let Some(mut e) = e else {
                return Err(Stop::Wrong("no-root", format!("no root entry of {}", line(&root))));
            };
            env::checked(1);
            let n = e.get_number_of_sub_file_entries()?;
            if n != l.count || e.get_file_type() != VfsFileType::Directory || e.get_data_stream()?.is_some() || e.get_number_of_data_forks()? != 0 {
                return Err(Stop::Wrong("wrong-layers", format!("root entry of {}: {n} sub entries, expected {}", line(&root), l.count)));
            }
            let mut seen = 0;
            for (i, s) in e.sub_file_entries()?.enumerate() {
                let s = s?;
                let want: Name = format!("{}{}", l.prefix, i + 1).encode_utf16().collect();
                let name = s.get_name().map(|n| characters(&n));
                if name.as_ref() != Some(&want) || s.get_file_type() != VfsFileType::File || s.get_number_of_data_forks()? != 1 {
                    return Err(Stop::Wrong("wrong-layers", format!("sub entry {i} of {}: name {:?}", line(&root), name.map(|n| show(&n)))));
                }
                let location = at(&l.under, &l.kind, &format!("/{}{}", l.prefix, i + 1));
                if !fs.file_entry_exists(location.get_path())? {
                    return Err(Stop::Wrong("wrong-layers", format!("{} does not exist", line(&location))));
                }
                let Some(stream) = s.get_data_stream()? else {
                    return Err(Stop::Wrong("no-stream", format!("{} has no data stream", line(&location))));
                };
                if let Some(raw) = self.world.raws.iter().find(|r| r.location == location) {
                    let size = streamops::lock(&stream, |s| s.get_size()).map_err(|m| Stop::Wrong("lock", m))??;
                    let mut v = vec![0u8; raw.data.size.min(1024) as usize];
                    streamops::lock(&stream, |s| s.read_exact_at_position(&mut v, std::io::SeekFrom::Start(0))).map_err(|m| Stop::Wrong("lock", m))??;
                    env::checked(v.len() as u64);
                    if size != raw.data.size || v != raw.data.slice(0, v.len() as u64) {
                        return Err(Stop::Wrong("wrong-data", format!("{}: size {size} of {}, or other data", line(&location), raw.data.size)));
                    }
                }
                seen += 1;
            }
            if seen != l.count {
                return Err(Stop::Wrong("wrong-layers", format!("{} sub entries iterated of {}", seen, line(&root))));
            }
        }
        Ok(true)
    }

    /// What is not there must not be found.
    fn missing(&mut self, seed: u64) -> Result<bool, Stop> {
        let mut rng = Rng::new(seed);
        env::checked(1);
        match rng.below(4) {
            0 | 1 if !self.world.layers.is_empty() => {
                let l = &self.world.layers[rng.below(self.world.layers.len() as u64) as usize];
                let other = *rng.pick(&["vhd", "qcow", "gpt", "mbr", "apm", "ewf", "p", ""]);
                let name = match rng.below(6) {
                    0 => format!("/{}0", l.prefix),
                    1 => format!("/{}", l.prefix),
                    2 => format!("/{}{}", l.prefix, l.count as u64 + rng.range(1, 20)),
                    3 if other != l.prefix => format!("/{other}1"),
                    4 => format!("/{}1/{}1", l.prefix, l.prefix),
                    _ => format!("/{}{}", l.prefix, u64::MAX),
                };
                let location = at(&l.under, &l.kind, &name);
                let fs = self.access.fs(&location)?;
                let exists = fs.file_entry_exists(location.get_path())?;
                if exists || fs.get_file_entry_by_path(location.get_path())?.is_some() || self.access.stream(&location, None)?.is_some() {
                    return Err(Stop::Wrong("found-absent", line(&location)));
                }
            }
            2 => {
                let location = VfsLocation::new_base(&VfsType::Os, VfsPath::from_path(&VfsType::Os, "/simfs/dir/nothing"));
                if self.access.stream(&location, None)?.is_some() || self.access.entry(&location)?.is_some() {
                    return Err(Stop::Wrong("found-absent", line(&location)));
                }
                for k in [VfsType::Vhd, VfsType::Ext, VfsType::Mbr, VfsType::Ewf] {
                    let l = at(&location, &k, "/");
                    if self.access.fs(&l).is_ok() {
                        return Err(Stop::Wrong("found-absent", line(&l)));
                    }
                }
            }
            _ => {
                // another type than the data has
                let level = &self.world.levels[rng.below(self.world.levels.len() as u64) as usize];
                let kinds = [
                    VfsType::Apm,
                    VfsType::Ext,
                    VfsType::Ewf,
                    VfsType::Gpt,
                    VfsType::Ntfs,
                    VfsType::Qcow,
                    VfsType::SparseImage,
                    VfsType::Udif,
                    VfsType::Vhd,
                    VfsType::Vhdx,
                ];
                let kind = rng.pick(&kinds).clone();
                let (place, is) = if rng.chance(1, 2) {
                    (&level.base, image_type(level.stack.format).map(|t| t.0))
                } else {
                    (&level.disk, None)
                };
                let on_disk = *place == level.disk;
                let is_table = on_disk && table_type(level.stack.table).map(|t| t.0) == Some(kind.clone());
                // the first sectors of an image can be those of the disk
                let plain = matches!(level.stack.format, Format::Raw | Format::Vhd | Format::Udif) || on_disk;
                if is == Some(kind.clone()) || is_table || (kind == VfsType::Ext && plain) || (plain && !on_disk && matches!(kind, VfsType::Apm | VfsType::Gpt)) {
                    return Ok(true);
                }
                let l = at(place, &kind, "/");
                if self.access.fs(&l).is_ok() {
                    return Err(Stop::Wrong("found-absent", line(&l)));
                }
            }
        }
        Ok(true)
    }

    /// The protective partition of a GPT disk covers the rest of it.
    fn hybrid(&mut self, order: usize) -> Result<bool, Stop> {
        let Some(level) = self.world.levels.iter().find(|l| l.stack.table == Table::Gpt) else { return Ok(true) };
        let gpt = at(&level.disk, &VfsType::Gpt, "/gpt1");
        let mbr = at(&level.disk, &VfsType::Mbr, "/mbr1");
        let disk = &level.stack.disk;
        let v = &level.stack.volumes[0];
        let b = disk.slice(458, 4);
        let protected = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as u64 * 512;
        let mut wanted = vec![(gpt, v.offset, v.size), (mbr, 512, protected)];
        if order % 2 == 1 {
            wanted.reverse();
        }
        let mut keep = Vec::new();
        for (l, off, size) in wanted {
            let fs = self.access.fs(&l)?;
            let Some(e) = fs.get_file_entry_by_path(l.get_path())? else {
                return Err(Stop::Wrong("not-found", line(&l)));
            };
            keep.push(fs);
            let Some(s) = e.get_data_stream()? else {
                return Err(Stop::Wrong("no-stream", line(&l)));
            };
            let got = streamops::lock(&s, |s| s.get_size()).map_err(|m| Stop::Wrong("lock", m))??;
            let mut v = vec![0u8; size.min(2048) as usize];
            streamops::lock(&s, |s| s.read_exact_at_position(&mut v, std::io::SeekFrom::Start(0))).map_err(|m| Stop::Wrong("lock", m))??;
            env::checked(v.len() as u64);
            if got != size || v != disk.slice(off, v.len() as u64) {
                return Err(Stop::Wrong("wrong-data", format!("{}: size {got} instead of {size}, or other data", line(&l))));
            }
        }
        Ok(true)
    }

    fn find(&mut self, which: usize) -> Result<bool, Stop> {
        if self.world.spots.is_empty() {
            return Ok(true);
        }
        let spot = &self.world.spots[which % self.world.spots.len()];
        let root = spot.under.new_with_layer(&spot.kind, fs_path(&spot.kind, &[]));
        let fs = self.access.fs(&root)?;
        let mut left: std::collections::BTreeMap<Vec<Name>, usize> = (0..spot.image.nodes.len()).map(|i| (spot.image.path(i), i)).collect();
        let mut open: Vec<usize> = spot.image.nodes.iter().map(|n| n.children.len()).collect();
        for found in VfsFinder::new(&fs) {
            let (e, names) = found?;
            let mut path: Vec<Name> = names.iter().map(characters).collect();
            if path.is_empty() || !path.remove(0).is_empty() {
                return Err(Stop::Wrong("wrong-find", format!("{} names start with no root", names.len())));
            }
            env::checked(1);
            let text = path.iter().map(|n| show(n)).collect::<Vec<_>>().join("/");
            let Some(node) = left.remove(&path) else {
                return Err(Stop::Wrong("wrong-find", format!("found /{text}")));
            };
            // sub entries come first
            if open[node] != 0 {
                return Err(Stop::Wrong("wrong-find", format!("/{text} was found before {} of its sub entries", open[node])));
            }
            if e.is_root_directory() != (node == 0) {
                return Err(Stop::Wrong("wrong-root", format!("/{text}: is_root_directory()")));
            }
            if node != 0 {
                open[spot.image.nodes[node].parent] -= 1;
            }
        }
        if let Some((path, _)) = left.iter().next() {
            return Err(Stop::Wrong("wrong-find", format!("/{} was not found", path.iter().map(|n| show(n)).collect::<Vec<_>>().join("/"))));
        }
        Ok(true)
    }

    fn hold(&mut self, which: usize) -> Result<bool, Stop> {
        let w = self.world;
        let n = w.layers.len() + w.spots.len();
        if n == 0 {
            return Ok(true);
        }
        let i = which % n;
        let location = if i < w.layers.len() {
            at(&w.layers[i].under, &w.layers[i].kind, "/")
        } else {
            let s = &w.spots[i - w.layers.len()];
            s.under.new_with_layer(&s.kind, fs_path(&s.kind, &[]))
        };
        let fs = self.access.fs(&location)?;
        // as long as a file system is in use, it is not opened again
        let again = self.access.fs(&location)?;
        env::checked(1);
        if !Arc::ptr_eq(&fs, &again) {
            return Err(Stop::Wrong("not-shared", line(&location)));
        }
        self.held.push(fs);
        Ok(true)
    }
}

impl Prop for C21Vfs {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn quick_runs(&self) -> u64 {
        2_500
    }
    fn gen_case(&self, rng: &mut Rng, _index: u64, thorough: bool) -> Case {
        let mut c = Case::new("C21", "vfs", rng.next());
        c.set("format", rng.below(7) as i64);
        c.set("layers", rng.range(1, 3) as i64);
        c.set("table", *rng.pick(&[0i64, 1, 2, 3, 2, 3]));
        c.set("volumes", rng.range(1, if thorough { 6 } else { 4 }) as i64);
        c.set("nodes", rng.range(1, if thorough { 24 } else { 12 }) as i64);
        c.set("depth", *rng.pick(&[0i64, 0, 1, 1, if thorough { 2 } else { 1 }]));
        c.set("wild", rng.chance(1, 2) as i64);
        c.set("small", rng.chance(2, 3) as i64);
        c.set("mode", rng.below(3) as i64);
        let n = rng.range(3, if thorough { 30 } else { 14 });
        for _ in 0..n {
            let spot = rng.below(6) as u32;
            let node = rng.next() as i64 & 0xffff_ffff;
            let slot = rng.below(SLOTS as u64) as i64;
            let x = rng.next() as i64 & 0xffff_ffff;
            match rng.below(20) {
                0..=3 => c.op_by(spot, "open", &[rng.below(5) as i64, node, slot]),
                4 => c.op_by(spot, "absent", &[node, x, rng.below(4) as i64]),
                5 => c.op_by(spot, "list", &[slot]),
                6 => c.op_by(spot, "childname", &[slot, x]),
                7..=9 => c.op_by(spot, "read", &[slot, x, rng.below(6) as i64 + 1]),
                10 | 11 => c.op("scan", &[]),
                12 | 13 => c.op("stream", &[node, x, rng.below(6) as i64 + 1]),
                14 => c.op("layers", &[node]),
                15 => c.op("missing", &[x]),
                16 => c.op("hybrid", &[x]),
                17 => c.op("find", &[node]),
                18 => c.op("hold", &[node]),
                _ => c.op("drop", &[x]),
            };
        }
        streamops::gen_faults(rng, &mut c, true, 1, 150);
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        let mut stack = build(case);
        clear_ids(&mut stack);
        for (name, data) in &stack.files {
            env::add_file(&format!("dir/{name}"), data.clone());
        }
        let base = VfsLocation::new_base(&VfsType::Os, VfsPath::from_path(&VfsType::Os, &format!("/simfs/dir/{}", stack.main)));
        let mut world = World::default();
        world.add(&stack, base, 0);
        let text = || format!("{}: {:?} with {} layers, {:?} with {} volumes, {} file systems", stack.main, stack.format, stack.layers, stack.table, stack.volumes.len(), world.spots.len());
        env::log(text, world.spots.len() as u64);
        let access = Access { mode: case.p("mode"), context: Rc::new(RefCell::new(VfsContext::new())) };
        let runs = world
            .spots
            .iter()
            .map(|s| {
                let adapter = Adapter { access: access.clone(), under: s.under.clone(), kind: s.kind.clone(), held: RefCell::new(None) };
                Run::new(if s.kind == VfsType::Ext { "vfs:ext" } else { "vfs:fat" }, s.image, Box::new(adapter), false)
            })
            .collect();
        let mut sim = Sim { world: &world, access, runs, sessions: (0..3).map(|_| None).collect(), held: Vec::new() };
        for op in &case.ops {
            env::op_begin(op.id);
            if !sim.attempt(op)? {
                env::probe("op-failed-by-fault");
                if op.id % 2 == 0 {
                    let on = env::FAULTS_ON.swap(false, Ordering::SeqCst);
                    env::op_begin(op.id);
                    let x = sim.attempt(op);
                    env::FAULTS_ON.store(on, Ordering::SeqCst);
                    x?;
                    env::probe("op-retried-after-heal");
                }
            }
        }
        // the faults stop: everything must be there
        env::FAULTS_ON.store(false, Ordering::SeqCst);
        let end = |kind: &str, actor: u32, a: i64| Op { id: 1_000_000, actor, kind: kind.into(), a: vec![a] };
        let mut todo = vec![end("scan", 0, 0)];
        todo.extend((0..world.layers.len()).map(|i| end("layers", 0, i as i64)));
        todo.extend((0..world.spots.len()).map(|i| end("find", 0, i as i64)));
        todo.extend((0..world.spots.len()).map(|i| end("walk", i as u32, 0)));
        for op in todo {
            env::op_begin(op.id);
            sim.attempt(&op)?;
        }
        let mut rng = Rng::new(case.seed);
        for i in 0..world.raws.len() {
            env::op_begin(1_000_000);
            match sim.open_raw(i) {
                Ok(mut s) => {
                    let hot = [512, 1024, 4096];
                    s.sweep(65536, 1 << 19, &hot, &mut rng)?;
                }
                Err(Stop::Found(v)) => return Err(v),
                Err(Stop::Wrong(class, t)) => return Err(Violation::new(class, &format!("vfs:stream:{class}"), t)),
                Err(Stop::Error(e)) => return Err(Violation::new("unexpected-error", "vfs:stream:unexpected-error", format!("{}: {e}", line(&world.raws[i].location)))),
            }
        }
        Ok(())
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        vec![("nodes", 1), ("volumes", 1), ("depth", 0), ("layers", 1)]
    }
    fn alloc_limit(&self) -> usize {
        2 << 30
    }
    fn rule(&self) -> &'static str {
        "a case is a stack of storage layers written by independent builders (an image format with 1-3 layers or a raw file; APM, GPT, MBR or no partition table; 1-4 volumes with FAT, ext or unknown content; in half the cases a file of a volume is again such a stack), a history of 3-14 operations through the VFS (scan; open, list, look up and read in every file system; streams of files, layers and partitions; layer directories; absent layers and wrong types; two types of file system on one location; finder; keeping and dropping file system references) with file systems kept, looked up in a context, or in the thread's resolver, and a fault plan (short reads, interruptions, read/seek/size/open errors at I/O call k of operation n); after the faults stop the scan, all directories and all contents are compared; non-trivial: at least one oracle comparison was made"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["keramics-vfs", "keramics-formats", "keramics-sigscan", "keramics-core", "std::fs"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["the operating system's file calls (open, read, lseek, statx, close: simulated disk with fault injection)"]
    }
}
