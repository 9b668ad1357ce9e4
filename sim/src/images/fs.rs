//! Model of a file system's content, and the interface through which a file system under test is
//! observed.

use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_datetime::DateTime;

use crate::data::Data;
use crate::rng::Rng;

pub type Name = Vec<u16>;

/// Attributes by their name. What an observer does not report is not compared.
pub type Meta = Vec<(&'static str, i128)>;

/// A date and time as a number: -1 if it is not set.
pub fn time(t: Option<&DateTime>) -> i128 {
    match t {
        None | Some(DateTime::NotSet) | Some(DateTime::HfsTime) => -1,
        Some(DateTime::FatDate(t)) => t.date as i128,
        Some(DateTime::FatTimeDate(t)) => (t.date as i128) << 16 | t.time as i128,
        Some(DateTime::FatTimeDate10Ms(t)) => (t.date as i128) << 24 | (t.time as i128) << 8 | t.fraction as i128,
        Some(DateTime::Filetime(t)) => t.timestamp as i128,
        Some(DateTime::PosixTime32(t)) => t.timestamp as i128 * 1_000_000_000,
        Some(DateTime::PosixTime64Ns(t)) => t.timestamp as i128 * 1_000_000_000 + t.fraction as i128,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Dir,
    File,
    Link,
    /// Device, pipe, socket: no content.
    Other,
}

pub struct Node {
    pub name: Name,
    pub parent: usize,
    pub kind: Kind,
    pub data: Data,
    /// Target of a symbolic link.
    pub link: Vec<u16>,
    pub children: Vec<usize>,
    /// Identifier by which the file system knows the entry.
    pub id: Option<u64>,
    /// Named streams.
    pub streams: Vec<(Name, Data)>,
    pub meta: Meta,
    pub hot: Vec<u64>,
}

pub struct FsImage {
    pub volume: Data,
    pub nodes: Vec<Node>,
    /// Names can be looked up in another case.
    pub fold: bool,
    /// Identifier of the root, if an entry can have the same one.
    pub root_id: Option<u64>,
    /// An entry found by its identifier has no name.
    pub unnamed: bool,
    /// Identifiers that no entry has.
    pub unused: Vec<u64>,
    /// Label of the volume, empty: none.
    pub label: Name,
    pub meta: Meta,
    pub open: fn(&DataStreamReference) -> Result<Box<dyn Fs>, ErrorTrace>,
}

pub trait Fs {
    fn root(&self) -> Result<Box<dyn Entry>, ErrorTrace>;
    fn by_path(&self, path: &[Name]) -> Result<Option<Box<dyn Entry>>, ErrorTrace>;
    fn by_id(&self, id: u64) -> Result<Option<Box<dyn Entry>>, ErrorTrace>;
    /// Label and attributes of the volume.
    fn about(&self) -> (Name, Meta);
}

pub trait Entry {
    fn name(&mut self) -> Result<Option<Name>, ErrorTrace>;
    fn kind(&mut self) -> Kind;
    fn size(&mut self) -> u64;
    fn meta(&mut self) -> Result<Meta, ErrorTrace>;
    fn link(&mut self) -> Result<Option<Vec<u16>>, ErrorTrace>;
    fn count(&mut self) -> Result<usize, ErrorTrace>;
    fn child(&mut self, i: usize) -> Result<Box<dyn Entry>, ErrorTrace>;
    fn child_named(&mut self, name: &[u16]) -> Result<Option<Box<dyn Entry>>, ErrorTrace>;
    fn stream(&mut self) -> Result<Option<DataStreamReference>, ErrorTrace>;
    /// Names of the named streams; None: not supported by the file system.
    fn stream_names(&mut self) -> Result<Option<Vec<Name>>, ErrorTrace> {
        Ok(None)
    }
    fn named_stream(&mut self, _name: &[u16]) -> Result<Option<DataStreamReference>, ErrorTrace> {
        Ok(None)
    }
    /// Whether this is known not to be an entry that is in use.
    fn unused(&mut self) -> bool {
        false
    }
}

impl Node {
    pub fn new(name: Name, parent: usize, kind: Kind) -> Node {
        Node {
            name,
            parent,
            kind,
            data: Data::new(0),
            link: Vec::new(),
            children: Vec::new(),
            id: None,
            streams: Vec::new(),
            meta: Vec::new(),
            hot: Vec::new(),
        }
    }
}

impl FsImage {
    pub fn path(&self, mut i: usize) -> Vec<Name> {
        let mut v = Vec::new();
        while i != 0 {
            v.push(self.nodes[i].name.clone());
            i = self.nodes[i].parent;
        }
        v.reverse();
        v
    }
}

/// What a volume built as a layer of a stack needs.
#[derive(Clone, Default)]
pub struct Options {
    /// Names of plain letters and digits.
    pub plain: bool,
    /// No file of which the size is unreasonable.
    pub modest: bool,
    /// Files to store in the root directory: the last nodes of the tree.
    pub graft: Vec<(Vec<u8>, Data)>,
}

thread_local! {
    static OPTIONS: std::cell::RefCell<Options> = std::cell::RefCell::new(Options::default());
}

pub fn with_options<T>(o: Options, f: impl FnOnce() -> T) -> T {
    OPTIONS.with(|x| *x.borrow_mut() = o);
    let r = f();
    OPTIONS.with(|x| *x.borrow_mut() = Options::default());
    r
}

pub fn options() -> Options {
    OPTIONS.with(|x| x.borrow().clone())
}

pub fn plain_name(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(4) {
        0 => rng.range(1, 3),
        1 => rng.range(1, 60),
        _ => rng.range(1, 14),
    };
    (0..n).map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGH_")).collect()
}

/// Draws the shape of a tree: parents and kinds; node 0 is the root.
pub fn tree(rng: &mut Rng, n: usize, links: bool) -> Vec<(usize, Kind)> {
    let mut v = vec![(0usize, Kind::Dir)];
    let mut dirs = vec![0usize];
    let depth = rng.chance(1, 4);
    for i in 1..n.max(1) {
        let parent = if depth { *dirs.last().unwrap() } else { dirs[rng.below(dirs.len() as u64) as usize] };
        let kind = match rng.below(10) {
            0 | 1 => Kind::Dir,
            2 if links => Kind::Link,
            3 if links && rng.chance(1, 4) => Kind::Other,
            _ => Kind::File,
        };
        if kind == Kind::Dir {
            dirs.push(i);
        }
        v.push((parent, kind));
    }
    for _ in 0..OPTIONS.with(|x| x.borrow().graft.len()) {
        v.push((0, Kind::File));
    }
    v
}

pub fn show(name: &[u16]) -> String {
    String::from_utf16_lossy(name).escape_debug().to_string()
}

/// Key under which two names are the same, whatever the case.
pub fn fold(name: &[u16]) -> Vec<u16> {
    name.iter().map(|c| fold16(*c)).collect()
}

pub fn fold16(c: u16) -> u16 {
    match char::from_u32(c as u32) {
        Some(ch) => {
            let mut it = ch.to_uppercase();
            match (it.next(), it.next()) {
                (Some(u), None) if (u as u32) < 0x10000 => u as u32 as u16,
                _ => c,
            }
        }
        None => c,
    }
}

pub fn swap_case(name: &[u16]) -> Vec<u16> {
    name.iter()
        .map(|c| match *c {
            0x41..=0x5a => *c + 32,
            0x61..=0x7a => *c - 32,
            _ => *c,
        })
        .collect()
}

/// A random name of 16-bit characters, without the characters of `not`.
pub fn random_name(rng: &mut Rng, max: usize, not: &[u16]) -> Name {
    let len = match rng.below(6) {
        0 => rng.range(1, 12) as usize,
        1 => (13 * rng.range(1, 19) as usize + rng.below(3) as usize - 1).min(max),
        2 => rng.range(1, max as u64) as usize,
        3 => max,
        _ => rng.range(1, 30) as usize,
    }
    .clamp(1, max);
    let wide = rng.chance(1, 3);
    let mut v = Vec::new();
    while v.len() < len {
        let c: u16 = if wide && rng.chance(1, 2) {
            match rng.below(6) {
                0 => rng.range(0xc0, 0xd6) as u16,
                1 => rng.range(0xe0, 0xf6) as u16,
                2 => rng.range(0x3b1, 0x3c1) as u16,
                3 => rng.range(0x410, 0x44f) as u16,
                4 if v.len() + 2 <= len => {
                    v.push(0xd83d);
                    0xde00 + rng.below(32) as u16
                }
                _ => rng.range(0x4e00, 0x9f00) as u16,
            }
        } else {
            match rng.below(8) {
                0 => *rng.pick(&[b' ', b'.', b'-', b'_', b'~', b'$', b'+', b',', b';', b'=', b'[', b']', b'{', b'(', b'!', b'#']) as u16,
                1 => rng.range(0x30, 0x39) as u16,
                2 | 3 => rng.range(0x41, 0x5a) as u16,
                _ => rng.range(0x61, 0x7a) as u16,
            }
        };
        if !not.contains(&c) {
            v.push(c);
        }
    }
    // no dots and spaces at the ends
    for i in [0, v.len() - 1] {
        if v[i] == b' ' as u16 || v[i] == b'.' as u16 {
            v[i] = b'x' as u16;
        }
    }
    v
}
