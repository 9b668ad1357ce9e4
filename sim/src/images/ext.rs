//! Builder of ext2, ext3 and ext4 volumes.

use std::collections::BTreeMap;

use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_formats::ext::constants::*;
use keramics_formats::ext::{ExtFileEntry, ExtFileSystem, ExtPath};
use keramics_types::ByteString;

use super::fs::{self, Entry, Fs, FsImage, Kind, Meta, Name, Node};
use super::shield::{self, Guard};
use super::{compressible, put16, put32};
use crate::data::Data;
use crate::rng::Rng;

pub struct Params {
    /// 2, 3 or 4.
    pub version: i64,
    /// Block size is 1024 << this.
    pub log: u32,
    pub nodes: usize,
    pub groups: u64,
    /// Bits of FEATURE_*.
    pub features: i64,
    pub inode_size: u64,
}

pub const SPARSE_SUPER: i64 = 1;
pub const FILETYPE: i64 = 2;
pub const BIT64: i64 = 4;
pub const FLEX: i64 = 8;
pub const CSUM: i64 = 16;
pub const SEED: i64 = 32;
pub const INLINE: i64 = 64;
pub const EXTENTS: i64 = 128;
pub const SPARSE2: i64 = 256;
pub const GDT_CSUM: i64 = 512;
pub const REV0: i64 = 1024;
pub const LARGE: i64 = 2048;
/// A last group that ends exactly at its end.
pub const FULL: i64 = 4096;
/// Blocks beyond the 32-bit range.
pub const FAR: i64 = 8192;
pub const HUGE: i64 = 16384;

struct Vol<'a> {
    rng: &'a mut Rng,
    d: Data,
    bs: u64,
    total: u64,
    first: u64,
    /// Start and end of the ranges in use.
    used: BTreeMap<u64, u64>,
    frag: u64,
    seed: u32,
    csum: bool,
    far: bool,
    full: bool,
}

impl Vol<'_> {
    fn free_at(&self, b: u64) -> u64 {
        if let Some((_, e)) = self.used.range(..=b).next_back() {
            if *e > b {
                return 0;
            }
        }
        let end = self.used.range(b..).next().map(|x| *x.0).unwrap_or(self.total);
        end.saturating_sub(b)
    }
    fn mark(&mut self, b: u64, n: u64) {
        self.used.insert(b, b + n);
    }
    /// A run of up to n free blocks.
    fn run(&mut self, n: u64) -> (u64, u64) {
        for i in 0..200 {
            let b = if i < 100 && self.far && self.total > (1 << 32) + 1000 && self.rng.chance(2, 3) {
                // around and above the 32-bit limit
                if self.rng.chance(1, 2) { self.rng.range((1 << 32) - 64, (1 << 32) + 64) } else { self.rng.range(1 << 32, self.total - 1) }
            } else {
                self.rng.range(self.first, self.total - 1)
            };
            let f = self.free_at(b);
            if f > 0 && (f >= n || i > 30) {
                let n = f.min(n);
                self.mark(b, n);
                return (b, n);
            }
        }
        let mut b = self.first;
        while b < self.total {
            let f = self.free_at(b);
            if f > 0 {
                let n = f.min(n);
                self.mark(b, n);
                return (b, n);
            }
            b = *self.used.range(..=b).next_back().unwrap().1;
        }
        self.full = true;
        (self.first, n)
    }
    fn block(&mut self) -> u64 {
        self.run(1).0
    }
    /// Allocates n blocks in runs.
    fn runs(&mut self, n: u64) -> Vec<(u64, u64)> {
        let mut v = Vec::new();
        let mut left = n;
        while left > 0 {
            let want = match self.frag {
                0 => left,
                1 => self.rng.range(1, left),
                _ => self.rng.range(1, left.min(3)),
            };
            let r = self.run(want);
            left -= r.1;
            v.push(r);
        }
        v
    }
    fn at(&self, block: u64) -> u64 {
        block * self.bs
    }
}

/// CRC-32C without inversions.
fn crc32c(seed: u32, data: &[u8]) -> u32 {
    let mut c = seed;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { 0x82f63b78 ^ (c >> 1) } else { c >> 1 };
        }
    }
    c
}

fn crc16(seed: u16, data: &[u8]) -> u16 {
    let mut c = seed;
    for b in data {
        c ^= *b as u16;
        for _ in 0..8 {
            c = if c & 1 != 0 { 0xa001 ^ (c >> 1) } else { c >> 1 };
        }
    }
    c
}

#[derive(Clone, Copy, Debug)]
struct Piece {
    logical: u64,
    physical: u64,
    count: u64,
    unwritten: bool,
}

struct Inode {
    mode: u16,
    size: u64,
    links: u16,
    flags: u32,
    block: [u8; 60],
    /// Allocated blocks.
    blocks: u64,
    /// Value of the system.data attribute.
    inline: Option<Vec<u8>>,
    acl: u64,
    generation: u32,
}

impl Inode {
    fn new(mode: u16) -> Inode {
        Inode {
            mode,
            size: 0,
            links: 1,
            flags: 0,
            block: [0; 60],
            blocks: 0,
            inline: None,
            acl: 0,
            generation: 0,
        }
    }
}

/// What an inode says.
fn meta(b: &[u8], extra: usize, mode: u16) -> fs::Meta {
    let half = |o: usize| u16::from_le_bytes([b[o], b[o + 1]]) as i128;
    let word = |o: usize| u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]);
    let mut m: fs::Meta = vec![("mode", half(0)), ("owner", half(120) << 16 | half(2)), ("group", half(122) << 16 | half(24)), ("links", half(26)), ("deleted", -1)];
    for (key, base, more) in [("accessed", 8, 140), ("changed", 12, 132), ("modified", 16, 136), ("created", 144, 148)] {
        let has = more + 4 <= 128 + extra;
        if base > 128 && !has {
            m.push((key, -1));
            continue;
        }
        let x = if has { word(more) } else { 0 };
        let seconds = word(base) as i32 as i128 + ((x & 3) as i128) * (1 << 32);
        if seconds > 0 {
            m.push((key, seconds * 1_000_000_000 + (x >> 2) as i128));
        } else if seconds == 0 {
            m.push((key, -1));
        }
    }
    if mode & 0xf000 == 0x2000 || mode & 0xf000 == 0x6000 {
        if word(40) != 0 {
            m.push(("device", half(40)));
        }
    } else {
        m.push(("device", -1));
    }
    m
}

fn raw_name(rng: &mut Rng) -> Vec<u8> {
    let len = match rng.below(6) {
        0 => rng.range(200, 255),
        1 => 255,
        2 => rng.range(1, 4),
        _ => rng.range(1, 40),
    } as usize;
    let mut v = Vec::new();
    let mode = rng.below(6);
    while v.len() < len {
        match mode {
            0 => v.push(rng.range(1, 255) as u8),
            1 => {
                let c = *rng.pick(&['\u{e9}', '\u{3b2}', '\u{416}', '\u{4e2d}', '\u{1f600}', 'a', ' ']);
                let mut b = [0; 4];
                let s = c.encode_utf8(&mut b).as_bytes();
                if v.len() + s.len() <= len {
                    v.extend_from_slice(s);
                } else {
                    v.push(b'z');
                }
            }
            _ => v.push(match rng.below(8) {
                0 => *rng.pick(b" .-_~$+,;=\\:*?\"<>|[]{}'!#"),
                1 => rng.range(0x30, 0x39) as u8,
                2 | 3 => rng.range(0x41, 0x5a) as u8,
                _ => rng.range(0x61, 0x7a) as u8,
            }),
        }
    }
    for c in v.iter_mut() {
        if *c == b'/' {
            *c = b'x';
        }
    }
    if v.iter().all(|c| *c == b'.') {
        v[0] = b'a';
    }
    v
}

fn dirent(ino: u32, rec: usize, kind: u8, name: &[u8], bs: u64) -> Vec<u8> {
    let mut v = vec![0u8; 8];
    put32(&mut v, 0, ino);
    put16(&mut v, 4, if rec == 65536 && bs == 65536 { 0xffff } else { rec as u16 });
    v[6] = name.len() as u8;
    v[7] = kind;
    v.extend_from_slice(name);
    v
}

/// Lays entries out in a region of a size, the last entry reaching its end. Returns what did not fit.
fn fill_region(rng: &mut Rng, region: &mut [u8], entries: &mut std::collections::VecDeque<(u32, u8, Vec<u8>)>, bs: u64, gaps: bool) {
    let size = region.len();
    let mut o = 0;
    let mut last: Option<usize> = None;
    loop {
        let need = match entries.front() {
            Some(e) => (8 + e.2.len()).div_ceil(4) * 4,
            None => break,
        };
        if o + need > size || (gaps && o > 0 && rng.chance(1, 12)) {
            break;
        }
        if gaps && rng.chance(1, 10) && size - o >= need + 12 {
            // a deleted entry
            let k = rng.range(1, ((size - o - need - 8) as u64).min(40)) as usize;
            let rec = (8 + k).div_ceil(4) * 4;
            if o + rec + need <= size {
                let name = vec![b'd'; k];
                let e = dirent(0, rec, 1, &name, bs);
                region[o..o + e.len()].copy_from_slice(&e);
                last = Some(o);
                o += rec;
            }
        }
        let (ino, kind, name) = entries.pop_front().unwrap();
        let mut rec = need;
        if gaps && rng.chance(1, 8) {
            // the space of a deleted entry, with its leftovers
            let extra = (rng.range(12, 60) as usize / 4) * 4;
            if o + rec + extra <= size {
                let e = dirent(rng.range(11, 99) as u32, extra, 1, b"gone", bs);
                region[o + rec..o + rec + e.len().min(extra)].copy_from_slice(&e[..e.len().min(extra)]);
                rec += extra;
            }
        }
        let e = dirent(ino, rec, kind, &name, bs);
        region[o..o + e.len()].copy_from_slice(&e);
        last = Some(o);
        o += rec;
    }
    match last {
        Some(l) => {
            let rec = size - l;
            put16(region, l + 4, if rec == 65536 { 0xffff } else { rec as u16 });
        }
        None => {
            let e = dirent(0, size, 0, &[], bs);
            region[..8].copy_from_slice(&e);
        }
    }
}

/// Writes block numbers of levels of indirection.
fn map_level(v: &mut Vol, map: &BTreeMap<u64, u64>, level: u32, base: u64, blocks: &mut u64) -> u32 {
    let per = v.bs / 4;
    if level == 0 {
        return map.get(&base).copied().unwrap_or(0) as u32;
    }
    let span = per.pow(level);
    if map.range(base..base + span).next().is_none() && !(map.range(base..).next().is_some() && v.rng.chance(1, 12)) {
        return 0;
    }
    let b = v.block();
    *blocks += 1;
    let step = per.pow(level - 1);
    let mut buf = vec![0u8; v.bs as usize];
    let keys: Vec<u64> = map.range(base..base + span).map(|x| (*x.0 - base) / step).collect();
    let mut keys = keys;
    keys.dedup();
    for k in keys {
        let n = map_level(v, map, level - 1, base + k * step, blocks);
        put32(&mut buf, k as usize * 4, n);
    }
    let at = v.at(b);
    v.d.write(at, &buf);
    b as u32
}

fn block_map(v: &mut Vol, inode: &mut Inode, pieces: &[Piece]) {
    let mut map = BTreeMap::new();
    for p in pieces {
        for i in 0..p.count {
            map.insert(p.logical + i, p.physical + i);
        }
        inode.blocks += p.count;
    }
    let per = v.bs / 4;
    for i in 0..12 {
        put32(&mut inode.block, i * 4, map.get(&(i as u64)).copied().unwrap_or(0) as u32);
    }
    let mut base = 12;
    for l in 1..=3u32 {
        let n = map_level(v, &map, l, base, &mut inode.blocks);
        put32(&mut inode.block, 44 + l as usize * 4, n);
        base += per.pow(l);
    }
}

fn extent_header(b: &mut [u8], n: usize, max: usize, depth: usize) {
    put16(b, 0, 0xf30a);
    put16(b, 2, n as u16);
    put16(b, 4, max as u16);
    put16(b, 6, depth as u16);
}

fn extents(v: &mut Vol, inode: &mut Inode, ino: u32, pieces: &[Piece]) {
    inode.flags |= 0x80000;
    // entries of the current level: first logical block and bytes
    let mut level: Vec<(u64, [u8; 12])> = Vec::new();
    for p in pieces {
        inode.blocks += p.count;
        let max = if p.unwritten { 32767 } else { 32768 };
        let mut o = 0;
        while o < p.count {
            let mut n = (p.count - o).min(max);
            if v.rng.chance(1, 6) {
                n = v.rng.range(1, n);
            }
            let mut e = [0u8; 12];
            put32(&mut e, 0, (p.logical + o) as u32);
            put16(&mut e, 4, if p.unwritten { (n + 32768) as u16 } else { n as u16 });
            put16(&mut e, 6, ((p.physical + o) >> 32) as u16);
            put32(&mut e, 8, (p.physical + o) as u32);
            level.push((p.logical + o, e));
            o += n;
        }
    }
    let max = ((v.bs - 12) / 12) as usize;
    let mut depth = 0;
    while level.len() > 4 || (depth < 4 && !level.is_empty() && v.rng.chance(1, 6)) {
        let least = if level.len() > 40 { 4 } else { 2 };
        let fan = if v.rng.chance(1, 2) { max } else { v.rng.range(least, (max as u64).min(12)) as usize };
        if depth == 5 {
            break;
        }
        let mut up = Vec::new();
        let fan = if depth >= 3 { max } else { fan };
        for c in level.chunks(fan) {
            let b = v.block();
            inode.blocks += 1;
            let mut buf = vec![0u8; v.bs as usize];
            extent_header(&mut buf, c.len(), max, depth);
            for (i, e) in c.iter().enumerate() {
                buf[12 + i * 12..24 + i * 12].copy_from_slice(&e.1);
            }
            // leftovers of removed entries
            if c.len() < max && v.rng.chance(1, 2) {
                let junk = v.rng.bytes(12);
                let o = 12 + c.len() * 12;
                buf[o..o + 12].copy_from_slice(&junk);
            }
            if v.csum {
                let s = crc32c(v.seed, &ino.to_le_bytes());
                let s = crc32c(s, &inode.generation.to_le_bytes());
                let s = crc32c(s, &buf[..12 + 12 * max]);
                put32(&mut buf, 12 + 12 * max, s);
            }
            let at = v.at(b);
            v.d.write(at, &buf);
            let mut e = [0u8; 12];
            put32(&mut e, 0, c[0].0 as u32);
            put32(&mut e, 4, b as u32);
            put16(&mut e, 8, (b >> 32) as u16);
            up.push((c[0].0, e));
        }
        level = up;
        depth += 1;
    }
    extent_header(&mut inode.block, level.len(), 4, depth);
    for (i, e) in level.iter().enumerate() {
        inode.block[12 + i * 12..24 + i * 12].copy_from_slice(&e.1);
    }
}

/// Content of a file: its data, and the blocks in which it is.
fn content(v: &mut Vol, use_extents: bool, max_blocks: u64, size_limit: u64, hot: &mut Vec<u64>, given: Option<&Data>, plain: bool) -> (Data, Vec<Piece>) {
    let bs = v.bs;
    let big = v.rng.chance(1, 5) && !plain && given.is_none();
    let size = if let Some(d) = given {
        d.size
    } else if big {
        let limit = (max_blocks.saturating_mul(bs)).min(size_limit);
        match v.rng.below(4) {
            0 => limit,
            1 => v.rng.range(1, limit),
            2 => v.rng.range(1, limit.min(1 << 33)),
            _ => v.rng.range(1, limit.min(1 << 24)),
        }
    } else {
        match v.rng.below(6) {
            0 => v.rng.range(0, 3),
            1 => v.rng.range(1, bs),
            2 => bs * v.rng.range(1, 16),
            3 => bs * 12 + v.rng.range(0, 3 * bs),
            _ => v.rng.range(1, 20 * bs),
        }
    };
    let mut d = Data::new(size);
    let blocks = size.div_ceil(bs);
    // logical runs
    let mut runs: Vec<(u64, u64)> = Vec::new();
    if big && blocks > 30 {
        let per = bs / 4;
        for _ in 0..v.rng.range(0, 8) {
            let at = match v.rng.below(8) {
                0 => 0,
                1 => blocks - 1,
                2 => 12,
                3 => 12 + per,
                4 => 12 + per + per * per,
                5 => 12 + per + v.rng.below(per * 4),
                _ => v.rng.below(blocks),
            };
            let at = (at.min(blocks - 1)).saturating_sub(v.rng.below(4));
            let n = v.rng.range(1, 9).min(blocks - at);
            runs.push((at, n));
        }
        if use_extents && v.total > 200_000 && blocks > 40_000 && v.rng.chance(1, 3) {
            // extents of the maximum length
            let at = v.rng.below(blocks - 33_000);
            runs.push((at, *v.rng.pick(&[32767u64, 32768, 32769])));
        }
    } else {
        let mut b = 0;
        while b < blocks {
            let n = v.rng.range(1, blocks - b);
            let n = if given.is_some() { n.min(300) } else { n };
            if (v.rng.chance(3, 4) && (given.is_none() || blocks < 1000)) || given.is_some_and(|d| !d.is_zero(b * bs, (n * bs).min(d.size - b * bs))) {
                runs.push((b, n));
            }
            b += n;
        }
    }
    runs.sort_unstable();
    let mut pieces = Vec::new();
    let mut next = 0;
    for (at, n) in runs {
        let (at, n) = if at < next {
            if at + n <= next {
                continue;
            }
            (next, at + n - next)
        } else {
            (at, n)
        };
        next = at + n;
        let unwritten = use_extents && v.rng.chance(1, 6) && given.is_none();
        let mut l = at;
        for (p, k) in if n > 1000 && given.is_none() { vec![v.run(n)] } else { v.runs(n) } {
            pieces.push(Piece {
                logical: l,
                physical: p,
                count: k,
                unwritten,
            });
            l += k;
        }
        next = l.max(at + 1);
    }
    // preallocated blocks after the end
    if use_extents && v.rng.chance(1, 8) {
        let l = blocks.max(next) + v.rng.below(4);
        if l + 8 < max_blocks {
            for (p, k) in v.runs(3) {
                let at = pieces.last().map(|x| x.logical + x.count).unwrap_or(0).max(l);
                pieces.push(Piece {
                    logical: at,
                    physical: p,
                    count: k,
                    unwritten: true,
                });
            }
        }
    }
    for p in &pieces {
        hot.push((p.logical * bs).min(size));
        hot.push(((p.logical + p.count) * bs).min(size));
        let len = p.count * bs;
        if let Some(g) = given {
            let at = v.at(p.physical);
            let o = p.logical * bs;
            if o < size {
                super::sparseimage::copy(g, o, &mut v.d, at, len.min(size - o));
                super::sparseimage::copy(g, o, &mut d, o, len.min(size - o));
            }
            continue;
        }
        let mut spots = Vec::new();
        if len <= 1 << 16 {
            spots.push((0, len));
        } else {
            spots.push((0, 600));
            spots.push((len - 700, 700));
            for _ in 0..3 {
                spots.push((v.rng.below(len - 500), 500));
            }
        }
        for (o, n) in spots {
            let b = if v.rng.chance(1, 4) { compressible(v.rng, n as usize) } else { v.rng.bytes(n as usize) };
            let at = v.at(p.physical) + o;
            v.d.write(at, &b);
            let g = p.logical * bs + o;
            if !p.unwritten && g < size {
                let k = (n.min(size - g)) as usize;
                d.write(g, &b[..k]);
            }
        }
    }
    (d, pieces)
}

/// The inode that holds small content in itself, if it fits.
fn inline(inode: &mut Inode, data: &[u8], room: usize) -> bool {
    if data.len() > 60 + room {
        return false;
    }
    inode.flags |= 0x10000000;
    let n = data.len().min(60);
    inode.block[..n].copy_from_slice(&data[..n]);
    inode.inline = Some(data[n..].to_vec());
    inode.size = data.len() as u64;
    true
}

pub fn build(rng: &mut Rng, p: &Params) -> FsImage {
    let mut groups = p.groups;
    loop {
        let mut r = rng.clone();
        if let Some(image) = build_once(&mut r, &Params { groups, ..*p }) {
            return image;
        }
        groups += 2;
    }
}

/// Returns None when the volume is too small for the tree.
fn build_once(rng: &mut Rng, p: &Params) -> Option<FsImage> {
    let has = |f: i64| p.features & f != 0;
    let bs = 1024u64 << p.log;
    let desc = if has(BIT64) { 64u64 } else { 32 };
    let inode_size = p.inode_size;
    let first = if bs == 1024 { 1u64 } else { 0 };
    let csum = has(CSUM);
    let mut nodes = vec![Node::new(Vec::new(), 0, Kind::Dir)];
    let shape = fs::tree(rng, p.nodes, true);
    let options = fs::options();
    let graft_at = shape.len() - options.graft.len();

    // geometry
    let far = has(FAR);
    let bpg = if far {
        8 * bs
    } else {
        match rng.below(3) {
            0 => 8 * bs,
            1 => 8 * rng.range(bs / 8, bs),
            _ => 8 * rng.range((512 / p.log.max(1) as u64).min(bs / 2), bs / 2 + 64),
        }
    };
    let bpg = bpg.min(8 * bs);
    let groups = if far { (1u64 << 32).div_ceil(bpg) + 1 + p.groups } else { p.groups };
    let gdt_blocks = (groups * desc).div_ceil(bs);
    let need = (shape.len() as u64 + 16).div_ceil(groups);
    let per_block = bs / inode_size;
    let ipg = {
        let mut n = need.max(8) + rng.below(40);
        if groups > 1 && rng.chance(1, 4) {
            n += rng.range(0, 400);
        }
        let unit = per_block.max(8);
        n.div_ceil(unit) * unit
    };
    let table = ipg * inode_size / bs;
    let reserved_gdt = if rng.chance(1, 3) { rng.range(1, 8) } else { 0 };
    let overhead = 1 + gdt_blocks + reserved_gdt + 2 + table;
    let bpg = bpg.max((overhead + 100).div_ceil(8) * 8);
    let last = if has(FULL) { bpg } else { rng.range((overhead + 20).min(bpg), bpg) };
    // room for the data of the nodes
    let total = first + (groups - 1) * bpg + last;

    let uuid = rng.bytes(16);
    let uuid_seed = crc32c(!0, &uuid);
    let seed = if has(SEED) && csum { rng.next() as u32 } else { uuid_seed };
    let mut v = Vol {
        d: Data::new(total * bs),
        bs,
        total,
        first: first + 1,
        used: BTreeMap::new(),
        frag: rng.below(3),
        seed,
        csum,
        far,
        full: false,
        rng,
    };
    v.mark(0, first + 1);

    // backups
    let backup = [1u64, (groups - 1).max(1)];
    let power = |g: u64, k: u64| {
        let mut x = k;
        while x < g {
            x *= k;
        }
        x == g
    };
    let has_super = |g: u64| {
        if g == 0 {
            true
        } else if has(SPARSE2) {
            backup.contains(&g)
        } else if g <= 1 || !has(SPARSE_SUPER) {
            true
        } else {
            power(g, 3) || power(g, 5) || power(g, 7)
        }
    };
    for g in 0..groups {
        let at = first + g * bpg;
        if has_super(g) {
            v.mark(at, 1 + gdt_blocks + reserved_gdt);
        }
    }
    let mut tables = Vec::new();
    let mut descriptors = vec![0u8; (groups * desc) as usize];
    for g in 0..groups {
        let at = first + g * bpg;
        let (bb, ib, it) = if has(FLEX) && (groups < 100 || g % 64 == 0) {
            // anywhere
            let bb = v.block();
            let ib = v.block();
            let mut it = 0;
            for i in 0..400 {
                let b = if far && i < 20 { v.rng.range(1 << 32, v.total - table - 1) } else { v.rng.range(first, v.total - table) };
                if v.free_at(b) >= table {
                    it = b;
                    break;
                }
            }
            if it == 0 {
                let mut b = v.first;
                while v.free_at(b) < table {
                    b += 1;
                    if b >= v.total {
                        return None;
                    }
                }
                it = b;
            }
            v.mark(it, table);
            (bb, ib, it)
        } else {
            let mut b = at + if has_super(g) { 1 + gdt_blocks + reserved_gdt } else { 0 };
            // with flexible groups parts of other groups can be there
            let mut tries = 0;
            while v.free_at(b) < 2 + table && tries < 100_000 {
                b += 1;
                tries += 1;
                if b >= v.total {
                    return None;
                }
            }
            v.mark(b, 2 + table);
            (b, b + 1, b + 2)
        };
        tables.push(it);
        let e = &mut descriptors[(g * desc) as usize..((g + 1) * desc) as usize];
        put32(e, 0, bb as u32);
        put32(e, 4, ib as u32);
        put32(e, 8, it as u32);
        put16(e, 12, 5);
        put16(e, 14, 7);
        put16(e, 16, 1);
        if p.version == 4 && (csum || has(GDT_CSUM)) {
            put16(e, 18, 4);
        }
        if desc == 64 {
            put32(e, 32, (bb >> 32) as u32);
            put32(e, 36, (ib >> 32) as u32);
            put32(e, 40, (it >> 32) as u32);
        }
        if csum {
            let c = crc32c(seed, &(g as u32).to_le_bytes());
            let c = crc32c(c, &e[..30]);
            let c = crc32c(c, &[0, 0]);
            let c = crc32c(c, &e[32..]);
            put16(e, 30, c as u16);
        } else if has(GDT_CSUM) {
            let c = crc16(!0, &uuid);
            let c = crc16(c, &(g as u32).to_le_bytes());
            let c = crc16(c, &e[..30]);
            let c = crc16(c, &e[32..]);
            put16(e, 30, c);
        }
    }
    let number_of_inodes = (groups * ipg).min(u32::MAX as u64) as u32;

    // nodes, names, inode numbers
    let mut taken = std::collections::HashSet::new();
    let mut inodes = vec![2u32];
    nodes[0].id = Some(2);
    let mut shared: Vec<(usize, u16)> = vec![(0, 0); shape.len()];
    for (i, (parent, kind)) in shape.iter().enumerate().skip(1) {
        let mut name;
        loop {
            name = if i >= graft_at {
                options.graft[i - graft_at].0.clone()
            } else if options.plain {
                fs::plain_name(v.rng)
            } else {
                raw_name(v.rng)
            };
            if !nodes[*parent].children.iter().any(|c| nodes[*c].name.iter().map(|x| *x as u8).eq(name.iter().copied())) {
                break;
            }
        }
        let mut n = Node::new(name.iter().map(|c| *c as u16).collect(), *parent, *kind);
        let files: Vec<usize> = (1..i).filter(|k| nodes[*k].kind == Kind::File && shared[*k].0 == 0).collect();
        let ino = if *kind == Kind::File && i < graft_at && !files.is_empty() && v.rng.chance(1, 8) {
            let k = *v.rng.pick(&files);
            shared[i] = (k, 0);
            shared[k].1 += 1;
            inodes[k]
        } else {
            loop {
                let ino = match v.rng.below(4) {
                    0 => v.rng.range(11, number_of_inodes as u64),
                    1 => number_of_inodes as u64 - v.rng.below(number_of_inodes as u64 - 10).min(20),
                    2 => (v.rng.range(1, groups) * ipg + 1).saturating_sub(v.rng.below(3)),
                    _ => v.rng.range(11, (11 + ipg).min(number_of_inodes as u64)),
                } as u32;
                if ino >= 11 && ino <= number_of_inodes && taken.insert(ino) {
                    break ino;
                }
            }
        };
        n.id = Some(ino as u64);
        inodes.push(ino);
        nodes[*parent].children.push(i);
        nodes.push(n);
    }
    let order: Vec<Vec<usize>> = nodes
        .iter()
        .map(|n| {
            let mut c = n.children.clone();
            v.rng.shuffle(&mut c);
            c
        })
        .collect();

    // per inode: room for attributes, decided up front
    let use_ext = |v: &mut Vol| has(EXTENTS) && !v.rng.chance(1, 8);
    let map_limit = {
        let per = bs / 4;
        (12 + per + per * per + per * per * per).min(u32::MAX as u64)
    };
    for i in 0..nodes.len() {
        if shared[i].0 != 0 {
            nodes[i].data = nodes[shared[i].0].data.clone();
            nodes[i].hot = nodes[shared[i].0].hot.clone();
            nodes[i].meta = nodes[shared[i].0].meta.clone();
            continue;
        }
        let ino = inodes[i];
        let extra = if inode_size > 128 { *v.rng.pick(&[0u64, 4, 8, 16, 24, 28, 32, 32, 32]) } else { 0 };
        let own_attribute = inode_size > 128 && v.rng.chance(1, 4);
        // room for the value of the inline data attribute
        let room = (inode_size as i64 - 128 - extra as i64 - 4 - 4 - 20 - if own_attribute { 40 } else { 0 }).max(0) / 4 * 4;
        let can_inline = has(INLINE) && inode_size > 128 && room > 0;
        let mut inode;
        match nodes[i].kind {
            Kind::Dir => {
                inode = Inode::new(0x41ed);
                inode.links = 2;
                inode.generation = v.rng.next() as u32;
                let mut entries: std::collections::VecDeque<(u32, u8, Vec<u8>)> = order[i]
                    .iter()
                    .map(|c| {
                        let n = &nodes[*c];
                        let k = match n.kind {
                            Kind::Dir => 2,
                            Kind::File => 1,
                            Kind::Link => 7,
                            Kind::Other => 5,
                        };
                        (inodes[*c], if has(FILETYPE) { k } else { 0 }, n.name.iter().map(|c| *c as u8).collect())
                    })
                    .collect();
                let parent = inodes[nodes[i].parent];
                let mut done = false;
                if can_inline && v.rng.chance(1, 2) {
                    let mut e = entries.clone();
                    let mut a = vec![0u8; 56];
                    fill_region(v.rng, &mut a, &mut e, bs, false);
                    let mut b = vec![0u8; if e.is_empty() && v.rng.chance(1, 2) { 0 } else { room as usize }];
                    if !b.is_empty() {
                        fill_region(v.rng, &mut b, &mut e, bs, false);
                    }
                    if e.is_empty() {
                        let mut all = parent.to_le_bytes().to_vec();
                        all.extend(a);
                        all.extend(b);
                        done = inline(&mut inode, &all, room as usize);
                    }
                }
                if !done {
                    let tail = if csum { 12 } else { 0 };
                    let mut blocks: Vec<Vec<u8>> = Vec::new();
                    let indexed = v.rng.chance(1, 3);
                    let usable = bs as usize - tail;
                    let mut b = vec![0u8; bs as usize];
                    let dot = dirent(ino, 12, if has(FILETYPE) { 2 } else { 0 }, b".", bs);
                    b[..dot.len()].copy_from_slice(&dot);
                    let dotdot = dirent(parent, if indexed { bs as usize - 12 } else { 12 }, if has(FILETYPE) { 2 } else { 0 }, b"..", bs);
                    b[12..12 + dotdot.len()].copy_from_slice(&dotdot);
                    let mut interior = 0;
                    if indexed {
                        inode.flags |= 0x1000;
                        b[28] = 1;
                        b[29] = 8;
                        interior = if v.rng.chance(1, 3) { v.rng.range(1, 2) } else { 0 };
                        b[30] = (interior > 0) as u8;
                        put16(&mut b, 32, ((bs as usize - 32 - tail) / 8) as u16);
                        put16(&mut b, 34, 1);
                        put32(&mut b, 36, 1);
                    } else {
                        let room = usable - 24;
                        if entries.is_empty() || v.rng.chance(1, 10) {
                            put16(&mut b, 16, (room + 12) as u16);
                        } else {
                            let mut e = entries.clone();
                            fill_region(v.rng, &mut b[24..24 + room], &mut e, bs, true);
                            entries = e;
                        }
                    }
                    blocks.push(b);
                    for _ in 0..interior {
                        let mut b = vec![0u8; bs as usize];
                        let e = dirent(0, bs as usize, 0, &[], bs);
                        b[..8].copy_from_slice(&e);
                        put16(&mut b, 8, ((bs as usize - 8 - tail) / 8) as u16);
                        put16(&mut b, 10, 1);
                        blocks.push(b);
                    }
                    while !entries.is_empty() || (indexed && blocks.len() < 2 + interior as usize) {
                        let mut b = vec![0u8; bs as usize];
                        fill_region(v.rng, &mut b[..usable], &mut entries, bs, true);
                        blocks.push(b);
                        if v.rng.chance(1, 20) {
                            // an empty block
                            let mut b = vec![0u8; bs as usize];
                            fill_region(v.rng, &mut b[..usable], &mut Default::default(), bs, true);
                            blocks.push(b);
                        }
                    }
                    if csum {
                        for (k, b) in blocks.iter_mut().enumerate() {
                            if indexed && k < 1 + interior as usize {
                                continue;
                            }
                            let o = bs as usize - 12;
                            put16(b, o + 4, 12);
                            b[o + 7] = 0xde;
                            let c = crc32c(seed, &ino.to_le_bytes());
                            let c = crc32c(c, &inode.generation.to_le_bytes());
                            let c = crc32c(c, &b[..o]);
                            put32(b, o + 8, c);
                        }
                    }
                    inode.size = blocks.len() as u64 * bs;
                    let mut pieces = Vec::new();
                    let mut l = 0;
                    for (ph, k) in v.runs(blocks.len() as u64) {
                        for j in 0..k {
                            let at = v.at(ph + j);
                            v.d.write(at, &blocks[(l + j) as usize]);
                        }
                        pieces.push(Piece {
                            logical: l,
                            physical: ph,
                            count: k,
                            unwritten: false,
                        });
                        l += k;
                    }
                    if use_ext(&mut v) || far {
                        extents(&mut v, &mut inode, ino, &pieces);
                    } else {
                        block_map(&mut v, &mut inode, &pieces);
                    }
                }
            }
            Kind::File => {
                inode = Inode::new(0x81a4);
                inode.generation = v.rng.next() as u32;
                inode.links = 1 + shared[i].1;
                if can_inline && i < graft_at && v.rng.chance(1, 3) {
                    let n = match v.rng.below(4) {
                        0 => v.rng.range(0, 61).min(60 + room as u64),
                        1 => 60 + room as u64,
                        _ => v.rng.range(0, 60 + room as u64),
                    };
                    let b = v.rng.bytes(n as usize);
                    inline(&mut inode, &b, room as usize);
                    nodes[i].data = Data::from_vec(&b);
                    nodes[i].hot.push(60.min(n));
                } else {
                    let ext = use_ext(&mut v) || far;
                    let limit = if ext { u32::MAX as u64 } else { map_limit };
                    let size_limit = if has(LARGE) || p.version == 4 { 1 << 44 } else { (1 << 31) - 1 };
                    let mut hot = Vec::new();
                    let (d, pieces) = content(&mut v, ext, limit, size_limit, &mut hot, (i >= graft_at).then(|| &options.graft[i - graft_at].1), options.modest);
                    inode.size = d.size;
                    nodes[i].data = d;
                    nodes[i].hot = super::pick_hot(v.rng, hot);
                    if ext {
                        extents(&mut v, &mut inode, ino, &pieces);
                    } else {
                        block_map(&mut v, &mut inode, &pieces);
                    }
                }
            }
            Kind::Link => {
                inode = Inode::new(0xa1ff);
                let n = match v.rng.below(5) {
                    0 => v.rng.range(55, 64),
                    1 => v.rng.range(60, (bs - 1).min(4095)),
                    2 => 59,
                    _ => v.rng.range(1, 59),
                } as usize;
                let mut t = Vec::new();
                while t.len() < n {
                    if !t.is_empty() || v.rng.chance(1, 3) {
                        t.push(b'/');
                    }
                    let mut x = if options.plain { fs::plain_name(v.rng) } else { raw_name(v.rng) };
                    x.truncate(v.rng.range(1, 60) as usize);
                    t.extend(x);
                }
                t.truncate(n);
                nodes[i].link = t.iter().map(|c| *c as u16).collect();
                inode.size = n as u64;
                if n < 60 {
                    inode.block[..n].copy_from_slice(&t);
                } else if !(can_inline && v.rng.chance(1, 2) && inline(&mut inode, &t, room as usize)) {
                    let b = v.block();
                    let at = v.at(b);
                    v.d.write(at, &t);
                    if n < bs as usize {
                        let junk = v.rng.bytes((bs as usize - n).min(100));
                        let mut junk = junk;
                        junk[0] = 0;
                        v.d.write(at + n as u64, &junk);
                    }
                    let piece = Piece {
                        logical: 0,
                        physical: b,
                        count: 1,
                        unwritten: false,
                    };
                    if use_ext(&mut v) || far {
                        extents(&mut v, &mut inode, ino, &[piece]);
                    } else {
                        block_map(&mut v, &mut inode, &[piece]);
                    }
                }
            }
            Kind::Other => {
                inode = Inode::new(*v.rng.pick(&[0x1180u16, 0x2180, 0x6180, 0xc180]));
                if inode.mode & 0x2000 != 0 && inode.mode & 0x8000 == 0 {
                    if v.rng.chance(1, 2) {
                        put32(&mut inode.block, 0, v.rng.range(0x100, 0xffff) as u32);
                    } else {
                        put32(&mut inode.block, 4, v.rng.next() as u32);
                    }
                }
            }
        }
        if v.rng.chance(1, 8) && !far {
            // a block of attributes
            inode.acl = v.block();
            inode.blocks += 1;
            let mut b = vec![0u8; 1024];
            put32(&mut b, 0, 0xea020000);
            put32(&mut b, 4, 1);
            put32(&mut b, 8, 1);
            let at = v.at(inode.acl);
            v.d.write(at, &b);
        }
        if v.rng.chance(2, 3) {
            inode.mode = inode.mode & 0xf000 | v.rng.below(0x1000) as u16 & if v.rng.chance(1, 4) { 0xfff } else { 0x1ff };
        }
        let mut b = vec![0u8; inode_size as usize];
        put16(&mut b, 0, inode.mode);
        put16(&mut b, 2, v.rng.next() as u16);
        put32(&mut b, 4, inode.size as u32);
        for o in [8, 12, 16] {
            let t = match v.rng.below(8) {
                0 => 0,
                1 => 1 + v.rng.below(3) as u32,
                2 => i32::MAX as u32 - v.rng.below(2) as u32,
                3 => v.rng.next() as u32,
                _ => v.rng.next() as u32 >> 1,
            };
            put32(&mut b, o, t);
        }
        put16(&mut b, 24, v.rng.next() as u16);
        put16(&mut b, 26, inode.links);
        let mut count = inode.blocks * (bs / 512);
        if has(HUGE) && v.rng.chance(1, 4) {
            inode.flags |= 0x40000;
            count = inode.blocks;
        }
        put32(&mut b, 28, count as u32);
        put32(&mut b, 32, inode.flags);
        put32(&mut b, 36, v.rng.next() as u32);
        b[40..100].copy_from_slice(&inode.block);
        put32(&mut b, 100, inode.generation);
        put32(&mut b, 104, inode.acl as u32);
        put32(&mut b, 108, (inode.size >> 32) as u32);
        if p.version == 4 {
            put16(&mut b, 116, (count >> 32) as u16);
            put16(&mut b, 118, (inode.acl >> 32) as u16);
        }
        put16(&mut b, 120, v.rng.next() as u16);
        put16(&mut b, 122, v.rng.next() as u16);
        if inode_size > 128 {
            put16(&mut b, 128, extra as u16);
            let x = v.rng.bytes(extra.saturating_sub(4) as usize);
            b[132..132 + x.len()].copy_from_slice(&x);
            for o in [132, 136, 140, 148] {
                // nanoseconds and two bits of the epoch
                let t = match v.rng.below(4) {
                    0 => 0,
                    1 => v.rng.below(4) as u32,
                    _ => (v.rng.below(1_000_000_000) as u32) << 2 | if v.rng.chance(1, 2) { 0 } else { v.rng.below(4) as u32 },
                };
                if o + 4 <= 128 + extra as usize {
                    put32(&mut b, o, t);
                }
            }
            let mut attributes: Vec<(u8, &[u8], Vec<u8>)> = Vec::new();
            if let Some(d) = &inode.inline {
                attributes.push((7, b"data", d.clone()));
            }
            if own_attribute {
                let n = v.rng.range(0, 16);
                let value = v.rng.bytes(n as usize);
                let at = if v.rng.chance(1, 2) { 0 } else { attributes.len() };
                attributes.insert(at, (1, b"te", value));
            }
            if !attributes.is_empty() {
                let h = 128 + extra as usize;
                put32(&mut b, h, 0xea020000);
                let base = h + 4;
                let mut o = base;
                let mut end = inode_size as usize;
                for (index, name, value) in &attributes {
                    let size = value.len().div_ceil(4) * 4;
                    b[o] = name.len() as u8;
                    b[o + 1] = *index;
                    if !value.is_empty() {
                        end -= size;
                        put16(&mut b, o + 2, (end - base) as u16);
                        b[end..end + value.len()].copy_from_slice(value);
                    }
                    put32(&mut b, o + 8, value.len() as u32);
                    put32(&mut b, o + 12, 0);
                    b[o + 16..o + 16 + name.len()].copy_from_slice(name);
                    o += 16 + name.len().div_ceil(4) * 4;
                }
                assert!(o + 4 <= end);
            }
        }
        nodes[i].meta = meta(&b, extra as usize, inode.mode);
        if csum {
            let c = crc32c(seed, &ino.to_le_bytes());
            let c = crc32c(c, &inode.generation.to_le_bytes());
            put16(&mut b, 124, 0);
            let fits = inode_size > 128 && extra >= 4;
            if fits {
                put16(&mut b, 130, 0);
            }
            let c = crc32c(c, &b);
            put16(&mut b, 124, c as u16);
            if fits {
                put16(&mut b, 130, (c >> 16) as u16);
            }
        }
        let g = (ino as u64 - 1) / ipg;
        let k = (ino as u64 - 1) % ipg;
        let at = v.at(tables[g as usize]) + k * inode_size;
        v.d.write(at, &b);
        if csum {
            shield::note("inode", 0, at, inode_size, Guard::ExtInode { seed, inode: ino });
        }
    }
    // leftovers in inodes that are not in use
    for _ in 0..4 {
        let ino = v.rng.range(12, number_of_inodes as u64) as u32;
        if !taken.contains(&ino) {
            let g = (ino as u64 - 1) / ipg;
            let k = (ino as u64 - 1) % ipg;
            let at = v.at(tables[g as usize]) + k * inode_size;
            let junk = v.rng.bytes(inode_size as usize);
            v.d.write(at, &junk);
        }
    }

    // superblocks
    let label: Name = if has(REV0) || v.rng.chance(1, 4) { Vec::new() } else { (0..v.rng.range(1, 16)).map(|_| v.rng.range(0x20, 0x7e) as u16).collect() };
    let mut s = vec![0u8; 1024];
    put32(&mut s, 0, number_of_inodes);
    put32(&mut s, 4, total as u32);
    put32(&mut s, 12, 100);
    put32(&mut s, 16, 100);
    put32(&mut s, 20, first as u32);
    put32(&mut s, 24, p.log);
    put32(&mut s, 28, p.log);
    put32(&mut s, 32, bpg as u32);
    put32(&mut s, 36, bpg as u32);
    put32(&mut s, 40, ipg as u32);
    put32(&mut s, 44, v.rng.next() as u32);
    put32(&mut s, 48, v.rng.next() as u32);
    put16(&mut s, 54, 0xffff);
    put16(&mut s, 56, 0xef53);
    put16(&mut s, 58, 1);
    put16(&mut s, 60, 1);
    s[104..120].copy_from_slice(&uuid);
    if !has(REV0) {
        put32(&mut s, 76, 1);
        put32(&mut s, 84, 11);
        put16(&mut s, 88, inode_size as u16);
        let mut compat = 0u32;
        if p.version >= 3 {
            compat |= 4;
            put32(&mut s, 224, 8);
        }
        if v.rng.chance(1, 2) {
            compat |= 0x20;
        }
        compat |= 8;
        if reserved_gdt > 0 {
            compat |= 0x10;
            put16(&mut s, 206, reserved_gdt as u16);
        }
        if has(SPARSE2) {
            compat |= 0x200;
            put32(&mut s, 588, backup[0] as u32);
            put32(&mut s, 592, backup[1] as u32);
        }
        let mut incompat = 0u32;
        let mut ro = 0u32;
        for (f, b) in [(FILETYPE, 2u32), (EXTENTS, 0x40), (BIT64, 0x80), (FLEX, 0x200), (INLINE, 0x8000)] {
            if has(f) {
                incompat |= b;
            }
        }
        if has(SEED) && csum {
            incompat |= 0x2000;
            put32(&mut s, 624, seed);
        }
        for (f, b) in [(SPARSE_SUPER, 1u32), (LARGE, 2), (HUGE, 8), (CSUM, 0x400)] {
            if has(f) {
                ro |= b;
            }
        }
        if has(GDT_CSUM) && !csum {
            ro |= 0x10;
        }
        if inode_size > 128 && p.version == 4 {
            ro |= 0x40;
        }
        put32(&mut s, 92, compat);
        put32(&mut s, 96, incompat);
        put32(&mut s, 100, ro);
        s[120..120 + label.len()].copy_from_slice(&label.iter().map(|c| *c as u8).collect::<Vec<u8>>());
        s[136..140].copy_from_slice(b"/mnt");
        if has(BIT64) {
            put16(&mut s, 254, 64);
            put32(&mut s, 336, (total >> 32) as u32);
        }
        if has(FLEX) {
            s[372] = v.rng.range(0, 8) as u8;
        }
        if csum {
            s[373] = 1;
        }
        put16(&mut s, 348, 32);
        put16(&mut s, 350, 32);
    }
    let stale = v.rng.chance(1, 3);
    for g in (0..groups).rev() {
        if !has_super(g) {
            continue;
        }
        let at = first + g * bpg;
        let mut b = s.clone();
        put16(&mut b, 90, g as u16);
        if g > 0 && stale {
            // not kept up to date
            put32(&mut b, 12, 777);
        }
        if csum {
            let c = crc32c(!0, &b[..1020]);
            put32(&mut b, 1020, c);
        }
        let so = if g == 0 { 1024 } else { v.at(at) };
        v.d.write(so, &b);
        let o = v.at(at + 1);
        v.d.write(o, &descriptors);
        if csum && g == 0 {
            shield::note("superblock", 0, so, 1024, Guard::ExtSuperblock);
            for i in 0..groups {
                shield::note("group descriptor", 0, o + i * desc, desc, Guard::ExtDescriptor { seed, group: i as u32 });
            }
        }
        if g > 0 && v.rng.chance(1, 40) {
            // a backup that is not there any more
            v.d.write(so, &[0u8; 1024]);
            let junk = v.rng.bytes((desc * 2) as usize);
            v.d.write(o, &junk);
        }
    }
    if v.full {
        return None;
    }
    Some(FsImage {
        volume: v.d,
        nodes,
        fold: false,
        root_id: None,
        unnamed: true,
        unused: Vec::new(),
        label,
        meta: Vec::new(),
        open,
    })
}

struct ExtFs(ExtFileSystem);
struct ExtEntry(ExtFileEntry);

fn open(ds: &DataStreamReference) -> Result<Box<dyn Fs>, ErrorTrace> {
    let mut f = ExtFileSystem::new();
    f.read_data_stream(ds)?;
    Ok(Box::new(ExtFs(f)))
}

fn string(name: &[u16]) -> ByteString {
    let b: Vec<u8> = if name.iter().all(|c| *c < 0x100) {
        name.iter().map(|c| *c as u8).collect()
    } else {
        String::from_utf16_lossy(name).into_bytes()
    };
    ByteString::from(&b[..])
}

fn chars(s: &ByteString) -> Vec<u16> {
    s.elements.iter().map(|c| *c as u16).collect()
}

impl Fs for ExtFs {
    fn root(&self) -> Result<Box<dyn Entry>, ErrorTrace> {
        match self.0.get_root_directory()? {
            Some(e) => Ok(Box::new(ExtEntry(e))),
            None => Err(keramics_core::error_trace_new!("no root directory")),
        }
    }
    fn by_path(&self, path: &[Name]) -> Result<Option<Box<dyn Entry>>, ErrorTrace> {
        let mut p = ExtPath::from("/");
        for n in path {
            p.push(string(n));
        }
        Ok(self.0.get_file_entry_by_path(&p)?.map(|e| Box::new(ExtEntry(e)) as Box<dyn Entry>))
    }
    fn by_id(&self, id: u64) -> Result<Option<Box<dyn Entry>>, ErrorTrace> {
        Ok(Some(Box::new(ExtEntry(self.0.get_file_entry_by_identifier(id as u32)?))))
    }
    fn about(&self) -> (Name, Meta) {
        (self.0.get_volume_label().map(chars).unwrap_or_default(), Vec::new())
    }
}

impl Entry for ExtEntry {
    fn name(&mut self) -> Result<Option<Name>, ErrorTrace> {
        Ok(self.0.get_name().map(chars))
    }
    fn kind(&mut self) -> Kind {
        match self.0.get_file_mode() & 0xf000 {
            EXT_FILE_MODE_TYPE_DIRECTORY => Kind::Dir,
            EXT_FILE_MODE_TYPE_REGULAR_FILE => Kind::File,
            EXT_FILE_MODE_TYPE_SYMBOLIC_LINK => Kind::Link,
            _ => Kind::Other,
        }
    }
    fn size(&mut self) -> u64 {
        self.0.get_size()
    }
    fn meta(&mut self) -> Result<Meta, ErrorTrace> {
        Ok(vec![
            ("mode", self.0.get_file_mode() as i128),
            ("owner", self.0.get_owner_identifier() as i128),
            ("group", self.0.get_group_identifier() as i128),
            ("links", self.0.get_number_of_links() as i128),
            ("accessed", fs::time(self.0.get_access_time())),
            ("changed", fs::time(self.0.get_change_time())),
            ("modified", fs::time(self.0.get_modification_time())),
            ("created", fs::time(self.0.get_creation_time())),
            ("deleted", fs::time(Some(self.0.get_deletion_time()))),
            ("device", self.0.get_device_identifier()?.map_or(-1, |d| d as i128)),
        ])
    }
    fn link(&mut self) -> Result<Option<Vec<u16>>, ErrorTrace> {
        Ok(self.0.get_symbolic_link_target()?.map(chars))
    }
    fn count(&mut self) -> Result<usize, ErrorTrace> {
        self.0.get_number_of_sub_file_entries()
    }
    fn child(&mut self, i: usize) -> Result<Box<dyn Entry>, ErrorTrace> {
        Ok(Box::new(ExtEntry(self.0.get_sub_file_entry_by_index(i)?)))
    }
    fn child_named(&mut self, name: &[u16]) -> Result<Option<Box<dyn Entry>>, ErrorTrace> {
        Ok(self.0.get_sub_file_entry_by_name(&string(name))?.map(|e| Box::new(ExtEntry(e)) as Box<dyn Entry>))
    }
    fn stream(&mut self) -> Result<Option<DataStreamReference>, ErrorTrace> {
        self.0.get_data_stream()
    }
}
