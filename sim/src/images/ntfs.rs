//! Builder of NTFS volumes.

use std::collections::{BTreeMap, HashSet};

use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_formats::ntfs::{NtfsFileEntry, NtfsFileSystem, NtfsPath};
use keramics_types::Ucs2String;

use super::fs::{self, Entry, Fs, FsImage, Kind, Meta, Name, Node};
use super::{blocks_of, compressible, pack, pick_hot, put16, put32, put64, random_guest};
use crate::data::Data;
use crate::rng::Rng;

/// Names differ by case.
pub const SENSITIVE: i64 = 1;
/// The metadata files are listed.
pub const SYSTEM: i64 = 2;
/// Records without their own number (NTFS before 3.1).
pub const OLD: i64 = 4;
/// Attributes are spread over records.
pub const LISTS: i64 = 8;
/// The master file table has an attribute list.
pub const TABLE_LIST: i64 = 16;
/// The parts of the volume are far away from each other.
pub const FAR: i64 = 32;

pub struct Params {
    pub bps: u64,
    pub spc: u64,
    pub record: u64,
    pub index: u64,
    pub nodes: usize,
    pub features: i64,
}

type Runs = Vec<(Option<u64>, u64)>;

struct Vol<'a> {
    rng: &'a mut Rng,
    d: Data,
    cluster: u64,
    /// Next free cluster and end of each zone.
    zones: Vec<(u64, u64)>,
    frag: u64,
}

impl Vol<'_> {
    /// Clusters in one piece.
    fn run(&mut self, n: u64) -> u64 {
        let mut z = self.rng.below(self.zones.len() as u64) as usize;
        while self.zones[z].0 + n + 8 > self.zones[z].1 {
            z += 1;
        }
        let gap = if self.rng.chance(1, 4) { self.rng.below(5) } else { 0 };
        let at = self.zones[z].0 + gap;
        self.zones[z].0 = at + n;
        at
    }
    /// Clusters in one or more pieces, each a multiple of some.
    fn runs(&mut self, n: u64, unit: u64) -> Runs {
        let mut v = Vec::new();
        let mut left = n / unit;
        while left > 0 {
            let k = match self.frag {
                0 => left,
                1 => self.rng.range(1, left),
                _ => self.rng.range(1, left.min(3)),
            };
            let at = self.run(k * unit);
            match v.last_mut() {
                Some((Some(a), c)) if *a + *c == at => *c += k * unit,
                _ => v.push((Some(at), k * unit)),
            }
            left -= k;
        }
        v
    }
    fn write(&mut self, runs: &Runs, data: &[u8]) {
        let mut o = 0usize;
        for (at, n) in runs {
            let len = (n * self.cluster) as usize;
            if let Some(at) = at {
                if o < data.len() {
                    let e = (o + len).min(data.len());
                    self.d.write(at * self.cluster, &data[o..e]);
                }
            }
            o += len;
        }
    }
    fn junk(&mut self, max: usize) -> Vec<u8> {
        let n = self.rng.below(max as u64 + 1) as usize;
        if self.rng.chance(1, 2) { self.rng.bytes(n) } else { vec![0; n] }
    }
}

#[derive(Clone)]
enum Body {
    Resident(Vec<u8>),
    Runs {
        runs: Runs,
        data: u64,
        valid: u64,
        /// Exponent of the compression unit.
        unit: u16,
    },
}

#[derive(Clone)]
struct Attr {
    kind: u32,
    name: Name,
    flags: u16,
    body: Body,
    first: u64,
    /// In an attribute that is not the first: the flags are not set.
    bare: bool,
}

fn pad8(v: &mut Vec<u8>) {
    while v.len() % 8 != 0 {
        v.push(0);
    }
}

fn signed_len(v: i64) -> usize {
    let mut n = 1;
    while n < 8 && (v < -(1i64 << (8 * n - 1)) || v >= 1i64 << (8 * n - 1)) {
        n += 1;
    }
    n
}

fn encode_runs(rng: &mut Rng, runs: &[(Option<u64>, u64)]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut last = 0i64;
    let wide = rng.chance(1, 8);
    for (at, n) in runs {
        let mut c = signed_len(*n as i64);
        if wide && c < 8 && rng.chance(1, 2) {
            c += 1;
        }
        match at {
            Some(a) => {
                let delta = *a as i64 - last;
                let mut o = signed_len(delta);
                if wide && o < 8 && rng.chance(1, 2) {
                    o += 1;
                }
                v.push((o << 4 | c) as u8);
                v.extend(&n.to_le_bytes()[..c]);
                v.extend(&delta.to_le_bytes()[..o]);
                last = *a as i64;
            }
            None => {
                v.push(c as u8);
                v.extend(&n.to_le_bytes()[..c]);
            }
        }
    }
    v.push(0);
    v
}

impl Attr {
    fn resident(kind: u32, name: &str, data: Vec<u8>) -> Attr {
        Attr {
            kind,
            name: name.encode_utf16().collect(),
            flags: 0,
            body: Body::Resident(data),
            first: 0,
            bare: false,
        }
    }
    fn encode(&self, rng: &mut Rng, id: u16, cluster: u64) -> Vec<u8> {
        let mut v = vec![0u8; 16];
        put32(&mut v, 0, self.kind);
        v[9] = self.name.len() as u8;
        put16(&mut v, 12, if self.bare { 0 } else { self.flags });
        put16(&mut v, 14, id);
        let name: Vec<u8> = self.name.iter().flat_map(|c| c.to_le_bytes()).collect();
        match &self.body {
            Body::Resident(data) => {
                v.extend([0u8; 8]);
                put16(&mut v, 10, if name.is_empty() && rng.chance(1, 2) { 0 } else { 24 });
                v.extend(&name);
                pad8(&mut v);
                let at = v.len();
                put32(&mut v, 16, data.len() as u32);
                put16(&mut v, 20, at as u16);
                v[22] = (self.kind == 0x30) as u8;
                v.extend(data);
            }
            Body::Runs { runs, data, valid, unit } => {
                v[8] = 1;
                let count: u64 = runs.iter().map(|r| r.1).sum();
                let stored: u64 = runs.iter().filter(|r| r.0.is_some()).map(|r| r.1).sum();
                v.extend([0u8; 48]);
                put64(&mut v, 16, self.first);
                put64(&mut v, 24, (self.first + count).wrapping_sub(1));
                put16(&mut v, 34, *unit);
                if self.first == 0 {
                    // the allocated size of all extents is set by the caller through `data`
                    put64(&mut v, 40, count * cluster);
                    put64(&mut v, 48, *data);
                    put64(&mut v, 56, *valid);
                }
                if *unit > 0 {
                    v.extend((stored * cluster).to_le_bytes());
                }
                let at = v.len();
                put16(&mut v, 10, if name.is_empty() && rng.chance(1, 2) { 0 } else { at as u16 });
                v.extend(&name);
                pad8(&mut v);
                let at = v.len();
                put16(&mut v, 32, at as u16);
                v.extend(encode_runs(rng, runs));
            }
        }
        pad8(&mut v);
        let n = v.len() as u32;
        put32(&mut v, 4, n);
        v
    }
}

/// Times of an entry: creation, modification, change of the record, access.
fn times(rng: &mut Rng) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..4 {
        let t = if rng.chance(1, 12) { 0 } else if rng.chance(1, 30) { rng.range(1, 1 << 33) } else { rng.range(110_000_000_000_000_000, 150_000_000_000_000_000) };
        v.extend(t.to_le_bytes());
    }
    v
}

fn file_name(rng: &mut Rng, parent: u64, name: &[u16], space: u8, size: u64, dir: bool, reparse: bool) -> Vec<u8> {
    let mut v = parent.to_le_bytes().to_vec();
    v.extend(times(rng));
    v.extend(size.next_multiple_of(512).to_le_bytes());
    v.extend(size.to_le_bytes());
    let mut f: u32 = 0x20;
    if dir {
        f = 0x1000_0000;
    }
    if reparse {
        f |= 0x400;
    }
    v.extend(f.to_le_bytes());
    v.extend([0u8; 4]);
    v.push(name.len() as u8);
    v.push(space);
    v.extend(name.iter().flat_map(|c| c.to_le_bytes()));
    v
}

/// One value of an index, without its sub node.
fn index_value(rng: &mut Rng, reference: u64, key: &[u8], flags: u32, sub: Option<u64>) -> Vec<u8> {
    let mut v = vec![0u8; 16];
    put64(&mut v, 0, reference);
    put16(&mut v, 10, key.len() as u16);
    put32(&mut v, 12, flags | sub.is_some() as u32);
    v.extend(key);
    while v.len() % 8 != 0 {
        v.push(if rng.chance(1, 4) { rng.next() as u8 } else { 0 });
    }
    if let Some(s) = sub {
        v.extend(s.to_le_bytes());
    }
    let n = v.len() as u16;
    put16(&mut v, 8, n);
    v
}

struct Item {
    reference: u64,
    key: Vec<u8>,
    /// Node of the values before this one.
    sub: Option<usize>,
}

impl Item {
    fn size(&self) -> usize {
        16 + self.key.len().next_multiple_of(8) + if self.sub.is_some() { 8 } else { 0 }
    }
}

struct IndexNode {
    items: Vec<Item>,
    end: Option<usize>,
}

fn protect(rng: &mut Rng, r: &mut [u8], at: usize) {
    let n = r.len() / 512;
    put16(r, 4, at as u16);
    put16(r, 6, n as u16 + 1);
    let mark = rng.range(1, 0xffff) as u16;
    for i in 0..n {
        let e = 512 * (i + 1) - 2;
        let old = [r[e], r[e + 1]];
        r[at + 2 + 2 * i..at + 4 + 2 * i].copy_from_slice(&old);
        put16(r, e, mark);
    }
    put16(r, at, mark);
}

fn node_values(rng: &mut Rng, node: &IndexNode, vcn: &[u64]) -> Vec<u8> {
    let mut v = Vec::new();
    for it in &node.items {
        v.extend(index_value(rng, it.reference, &it.key, 0, it.sub.map(|s| vcn[s])));
    }
    v.extend(index_value(rng, 0, &[], 2, node.end.map(|s| vcn[s])));
    v
}

/// Attributes of a directory: entries in the order of their names.
fn index_attrs(v: &mut Vol, p: &Params, entries: Vec<(u64, Vec<u8>)>, out: &mut Vec<Attr>) {
    let rs = p.record as usize;
    let is = p.index as usize;
    let budget = *v.rng.pick(&[0, 100, 300, 700, rs / 2]);
    let budget = budget.min(rs.saturating_sub(500)).min(rs / 2);
    let values_at = (40 + 2 * (is / 512 + 1)).next_multiple_of(8);
    let room = is - values_at - 24;
    let mut nodes: Vec<IndexNode> = Vec::new();
    let mut items: Vec<Item> = entries
        .into_iter()
        .map(|(reference, key)| Item {
            reference,
            key,
            sub: None,
        })
        .collect();
    let mut end: Option<usize> = None;
    let fill = v.rng.range(1, 4);
    loop {
        let size: usize = items.iter().map(|i| i.size()).sum();
        if size <= budget && (end.is_some() || items.is_empty() || v.rng.chance(7, 8)) {
            break;
        }
        // the items are distributed over nodes of a level
        let mut up: Vec<Item> = Vec::new();
        let mut it = items.into_iter().peekable();
        let mut now: Vec<Item> = Vec::new();
        let mut used = 0;
        let mut target = room;
        while let Some(mut i) = it.next() {
            let n = i.size();
            let more = it.peek().is_some();
            let full = used + n > target || used + n > room;
            if !now.is_empty() && full && more {
                // this one separates
                let node = IndexNode {
                    items: std::mem::take(&mut now),
                    end: i.sub,
                };
                nodes.push(node);
                i.sub = Some(nodes.len() - 1);
                up.push(i);
                used = 0;
                target = match fill {
                    1 => v.rng.range(1, room as u64) as usize,
                    2 => room / 2,
                    _ => room,
                };
            } else if !now.is_empty() && used + n > room {
                // the last one does not fit: the one before it separates
                let mut s = now.pop().unwrap();
                let node = IndexNode {
                    items: std::mem::take(&mut now),
                    end: s.sub,
                };
                nodes.push(node);
                s.sub = Some(nodes.len() - 1);
                up.push(s);
                now.push(i);
                used = n;
            } else {
                used += n;
                now.push(i);
            }
        }
        nodes.push(IndexNode { items: now, end });
        end = Some(nodes.len() - 1);
        items = up;
    }
    // places
    let per = if v.cluster > p.index { v.cluster / p.index } else { 1 };
    let mut slots = nodes.len() as u64 + if nodes.is_empty() { 0 } else { v.rng.skewed(4) };
    slots = slots.next_multiple_of(per);
    let mut place: Vec<u64> = (0..slots).collect();
    if v.rng.chance(2, 3) {
        v.rng.shuffle(&mut place);
    }
    let unit = if v.cluster > p.index { 512 } else { v.cluster };
    let vcn: Vec<u64> = (0..nodes.len()).map(|i| place[i] * p.index / unit).collect();
    let root = IndexNode { items, end };
    let values = node_values(v.rng, &root, &vcn);
    let mut r = vec![0u8; 32];
    put32(&mut r, 0, 0x30);
    put32(&mut r, 4, 1);
    put32(&mut r, 8, p.index as u32);
    r[12] = (p.index / unit) as u8;
    put32(&mut r, 16, 16);
    put32(&mut r, 20, 16 + values.len() as u32);
    put32(&mut r, 24, 16 + values.len() as u32);
    r[28] = root.end.is_some() as u8;
    r.extend(values);
    out.push(Attr::resident(0x90, "$I30", r));
    if slots == 0 {
        return;
    }
    let mut all = vec![0u8; (slots * p.index) as usize];
    let mut bits = vec![0u8; slots.div_ceil(64) as usize * 8];
    for s in 0..slots {
        let at = (s * p.index) as usize;
        let mut x = vec![0u8; is];
        let i = place.iter().position(|y| *y == s).unwrap();
        if i >= nodes.len() && v.rng.chance(1, 2) {
            if v.rng.chance(1, 2) {
                v.rng.fill(&mut all[at..at + is]);
            }
            continue;
        }
        x[..4].copy_from_slice(b"INDX");
        let lsn = v.rng.next() >> 20;
        put64(&mut x, 8, lsn);
        put64(&mut x, 16, s * p.index / unit);
        let values = if i < nodes.len() {
            bits[s as usize / 8] |= 1 << (s % 8);
            node_values(v.rng, &nodes[i], &vcn)
        } else {
            // freed
            let key = file_name(v.rng, 5, &"stale".encode_utf16().collect::<Vec<u16>>(), 1, 0, false, false);
            let mut y = index_value(v.rng, 0x1_0000_0000_0018, &key, 0, None);
            y.extend(index_value(v.rng, 0, &[], 2, None));
            y
        };
        put32(&mut x, 24, values_at as u32 - 24);
        put32(&mut x, 28, (values_at - 24 + values.len()) as u32);
        put32(&mut x, 32, p.index as u32 - 24);
        x[36] = (i < nodes.len() && nodes[i].end.is_some()) as u8;
        x[values_at..values_at + values.len()].copy_from_slice(&values);
        // leftovers
        let e = values_at + values.len();
        if e + 8 < is && v.rng.chance(1, 2) {
            let n = v.rng.below((is - e) as u64) as usize;
            v.rng.fill(&mut x[e..e + n]);
        }
        protect(v.rng, &mut x, 40);
        all[at..at + is].copy_from_slice(&x);
    }
    let clusters = (slots * p.index) / v.cluster;
    let runs = v.runs(clusters, (p.index / v.cluster).max(1));
    v.write(&runs, &all);
    out.push(Attr {
        kind: 0xa0,
        name: "$I30".encode_utf16().collect(),
        flags: 0,
        body: Body::Runs {
            runs,
            data: slots * p.index,
            valid: slots * p.index,
            unit: 0,
        },
        first: 0,
        bare: false,
    });
    if v.rng.chance(9, 10) {
        out.push(Attr::resident(0xb0, "$I30", bits));
    }
}

/// A stream: what it contains, and the attribute that stores it.
fn stream(v: &mut Vol, name: &Name, given: Option<&Data>, hot: &mut Vec<u64>, modest: bool, wof: Option<&mut Vec<Attr>>, wof_stream: &mut Option<Data>) -> (Data, Attr) {
    let c = v.cluster;
    let attr = |flags: u16, body: Body| Attr {
        kind: 0x80,
        name: name.clone(),
        flags,
        body,
        first: 0,
        bare: false,
    };
    let small = given.is_some_and(|g| g.size < 600);
    match v.rng.below(10) {
        0 | 1 | 2 if given.is_none() || small => {
            // resident
            let d = match given {
                Some(g) => g.clone(),
                None => {
                    let n = match v.rng.below(4) {
                        0 => 0,
                        1 => v.rng.range(1, 600),
                        _ => v.rng.range(1, 120),
                    };
                    let x = v.rng.bytes(n as usize);
                    Data::from_vec(&x)
                }
            };
            let flags = if v.rng.chance(1, 8) { 1 } else { 0 };
            let b = Body::Resident(d.to_vec());
            (d, attr(flags, b))
        }
        3 | 4 if given.is_none() && (wof.is_none() || v.rng.chance(1, 2)) || given.is_some_and(|g| g.populated().len() < 2000 && g.size > 1 << 24) => {
            // sparse
            let unit: u16 = *v.rng.pick(&[0, 4, 4]);
            let step = if v.rng.chance(1, 2) { 16 } else { 1 };
            let d = match given {
                Some(g) => g.clone(),
                None => {
                    let size = match v.rng.below(4) {
                        0 => v.rng.range(1, 64 * c),
                        1 if !modest => v.rng.range(1, 1 << 40),
                        _ => v.rng.range(1, 200 * c).min(1 << 22),
                    };
                    random_guest(v.rng, size, c * step)
                }
            };
            let n = d.size.div_ceil(c);
            let all = v.rng.chance(1, 6);
            let mut runs: Runs = Vec::new();
            let mut at = 0;
            let push = |runs: &mut Runs, r: (Option<u64>, u64)| match (runs.last_mut(), r) {
                (Some((None, k)), (None, n)) => *k += n,
                (Some((Some(a), k)), (Some(b), n)) if *a + *k == b => *k += n,
                _ => runs.push(r),
            };
            for b in blocks_of(&d, c * step, if all { 64 } else { 0 }) {
                let first = (b * step).min(n);
                let last = (first + step).min(n);
                if d.is_zero(first * c, (last * c).min(d.size) - first * c) && !all {
                    continue;
                }
                if first > at {
                    push(&mut runs, (None, first - at));
                }
                hot.push(first * c);
                hot.push((last * c).min(d.size));
                for r in v.runs(last - first, 1) {
                    push(&mut runs, r);
                }
                at = last;
            }
            if at < n {
                push(&mut runs, (None, n - at));
            }
            let mut o = 0;
            for (a, k) in &runs {
                if let Some(a) = a {
                    let len = (k * c).min(d.size - o);
                    let x = d.slice(o, len);
                    v.d.write(a * c, &x);
                    if len < k * c {
                        let j = v.junk((k * c - len) as usize);
                        v.d.write(a * c + len, &j);
                    }
                }
                o += k * c;
            }
            let b = Body::Runs {
                runs,
                data: d.size,
                valid: d.size,
                unit,
            };
            (d, attr(0x8000, b))
        }
        5 | 6 if c <= 4096 && given.is_none() => {
            // compressed
            let u = 16 * c;
            let size = match v.rng.below(5) {
                0 => v.rng.range(1, 6) * u,
                1 => v.rng.range(1, u),
                _ => v.rng.range(1, 5 * u),
            };
            let valid = match v.rng.below(5) {
                0 => v.rng.below(size + 1),
                _ => size,
            };
            let mut d = Data::new(size);
            for k in 0..size.div_ceil(u) {
                let len = u.min(size - k * u) as usize;
                let x = match v.rng.below(8) {
                    0 => continue,
                    1 => v.rng.bytes(len),
                    2 => {
                        // partly random
                        let mut x = compressible(v.rng, len);
                        let a = v.rng.below(len as u64) as usize;
                        v.rng.fill(&mut x[a..]);
                        x
                    }
                    3 => {
                        let k = v.rng.below(len as u64) as usize;
                        let mut x = vec![0; len];
                        v.rng.fill(&mut x[..k.min(300)]);
                        x
                    }
                    _ => compressible(v.rng, len),
                };
                d.write(k * u, &x);
                hot.extend([k * u, k * u + 4096.min(u), (k + 1) * u]);
            }
            if valid < size {
                let z = vec![0; (size - valid) as usize];
                d.write(valid, &z);
                hot.push(valid);
            }
            let mut runs: Runs = Vec::new();
            let push = |runs: &mut Runs, r: (Option<u64>, u64)| match (runs.last_mut(), r) {
                (Some((None, k)), (None, n)) => *k += n,
                (Some((Some(a), k)), (Some(b), n)) if *a + *k == b => *k += n,
                _ => runs.push(r),
            };
            for k in 0..size.div_ceil(u) {
                let len = u.min(size - k * u);
                if d.is_zero(k * u, len) && v.rng.chance(5, 6) {
                    push(&mut runs, (None, 16));
                    continue;
                }
                let mut x = d.slice(k * u, len);
                if v.rng.chance(1, 2) {
                    x.resize(u as usize, 0);
                }
                let mut packed = pack::lznt1(v.rng, &x);
                let need = (packed.len() as u64).div_ceil(c);
                if need < 16 && v.rng.chance(19, 20) {
                    let need = if need < 15 && v.rng.chance(1, 10) { need + 1 } else { need };
                    let room = (need * c) as usize - packed.len();
                    if room >= 2 && (x.len() as u64) < u || room > 2 && v.rng.chance(1, 4) {
                        packed.extend([0, 0]);
                        let j = v.junk(room - 2);
                        packed.extend(j);
                    }
                    let r = v.runs(need, 1);
                    v.write(&r, &packed);
                    for x in r {
                        push(&mut runs, x);
                    }
                    push(&mut runs, (None, 16 - need));
                } else {
                    x.resize(u as usize, 0);
                    let r = v.runs(16, 1);
                    v.write(&r, &x);
                    for x in r {
                        push(&mut runs, x);
                    }
                }
            }
            // holes in pieces
            if v.rng.chance(1, 6) {
                runs = runs
                    .into_iter()
                    .flat_map(|r| match r {
                        (None, n) if n > 1 => {
                            let k = v.rng.range(1, n - 1);
                            vec![(None, k), (None, n - k)]
                        }
                        _ => vec![r],
                    })
                    .collect();
            }
            let b = Body::Runs { runs, data: size, valid, unit: 4 };
            (d, attr(1, b))
        }
        7 | 8 if wof.is_some() && given.is_none() => {
            // kept by the overlay filter
            let method = *v.rng.pick(&[0u32, 1, 1, 1, 2, 3]);
            let unit = [4096u64, 32768, 8192, 16384][method as usize];
            let size = match v.rng.below(4) {
                0 => v.rng.range(1, 4) * unit,
                1 => v.rng.range(1, unit),
                _ => v.rng.range(1, 6 * unit),
            };
            let mut d = Data::new(size);
            let mut chunks: Vec<Vec<u8>> = Vec::new();
            for k in 0..size.div_ceil(unit) {
                let len = unit.min(size - k * unit) as usize;
                let mut x = if v.rng.chance(1, 4) { v.rng.bytes(len) } else { compressible(v.rng, len) };
                if v.rng.chance(1, 3) {
                    // calls
                    for _ in 0..40 {
                        let a = v.rng.below(len as u64) as usize;
                        x[a] = 0xe8;
                        if a + 5 <= len && v.rng.chance(1, 2) {
                            let t = v.rng.range(0, 100_000) as i32 - 50_000;
                            x[a + 1..a + 5].copy_from_slice(&t.to_le_bytes());
                        }
                    }
                }
                if method == 1 && len as u64 == unit && len > 10 {
                    for b in x[len - 10..].iter_mut() {
                        if *b == 0xe8 {
                            *b = 0;
                        }
                    }
                }
                d.write(k * unit, &x);
                hot.push(k * unit);
                let packed = if method == 1 && len as u64 == unit { pack::lzx(v.rng, &x) } else { None };
                match packed {
                    Some(y) if y.len() < x.len() => chunks.push(y),
                    _ => chunks.push(x),
                }
            }
            let mut body: Vec<u8> = Vec::new();
            let mut o = 0u32;
            for k in 1..chunks.len() {
                o += chunks[k - 1].len() as u32;
                body.extend(o.to_le_bytes());
            }
            for k in &chunks {
                body.extend(k);
            }
            let r = v.runs((body.len() as u64).div_ceil(c), 1);
            v.write(&r, &body);
            let extra = wof.unwrap();
            extra.push(Attr {
                kind: 0x80,
                name: "WofCompressedData".encode_utf16().collect(),
                flags: 0,
                body: Body::Runs {
                    runs: r,
                    data: body.len() as u64,
                    valid: body.len() as u64,
                    unit: 0,
                },
                first: 0,
                bare: false,
            });
            *wof_stream = Some(Data::from_vec(&body));
            let mut r = vec![0u8; 24];
            put32(&mut r, 0, 0x8000_0017);
            put16(&mut r, 4, 16);
            put32(&mut r, 8, 1);
            put32(&mut r, 12, 2);
            put32(&mut r, 16, 1);
            put32(&mut r, 20, method);
            extra.push(Attr::resident(0xc0, "", r));
            let b = Body::Runs {
                runs: vec![(None, size.div_ceil(c))],
                data: size,
                valid: size,
                unit: *v.rng.pick(&[0, 4]),
            };
            (d, attr(0x8000, b))
        }
        _ => {
            let d = match given {
                Some(g) => g.clone(),
                None => {
                    let size = match v.rng.below(8) {
                        0 => 0,
                        1 => v.rng.range(1, 4) * c,
                        2 => c.saturating_sub(v.rng.below(3)).max(1),
                        3 => v.rng.range(1, 300_000).min(60 * c),
                        _ => v.rng.range(1, 6 * c.min(8192)),
                    }
                    .min(1 << 20);
                    let x = if v.rng.chance(1, 5) { compressible(v.rng, size as usize) } else { v.rng.bytes(size as usize) };
                    Data::from_vec(&x)
                }
            };
            let mut d = d;
            let mut valid = d.size;
            let mut junk = Vec::new();
            if given.is_none() && v.rng.chance(1, 4) {
                // what was not written yet is zero, whatever is stored
                valid = v.rng.below(d.size + 1);
                let z = vec![0; (d.size - valid) as usize];
                d.write(valid, &z);
                junk = v.junk(((d.size - valid) as usize).min(100_000));
                hot.push(valid);
            }
            let extra = if v.rng.chance(1, 5) { v.rng.range(1, 20) } else { 0 };
            let n = d.size.div_ceil(c) + extra;
            let runs = v.runs(n, 1);
            let mut o = 0;
            for (a, k) in &runs {
                let a = a.unwrap();
                hot.push(o);
                if o < d.size {
                    let len = (k * c).min(d.size - o);
                    for q in d.pages_in(o, len) {
                        let x = d.slice(q.0, q.1);
                        v.d.write(a * c + (q.0 - o), &x);
                    }
                    if len < k * c {
                        let j = v.junk(((k * c - len) as usize).min(5000));
                        v.d.write(a * c + len, &j);
                    }
                }
                o += k * c;
            }
            // stored beyond what is valid
            let mut o = 0;
            for (a, k) in &runs {
                let (s, e) = (valid.max(o), (valid + junk.len() as u64).min(o + k * c));
                if s < e {
                    let x = &junk[(s - valid) as usize..(e - valid) as usize];
                    v.d.write(a.unwrap() * c + s - o, x);
                }
                o += k * c;
            }
            let b = Body::Runs {
                runs,
                data: d.size,
                valid,
                unit: 0,
            };
            (d, attr(0, b))
        }
    }
}

struct Record {
    number: u64,
    sequence: u16,
    base: u64,
    flags: u16,
    links: u16,
    attrs: Vec<Vec<u8>>,
}

fn record(rng: &mut Rng, p: &Params, r: &Record) -> Vec<u8> {
    let old = p.features & OLD != 0;
    let fix = if old { 42 } else { 48 };
    let at = (fix + 2 * (p.record as usize / 512 + 1)).next_multiple_of(8);
    let mut v = vec![0u8; p.record as usize];
    if rng.chance(1, 4) {
        rng.fill(&mut v);
        v[..48].fill(0);
    }
    v[..4].copy_from_slice(b"FILE");
    let lsn = rng.next() >> 20;
    put64(&mut v, 8, lsn);
    put16(&mut v, 16, r.sequence);
    put16(&mut v, 18, r.links);
    put16(&mut v, 20, at as u16);
    put16(&mut v, 22, r.flags);
    put32(&mut v, 28, p.record as u32);
    put64(&mut v, 32, r.base);
    put16(&mut v, 40, r.attrs.len() as u16);
    if !old {
        put32(&mut v, 44, r.number as u32);
    }
    let mut o = at;
    for a in &r.attrs {
        v[o..o + a.len()].copy_from_slice(a);
        o += a.len();
    }
    put32(&mut v, o, 0xffff_ffff);
    put32(&mut v, o + 4, 0);
    put32(&mut v, 24, o as u32 + 8);
    protect(rng, &mut v, fix);
    v
}

fn capacity(p: &Params) -> usize {
    let fix = if p.features & OLD != 0 { 42 } else { 48 };
    p.record as usize - (fix + 2 * (p.record as usize / 512 + 1)).next_multiple_of(8) - 8
}

/// Splits the runs of an attribute.
fn split(rng: &mut Rng, a: &Attr, cluster: u64, pieces: bool, most: usize) -> Vec<Attr> {
    let Body::Runs { runs, data, valid, unit } = &a.body else { return vec![a.clone()] };
    let cap = if pieces { rng.range(1, 12) } else { 40 } as usize;
    let cap = cap.max(runs.len().div_ceil(most)).max(1);
    if runs.len() <= cap {
        return vec![a.clone()];
    }
    let mut v = Vec::new();
    let mut first = 0;
    let _ = cluster;
    let bare = a.kind == 0x80 && a.flags & 1 != 0 && rng.chance(1, 3);
    for part in runs.chunks(cap) {
        v.push(Attr {
            body: Body::Runs {
                runs: part.to_vec(),
                data: *data,
                valid: *valid,
                unit: *unit,
            },
            first,
            bare: bare && first > 0,
            ..a.clone()
        });
        first += part.iter().map(|r| r.1).sum::<u64>();
    }
    v
}

struct Numbers {
    next: u64,
    holes: u64,
    sequences: BTreeMap<u64, u16>,
    /// Numbers kept for the records of the table itself, the first last.
    kept: Vec<u64>,
}

impl Numbers {
    fn take(&mut self, rng: &mut Rng) -> u64 {
        if let Some(n) = self.kept.pop() {
            return n;
        }
        if rng.chance(self.holes, 20) {
            self.next += rng.range(1, 3);
        }
        self.next += 1;
        self.next - 1
    }
    fn reference(&mut self, rng: &mut Rng, n: u64) -> u64 {
        let s = *self.sequences.entry(n).or_insert_with(|| if n < 16 { n.max(1) as u16 } else { rng.range(1, 0xffff) as u16 });
        n | (s as u64) << 48
    }
}

/// Distributes the attributes of a file over records.
fn store(v: &mut Vol, p: &Params, numbers: &mut Numbers, number: u64, flags: u16, mut attrs: Vec<Attr>, out: &mut BTreeMap<u64, Vec<u8>>) {
    let links = attrs.iter().filter(|a| a.kind == 0x30).count() as u16;
    attrs.sort_by(|a, b| a.kind.cmp(&b.kind).then_with(|| fs::fold(&a.name).cmp(&fs::fold(&b.name))));
    let base = numbers.reference(v.rng, number);
    let sequence = (base >> 48) as u16;
    let cap = capacity(p);
    // extents that a reader puts together
    let whole = |a: &Attr, n: usize, e: &mut Vec<u8>, cluster: u64| {
        if let (Body::Runs { runs, .. }, true) = (&a.body, n > 1) {
            let count: u64 = runs.iter().map(|r| r.1).sum();
            put64(e, 40, count * cluster);
        }
    };
    let lists = p.features & LISTS != 0 && number >= 16;
    let mut plain = Vec::new();
    for (i, a) in attrs.iter().enumerate() {
        plain.push(a.encode(v.rng, i as u16, v.cluster));
    }
    let table_list = number == 0 && p.features & TABLE_LIST != 0;
    if plain.iter().map(|x| x.len()).sum::<usize>() <= cap && !(lists && v.rng.chance(2, 3)) && !table_list {
        let r = record(
            v.rng,
            p,
            &Record {
                number,
                sequence,
                base: 0,
                flags: flags | 1,
                links,
                attrs: plain,
            },
        );
        out.insert(number, r);
        return;
    }
    // extents
    let mut extents: Vec<(usize, Attr, Vec<u8>)> = Vec::new();
    for (i, a) in attrs.iter().enumerate() {
        let pieces = table_list || v.rng.chance(1, 2);
        let most = if number == 0 { numbers.kept.len() + 1 } else { usize::MAX };
        let parts = split(v.rng, a, v.cluster, pieces, most);
        for e in &parts {
            let mut b = e.encode(v.rng, 0, v.cluster);
            if e.first == 0 {
                whole(a, parts.len(), &mut b, v.cluster);
            }
            extents.push((i, e.clone(), b));
        }
    }
    let list_size: usize = extents.iter().map(|e| (26 + e.1.name.len() * 2).next_multiple_of(8)).sum();
    let inside = list_size + 24 < cap / 3 && v.rng.chance(2, 3);
    let list_attr_size = if inside { (24 + list_size).next_multiple_of(8) } else { 120 };
    // the records: the base, then the others
    let mut records: Vec<(u64, usize, HashSet<(u32, Name)>, Vec<usize>)> = vec![(number, cap - list_attr_size, HashSet::new(), Vec::new())];
    let mut place = vec![0usize; extents.len()];
    for i in 0..extents.len() {
        let (_, a, b) = &extents[i];
        let key = (a.kind, a.name.clone());
        let n = b.len();
        let multi = extents.iter().filter(|e| e.0 == extents[i].0).count() > 1;
        let ok = |r: &(u64, usize, HashSet<(u32, Name)>, Vec<usize>)| r.1 >= n && !(multi && r.2.contains(&key));
        let must = a.kind == 0x10 || (number == 0 && a.kind == 0x80 && a.first == 0);
        let mut choices: Vec<usize> = (0..records.len()).filter(|k| ok(&records[*k])).collect();
        if must {
            choices.retain(|k| *k == 0);
        } else if !choices.is_empty() && choices[0] == 0 && v.rng.chance(1, 3) && number != 0 {
            choices.remove(0);
        }
        // the extents of the table of records are found in the order of the records
        if number == 0 && multi {
            let last = records.iter().rposition(|r| r.2.contains(&key)).unwrap_or(0);
            choices.retain(|k| *k >= last);
        }
        let k = match choices.is_empty() || (!must && number != 0 && v.rng.chance(1, 8)) {
            true => {
                assert!(!must, "no room in the base record");
                let x = numbers.take(v.rng);
                records.push((x, cap, HashSet::new(), Vec::new()));
                records.len() - 1
            }
            false => *v.rng.pick(&choices),
        };
        records[k].1 -= n;
        records[k].2.insert(key);
        records[k].3.push(i);
        place[i] = k;
    }
    // the list
    let mut list = Vec::new();
    for (i, (_, a, b)) in extents.iter_mut().enumerate() {
        let k = place[i];
        let id = records[k].3.iter().position(|x| *x == i).unwrap() as u16 + (k == 0) as u16;
        put16(b, 14, id);
        let at = list.len();
        let n = (26 + a.name.len() * 2).next_multiple_of(8);
        list.resize(at + n, 0);
        let e = &mut list[at..];
        put32(e, 0, a.kind);
        put16(e, 4, n as u16);
        e[6] = a.name.len() as u8;
        e[7] = 26;
        put64(e, 8, a.first);
        let r = numbers.reference(v.rng, records[k].0);
        put64(e, 16, r);
        put16(e, 24, id);
        for (j, c) in a.name.iter().enumerate() {
            put16(e, 26 + 2 * j, *c);
        }
    }
    let list_attr = if inside {
        Attr::resident(0x20, "", list)
    } else {
        let n = (list.len() as u64).div_ceil(v.cluster);
        let r = v.run(n);
        let runs = vec![(Some(r), n)];
        v.write(&runs, &list);
        Attr {
            body: Body::Runs {
                runs,
                data: list.len() as u64,
                valid: list.len() as u64,
                unit: 0,
            },
            ..Attr::resident(0x20, "", Vec::new())
        }
    };
    for (k, (n, _, _, ids)) in records.iter().enumerate() {
        let mut a: Vec<Vec<u8>> = ids.iter().map(|i| extents[*i].2.clone()).collect();
        if k == 0 {
            let at = a.iter().position(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]]) > 0x20).unwrap_or(a.len());
            let e = list_attr.encode(v.rng, 0, v.cluster);
            a.insert(at, e);
        }
        let s = (numbers.reference(v.rng, *n) >> 48) as u16;
        let r = record(
            v.rng,
            p,
            &Record {
                number: *n,
                sequence: s,
                base: if k == 0 { 0 } else { base },
                flags: if k == 0 { flags | 1 } else { 1 },
                links: if k == 0 { links } else { 0 },
                attrs: a,
            },
        );
        out.insert(*n, r);
    }
}

fn standard(v: &mut Vol, p: &Params, flags: u32) -> Attr {
    let mut s = times(v.rng);
    // read-only, hidden, system, archive, normal, temporary, not indexed
    let flags = flags | (v.rng.next() as u32 & v.rng.next() as u32 & 0x21a7);
    s.extend(flags.to_le_bytes());
    let sensitive = p.features & SENSITIVE != 0;
    s.extend(0u32.to_le_bytes());
    s.extend((sensitive as u32).to_le_bytes());
    s.extend(0u32.to_le_bytes());
    if p.features & OLD == 0 || v.rng.chance(1, 2) {
        s.extend(0u32.to_le_bytes());
        s.extend(0x104u32.to_le_bytes());
        s.extend(0u64.to_le_bytes());
        let usn = v.rng.below(1 << 40);
        s.extend(usn.to_le_bytes());
    }
    Attr::resident(0x10, "", s)
}

/// What the standard information says.
fn meta(attrs: &[Attr]) -> Meta {
    let mut m = Vec::new();
    for a in attrs {
        if let (0x10, Body::Resident(b)) = (a.kind, &a.body) {
            let long = |o: usize| match u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) {
                0 => -1,
                t => t as i128,
            };
            m.extend([("created", long(0)), ("modified", long(8)), ("changed", long(16)), ("accessed", long(24))]);
            m.push(("flags", u32::from_le_bytes(b[32..36].try_into().unwrap()) as i128));
        }
    }
    m
}

fn utf16(s: &str) -> Name {
    s.encode_utf16().collect()
}

pub fn build(rng: &mut Rng, p: &Params) -> FsImage {
    let options = fs::options();
    let shape = fs::tree(rng, p.nodes, true);
    let graft_at = shape.len() - options.graft.len();
    let sensitive = p.features & SENSITIVE != 0;
    let system = p.features & SYSTEM != 0 && !options.plain;
    let cluster = p.bps * p.spc;
    let not: Vec<u16> = b"\"*/:<>?\\|".iter().map(|b| *b as u16).collect();

    let boot_clusters = 8192u64.div_ceil(cluster).max(1);
    let modest = options.modest || options.plain;
    let zones = if modest {
        vec![(boot_clusters, u64::MAX >> 20)]
    } else {
        let k = if p.features & FAR != 0 { rng.range(14, 34) } else { rng.range(13, 18) };
        let mut v: Vec<(u64, u64)> = (0..rng.range(1, 4)).map(|i| (i << k, (i + 1) << k)).collect();
        v[0].0 = boot_clusters;
        v.last_mut().unwrap().1 = u64::MAX >> 20;
        v
    };
    let frag = rng.below(3);
    let mut v = Vol {
        rng,
        d: Data::new(1 << 60),
        cluster,
        zones,
        frag,
    };
    let mut numbers = Numbers {
        next: 24,
        holes: *v.rng.pick(&[0, 1, 6]),
        sequences: BTreeMap::new(),
        kept: Vec::new(),
    };
    // records that continue that of the table come first
    let table_extra: Vec<u64> = if p.features & TABLE_LIST != 0 { (0..6).map(|_| numbers.take(v.rng)).filter(|n| *n < 32).collect() } else { Vec::new() };

    let mut nodes: Vec<Node> = Vec::new();
    let mut taken: HashSet<(usize, Vec<u16>)> = HashSet::new();
    for s in [".", "$MFT", "$MFTMirr", "$LogFile", "$Volume", "$AttrDef", "$Bitmap", "$Boot", "$BadClus", "$Secure", "$UpCase", "$Extend"] {
        taken.insert((0, fs::fold(&utf16(s))));
    }
    let mut number: Vec<u64> = Vec::new();
    // attributes of each file, without those of a directory's index
    let mut files: BTreeMap<u64, (u16, Vec<Attr>)> = BTreeMap::new();
    // entries of each directory
    let mut entries: BTreeMap<usize, Vec<(Name, u64, Vec<u8>)>> = BTreeMap::new();
    let mut regular: Vec<usize> = Vec::new();
    let mut order: Vec<u64> = (0..shape.len()).map(|_| numbers.take(v.rng)).collect();
    if v.rng.chance(1, 2) {
        v.rng.shuffle(&mut order);
    }
    for (i, (parent, kind)) in shape.iter().enumerate() {
        if i == 0 {
            nodes.push(Node::new(Vec::new(), 0, Kind::Dir));
            nodes[0].id = Some(5);
            number.push(5);
            let a = standard(&mut v, p, 0x6);
            files.insert(5, (2, vec![a]));
            nodes[0].meta = meta(&files[&5].1);
            let r = numbers.reference(v.rng, 5);
            let key = file_name(v.rng, r, &utf16("."), 3, 0, true, false);
            files.get_mut(&5).unwrap().1.push(Attr::resident(0x30, "", key.clone()));
            entries.entry(0).or_default().push((utf16("."), r, key));
            continue;
        }
        let grafted = i >= graft_at;
        let name = loop {
            let name: Name = if grafted {
                String::from_utf8_lossy(&options.graft[i - graft_at].0).encode_utf16().collect()
            } else if options.plain {
                fs::plain_name(v.rng).iter().map(|c| *c as u16).collect()
            } else if sensitive {
                let n = v.rng.range(1, 40);
                (0..n).map(|_| *v.rng.pick(b"abcdefghijklmnopqrstuvwxyz0123456789-+") as u16).collect()
            } else {
                fs::random_name(v.rng, 255, &not)
            };
            let key = if sensitive { name.clone() } else { fs::fold(&name) };
            if !taken.contains(&(*parent, key.clone())) {
                taken.insert((*parent, key));
                break name;
            }
        };
        let kind = if *kind == Kind::Other { Kind::File } else { *kind };
        let mut n = Node::new(name.clone(), *parent, kind);
        let link = kind == Kind::File && !grafted && !regular.is_empty() && v.rng.chance(1, 10);
        let other = if link { Some(*v.rng.pick(&regular)) } else { None };
        let num = match other {
            Some(o) => number[o],
            None => order[i],
        };
        if let Some(o) = other {
            n.data = nodes[o].data.clone();
            n.streams = nodes[o].streams.clone();
            n.hot = nodes[o].hot.clone();
        } else {
            let mut attrs = Vec::new();
            let mut flags = 0;
            let mut reparse = false;
            let mut hot = Vec::new();
            match kind {
                Kind::Dir => flags = 2,
                Kind::Link => {
                    reparse = true;
                    let to = if v.rng.chance(1, 2) { utf16(&format!("\\??\\C:\\target\\{i}")) } else { fs::random_name(v.rng, 60, &[]) };
                    let shown = match v.rng.below(3) {
                        0 => to.clone(),
                        1 => Vec::new(),
                        _ => fs::random_name(v.rng, 40, &[]),
                    };
                    let (a, b): (Vec<u8>, Vec<u8>) = (to.iter().flat_map(|c| c.to_le_bytes()).collect(), shown.iter().flat_map(|c| c.to_le_bytes()).collect());
                    let swap = v.rng.chance(1, 2);
                    let mut r = vec![0u8; 20];
                    put32(&mut r, 0, 0xa000_000c);
                    put16(&mut r, 4, (12 + a.len() + b.len()) as u16);
                    put16(&mut r, 8, if swap { b.len() } else { 0 } as u16);
                    put16(&mut r, 10, a.len() as u16);
                    put16(&mut r, 12, if swap { 0 } else { a.len() } as u16);
                    put16(&mut r, 14, b.len() as u16);
                    put32(&mut r, 16, v.rng.below(2) as u32);
                    if swap {
                        r.extend(b);
                        r.extend(a);
                    } else {
                        r.extend(a);
                        r.extend(b);
                    }
                    attrs.push(Attr::resident(0xc0, "", r));
                    n.link = to;
                    if v.rng.chance(1, 3) {
                        flags = 2;
                    } else {
                        attrs.push(Attr::resident(0x80, "", Vec::new()));
                    }
                }
                _ => {
                    let given = grafted.then(|| &options.graft[i - graft_at].1);
                    let mut extra = Vec::new();
                    let mut wof = None;
                    let undefined = !grafted && v.rng.chance(1, 16);
                    let allow = !grafted && !undefined;
                    let (d, a) = stream(&mut v, &Vec::new(), given, &mut hot, modest, if allow { Some(&mut extra) } else { None }, &mut wof);
                    n.data = d;
                    attrs.push(a);
                    reparse = wof.is_some() || undefined;
                    attrs.extend(extra);
                    if let Some(w) = wof {
                        n.streams.push((utf16("WofCompressedData"), w));
                    }
                    if undefined {
                        let mut r = vec![0u8; 8];
                        put32(&mut r, 0, *v.rng.pick(&[0x8000_0013u32, 0x8000_001b, 0x9000_001a, 0xa000_001d]));
                        let m = v.rng.below(60) as usize;
                        let x = v.rng.bytes(m);
                        put16(&mut r, 4, x.len() as u16);
                        r.extend(x);
                        attrs.push(Attr::resident(0xc0, "", r));
                    }
                }
            }
            // other streams
            if !grafted && kind != Kind::Link {
                let mut names: HashSet<Vec<u16>> = n.streams.iter().map(|s| fs::fold(&s.0)).collect();
                for _ in 0..v.rng.skewed(4) {
                    if v.rng.chance(1, 2) {
                        continue;
                    }
                    let name = if options.plain { utf16(&format!("stream{}", n.streams.len())) } else { fs::random_name(v.rng, if p.record < 2048 { 60 } else { 120 }, &not) };
                    if !names.insert(fs::fold(&name)) {
                        continue;
                    }
                    let (d, a) = stream(&mut v, &name, None, &mut Vec::new(), modest, None, &mut None);
                    attrs.push(a);
                    n.streams.push((name, d));
                }
            }
            // attributes without meaning here
            if v.rng.chance(1, 4) {
                let x = v.rng.bytes(16);
                attrs.push(Attr::resident(0x40, "", x));
            }
            if v.rng.chance(1, 6) {
                let m = v.rng.range(20, 120) as usize;
                let x = v.rng.bytes(m);
                attrs.push(Attr::resident(0x50, "", x));
            }
            if v.rng.chance(1, 8) {
                for _ in 0..v.rng.range(1, 2) {
                    let x = v.rng.bytes(56);
                    attrs.push(Attr::resident(0x100, "$TXF_DATA", x));
                }
            }
            if kind != Kind::Link && v.rng.chance(1, 12) {
                let x = v.rng.bytes(8);
                attrs.push(Attr::resident(0xd0, "", x));
                let m = v.rng.range(8, 60) as usize;
                let x = v.rng.bytes(m);
                attrs.push(Attr::resident(0xe0, "", x));
            }
            let mut f: u32 = 0x20;
            if reparse {
                f |= 0x400;
            }
            attrs.push(standard(&mut v, p, f));
            files.insert(num, (flags, attrs));
            n.hot = pick_hot(v.rng, hot);
            if kind == Kind::File && !grafted {
                regular.push(i);
            }
        }
        n.id = Some(num);
        n.meta = meta(&files[&num].1);
        let reparse = files[&num].1.iter().any(|a| a.kind == 0xc0);
        let pref = numbers.reference(v.rng, number[*parent]);
        let fref = numbers.reference(v.rng, num);
        n.meta.push(("reference", fref as i128));
        n.meta.push(("parent", pref as i128));
        // a second name, for old programs
        // (of which a file has one)
        let had = files[&num].1.iter().any(|a| matches!(&a.body, Body::Resident(x) if a.kind == 0x30 && x[65] == 2));
        let short = !sensitive && !options.plain && !had && v.rng.chance(1, 3);
        let space = if short { 1 } else { *v.rng.pick(&[0u8, 1, 1, 3]) };
        let size = n.data.size;
        let mut names = vec![(name, space)];
        if short {
            let s = utf16(&format!("{}{:05X}~{}", *v.rng.pick(&["A", "Q", "ZZ"]), i, v.rng.range(1, 9)));
            if taken.insert((*parent, fs::fold(&s))) {
                names.push((s, 2));
            } else {
                names[0].1 = 0;
            }
        }
        for (s, space) in names {
            let key = file_name(v.rng, pref, &s, space, size, kind == Kind::Dir, reparse);
            entries.entry(*parent).or_default().push((s, fref, key.clone()));
            files.get_mut(&num).unwrap().1.push(Attr::resident(0x30, "", key));
        }
        nodes[*parent].children.push(i);
        number.push(num);
        nodes.push(n);
    }

    let volume_flags = if v.rng.chance(1, 2) { 0 } else { v.rng.below(1 << 16) as u16 };
    let volume_label: Name = if options.plain {
        utf16("Simulated")
    } else {
        let n = v.rng.below(33);
        (0..n).map(|_| v.rng.range(0x20, 0xd7ff) as u16).collect()
    };
    // metadata files; the content of some is known at the end
    let mut later: Vec<(usize, Runs, u64)> = Vec::new();
    let upcase: Vec<u8> = (0..0x10000u32).flat_map(|c| fs::fold16(c as u16).to_le_bytes()).collect();
    let mut sys: Vec<(u64, &str, Kind, Data, Vec<(Name, Data)>, Vec<Attr>)> = Vec::new();
    let nonresident = |runs: Runs, size: u64| Attr {
        body: Body::Runs {
            runs,
            data: size,
            valid: size,
            unit: 0,
        },
        ..Attr::resident(0x80, "", Vec::new())
    };
    {
        let n = 131072u64.div_ceil(cluster);
        let saved = v.frag;
        v.frag = v.frag.min(1);
        let runs = v.runs(n, 1);
        v.frag = saved;
        v.write(&runs, &upcase);
        sys.push((10, "$UpCase", Kind::File, Data::from_vec(&upcase), vec![], vec![nonresident(runs, 131072)]));
        let mut info = vec![0u8; 12];
        info[8] = 3;
        info[9] = if p.features & OLD != 0 { 0 } else { 1 };
        info[10..12].copy_from_slice(&volume_flags.to_le_bytes());
        sys.push((
            3,
            "$Volume",
            Kind::File,
            Data::new(0),
            vec![],
            vec![
                Attr::resident(0x60, "", volume_label.iter().flat_map(|c| c.to_le_bytes()).collect()),
                Attr::resident(0x70, "", info),
                Attr::resident(0x80, "", Vec::new()),
            ],
        ));
        if system || v.rng.chance(1, 2) {
            for (num, name) in [(2u64, "$LogFile"), (4, "$AttrDef"), (6, "$Bitmap")] {
                let m = v.rng.range(1, 40_000) as usize;
                let x = v.rng.bytes(m);
                let r = v.runs((m as u64).div_ceil(cluster), 1);
                v.write(&r, &x);
                sys.push((num, name, Kind::File, Data::from_vec(&x), vec![], vec![nonresident(r, m as u64)]));
            }
            let all = 1u64 << 20;
            let mut bad = nonresident(vec![(None, all)], all * cluster);
            bad.name = utf16("$Bad");
            sys.push((8, "$BadClus", Kind::File, Data::new(0), vec![(utf16("$Bad"), Data::new(all * cluster))], vec![Attr::resident(0x80, "", Vec::new()), bad]));
            sys.push((7, "$Boot", Kind::File, Data::new(0), vec![], vec![nonresident(vec![(Some(0), boot_clusters)], 8192)]));
            let mut x = Vec::new();
            index_attrs(&mut v, p, Vec::new(), &mut x);
            sys.push((11, "$Extend", Kind::Dir, Data::new(0), vec![], x));
        }
    }
    let root_ref = numbers.reference(v.rng, 5);
    let mut list_sys = |v: &mut Vol, numbers: &mut Numbers, num: u64, name: &str, kind: Kind, size: u64| -> Attr {
        let key = file_name(v.rng, root_ref, &utf16(name), 3, size, kind == Kind::Dir, false);
        if system {
            let r = numbers.reference(v.rng, num);
            entries.entry(0).or_default().push((utf16(name), r, key.clone()));
        }
        Attr::resident(0x30, "", key)
    };
    for (num, name, kind, data, streams, mut attrs) in sys {
        attrs.push(list_sys(&mut v, &mut numbers, num, name, kind, data.size));
        attrs.push(standard(&mut v, p, 0x6));
        if system {
            let mut n = Node::new(utf16(name), 0, kind);
            n.id = Some(num);
            n.meta = meta(&attrs);
            n.data = data;
            n.streams = streams;
            if num == 7 {
                n.data = Data::new(8192);
                later.push((nodes.len(), vec![(Some(0), boot_clusters)], 8192));
            }
            let at = nodes.len();
            nodes[0].children.push(at);
            nodes.push(n);
        }
        files.insert(num, (if kind == Kind::Dir { 2 } else { 0 }, attrs));
    }
    let table_name = list_sys(&mut v, &mut numbers, 0, "$MFT", Kind::File, 0);
    let table_node = nodes.len();
    if system {
        let mut n = Node::new(utf16("$MFT"), 0, Kind::File);
        n.id = Some(0);
        nodes[0].children.push(table_node);
        nodes.push(n);
    }
    // indexes
    let mut dirs: Vec<(u64, Vec<(Name, u64, Vec<u8>)>)> = Vec::new();
    for (i, num) in number.iter().enumerate() {
        if nodes[i].kind == Kind::Dir {
            dirs.push((*num, entries.remove(&i).unwrap_or_default()));
        } else if files[num].0 & 2 != 0 {
            dirs.push((*num, Vec::new()));
        }
    }
    for (num, mut list) in dirs {
        if list.is_empty() && num != 5 && files[&num].1.iter().all(|a| a.kind != 0xc0) && v.rng.chance(1, 6) {
            // a junction
            let to: Vec<u8> = utf16("\\??\\D:\\elsewhere").iter().flat_map(|c| c.to_le_bytes()).collect();
            let mut r = vec![0u8; 16];
            put32(&mut r, 0, 0xa000_0003);
            put16(&mut r, 4, (8 + to.len() + 4) as u16);
            put16(&mut r, 10, to.len() as u16);
            put16(&mut r, 12, to.len() as u16 + 2);
            r.extend(&to);
            r.extend([0; 4]);
            files.get_mut(&num).unwrap().1.push(Attr::resident(0xc0, "", r));
        }
        list.sort_by(|a, b| if sensitive { a.0.cmp(&b.0) } else { fs::fold(&a.0).cmp(&fs::fold(&b.0)) });
        let mut x = Vec::new();
        index_attrs(&mut v, p, list.into_iter().map(|e| (e.1, e.2)).collect(), &mut x);
        files.get_mut(&num).unwrap().1.extend(x);
    }
    // records
    let mut records: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    for (num, (flags, attrs)) in files {
        store(&mut v, p, &mut numbers, num, flags, attrs, &mut records);
    }
    let used = numbers.next;
    // unused records
    let mut ghosts = Vec::new();
    for _ in 0..v.rng.below(8) {
        let n = numbers.take(v.rng);
        ghosts.push(n);
    }
    let mut count = numbers.next + v.rng.below(12);
    let per = (cluster / p.record).max(1);
    count = count.next_multiple_of(per);
    let unit = (p.record / cluster).max(1);
    let clusters = count * p.record / cluster;
    let saved = v.frag;
    if table_extra.is_empty() {
        v.frag = v.frag.min(1);
    }
    // the first part holds the records that describe the rest
    let first = (32 * p.record).div_ceil(cluster).next_multiple_of(unit).min(clusters);
    let mut runs: Runs = vec![(Some(v.run(first)), first)];
    for r in v.runs(clusters - first, unit) {
        let last = runs.last_mut().unwrap();
        if last.0.unwrap() + last.1 == r.0.unwrap() {
            last.1 += r.1;
        } else {
            runs.push(r);
        }
    }
    v.frag = saved;
    {
        let mut attrs = vec![table_name, standard(&mut v, p, 0x6), nonresident(runs.clone(), count * p.record)];
        let bits = vec![0xffu8; (count.div_ceil(8) as usize).next_multiple_of(8).min(200)];
        attrs.push(Attr::resident(0xb0, "", bits));
        if system {
            nodes[table_node].data = Data::new(count * p.record);
            later.push((table_node, runs.clone(), count * p.record));
        }
        // limited to the records kept for it
        let mut own = Numbers {
            next: 0,
            holes: 0,
            sequences: std::mem::take(&mut numbers.sequences),
            kept: table_extra.iter().rev().copied().collect(),
        };
        // at most that many extents
        let mut q = Params { ..*p };
        if runs.len() < 2 {
            q.features &= !TABLE_LIST;
        }
        store(&mut v, &q, &mut own, 0, 0, attrs, &mut records);
    }
    let mut deleted = Vec::new();
    for n in &ghosts {
        let x = match v.rng.below(4) {
            0 => continue,
            1 => {
                let mut x = vec![0u8; p.record as usize];
                x[..4].copy_from_slice(b"BAAD");
                x
            }
            _ => {
                let key = file_name(v.rng, root_ref, &utf16("deleted"), 1, 0, false, false);
                let mut a = vec![standard(&mut v, p, 0x20), Attr::resident(0x30, "", key), Attr::resident(0x80, "", vec![1, 2, 3])];
                a.truncate(v.rng.range(1, 3) as usize);
                let mut e = Vec::new();
                for (i, y) in a.iter().enumerate() {
                    e.push(y.encode(v.rng, i as u16, cluster));
                }
                let flags = *v.rng.pick(&[0, 2]);
                record(
                    v.rng,
                    p,
                    &Record {
                        number: *n,
                        sequence: 7,
                        base: 0,
                        flags,
                        links: 0,
                        attrs: e,
                    },
                )
            }
        };
        records.insert(*n, x);
    }
    let _ = used;
    for n in 0..count {
        if !records.contains_key(&n) {
            deleted.push(n);
        }
    }
    for n in ghosts {
        if !deleted.contains(&n) {
            deleted.push(n);
        }
    }
    let mut o = 0;
    for (at, n) in &runs {
        let len = n * cluster;
        for (k, r) in records.range(o / p.record..(o + len) / p.record) {
            v.d.write(at.unwrap() * cluster + (k * p.record - o), r);
        }
        o += len;
    }
    let table = runs[0].0.unwrap();
    let mirror = v.run((4 * p.record).div_ceil(cluster));
    let x = v.d.slice(table * cluster, 4 * p.record);
    v.d.write(mirror * cluster, &x);
    // boot record
    let end = v.zones.iter().map(|z| z.0).max().unwrap() + v.rng.range(1, 20);
    let mut b = [0u8; 512];
    b[..3].copy_from_slice(&[0xeb, 0x52, 0x90]);
    b[3..11].copy_from_slice(b"NTFS    ");
    put16(&mut b, 11, p.bps as u16);
    b[13] = if p.spc <= 128 { p.spc as u8 } else { (256 - p.spc.trailing_zeros() as i64) as u8 };
    b[21] = 0xf8;
    put16(&mut b, 24, 63);
    put16(&mut b, 26, 255);
    put32(&mut b, 36, 0x0080_0080);
    put64(&mut b, 40, end * p.spc);
    put64(&mut b, 48, table);
    put64(&mut b, 56, mirror);
    let size = |n: u64| if n >= cluster { (n / cluster) as u32 } else { 256 - n.trailing_zeros() };
    put32(&mut b, 64, size(p.record));
    put32(&mut b, 68, size(p.index));
    let serial = v.rng.next();
    put64(&mut b, 72, serial);
    let x = v.rng.bytes(400);
    b[84..484].copy_from_slice(&x);
    b[510] = 0x55;
    b[511] = 0xaa;
    v.d.write(0, &b);
    v.d.write(end * cluster, &b);
    let tail = if v.rng.chance(1, 3) { v.rng.below(5000) } else { 0 };
    let mut d = v.d;
    d.truncate(end * cluster + p.bps.max(512) + tail);
    for (n, runs, size) in later {
        let mut o = 0;
        for (at, k) in runs {
            let len = (k * cluster).min(size - o);
            let x = d.slice(at.unwrap() * cluster, len);
            nodes[n].data.write(o, &x);
            o += len;
        }
    }
    FsImage {
        volume: d,
        nodes,
        fold: !sensitive,
        root_id: None,
        unnamed: true,
        unused: deleted,
        label: volume_label,
        meta: vec![("version", if p.features & OLD != 0 { 0x300 } else { 0x301 }), ("flags", volume_flags as i128)],
        open,
    }
}

struct NtfsFs(NtfsFileSystem);
struct NtfsEntry(NtfsFileEntry);

fn open(ds: &DataStreamReference) -> Result<Box<dyn Fs>, ErrorTrace> {
    let mut f = NtfsFileSystem::new();
    f.read_data_stream(ds)?;
    Ok(Box::new(NtfsFs(f)))
}

impl Fs for NtfsFs {
    fn root(&self) -> Result<Box<dyn Entry>, ErrorTrace> {
        Ok(Box::new(NtfsEntry(self.0.get_root_directory()?)))
    }
    fn by_path(&self, path: &[Name]) -> Result<Option<Box<dyn Entry>>, ErrorTrace> {
        let mut p = NtfsPath::from("\\");
        for n in path {
            p.push(Ucs2String::from(&n[..]));
        }
        Ok(self.0.get_file_entry_by_path(&p)?.map(|e| Box::new(NtfsEntry(e)) as Box<dyn Entry>))
    }
    fn by_id(&self, id: u64) -> Result<Option<Box<dyn Entry>>, ErrorTrace> {
        Ok(Some(Box::new(NtfsEntry(self.0.get_file_entry_by_identifier(id)?))))
    }
    fn about(&self) -> (Name, Meta) {
        let mut m = Vec::new();
        if let Some((major, minor)) = self.0.get_format_version() {
            m.push(("version", (major as i128) << 8 | minor as i128));
        }
        m.push(("flags", self.0.get_volume_flags().map_or(-1, |f| f as i128)));
        (self.0.get_volume_label().map(|l| l.elements.clone()).unwrap_or_default(), m)
    }
}

impl Entry for NtfsEntry {
    fn name(&mut self) -> Result<Option<Name>, ErrorTrace> {
        Ok(self.0.get_name().map(|n| n.elements.clone()))
    }
    fn kind(&mut self) -> Kind {
        if self.0.is_symbolic_link() {
            Kind::Link
        } else if self.0.is_directory() {
            Kind::Dir
        } else {
            Kind::File
        }
    }
    fn size(&mut self) -> u64 {
        self.0.get_size()
    }
    fn meta(&mut self) -> Result<Meta, ErrorTrace> {
        let mut m = vec![
            ("flags", self.0.get_file_attribute_flags() as i128),
            ("created", fs::time(self.0.get_creation_time())),
            ("modified", fs::time(self.0.get_modification_time())),
            ("changed", fs::time(self.0.get_change_time())),
            ("accessed", fs::time(self.0.get_access_time())),
            ("reference", self.0.get_file_reference() as i128),
        ];
        if let Some(r) = self.0.get_parent_file_reference() {
            m.push(("parent", r as i128));
        }
        Ok(m)
    }
    fn link(&mut self) -> Result<Option<Vec<u16>>, ErrorTrace> {
        Ok(self.0.get_symbolic_link_target()?.map(|n| n.elements.clone()))
    }
    fn count(&mut self) -> Result<usize, ErrorTrace> {
        self.0.get_number_of_sub_file_entries()
    }
    fn child(&mut self, i: usize) -> Result<Box<dyn Entry>, ErrorTrace> {
        Ok(Box::new(NtfsEntry(self.0.get_sub_file_entry_by_index(i)?)))
    }
    fn child_named(&mut self, name: &[u16]) -> Result<Option<Box<dyn Entry>>, ErrorTrace> {
        Ok(self.0.get_sub_file_entry_by_name(&Ucs2String::from(name))?.map(|e| Box::new(NtfsEntry(e)) as Box<dyn Entry>))
    }
    fn stream(&mut self) -> Result<Option<DataStreamReference>, ErrorTrace> {
        self.0.get_data_stream()
    }
    fn stream_names(&mut self) -> Result<Option<Vec<Name>>, ErrorTrace> {
        let mut v = Vec::new();
        for i in 0..self.0.get_number_of_data_forks()? {
            if let Some(n) = self.0.get_data_fork_by_index(i)?.get_name() {
                v.push(n.elements.clone());
            }
        }
        Ok(Some(v))
    }
    fn named_stream(&mut self, name: &[u16]) -> Result<Option<DataStreamReference>, ErrorTrace> {
        self.0.get_data_stream_by_name(&Some(Ucs2String::from(name)))
    }
    fn unused(&mut self) -> bool {
        self.0.is_empty() || self.0.is_bad() || !self.0.is_allocated()
    }
}
