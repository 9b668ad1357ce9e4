//! Builder of FAT-12, FAT-16 and FAT-32 volumes.

use std::collections::HashSet;

use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_formats::fat::{FatFileEntry, FatFileSystem, FatPath, FatString};
use keramics_types::{ByteString, Ucs2String};

use super::fs::{self, Entry, Fs, FsImage, Kind, Meta, Name, Node};
use super::{compressible, put16, put32};
use crate::data::Data;
use crate::rng::Rng;

pub struct Params {
    pub kind: u32,
    pub bps: u64,
    pub spc: u64,
    pub clusters: u64,
    pub nodes: usize,
    pub fats: u64,
}

struct Vol<'a> {
    rng: &'a mut Rng,
    p: &'a Params,
    d: Data,
    free: Vec<u32>,
    used: HashSet<u32>,
    order: u64,
    first: u64,
    cluster: u64,
    fat: Vec<(u32, u32)>,
}

impl Vol<'_> {
    fn last(&self) -> u32 {
        let l = self.p.clusters as u32 + 1;
        match self.p.kind {
            12 => l.min(0xfef),
            16 => l.min(0xffef),
            _ => l.min(0x0fffffef),
        }
    }
    fn alloc(&mut self) -> u32 {
        let last = self.last() as u64;
        loop {
            let c = match self.order {
                0 => {
                    // first fit
                    let mut c = self.free.last().copied().unwrap_or(2);
                    while self.used.contains(&c) {
                        c += 1;
                    }
                    self.free.push(c);
                    c as u64
                }
                1 => last - self.rng.below(last - 1).min(self.used.len() as u64 * 2 + 3),
                _ => self.rng.range(2, last),
            } as u32;
            if c as u64 <= last && self.used.insert(c) {
                return c;
            }
            if self.order == 0 {
                self.order = 2;
            }
        }
    }
    /// Stores data in a chain of clusters; returns the first.
    fn store(&mut self, data: &[u8], extra: u64) -> u32 {
        let n = (data.len() as u64).div_ceil(self.cluster) + extra;
        if n == 0 {
            return 0;
        }
        let chain: Vec<u32> = (0..n).map(|_| self.alloc()).collect();
        self.link(&chain);
        for (i, c) in chain.iter().enumerate() {
            let a = (i as u64 * self.cluster) as usize;
            let b = (a + self.cluster as usize).min(data.len());
            if a < b {
                self.d.write(self.offset(*c), &data[a..b]);
                if b - a < self.cluster as usize {
                    // slack
                    let slack = self.rng.bytes((self.cluster as usize - (b - a)).min(600));
                    self.d.write(self.offset(*c) + (b - a) as u64, &slack);
                }
            } else {
                let junk = self.rng.bytes(64);
                self.d.write(self.offset(*c), &junk);
            }
        }
        chain[0]
    }
    /// Stores sparsely written data of any size. The clusters are mostly in a row.
    fn store_large(&mut self, data: &Data, spots: &[(u64, u64)]) -> Option<u32> {
        let n = data.size.div_ceil(self.cluster) as u32;
        let last = self.last();
        if n + 2000 > last {
            return None;
        }
        let c0 = self.rng.range(2, (last - n) as u64) as u32;
        if (c0..c0 + n).any(|c| self.used.contains(&c)) {
            return None;
        }
        let mut chain: Vec<u32> = (c0..c0 + n).collect();
        self.used.extend(chain.iter());
        for _ in 0..self.rng.below(6) {
            let (a, b) = (self.rng.below(n as u64) as usize, self.rng.below(n as u64) as usize);
            chain.swap(a, b);
        }
        self.link(&chain);
        for (at, len) in spots {
            let mut o = *at;
            while o < at + len {
                let k = (at + len - o).min(self.cluster - o % self.cluster);
                let to = self.offset(chain[(o / self.cluster) as usize]) + o % self.cluster;
                self.d.write(to, &data.slice(o, k));
                o += k;
            }
        }
        Some(chain[0])
    }
    fn link(&mut self, chain: &[u32]) {
        for w in chain.windows(2) {
            self.fat.push((w[0], w[1]));
        }
        let end = match self.p.kind {
            12 => 0xff8 + self.rng.below(8),
            16 => 0xfff8 + self.rng.below(8),
            _ => 0x0ffffff8 + self.rng.below(8),
        };
        self.fat.push((*chain.last().unwrap(), end as u32));
    }
    fn offset(&self, c: u32) -> u64 {
        self.first + (c as u64 - 2) * self.cluster
    }
}

fn checksum(short: &[u8; 11]) -> u8 {
    let mut s = 0u8;
    for b in short {
        s = (if s & 1 != 0 { 0x80u8 } else { 0 }).wrapping_add(s >> 1).wrapping_add(*b);
    }
    s
}

/// Long name entries in the order in which they are stored.
fn long_entries(name: &[u16], sum: u8) -> Vec<[u8; 32]> {
    let n = name.len().div_ceil(13);
    let mut v = Vec::new();
    for i in (0..n).rev() {
        let mut e = [0u8; 32];
        e[0] = (i as u8 + 1) | if i == n - 1 { 0x40 } else { 0 };
        e[11] = 0x0f;
        e[13] = sum;
        for k in 0..13 {
            let p = i * 13 + k;
            let c = if p < name.len() {
                name[p]
            } else if p == name.len() {
                0
            } else {
                0xffff
            };
            let o = if k < 5 {
                1 + k * 2
            } else if k < 11 {
                14 + (k - 5) * 2
            } else {
                28 + (k - 11) * 2
            };
            put16(&mut e, o, c);
        }
        v.push(e);
    }
    v
}

const SHORT: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-$~!#%&'()@^`{}";

struct ShortName {
    raw: [u8; 11],
    flags: u8,
    shown: Name,
}

/// A name that is stored in a short name entry only.
fn short_name(rng: &mut Rng) -> ShortName {
    let mut raw = [b' '; 11];
    let n = rng.range(1, 8) as usize;
    for b in raw.iter_mut().take(n) {
        *b = *rng.pick(SHORT);
    }
    if n > 2 && rng.chance(1, 12) {
        raw[1] = b' ';
    }
    let m = if rng.chance(1, 4) { 0 } else { rng.range(1, 3) as usize };
    for b in raw[8..].iter_mut().take(m) {
        *b = *rng.pick(SHORT);
    }
    let flags = *rng.pick(&[0u8, 0, 0x08, 0x10, 0x18]);
    let lower = |b: u8, f: bool| if f { b.to_ascii_lowercase() as u16 } else { b as u16 };
    let mut shown: Name = raw[..n].iter().map(|b| lower(*b, flags & 8 != 0)).collect();
    if m > 0 {
        shown.push(b'.' as u16);
        shown.extend(raw[8..8 + m].iter().map(|b| lower(*b, flags & 16 != 0)));
    }
    ShortName { raw, flags, shown }
}

/// A label, padded with spaces.
fn volume_label(rng: &mut Rng, plain: bool) -> [u8; 11] {
    let mut l = *b"SIMVOLUME  ";
    if !plain && rng.chance(2, 3) {
        l = [b' '; 11];
        let n = rng.range(1, 11) as usize;
        for b in l.iter_mut().take(n) {
            *b = *rng.pick(SHORT);
        }
        if n > 2 && rng.chance(1, 3) {
            l[rng.range(1, n as u64 - 2) as usize] = b' ';
        }
    }
    l
}

fn trimmed(l: &[u8; 11]) -> Vec<u8> {
    let n = l.iter().rposition(|b| *b != b' ').map_or(0, |i| i + 1);
    l[..n].to_vec()
}

struct Stored {
    raw: [u8; 11],
    flags: u8,
    long: bool,
}

fn dates(rng: &mut Rng, e: &mut [u8; 32]) {
    let date = |rng: &mut Rng| (rng.below(128) << 9 | rng.range(1, 12) << 5 | rng.range(1, 28)) as u16;
    let time = |rng: &mut Rng| (rng.below(24) << 11 | rng.below(60) << 5 | rng.below(30)) as u16;
    e[13] = rng.below(200) as u8;
    let v = time(rng);
    put16(e, 14, v);
    let v = date(rng);
    put16(e, 16, v);
    let v = date(rng);
    put16(e, 18, v);
    let v = time(rng);
    put16(e, 22, v);
    let v = date(rng);
    put16(e, 24, v);
}

pub fn build(rng: &mut Rng, p: &Params) -> FsImage {
    let shape = fs::tree(rng, p.nodes, false);
    let options = fs::options();
    let graft_at = shape.len() - options.graft.len();
    let mut nodes: Vec<Node> = Vec::new();
    let mut stored: Vec<Stored> = Vec::new();
    let mut taken: HashSet<(usize, Vec<u16>)> = HashSet::new();
    let mut taken_short: HashSet<(usize, [u8; 11])> = HashSet::new();
    let not: Vec<u16> = b"\"*/:<>?\\|".iter().map(|b| *b as u16).collect();
    let cluster = p.bps * p.spc;
    for (i, (parent, kind)) in shape.iter().enumerate() {
        if i == 0 {
            nodes.push(Node::new(Vec::new(), 0, Kind::Dir));
            stored.push(Stored {
                raw: [0; 11],
                flags: 0,
                long: false,
            });
            continue;
        }
        let (name, st) = loop {
            if !options.plain && i < graft_at && rng.chance(1, 3) {
                let s = short_name(rng);
                if s.raw[0] == 0xe5 || taken.contains(&(*parent, fs::fold(&s.shown))) || taken_short.contains(&(*parent, s.raw)) {
                    continue;
                }
                break (
                    s.shown,
                    Stored {
                        raw: s.raw,
                        flags: s.flags,
                        long: false,
                    },
                );
            }
            let name = if i >= graft_at {
                String::from_utf8_lossy(&options.graft[i - graft_at].0).encode_utf16().collect()
            } else if options.plain {
                fs::plain_name(rng).iter().map(|c| *c as u16).collect()
            } else {
                fs::random_name(rng, 255, &not)
            };
            if taken.contains(&(*parent, fs::fold(&name))) {
                continue;
            }
            let mut raw = [b' '; 11];
            for b in raw.iter_mut().take(4) {
                *b = if rng.chance(1, 8) { rng.range(0x80, 0xe4) as u8 } else { *rng.pick(SHORT) };
            }
            let t = format!("~{i}");
            raw[4..4 + t.len().min(4)].copy_from_slice(&t.as_bytes()[..t.len().min(4)]);
            if taken_short.contains(&(*parent, raw)) {
                continue;
            }
            break (
                name,
                Stored {
                    raw,
                    flags: 0,
                    long: true,
                },
            );
        };
        taken.insert((*parent, fs::fold(&name)));
        taken_short.insert((*parent, st.raw));
        // nothing may have the shown form of the alias as its name
        let mut n = Node::new(name, *parent, *kind);
        if *kind == Kind::File {
            let size = match rng.below(8) {
                0 => 0,
                1 => rng.range(1, 4) * cluster,
                2 => cluster.saturating_sub(rng.below(3)).max(1),
                3 => rng.range(1, 300_000).min(40 * cluster),
                _ => rng.range(1, 6 * cluster.min(8192)),
            }
            .min(1 << 20);
            let v = if rng.chance(1, 6) { compressible(rng, size as usize) } else { rng.bytes(size as usize) };
            n.data = if i >= graft_at { options.graft[i - graft_at].1.clone() } else { Data::from_vec(&v) };
            n.hot = (1..=size / cluster).map(|k| k * cluster).take(40).collect();
        }
        nodes[*parent].children.push(i);
        nodes.push(n);
        stored.push(st);
    }

    // geometry
    let root_fixed = p.kind != 32;
    let entry_bytes = match p.kind {
        12 => (p.clusters + 2).div_ceil(2) * 3,
        16 => (p.clusters + 2) * 2,
        _ => (p.clusters + 2) * 4,
    };
    let fat_sectors = entry_bytes.div_ceil(p.bps) + rng.below(2);
    let reserved = if p.kind == 32 { 32 / p.bps.div_ceil(512) + rng.range(2, 6) } else { *rng.pick(&[1u64, 1, 1, 2, 8]) };
    let mut vol = Vol {
        order: rng.below(3),
        p,
        d: Data::new(0),
        free: Vec::new(),
        used: HashSet::new(),
        first: 0,
        cluster,
        fat: Vec::new(),
        rng,
    };
    // room for the worst case in the fixed root directory
    let root_entries = if root_fixed {
        let mut n: u64 = 64;
        for c in &nodes[0].children {
            n += 1 + nodes[*c].name.len().div_ceil(13) as u64 + 24;
        }
        let per = p.bps / 32;
        n.div_ceil(per) * per
    } else {
        0
    };
    let root_offset = (reserved + p.fats * fat_sectors) * p.bps;
    vol.first = root_offset + root_entries * 32;
    let tail = vol.rng.below(p.spc);
    let sectors = vol.first / p.bps + p.clusters * p.spc + tail;
    vol.d = Data::new(sectors * p.bps + if vol.rng.chance(1, 3) { vol.rng.below(5000) } else { 0 });

    // directories get their clusters first or last
    let root_cluster = if p.kind == 32 {
        let c = if vol.rng.chance(1, 2) { 2 } else { vol.alloc() };
        vol.used.insert(c);
        c
    } else {
        0
    };
    // the first cluster of each directory is known before its content
    let mut dir_first = vec![0u32; nodes.len()];
    dir_first[0] = root_cluster;
    let mut order: Vec<usize> = (1..nodes.len()).collect();
    vol.rng.shuffle(&mut order);
    let files: Vec<usize> = (1..graft_at).filter(|i| nodes[*i].kind == Kind::File).collect();
    let roomy = p.kind == 32 && cluster >= 32768 && p.clusters * cluster > 1 << 33 && !options.plain && !options.modest;
    let large = if roomy && !files.is_empty() && vol.rng.chance(1, 12) { Some(*vol.rng.pick(&files)) } else { None };
    let mut file_first = vec![0u32; nodes.len()];
    for i in order {
        if nodes[i].kind == Kind::Dir {
            dir_first[i] = vol.alloc();
        } else {
            if Some(i) == large {
                let size = match vol.rng.below(4) {
                    0 => u32::MAX as u64,
                    1 => u32::MAX as u64 - vol.rng.below(cluster),
                    2 => (1 << 31) + vol.rng.below(3) - 1,
                    _ => vol.rng.range(1 << 30, u32::MAX as u64),
                };
                let mut d = Data::new(size);
                let mut spots = Vec::new();
                for at in [0, (1 << 31) - 700, size - 1500, vol.rng.below(size), vol.rng.below(size), vol.rng.below(size / cluster) * cluster] {
                    let len = 1500.min(size.saturating_sub(at));
                    if len > 0 {
                        let b = vol.rng.bytes(len as usize);
                        d.write(at, &b);
                        spots.push((at, len));
                    }
                }
                if let Some(c) = vol.store_large(&d, &spots) {
                    crate::env::probe("large-file");
                    nodes[i].hot = spots.iter().flat_map(|s| [s.0, s.0 / cluster * cluster + cluster]).filter(|h| *h < size).collect();
                    nodes[i].data = d;
                    file_first[i] = c;
                    continue;
                }
            }
            let extra = if vol.rng.chance(1, 10) { vol.rng.range(1, 3) } else { 0 };
            let v = nodes[i].data.to_vec();
            file_first[i] = vol.store(&v, extra);
        }
    }
    // contents of the directories
    let dirs: Vec<usize> = (0..nodes.len()).filter(|i| nodes[*i].kind == Kind::Dir).collect();
    let mut root_vec = Vec::new();
    let mut label = Vec::new();
    for d in dirs {
        let mut items: Vec<([u8; 32], Option<usize>)> = Vec::new();
        let set_cluster = |e: &mut [u8; 32], c: u32, rng: &mut Rng| {
            put16(e, 26, c as u16);
            if p.kind == 32 {
                put16(e, 20, (c >> 16) as u16);
            } else if rng.chance(1, 6) {
                // used for something else
                put16(e, 20, rng.next() as u16);
            }
        };
        if d != 0 {
            for k in 0..2 {
                let mut e = [b' '; 32];
                e[11..].fill(0);
                e[0] = b'.';
                if k == 1 {
                    e[1] = b'.';
                }
                e[11] = 0x10;
                let c = if k == 0 { dir_first[d] } else if nodes[d].parent == 0 { 0 } else { dir_first[nodes[d].parent] };
                set_cluster(&mut e, c, vol.rng);
                items.push((e, None));
            }
        }
        let label_at = if d == 0 && vol.rng.chance(1, 2) { vol.rng.below(nodes[0].children.len() as u64 + 1) as usize } else { usize::MAX };
        let mut kids = nodes[d].children.clone();
        vol.rng.shuffle(&mut kids);
        for k in 0..=kids.len() {
            if k == label_at {
                let mut e = [0u8; 32];
                let l = volume_label(vol.rng, options.plain);
                e[..11].copy_from_slice(&l);
                label = trimmed(&l);
                e[11] = 0x08;
                items.push((e, None));
            }
            match vol.rng.below(10) {
                // deleted entries
                0 | 1 => {
                    for _ in 0..vol.rng.range(1, 4) {
                        let mut e = [0u8; 32];
                        vol.rng.fill(&mut e);
                        if vol.rng.chance(1, 2) {
                            e[11] = 0x0f;
                        }
                        e[0] = 0xe5;
                        items.push((e, None));
                    }
                }
                // orphaned long name entries
                2 => {
                    let n = fs::random_name(vol.rng, 40, &not);
                    let mut v = long_entries(&n, vol.rng.next() as u8);
                    let whole = v.len();
                    match vol.rng.below(3) {
                        0 => {
                            v.remove(0);
                        }
                        1 => {
                            v.pop();
                        }
                        _ => {}
                    }
                    let next_is_plain = kids.get(k).is_some_and(|c| !stored[*c].long);
                    if k < kids.len() && v.len() == whole && next_is_plain && v[0][13] == checksum(&stored[kids[k]].raw) {
                        v[0][13] ^= 0x55;
                    }
                    items.extend(v.into_iter().map(|e| (e, None)));
                }
                _ => {}
            }
            if k == kids.len() {
                break;
            }
            let c = kids[k];
            if stored[c].long {
                for e in long_entries(&nodes[c].name, checksum(&stored[c].raw)) {
                    items.push((e, None));
                }
            }
            let mut e = [0u8; 32];
            e[..11].copy_from_slice(&stored[c].raw);
            dates(vol.rng, &mut e);
            e[12] = stored[c].flags;
            let mut attr = *vol.rng.pick(&[0u8, 0x20, 0x20, 0x01, 0x02, 0x04, 0x07, 0x27]);
            let first = if nodes[c].kind == Kind::Dir {
                attr |= 0x10;
                dir_first[c]
            } else {
                put32(&mut e, 28, nodes[c].data.size as u32);
                file_first[c]
            };
            e[11] = attr;
            set_cluster(&mut e, first, vol.rng);
            let le = |o: usize| u16::from_le_bytes([e[o], e[o + 1]]) as i128;
            nodes[c].meta = vec![
                ("flags", attr as i128),
                ("created", le(16) << 24 | le(14) << 8 | e[13] as i128),
                ("accessed", le(18)),
                ("modified", le(24) << 16 | le(22)),
            ];
            items.push((e, Some(c)));
        }
        // some end right at the end of a cluster
        let per = (cluster / 32) as usize;
        if d != 0 && vol.rng.chance(1, 4) {
            while items.len() % per != 0 && items.len() < 3000 {
                let mut e = [0u8; 32];
                e[0] = 0xe5;
                items.push((e, None));
            }
        }
        let mut bytes: Vec<u8> = items.iter().flat_map(|e| e.0).collect();
        let terminated = vol.rng.chance(1, 3);
        // stale entries after the terminator
        let stale = |rng: &mut Rng, bytes: &mut Vec<u8>, room: usize| {
            if room >= 64 && rng.chance(1, 2) {
                let n = rng.range(1, (room as u64 / 32 - 1).min(6)) as usize;
                let mut t = [0u8; 32];
                if rng.chance(1, 2) {
                    rng.fill(&mut t[1..]);
                }
                bytes.extend(t);
                for i in 0..n {
                    let mut e = [b' '; 32];
                    e[..8].copy_from_slice(format!("STALE{i:03}").as_bytes());
                    e[11..].fill(0);
                    bytes.extend(e);
                }
            }
        };
        if d == 0 && root_fixed {
            let room = root_entries as usize * 32 - bytes.len();
            stale(vol.rng, &mut bytes, room);
            for (i, it) in items.iter().enumerate() {
                if let Some(c) = it.1 {
                    nodes[c].id = Some(root_offset + i as u64 * 32);
                }
            }
            root_vec = bytes;
            continue;
        }
        let used = (bytes.len() as u64).div_ceil(cluster).max(1);
        let room = (used * cluster) as usize - bytes.len();
        let extra = if terminated && room >= 32 && vol.rng.chance(1, 3) { vol.rng.range(1, 2) } else { 0 };
        let room = room + (extra * cluster) as usize;
        if room > 0 {
            if extra == 0 {
                stale(vol.rng, &mut bytes, room);
            } else {
                bytes.extend([0u8; 32]);
                while bytes.len() < ((used + extra) * cluster) as usize {
                    let mut e = [b' '; 32];
                    e[..8].copy_from_slice(b"STALE   ");
                    e[11..].fill(0);
                    bytes.extend(e);
                }
            }
        }
        let n = (bytes.len() as u64).div_ceil(cluster).max(1);
        let mut chain = vec![dir_first[d]];
        for _ in 1..n {
            let c = vol.alloc();
            chain.push(c);
        }
        vol.link(&chain);
        for (i, c) in chain.iter().enumerate() {
            let a = i * cluster as usize;
            let b = (a + cluster as usize).min(bytes.len());
            let o = vol.offset(*c);
            vol.d.write(o, &bytes[a.min(b)..b]);
        }
        for (i, it) in items.iter().enumerate() {
            if let Some(c) = it.1 {
                let o = i as u64 * 32;
                nodes[c].id = Some(vol.offset(chain[(o / cluster) as usize]) + o % cluster);
            }
        }
    }
    if root_fixed {
        vol.d.write(root_offset, &root_vec);
    }
    // bad clusters
    for _ in 0..vol.rng.below(3) {
        if vol.used.len() as u64 + 8 < p.clusters {
            let c = vol.rng.range(2, vol.last() as u64) as u32;
            if vol.used.insert(c) {
                vol.fat.push((c, match p.kind { 12 => 0xff7, 16 => 0xfff7, _ => 0x0ffffff7 }));
            }
        }
    }
    // allocation tables
    let media = *vol.rng.pick(&[0xf8u8, 0xf0]);
    let mut fat = std::mem::take(&mut vol.fat);
    let ones = match p.kind {
        12 => 0xfff,
        16 => 0xffff,
        _ => 0x0fffffff,
    };
    fat.push((0, (ones & !0xff) | media as u32));
    fat.push((1, ones));
    // one table is active if they are not mirrored
    let active = if p.kind == 32 && p.fats > 1 && vol.rng.chance(1, 5) { Some(vol.rng.below(p.fats)) } else { None };
    for f in 0..p.fats {
        if active.is_some_and(|a| a != f) {
            // outdated
            let at = (reserved + f * fat_sectors) * p.bps;
            let junk: Vec<u8> = (0..64).flat_map(|_| 0x0fffffffu32.to_le_bytes()).collect();
            vol.d.write(at, &junk);
            continue;
        }
        let at = (reserved + f * fat_sectors) * p.bps;
        for (c, v) in &fat {
            match p.kind {
                12 => {
                    let o = at + (*c as u64 / 2) * 3 + (*c as u64 % 2);
                    let old = vol.d.slice(o, 2);
                    let old = u16::from_le_bytes([old[0], old[1]]);
                    let new = if c % 2 == 0 { (old & 0xf000) | *v as u16 } else { (old & 0x000f) | ((*v as u16) << 4) };
                    vol.d.write(o, &new.to_le_bytes());
                }
                16 => vol.d.write(at + *c as u64 * 2, &(*v as u16).to_le_bytes()),
                _ => {
                    let hi = if vol.rng.chance(1, 4) { (vol.rng.below(16) as u32) << 28 } else { 0 };
                    vol.d.write(at + *c as u64 * 4, &(*v | hi).to_le_bytes())
                }
            }
        }
    }
    // boot record
    let boot_label = if vol.rng.chance(1, 2) { *b"NO NAME    " } else { volume_label(vol.rng, options.plain) };
    if label.is_empty() {
        label = trimmed(&boot_label);
    }
    let mut b = [0u8; 512];
    b[..3].copy_from_slice(&[0xeb, 0x3c, 0x90]);
    b[3..11].copy_from_slice(b"MSDOS5.0");
    put16(&mut b, 11, p.bps as u16);
    b[13] = p.spc as u8;
    put16(&mut b, 14, reserved as u16);
    b[16] = p.fats as u8;
    put16(&mut b, 17, root_entries as u16);
    if p.kind != 32 && sectors < 65536 {
        put16(&mut b, 19, sectors as u16);
    } else {
        put32(&mut b, 32, sectors as u32);
    }
    b[21] = media;
    put16(&mut b, 24, 63);
    put16(&mut b, 26, 255);
    if p.kind == 32 {
        put32(&mut b, 36, fat_sectors as u32);
        if let Some(a) = active {
            put16(&mut b, 40, 0x80 | a as u16);
        }
        put32(&mut b, 44, root_cluster);
        put16(&mut b, 48, 1);
        put16(&mut b, 50, 6);
        b[66] = 0x29;
        put32(&mut b, 67, 0x12345678);
        b[71..82].copy_from_slice(&boot_label);
        b[82..90].copy_from_slice(b"FAT32   ");
    } else {
        put16(&mut b, 22, fat_sectors as u16);
        b[38] = 0x29;
        put32(&mut b, 39, 0x12345678);
        b[43..54].copy_from_slice(&boot_label);
        b[54..62].copy_from_slice(if p.kind == 12 { b"FAT12   " } else { b"FAT16   " });
    }
    b[510] = 0x55;
    b[511] = 0xaa;
    vol.d.write(0, &b);
    FsImage {
        volume: vol.d,
        nodes,
        fold: true,
        root_id: if root_fixed { Some(root_offset) } else { None },
        unnamed: false,
        unused: Vec::new(),
        label: label.iter().map(|c| *c as u16).collect(),
        meta: Vec::new(),
        open,
    }
}

struct FatFs(FatFileSystem);
struct FatEntry(FatFileEntry);

fn open(ds: &DataStreamReference) -> Result<Box<dyn Fs>, ErrorTrace> {
    let mut f = FatFileSystem::new();
    f.read_data_stream(ds)?;
    Ok(Box::new(FatFs(f)))
}

/// A lookup string: names of plain characters are also looked up as byte strings.
fn string(name: &[u16]) -> FatString {
    if name.len() % 3 == 0 && name.iter().all(|c| *c < 0x80) {
        let b: Vec<u8> = name.iter().map(|c| *c as u8).collect();
        FatString::ByteString(ByteString::from(&b[..]))
    } else {
        FatString::Ucs2String(Ucs2String::from(name))
    }
}

impl Fs for FatFs {
    fn root(&self) -> Result<Box<dyn Entry>, ErrorTrace> {
        Ok(Box::new(FatEntry(self.0.get_root_directory()?)))
    }
    fn by_path(&self, path: &[Name]) -> Result<Option<Box<dyn Entry>>, ErrorTrace> {
        let mut p = FatPath::from("/");
        for n in path {
            p.push(string(n));
        }
        Ok(self.0.get_file_entry_by_path(&p)?.map(|e| Box::new(FatEntry(e)) as Box<dyn Entry>))
    }
    fn by_id(&self, id: u64) -> Result<Option<Box<dyn Entry>>, ErrorTrace> {
        Ok(Some(Box::new(FatEntry(self.0.get_file_entry_by_identifier(id)?))))
    }
    fn about(&self) -> (Name, Meta) {
        (self.0.get_volume_label().map(|l| l.elements.iter().map(|c| *c as u16).collect()).unwrap_or_default(), Vec::new())
    }
}

impl Entry for FatEntry {
    fn name(&mut self) -> Result<Option<Name>, ErrorTrace> {
        Ok(self.0.get_name().map(|n| match n {
            FatString::ByteString(b) => b.elements.iter().map(|c| *c as u16).collect(),
            FatString::Ucs2String(s) => s.elements,
        }))
    }
    fn kind(&mut self) -> Kind {
        if self.0.is_directory() { Kind::Dir } else { Kind::File }
    }
    fn size(&mut self) -> u64 {
        self.0.get_size()
    }
    fn meta(&mut self) -> Result<Meta, ErrorTrace> {
        Ok(vec![
            ("flags", self.0.get_file_attribute_flags() as i128),
            ("created", fs::time(self.0.get_creation_time())),
            ("accessed", fs::time(self.0.get_access_time())),
            ("modified", fs::time(self.0.get_modification_time())),
        ])
    }
    fn link(&mut self) -> Result<Option<Vec<u16>>, ErrorTrace> {
        Ok(None)
    }
    fn count(&mut self) -> Result<usize, ErrorTrace> {
        self.0.get_number_of_sub_file_entries()
    }
    fn child(&mut self, i: usize) -> Result<Box<dyn Entry>, ErrorTrace> {
        Ok(Box::new(FatEntry(self.0.get_sub_file_entry_by_index(i)?)))
    }
    fn child_named(&mut self, name: &[u16]) -> Result<Option<Box<dyn Entry>>, ErrorTrace> {
        Ok(self.0.get_sub_file_entry_by_name(&string(name))?.map(|e| Box::new(FatEntry(e)) as Box<dyn Entry>))
    }
    fn stream(&mut self) -> Result<Option<DataStreamReference>, ErrorTrace> {
        self.0.get_data_stream()
    }
}
