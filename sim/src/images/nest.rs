//! Stacks of storage layers: an image in some format, of a disk with or without a partition table,
//! with volumes that hold a file system or something else; a file system can hold another stack.

use super::fs::{self, FsImage, Options};
use super::{Image, crc32, ewf, ext, fat, put16be, put32, put32be, put64, qcow, sparseimage, udif, vhd, vhdx};
use crate::data::Data;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Format {
    Raw,
    SparseImage,
    Vhd,
    Vhdx,
    Qcow,
    Udif,
    Ewf,
}

pub const FORMATS: [Format; 7] = [Format::Raw, Format::SparseImage, Format::Vhd, Format::Vhdx, Format::Qcow, Format::Udif, Format::Ewf];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Table {
    None,
    Apm,
    Gpt,
    Mbr,
}

pub const TABLES: [Table; 4] = [Table::None, Table::Apm, Table::Gpt, Table::Mbr];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Content {
    Fat,
    Ext,
    /// Nothing that is recognized.
    Other,
}

pub struct Volume {
    pub offset: u64,
    pub size: u64,
    pub content: Content,
    pub data: Data,
    pub fs: Option<FsImage>,
    /// The stack stored in the file system, and the node of its main file.
    pub inner: Option<(usize, Box<Stack>)>,
}

pub struct Stack {
    pub files: Vec<(String, Data)>,
    pub main: String,
    pub format: Format,
    pub layers: usize,
    /// The disk that the image stores.
    pub disk: Data,
    pub table: Table,
    pub volumes: Vec<Volume>,
}

pub struct Params {
    pub format: Format,
    pub layers: u32,
    pub table: Table,
    pub volumes: usize,
    pub nodes: usize,
    /// Levels of stacks stored in a file of this one.
    pub depth: u32,
    /// Names as the formats allow.
    pub wild: bool,
    /// The data must not get big.
    pub small: bool,
    /// Only volumes with a file system.
    pub only_fs: bool,
    /// Limit of the size of the files of a stack inside this one.
    pub room: u64,
}

/// Whether the data ends like an image that is recognized by its end.
fn trailer(d: &Data) -> bool {
    let end = d.slice(d.size.saturating_sub(512), 8);
    end == b"conectix" || &end[..4] == b"koly"
}

/// Contents of volumes that the signatures of the formats tell.
pub fn recognized(d: &Data, whole: bool) -> Vec<Content> {
    let mut v = Vec::new();
    let at = |o: u64, n: u64| d.slice(o, n);
    if at(54, 8) == b"FAT12   " || at(54, 8) == b"FAT16   " || at(82, 8) == b"FAT32   " {
        v.push(Content::Fat);
    }
    if at(1080, 2) == [0x53, 0xef] {
        v.push(Content::Ext);
    }
    if at(3, 8) == b"NTFS    " {
        v.push(Content::Other);
    }
    if whole && !v.contains(&Content::Fat) && [510u64, 1022, 2046, 4094].iter().any(|o| at(*o, 2) == [0x55, 0xaa]) {
        v.push(Content::Other);
    }
    v
}

fn volume(rng: &mut Rng, p: &Params, whole: bool, content: Content, inner: Option<Box<Stack>>) -> Volume {
    let mut inner = inner;
    loop {
        let mut graft = Vec::new();
        let mut room = 0;
        let mut main = 0;
        if let Some(s) = &inner {
            for (i, (name, data)) in s.files.iter().enumerate() {
                if *name == s.main {
                    main = i;
                }
                graft.push((name.as_bytes().to_vec(), data.clone()));
                room += data.size;
            }
        }
        let count = graft.len();
        let options = Options { plain: !p.wild, modest: !p.wild || p.small, graft };
        let (data, fs) = match content {
            Content::Fat => {
                let (bps, spc, kind, clusters) = if room > 1 << 20 {
                    (512, 8, 16, room / 4096 + 4085 + 2000)
                } else if p.small {
                    (512, rng.range(0, 1) + 1, 12, rng.range(600, 1000).max(room / 512 + 800))
                } else {
                    match rng.below(8) {
                        0 => (*rng.pick(&[512u64, 1024, 4096]), *rng.pick(&[1u64, 2, 8]), 32, rng.range(65525, 70000)),
                        1 | 2 => (*rng.pick(&[512u64, 2048]), *rng.pick(&[1u64, 4]), 16, rng.range(4085 + room / 512, 20000)),
                        _ => (512, *rng.pick(&[1u64, 2, 8]), 12, rng.range(2000 + room / 512, 4084)),
                    }
                };
                let q = fat::Params { kind, bps, spc, clusters, nodes: p.nodes, fats: rng.range(1, 2) };
                let f = fs::with_options(options, || fat::build(rng, &q));
                (f.volume.clone(), Some(f))
            }
            Content::Ext => {
                let version = *rng.pick(&[2i64, 3, 4, 4]);
                let mut features = 0;
                for bit in [ext::SPARSE_SUPER, ext::FILETYPE, ext::FULL, ext::CSUM] {
                    if rng.chance(1, 2) {
                        features |= bit;
                    }
                }
                if version == 4 {
                    features |= ext::EXTENTS;
                    for bit in [ext::BIT64, ext::FLEX, ext::INLINE] {
                        if rng.chance(1, 2) {
                            features |= bit;
                        }
                    }
                } else {
                    features &= !ext::CSUM;
                }
                let log = if p.small { 0 } else { rng.below(3) as u32 };
                let q = ext::Params {
                    version,
                    log,
                    nodes: p.nodes,
                    groups: if room == 0 { 1 } else { room * 6 / 5 / (2048 << (log + 10)) + 2 },
                    features,
                    inode_size: if version == 4 { *rng.pick(&[128u64, 256]) } else { 128 },
                };
                let f = fs::with_options(options, || ext::build(rng, &q));
                (f.volume.clone(), Some(f))
            }
            Content::Other => {
                let n = rng.range(8, 60) * 512;
                let mut d = Data::new(n);
                if rng.chance(3, 4) {
                    let b = rng.bytes(n as usize);
                    d.write(0, &b);
                }
                (d, None)
            }
        };
        let found = recognized(&data, whole);
        let want: &[Content] = if content == Content::Other { &[] } else { &[content] };
        if found != want {
            continue;
        }
        let inner = inner.take().map(|s| (fs.as_ref().unwrap().nodes.len() - count + main, s));
        return Volume { offset: 0, size: data.size, content, data, fs, inner };
    }
}

pub fn build(rng: &mut Rng, p: &Params) -> Stack {
    let whole = p.table == Table::None;
    // what is compressed must not get big
    let packed = matches!(p.format, Format::Ewf | Format::Udif);
    let p = &Params { small: p.small || packed, ..*p };
    let room = if packed { 8 << 20 } else { p.room };
    let number = if whole { 1 } else { p.volumes.clamp(1, 6) };
    let inner_in = if p.depth > 0 { rng.below(number as u64) as usize } else { usize::MAX };
    let mut volumes = Vec::new();
    for i in 0..number {
        let content = if i == inner_in || p.only_fs {
            *rng.pick(&[Content::Fat, Content::Ext])
        } else {
            *rng.pick(&[Content::Fat, Content::Ext, Content::Fat, Content::Ext, Content::Other])
        };
        let inner = (i == inner_in).then(|| {
            loop {
                let q = Params {
                    format: *rng.pick(&FORMATS),
                    layers: rng.range(1, 3) as u32,
                    table: *rng.pick(&[Table::None, Table::None, Table::Mbr, Table::Gpt, Table::Apm]),
                    volumes: rng.range(1, 2) as usize,
                    nodes: rng.range(1, 6) as usize,
                    depth: p.depth - 1,
                    wild: p.wild,
                    small: true,
                    only_fs: p.only_fs,
                    room,
                };
                let s = build(rng, &q);
                // UCS-2 has no characters above U+FFFF
                let bmp = s.files.iter().all(|f| f.0.chars().all(|c| (c as u32) < 0x10000));
                if bmp && s.files.iter().map(|f| f.1.size).sum::<u64>() <= room {
                    break Box::new(s);
                }
            }
        });
        volumes.push(volume(rng, p, whole, content, inner));
    }
    let mut disk = loop {
        match table(rng, p.table, &mut volumes) {
            Some(d) => break d,
            None => continue,
        }
    };
    disk.pad_to(512);
    while trailer(&disk) {
        disk.size += 512;
    }
    if whole {
        volumes[0].size = disk.size;
    }
    let mut image: Image = match p.format {
        Format::Raw => {
            let main = *rng.pick(&["disk.raw", "disk.dd", "image"]);
            return Stack { files: vec![(main.into(), disk.clone())], main: main.into(), format: p.format, layers: 0, disk, table: p.table, volumes };
        }
        Format::SparseImage => {
            let least = disk.size.div_ceil(512).div_ceil(1000).max(1) as u32;
            let spb = (*rng.pick(&[8u32, 16, 100, 2048])).max(least);
            sparseimage::build(rng, &disk, spb)
        }
        Format::Vhd => {
            let block = *rng.pick(&[4096u32, 32768, 1 << 19]);
            let q = vhd::Params { layers: p.layers.saturating_sub(rng.below(2) as u32), block };
            vhd::build(rng, &disk, &q)
        }
        Format::Vhdx => {
            let q = vhdx::Params { layers: p.layers, block: 1 << 20, sector: *rng.pick(&[512u64, 4096]) };
            vhdx::build(rng, &disk, &q)
        }
        Format::Qcow => {
            let version = rng.range(1, 3) as u32;
            let bits = *rng.pick(&[12u32, 16]);
            qcow::build(rng, &disk, &qcow::Params { layers: p.layers.max(1), version, bits, l2_bits: if version == 1 { 9 } else { bits - 3 } })
        }
        Format::Udif => {
            let q = udif::Params { method: rng.below(6) as u32, sectors: *rng.pick(&[16u64, 64, 512]) };
            udif::build(rng, &disk, &q)
        }
        Format::Ewf => {
            let kind = *rng.pick(&[ewf::Kind::EnCase, ewf::Kind::EnCase1, ewf::Kind::Smart]);
            let chunks = disk.size.div_ceil(64 * 512);
            let per_segment = (*rng.pick(&[3u64, 20, 1000])).max(chunks.div_ceil(6));
            ewf::build(rng, &disk, &ewf::Params { kind, sectors_per_chunk: 64, bytes_per_sector: 512, per_segment, overflow: false })
        }
    };
    let layers = match p.format {
        Format::Vhd | Format::Vhdx | Format::Qcow => image.files.len(),
        _ => 1,
    };
    if !matches!(p.format, Format::Vhd | Format::Udif) {
        // what the disk stores can come last in the image
        for (_, data) in &mut image.files {
            while trailer(data) {
                data.size += 512;
            }
        }
    }
    // the format may add to the size
    if whole {
        volumes[0].size = image.guest.size;
    }
    Stack { files: image.files, main: image.main, format: p.format, layers, disk: image.guest, table: p.table, volumes }
}

/// The disk with the volumes at the places their offsets get; None: try again.
fn table(rng: &mut Rng, table: Table, volumes: &mut [Volume]) -> Option<Data> {
    if table == Table::None {
        volumes[0].offset = 0;
        return Some(volumes[0].data.clone());
    }
    let n = volumes.len() as u64;
    let mut disk = Data::new(0);
    let first = match table {
        Table::Apm => n + 2 + rng.below(4),
        Table::Gpt => 34 + rng.below(4),
        _ => *rng.pick(&[1u64, 4, 63]),
    };
    let mut at = first;
    // in the order of the disk, which need not be that of the table
    let mut order: Vec<usize> = (0..volumes.len()).collect();
    if table != Table::Mbr && rng.chance(1, 3) {
        rng.shuffle(&mut order);
    }
    let primaries = if volumes.len() > 4 || rng.chance(1, 3) { rng.range(0, 3).min(n) as usize } else { volumes.len() };
    let mut records: Vec<u64> = Vec::new();
    for i in order {
        if table == Table::Mbr && i >= primaries {
            records.push(at);
            at += rng.range(1, 3);
        }
        let v = &mut volumes[i];
        let sectors = v.data.size.div_ceil(512);
        v.offset = at * 512;
        v.size = sectors * 512;
        sparseimage::copy(&v.data, 0, &mut disk, v.offset, v.data.size);
        disk.size = disk.size.max(v.offset + v.size);
        at += sectors + if rng.chance(1, 2) { rng.below(20) } else { 0 };
    }
    let runs: Vec<(u64, u64)> = volumes.iter().map(|v| (v.offset / 512, v.size / 512)).collect();
    match table {
        Table::Apm => {
            disk.size = disk.size.max(at * 512);
            let mut ddr = vec![0u8; 512];
            ddr[..2].copy_from_slice(b"ER");
            put16be(&mut ddr, 2, 512);
            put32be(&mut ddr, 4, at as u32);
            disk.write(0, &ddr);
            for i in 0..=runs.len() {
                let (start, size) = if i == 0 { (1, n + 1) } else { runs[i - 1] };
                let kind = if i == 0 { "Apple_partition_map" } else { "Apple_HFS" };
                let mut e = vec![0u8; 512];
                e[..2].copy_from_slice(b"PM");
                put32be(&mut e, 4, n as u32 + 1);
                put32be(&mut e, 8, start as u32);
                put32be(&mut e, 12, size as u32);
                e[16..20].copy_from_slice(b"name");
                e[48..48 + kind.len()].copy_from_slice(kind.as_bytes());
                put32be(&mut e, 84, size as u32);
                disk.write(512 * (i as u64 + 1), &e);
            }
        }
        Table::Gpt => {
            let sectors = at + 33;
            disk.size = sectors * 512;
            let mut entries = vec![0u8; 128 * 128];
            for (i, (start, size)) in runs.iter().enumerate() {
                let e = &mut entries[i * 128..][..128];
                let ids = rng.bytes(32);
                e[..32].copy_from_slice(&ids);
                put64(e, 32, *start);
                put64(e, 40, start + size - 1);
            }
            let disk_id = rng.bytes(16);
            let header = |at: u64, other: u64, table: u64| {
                let mut h = vec![0u8; 92];
                h[..8].copy_from_slice(b"EFI PART");
                put32(&mut h, 8, 0x10000);
                put32(&mut h, 12, 92);
                put64(&mut h, 24, at);
                put64(&mut h, 32, other);
                put64(&mut h, 40, 34);
                put64(&mut h, 48, sectors - 34);
                h[56..72].copy_from_slice(&disk_id);
                put64(&mut h, 72, table);
                put32(&mut h, 80, 128);
                put32(&mut h, 84, 128);
                put32(&mut h, 88, crc32(0xedb8_8320, &entries));
                let c = crc32(0xedb8_8320, &h);
                put32(&mut h, 16, c);
                h
            };
            let mut mbr = vec![0u8; 512];
            mbr[450] = 0xee;
            put32(&mut mbr, 454, 1);
            put32(&mut mbr, 458, (sectors - 1) as u32);
            mbr[510] = 0x55;
            mbr[511] = 0xaa;
            disk.write(0, &mbr);
            disk.write(512, &header(1, sectors - 1, 2));
            disk.write(1024, &entries);
            disk.write((sectors - 1) * 512, &header(sectors - 1, 1, sectors - 33));
            disk.write((sectors - 33) * 512, &entries);
        }
        _ => {
            disk.size = disk.size.max(at * 512);
            let total = disk.size / 512;
            let entry = |b: &mut [u8], slot: usize, kind: u8, start: u64, size: u64| {
                let e = &mut b[446 + slot * 16..][..16];
                e[4] = kind;
                put32(e, 8, start as u32);
                put32(e, 12, size as u32);
            };
            let kind = |v: &Volume| match v.content {
                Content::Fat => 0x0c,
                Content::Ext => 0x83,
                Content::Other => 0x82,
            };
            let mut probes = Vec::new();
            let mut master = vec![0u8; 512];
            put32(&mut master, 440, rng.next() as u32);
            for i in 0..primaries {
                entry(&mut master, i, kind(&volumes[i]), runs[i].0, runs[i].1);
                if volumes[i].content == Content::Fat {
                    probes.push(runs[i].0);
                }
            }
            if !records.is_empty() {
                entry(&mut master, primaries, *rng.pick(&[5u8, 15]), records[0], total - records[0]);
                probes.push(records[0]);
                for (k, r) in records.iter().enumerate() {
                    let i = primaries + k;
                    let mut b = vec![0u8; 512];
                    entry(&mut b, 0, kind(&volumes[i]), runs[i].0 - r, runs[i].1);
                    if let Some(next) = records.get(k + 1) {
                        entry(&mut b, 1, 5, next - records[0], runs[i + 1].1 + 1);
                    }
                    b[510..].copy_from_slice(&[0x55, 0xaa]);
                    disk.write(r * 512, &b);
                }
            }
            master[510..].copy_from_slice(&[0x55, 0xaa]);
            disk.write(0, &master);
            for c in [1024u64, 2048, 4096] {
                if probes.iter().any(|p| disk.slice(p * c + 510, 2) == [0x55, 0xaa]) {
                    return None;
                }
            }
        }
    }
    // another table must not show
    let signatures: [(Table, bool); 2] = [
        (Table::Apm, disk.slice(560, 20) == b"Apple_partition_map\0"),
        (Table::Gpt, [512u64, 1024, 2048, 4096].iter().any(|o| disk.slice(*o, 8) == b"EFI PART")),
    ];
    for (t, found) in signatures {
        if found != (t == table) {
            return None;
        }
    }
    let other = recognized(&disk, false);
    if !other.is_empty() && table == Table::Mbr && other.iter().any(|c| *c != Content::Ext) {
        return None;
    }
    Some(disk)
}
