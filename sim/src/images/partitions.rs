//! Partition tables: Apple Partition Map, GUID Partition Table and Master Boot Record.

use std::io::SeekFrom;
use std::sync::{Arc, RwLock};

use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
use keramics_formats::apm::ApmVolumeSystem;
use keramics_formats::gpt::GptVolumeSystem;
use keramics_formats::mbr::MbrVolumeSystem;

use super::shield::{self, Guard};
use super::sparseimage::{copy, open_file};
use super::{Image, crc32, fill_block, pick_hot, put16be, put32, put32be, put64};
use crate::data::Data;
use crate::rng::Rng;

/// One stream over several, each read from only within its bounds.
pub struct Concat {
    pub parts: Vec<(DataStreamReference, u64)>,
    pub position: u64,
}

impl DataStream for Concat {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> {
        let mut n = 0;
        for (p, size) in &self.parts {
            let s = keramics_core::data_stream_get_size!(p);
            if s != *size {
                return Err(ErrorTrace::new(format!("part size {s}, expected {size}")));
            }
            n += s;
        }
        Ok(n)
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
        let mut start = 0;
        for (p, size) in &self.parts {
            if self.position < start + size && !buf.is_empty() {
                let offset = self.position - start;
                let n = keramics_core::data_stream_read_at_position!(p, buf, SeekFrom::Start(offset));
                if n as u64 > size - offset {
                    return Err(ErrorTrace::new(format!("read {n} bytes at {offset} of {size}")));
                }
                self.position += n as u64;
                return Ok(n);
            }
            start += size;
        }
        Ok(0)
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
        let size: u64 = self.parts.iter().map(|p| p.1).sum();
        let v = match pos {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(o) => self.position as i128 + o as i128,
            SeekFrom::End(o) => size as i128 + o as i128,
        };
        self.position = v as u64;
        Ok(self.position)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Part {
    pub offset: u64,
    pub size: u64,
    pub index: Option<usize>,
    /// Type, identifier or name, as the format has them.
    pub about: String,
}

/// Places runs of sectors between `from` and `to`, in disk order.
fn place(rng: &mut Rng, n: u64, from: u64, to: u64) -> Vec<(u64, u64)> {
    let mut v = Vec::new();
    let mut at = from;
    for i in 0..n {
        let left = to - at;
        if left < n - i {
            break;
        }
        let share = (left / (n - i)).max(1);
        let gap = if rng.chance(1, 2) { 0 } else { rng.below(share) };
        let size = rng.range(1, (share - gap).max(1)).min(*rng.pick(&[1u64, 5, 100, u64::MAX]));
        v.push((at + gap, size));
        at += gap + size;
    }
    v
}

/// Puts data at the start, end and some other place of each partition.
fn fill(rng: &mut Rng, disk: &mut Data, at: u64, size: u64) {
    if size <= 1 << 14 {
        fill_block(rng, disk, at, size);
    } else {
        fill_block(rng, disk, at, 4096);
        fill_block(rng, disk, at + size - 4096, 4096);
        let o = rng.below(size - 4096);
        fill_block(rng, disk, at + o, 4096);
    }
}

fn finish(rng: &mut Rng, disk: Data, parts: Vec<Part>, open: impl Fn(&DataStreamReference) -> Result<Vec<(Part, DataStreamReference)>, ErrorTrace> + Send + Sync + 'static) -> Image {
    let mut guest = Data::new(0);
    let mut hot = vec![0];
    for p in &parts {
        let at = guest.size;
        copy(&disk, p.offset, &mut guest, at, p.size);
        guest.size = at + p.size;
        hot.push(guest.size);
    }
    let name = "disk.raw".to_string();
    let open = Arc::new(open);
    let (open2, name2) = (open.clone(), name.clone());
    Image {
        streams: Some(Box::new(move |prefix| {
            let s = open_file(prefix, &name2)?;
            let mut v: Vec<DataStreamReference> = open2(&s)?.into_iter().map(|x| x.1).collect();
            v.push(s);
            Ok(v)
        })),
        guest,
        files: vec![(name.clone(), disk)],
        main: name.clone(),
        hot: pick_hot(rng, hot),
        open: Box::new(move |prefix| {
            let s = open_file(prefix, &name)?;
            let found = open(&s)?;
            let seen: Vec<Part> = found.iter().map(|f| f.0.clone()).collect();
            for (i, p) in parts.iter().enumerate() {
                let mut q = match seen.get(i) {
                    Some(q) => q.clone(),
                    None => return Err(super::wrong(format!("{} partitions, expected {}", seen.len(), parts.len()))),
                };
                if p.index.is_none() {
                    q.index = None;
                }
                if *p != q {
                    return Err(super::wrong(format!("partition {i} is {q:?}, expected {p:?}")));
                }
            }
            if seen.len() != parts.len() {
                return Err(super::wrong(format!("{} partitions, expected {}", seen.len(), parts.len())));
            }
            let r: DataStreamReference = Arc::new(RwLock::new(Concat { parts: found.into_iter().map(|(p, s)| (s, p.size)).collect(), position: 0 }));
            Ok(r)
        }),
    }
}

pub fn apm(rng: &mut Rng, sectors: u64) -> Image {
    let n = rng.range(0, 40).min(sectors.saturating_sub(64));
    let map = n + 1 + rng.below(20);
    let mut runs = place(rng, n, map + 1, sectors);
    if rng.chance(1, 2) {
        rng.shuffle(&mut runs);
    }
    let mut disk = Data::new(sectors * 512);
    let mut ddr = vec![0u8; 512];
    ddr[..2].copy_from_slice(b"ER");
    put16be(&mut ddr, 2, 512);
    put32be(&mut ddr, 4, sectors as u32);
    disk.write(0, &ddr);
    let mut parts = Vec::new();
    for i in 0..=runs.len() {
        let (start, size) = if i == 0 { (1, map) } else { runs[i - 1] };
        let kind = if i == 0 { "Apple_partition_map" } else { *rng.pick(&["Apple_HFS", "Apple_Free", "Apple_Driver_OpenFirmware", "Apple_UNIX_SVR2", "a_name_of_exactly_32_characters_"]) };
        let name = if i == 0 { "Apple" } else { *rng.pick(&["", "disk image", "Macintosh HD", "32 characters in this field here"]) };
        let flags = rng.next() as u32;
        let mut e = vec![0u8; 512];
        e[..2].copy_from_slice(b"PM");
        put32be(&mut e, 4, runs.len() as u32 + 1);
        put32be(&mut e, 8, start as u32);
        put32be(&mut e, 12, size as u32);
        e[16..16 + name.len()].copy_from_slice(name.as_bytes());
        e[48..48 + kind.len()].copy_from_slice(kind.as_bytes());
        put32be(&mut e, 84, size as u32);
        put32be(&mut e, 88, flags);
        disk.write(512 * (i as u64 + 1), &e);
        if i > 0 {
            fill(rng, &mut disk, start * 512, size * 512);
            parts.push(Part { offset: start * 512, size: size * 512, index: None, about: format!("{kind}|{name}|{flags:x}") });
        }
    }
    finish(rng, disk, parts, |s| {
        let mut v = ApmVolumeSystem::new();
        v.read_data_stream(s)?;
        let mut r = Vec::new();
        for i in 0..v.get_number_of_partitions() {
            let p = v.get_partition_by_index(i)?;
            let about = format!("{}|{}|{:x}", p.type_identifier.to_string(), p.name.to_string(), p.status_flags);
            r.push((Part { offset: p.offset, size: p.size, index: None, about }, Arc::new(RwLock::new(p)) as DataStreamReference));
        }
        Ok(r)
    })
}

fn guid(b: &[u8]) -> String {
    format!(
        "{:08x}-{:04x}-{:04x}-{:02x}{:02x}-{}",
        u32::from_le_bytes(b[..4].try_into().unwrap()),
        u16::from_le_bytes(b[4..6].try_into().unwrap()),
        u16::from_le_bytes(b[6..8].try_into().unwrap()),
        b[8],
        b[9],
        b[10..16].iter().map(|x| format!("{x:02x}")).collect::<String>()
    )
}

/// `damage`: 1 primary header, 2 backup header, 3 primary entries, 4 backup entries, 5 wrong place of the backup.
pub fn gpt(rng: &mut Rng, bps: u64, sectors: u64, damage: u64) -> Image {
    let capacity = *rng.pick(&[4u64, 16, 128, 128, 128, 160, 256, 1000]);
    let table = (capacity * 128).div_ceil(bps);
    let primary_at = 2 + if rng.chance(1, 4) { rng.below(5) } else { 0 };
    let first = primary_at + table + rng.below(10);
    let sectors = sectors.max(first + 2 * table + 40);
    let backup_table = sectors - 1 - table;
    let last = backup_table - 1;
    let n = rng.range(0, capacity.min(20));
    let mut runs = place(rng, n, first, last + 1);
    if rng.chance(1, 2) {
        rng.shuffle(&mut runs);
    }
    let mut slots: Vec<u64> = (0..capacity).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut slots);
    }
    slots.truncate(runs.len());
    slots.sort_unstable();
    let mut disk = Data::new(sectors * bps);
    let mut entries = vec![0u8; capacity as usize * 128];
    let mut parts = Vec::new();
    for (slot, (start, size)) in slots.iter().zip(&runs) {
        let e = &mut entries[*slot as usize * 128..][..128];
        let ids = rng.bytes(32);
        e[..32].copy_from_slice(&ids);
        put64(e, 32, *start);
        put64(e, 40, start + size - 1);
        put64(e, 48, rng.next());
        for (i, c) in "a name \u{e9}".encode_utf16().enumerate() {
            e[56 + 2 * i..][..2].copy_from_slice(&c.to_le_bytes());
        }
        fill(rng, &mut disk, start * bps, size * bps);
        parts.push(Part { offset: start * bps, size: size * bps, index: Some(*slot as usize), about: format!("{}|{}", guid(&ids[..16]), guid(&ids[16..])) });
    }
    let disk_id = rng.bytes(16);
    let header = |at: u64, other: u64, table: u64| {
        let mut h = vec![0u8; 92];
        h[..8].copy_from_slice(b"EFI PART");
        put32(&mut h, 8, 0x10000);
        put32(&mut h, 12, 92);
        put64(&mut h, 24, at);
        put64(&mut h, 32, other);
        put64(&mut h, 40, first);
        put64(&mut h, 48, last);
        h[56..72].copy_from_slice(&disk_id);
        put64(&mut h, 72, table);
        put32(&mut h, 80, capacity as u32);
        put32(&mut h, 84, 128);
        put32(&mut h, 88, crc32(0xedb8_8320, &entries));
        let c = crc32(0xedb8_8320, &h);
        put32(&mut h, 16, c);
        h
    };
    let mut mbr = vec![0u8; 512];
    mbr[450] = 0xee;
    put32(&mut mbr, 454, 1);
    put32(&mut mbr, 458, (sectors - 1).min(0xffff_ffff) as u32);
    mbr[510] = 0x55;
    mbr[511] = 0xaa;
    disk.write(0, &mbr);
    // The disk can have grown since the table was written.
    let wrong = damage == 5;
    disk.write(bps, &header(1, if wrong { sectors + 100 } else { sectors - 1 }, primary_at));
    disk.write(primary_at * bps, &entries);
    disk.write((sectors - 1) * bps, &header(sectors - 1, 1, backup_table));
    disk.write(backup_table * bps, &entries);
    for (label, at) in [("partition table header", bps), ("backup partition table header", (sectors - 1) * bps)] {
        shield::note(label, 0, at, 92, Guard::GptHeader);
    }
    for (label, at, header) in [("partition entries", primary_at * bps, bps), ("backup partition entries", backup_table * bps, (sectors - 1) * bps)] {
        shield::note(label, 0, at, capacity * 128, Guard::GptEntries { header });
    }
    let mut hit = |rng: &mut Rng, at: u64, len: u64| {
        if rng.chance(1, 2) {
            disk.write(at, &vec![0u8; len as usize]);
        } else {
            let o = at + rng.below(len);
            let mut b = [0u8];
            disk.read(o, &mut b);
            disk.write(o, &[b[0] ^ (1 << rng.below(8))]);
        }
    };
    match damage {
        1 => hit(rng, bps, 92),
        2 => hit(rng, (sectors - 1) * bps, 92),
        3 if !runs.is_empty() => hit(rng, primary_at * bps, capacity * 128),
        4 => hit(rng, backup_table * bps, capacity * 128),
        _ => {}
    }
    let explicit = rng.chance(1, 3);
    let id = guid(&disk_id);
    finish(rng, disk, parts, move |s| {
        let mut v = GptVolumeSystem::new();
        if explicit {
            v.set_bytes_per_sector(bps as u16)?;
        }
        v.read_data_stream(s)?;
        if v.bytes_per_sector as u64 != bps || v.disk_identifier.to_string() != id {
            return Err(super::wrong(format!("{} bytes per sector and identifier {}, expected {bps} and {id}", v.bytes_per_sector, v.disk_identifier.to_string())));
        }
        let mut r = Vec::new();
        for i in 0..v.get_number_of_partitions() {
            let p = v.get_partition_by_index(i)?;
            let about = format!("{}|{}", p.type_identifier.to_string(), p.identifier.to_string());
            r.push((Part { offset: p.offset, size: p.size, index: Some(p.entry_index), about }, Arc::new(RwLock::new(p)) as DataStreamReference));
        }
        Ok(r)
    })
}

const FAT: [u8; 6] = [1, 4, 6, 7, 0xb, 0xc];

pub fn mbr(rng: &mut Rng, bps: u64, sectors: u64) -> Image {
    let mut disk = Data::new(sectors * bps);
    let mut parts: Vec<Part> = Vec::new();
    let extended = rng.chance(2, 3);
    let primaries = rng.range(if extended { 0 } else { 1 }, if extended { 3 } else { 4 });
    let split = if extended { sectors / 2 } else { sectors };
    let first = *rng.pick(&[1u64, 2, 63]).min(&(sectors / 8).max(1));
    let mut runs = place(rng, primaries, first, split);
    if rng.chance(1, 2) {
        rng.shuffle(&mut runs);
    }
    let mut slots = [0usize, 1, 2, 3];
    if rng.chance(1, 2) {
        rng.shuffle(&mut slots);
    }
    let mut slots: Vec<usize> = slots[..runs.len() + extended as usize].to_vec();
    slots.sort_unstable();
    let extended_slot = if extended { slots.remove(rng.below(slots.len() as u64) as usize) } else { 9 };
    let kind = |rng: &mut Rng| if rng.chance(1, 2) { *rng.pick(&FAT) } else { *rng.pick(&[0x83u8, 0x82, 0xaf, 0xee, 0xa5]) };
    let entry = |b: &mut [u8], slot: usize, flags: u8, kind: u8, start: u64, size: u64| {
        let e = &mut b[446 + slot * 16..][..16];
        e[0] = flags;
        e[1..4].copy_from_slice(&[0xfe, 0xff, 0xff]);
        e[4] = kind;
        e[5..8].copy_from_slice(&[0xfe, 0xff, 0xff]);
        put32(e, 8, start as u32);
        put32(e, 12, size as u32);
    };
    let mut master = vec![0u8; 512];
    let id = rng.next() as u32;
    put32(&mut master, 440, id);
    master[510..].copy_from_slice(&[0x55, 0xaa]);
    let mut probes = Vec::new();
    for (slot, (start, size)) in slots.iter().zip(&runs) {
        let flags = *rng.pick(&[0u8, 0x80]);
        let k = kind(rng);
        entry(&mut master, *slot, flags, k, *start, *size);
        fill(rng, &mut disk, start * bps, size * bps);
        if FAT.contains(&k) {
            probes.push(*start);
            if size * bps >= 512 {
                disk.write(start * bps + 510, &[0x55, 0xaa]);
            }
        }
        parts.push(Part { offset: start * bps, size: size * bps, index: Some(*slot), about: format!("{k:x}|{flags:x}") });
    }
    if extended {
        let base = split + rng.below((sectors - split) / 4 + 1);
        probes.push(base);
        let n = *rng.pick(&[1u64, 1, 2, 3, 8, 30]);
        // each area starts with the extended boot record, followed by the partition
        let mut areas: Vec<(u64, u64)> = place(rng, n, base + 1, sectors).into_iter().filter(|a| a.1 >= 2).collect();
        let k = *rng.pick(&[5u8, 15]);
        entry(&mut master, extended_slot, 0, k, base, sectors - base);
        if rng.chance(1, 3) {
            rng.shuffle(&mut areas);
        }
        // the first record is at the start of the extended partition
        let mut records: Vec<(u64, Option<(u64, u64)>)> = Vec::new();
        let lead = areas.iter().map(|a| a.0).min().unwrap_or(sectors) - base - 1;
        records.push((base, if lead > 0 && rng.chance(1, 2) { Some((1 + rng.below(lead), 1)) } else { None }));
        for a in &areas {
            let gap = rng.range(1, a.1 - 1);
            records.push((a.0, if rng.chance(1, 12) { None } else { Some((gap, a.1 - gap)) }));
        }
        for i in 0..records.len() {
            let (at, logical) = records[i];
            let mut b = vec![0u8; 512];
            let link = if logical.is_none() && rng.chance(1, 2) { 0 } else { 1 };
            if let Some((gap, size)) = logical {
                let flags = *rng.pick(&[0u8, 0x80]);
                let k = kind(rng);
                entry(&mut b, 0, flags, k, gap, size);
                fill(rng, &mut disk, (at + gap) * bps, size * bps);
                parts.push(Part { offset: (at + gap) * bps, size: size * bps, index: None, about: format!("{k:x}|{flags:x}") });
            }
            if let Some((next, _)) = records.get(i + 1) {
                entry(&mut b, link, 0, if rng.chance(1, 6) { 15 } else { 5 }, next - base, 1 + rng.below(sectors - next));
            }
            b[510..].copy_from_slice(&[0x55, 0xaa]);
            disk.write(at * bps, &b);
        }
    }
    disk.write(0, &master);
    // Without being told, the sector size shows when boot signatures exist for one size only, or for none when it is 512.
    let candidates: Vec<u64> = [512u64, 1024, 2048, 4096]
        .into_iter()
        .filter(|c| {
            probes.iter().any(|p| {
                let mut b = [0u8; 2];
                let at = p * c + 510;
                at + 2 <= disk.size && {
                    disk.read(at, &mut b);
                    b == [0x55, 0xaa]
                }
            })
        })
        .collect();
    let clear = candidates == [bps] || candidates.is_empty() && bps == 512 && !extended;
    let explicit = !clear || rng.chance(1, 3);
    let empty = parts.is_empty();
    finish(rng, disk, parts, move |s| {
        let mut v = MbrVolumeSystem::new();
        if explicit {
            v.set_bytes_per_sector(bps as u16)?;
        }
        v.read_data_stream(s)?;
        if v.bytes_per_sector as u64 != bps && !empty || v.disk_identity != id {
            return Err(ErrorTrace::new(format!("{} bytes per sector and identity {:x}, expected {bps} and {id:x}", v.bytes_per_sector, v.disk_identity)));
        }
        let mut r = Vec::new();
        for i in 0..v.get_number_of_partitions() {
            let p = v.get_partition_by_index(i)?;
            let about = format!("{:x}|{:x}", p.partition_type, p.flags);
            r.push((Part { offset: p.offset, size: p.size, index: Some(p.entry_index), about }, Arc::new(RwLock::new(p)) as DataStreamReference));
        }
        Ok(r)
    })
}
