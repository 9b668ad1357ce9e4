//! Virtual Hard Disk version 2: fixed, dynamic and differential images.

use keramics_core::DataStreamReference;
use keramics_formats::PathComponent;
use keramics_formats::vhdx::VhdxImage;

use super::sparseimage::copy;
use super::shield::{self, Guard};
use super::{Image, blocks_of, crc32, pick_hot, put16, put32, put64};
use crate::data::Data;
use crate::rng::Rng;

const MIB: u64 = 1 << 20;

/// GUID as stored (little endian) from its textual form.
pub fn guid(text: &str) -> Vec<u8> {
    let h: Vec<u8> = text
        .bytes()
        .filter(|c| *c != b'-' && *c != b'{' && *c != b'}')
        .map(|c| (c as char).to_digit(16).unwrap() as u8)
        .collect();
    let b: Vec<u8> = h.chunks(2).map(|p| p[0] << 4 | p[1]).collect();
    let mut v = Vec::new();
    v.extend(b[0..4].iter().rev());
    v.extend(b[4..6].iter().rev());
    v.extend(b[6..8].iter().rev());
    v.extend(&b[8..16]);
    v
}

pub fn guid_text(b: &[u8]) -> String {
    format!(
        "{:02x}{:02x}{:02x}{:02x}-{:02x}{:02x}-{:02x}{:02x}-{:02x}{:02x}-{:02x}{:02x}{:02x}{:02x}{:02x}{:02x}",
        b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]
    )
}

fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|c| c.to_le_bytes()).collect()
}

fn image_header(rng: &mut Rng, seq: u64, id: &[u8], log: u64) -> Vec<u8> {
    let mut b = vec![0u8; 4096];
    b[0..4].copy_from_slice(b"head");
    put64(&mut b, 8, seq);
    let fw = rng.bytes(16);
    b[16..32].copy_from_slice(&fw);
    b[32..48].copy_from_slice(id);
    put16(&mut b, 66, 1);
    put32(&mut b, 68, MIB as u32);
    put64(&mut b, 72, log);
    let c = crc32(0x82f6_3b78, &b);
    put32(&mut b, 4, c);
    b
}

fn region_table(entries: &[(Vec<u8>, u64, u32)]) -> Vec<u8> {
    let mut b = vec![0u8; 65536];
    b[0..4].copy_from_slice(b"regi");
    put32(&mut b, 8, entries.len() as u32);
    for (i, (id, off, len)) in entries.iter().enumerate() {
        let o = 16 + i * 32;
        b[o..o + 16].copy_from_slice(id);
        put64(&mut b, o + 16, *off);
        put32(&mut b, o + 24, *len);
        put32(&mut b, o + 28, 1);
    }
    let c = crc32(0x82f6_3b78, &b);
    put32(&mut b, 4, c);
    b
}

fn parent_locator(rng: &mut Rng, id: &[u8], name: &str) -> Vec<u8> {
    let mut kv: Vec<(String, String)> = Vec::new();
    let g = guid_text(id);
    kv.push(("parent_linkage".into(), format!("{{{g}}}")));
    let mask = rng.range(1, 7);
    if mask & 1 != 0 {
        kv.push(("relative_path".into(), format!(".\\{name}")));
    }
    if mask & 2 != 0 {
        kv.push(("absolute_win32_path".into(), format!("\\\\?\\C:\\virtual disks\\{name}")));
    }
    if mask & 4 != 0 {
        kv.push((
            "volume_path".into(),
            format!("\\\\?\\Volume{{26a21bda-a627-11d7-9931-806e6f6e6963}}\\{name}"),
        ));
    }
    if rng.chance(1, 3) {
        kv.push(("parent_linkage2".into(), "{00000000-0000-0000-0000-000000000000}".into()));
    }
    rng.shuffle(&mut kv);
    let mut b = vec![0u8; 20 + 12 * kv.len()];
    b[0..16].copy_from_slice(&guid("b04aefb7-d19e-4a81-b789-25b8e9445913"));
    put16(&mut b, 18, kv.len() as u16);
    for (i, (k, v)) in kv.iter().enumerate() {
        let (k, v) = (utf16(k), utf16(v));
        let ko = b.len();
        b.extend_from_slice(&k);
        let vo = b.len();
        b.extend_from_slice(&v);
        let o = 20 + 12 * i;
        put32(&mut b, o, ko as u32);
        put32(&mut b, o + 4, vo as u32);
        put16(&mut b, o + 8, k.len() as u16);
        put16(&mut b, o + 10, v.len() as u16);
    }
    b
}

pub struct Params {
    /// 0: fixed, otherwise the number of layers.
    pub layers: u32,
    pub block: u64,
    pub sector: u64,
}

struct Run {
    start: u64,
    end: u64,
    owner: usize,
}

pub fn build(rng: &mut Rng, payload: &Data, p: &Params) -> Image {
    let mut guest = payload.clone();
    guest.size = guest.size.div_ceil(p.sector) * p.sector;
    let size = guest.size;
    let block = p.block;
    let nb = size.div_ceil(block);
    let epc = (1u64 << 23) * p.sector / block;
    let bitmap_size = MIB / epc;
    let layers = (p.layers as usize).max(1);
    let fixed = p.layers == 0;
    let blocks = blocks_of(&guest, block, 64);
    let mut hot = vec![0, size];
    // ownership of the sectors of each block
    let mut runs: Vec<Vec<Run>> = Vec::new();
    for b in &blocks {
        let off = b * block;
        let end = (off + block).min(size);
        hot.push(off);
        let mut v: Vec<Run> = Vec::new();
        if layers == 1 || rng.chance(1, 2) {
            v.push(Run { start: off, end, owner: rng.below(layers as u64) as usize });
        } else {
            let mut cuts: Vec<u64> = guest
                .populated()
                .into_iter()
                .filter(|o| *o >= off && *o < end)
                .map(|o| (o + rng.below(9) * 512) / p.sector * p.sector)
                .collect();
            rng.shuffle(&mut cuts);
            cuts.truncate(12);
            for _ in 0..rng.below(4) {
                cuts.push(off + rng.below((end - off) / p.sector) * p.sector);
            }
            cuts.push(end);
            cuts.sort_unstable();
            let mut at = off;
            for c in cuts {
                let c = c.clamp(off, end);
                if c <= at {
                    continue;
                }
                hot.push(c);
                v.push(Run { start: at, end: c, owner: rng.below(layers as u64) as usize });
                at = c;
            }
        }
        runs.push(v);
    }
    let mut files: Vec<(String, Data)> = Vec::new();
    let mut parent: Option<(Vec<u8>, String)> = None;
    for l in 0..layers {
        let id = rng.bytes(16);
        let name = match (l, rng.below(3)) {
            (0, _) => "parent.vhdx".to_string(),
            (_, 0) => format!("sn\u{e4}pshot {l}.avhdx"),
            _ => format!("child_{l}.avhdx"),
        };
        let mut f = Data::new(0);
        let mut h = vec![0u8; 65536];
        h[0..8].copy_from_slice(b"vhdxfile");
        let cr = utf16("simulated creator 1.0");
        h[8..8 + cr.len()].copy_from_slice(&cr);
        f.write(0, &h);
        // regions: log, metadata, block allocation table
        let chunks = nb.div_ceil(epc);
        let entries = if l > 0 { chunks * (epc + 1) } else { nb + (nb - 1) / epc };
        let bat_size = (entries * 8).div_ceil(MIB) * MIB;
        let mut order = [0, 1, 2];
        rng.shuffle(&mut order);
        let mut at = MIB;
        let (mut log, mut meta, mut bat) = (0, 0, 0);
        for o in order {
            match o {
                0 => {
                    log = at;
                    at += MIB;
                }
                1 => {
                    meta = at;
                    at += MIB;
                }
                _ => {
                    bat = at;
                    at += bat_size;
                }
            }
        }
        let seq = rng.below(1 << 20);
        let delta = 1 + rng.below(3);
        let old = rng.bytes(16);
        let primary_current = rng.chance(1, 2);
        // an older header may hold an older data write identifier
        let old = if rng.chance(1, 2) { old } else { id.clone() };
        let (h1, h2) = if primary_current {
            (image_header(rng, seq + delta, &id, log), image_header(rng, seq, &old, log))
        } else {
            (image_header(rng, seq, &old, log), image_header(rng, seq + delta, &id, log))
        };
        f.write(65536, &h1);
        f.write(2 * 65536, &h2);
        let mut ents = vec![
            (guid("2dc27766-f623-4200-9d64-115e9bfd4a08"), bat, bat_size as u32),
            (guid("8b7ca206-4790-4b9a-b8fe-575f050f886e"), meta, MIB as u32),
        ];
        rng.shuffle(&mut ents);
        let rt = region_table(&ents);
        f.write(3 * 65536, &rt);
        f.write(4 * 65536, &rt);
        for i in 1..=2 {
            shield::note("image header", l, i * 65536, 4096, Guard::Vhdx);
            shield::note("region table", l, (i + 2) * 65536, 65536, Guard::Vhdx);
        }
        // metadata
        let mut fp = vec![0u8; 8];
        put32(&mut fp, 0, block as u32);
        let flags = if l > 0 { 2 } else if fixed { 1 } else { 0 };
        put32(&mut fp, 4, flags);
        let phys = *rng.pick(&[512u32, 4096]);
        let mut items: Vec<(&str, Vec<u8>)> = vec![
            ("caa16737-fa36-4d43-b3b6-33f0aa44e76b", fp),
            ("2fa54224-cd1b-4876-b211-5dbed83bf4b8", size.to_le_bytes().to_vec()),
            ("8141bf1d-a96f-4709-ba47-f233a8faab5f", (p.sector as u32).to_le_bytes().to_vec()),
            ("cda348c7-445d-4471-9cc9-e9885251c556", phys.to_le_bytes().to_vec()),
            ("beca12ab-b2e6-4523-93ef-c309e000c746", rng.bytes(16)),
        ];
        if let Some((pid, pname)) = &parent {
            items.push(("a8d35f2d-b30b-454d-abf7-d3d84834ab0c", parent_locator(rng, pid, pname)));
        }
        rng.shuffle(&mut items);
        let mut t = vec![0u8; 65536];
        t[0..8].copy_from_slice(b"metadata");
        put16(&mut t, 10, items.len() as u16);
        let mut io = 65536u64;
        for (i, (g, v)) in items.iter().enumerate() {
            io += rng.below(3) * 8;
            let o = 32 + i * 32;
            t[o..o + 16].copy_from_slice(&guid(g));
            put32(&mut t, o + 16, io as u32);
            put32(&mut t, o + 20, v.len() as u32);
            put32(&mut t, o + 24, 4);
            f.write(meta + io, v);
            io += v.len() as u64;
        }
        f.write(meta, &t);
        f.size = f.size.max(at);
        // data
        if rng.chance(1, 6) {
            at += rng.below(1 << 14) * MIB;
        }
        let mut order: Vec<usize> = (0..blocks.len()).collect();
        rng.shuffle(&mut order);
        let mut bitmaps: std::collections::BTreeMap<u64, u64> = Default::default();
        for bi in order {
            let b = blocks[bi];
            let off = b * block;
            let end = (off + block).min(size);
            let entry = if fixed { b } else { b / epc * (epc + 1) + b % epc };
            let rs = &runs[bi];
            let any_own = rs.iter().any(|r| r.owner == l);
            let own_data = rs.iter().any(|r| r.owner == l && !guest.is_zero(r.start, r.end - r.start));
            let state;
            if l == 0 {
                let hidden = rs.iter().any(|r| r.owner > 0);
                state = if fixed || own_data || (hidden && rng.chance(1, 2)) || rng.chance(1, 12) {
                    6
                } else {
                    *rng.pick(&[0u64, 2, 3])
                };
            } else if !any_own {
                let covered = rs.iter().all(|r| r.owner > l);
                state = if covered && rng.chance(1, 3) {
                    *rng.pick(&[2, 6, 7])
                } else {
                    *rng.pick(&[0, 0, 7])
                };
            } else if rs.iter().all(|r| r.owner >= l) {
                // nothing of this block comes from below
                state = if !own_data { *rng.pick(&[2, 6, 7]) } else { *rng.pick(&[6, 7]) };
            } else {
                state = 7;
            }
            if state < 6 {
                let mut e = vec![0u8; 8];
                // the offset of a block that is not present may remain
                let o = if rng.chance(1, 8) { at & !(MIB - 1) } else { 0 };
                put64(&mut e, 0, state | o);
                f.write(bat + entry * 8, &e);
                continue;
            }
            f.write(bat + entry * 8, &(at | state).to_le_bytes());
            if state == 7 {
                let chunk = b / epc;
                let next = at + block;
                let bm = *bitmaps.entry(chunk).or_insert_with(|| {
                    let e = (chunk + 1) * (epc + 1) - 1;
                    f.write(bat + e * 8, &(next | 6).to_le_bytes());
                    f.size = f.size.max(next + MIB);
                    next
                });
                let mut bits = vec![0u8; bitmap_size as usize];
                for r in rs {
                    if r.owner == l || (r.owner > l && rng.chance(1, 2)) {
                        for s in (r.start - off) / p.sector..(r.end - off) / p.sector {
                            bits[(s / 8) as usize] |= 1 << (s % 8);
                        }
                    }
                }
                f.write(bm + b % epc * bitmap_size, &bits);
                for r in rs {
                    if r.owner == l {
                        copy(&guest, r.start, &mut f, at + r.start - off, r.end - r.start);
                    } else if rng.chance(1, 2) {
                        // not seen from here
                        let n = (r.end - r.start).min(4096);
                        let v = rng.bytes(n as usize);
                        f.write(at + r.start - off, &v);
                    }
                }
                f.size = f.size.max(at + block);
                at = next.max(if bm == next { next + MIB } else { next });
            } else {
                for r in rs {
                    if r.owner == l {
                        copy(&guest, r.start, &mut f, at + r.start - off, r.end - r.start);
                    } else if r.owner > l && rng.chance(1, 2) {
                        let n = (r.end - r.start).min(4096);
                        let v = rng.bytes(n as usize);
                        f.write(at + r.start - off, &v);
                    }
                }
                let _ = end;
                f.size = f.size.max(at + block);
                at += block;
            }
            at += rng.below(2) * MIB;
        }
        files.push((name.clone(), f));
        parent = Some((id, name));
    }
    let main = files.last().unwrap().0.clone();
    let n2 = main.clone();
    let count = files.len();
    let n3 = main.clone();
    Image {
        streams: Some(Box::new(move |prefix| {
            let r = crate::stream::resolver(prefix);
            let mut image = VhdxImage::new();
            image.open(&r, &PathComponent::from(n3.as_str()))?;
            let mut v: Vec<DataStreamReference> = Vec::new();
            for i in 0..image.get_number_of_layers() {
                v.push(image.get_layer_by_index(i)?);
            }
            Ok(v)
        })),
        guest,
        files,
        main,
        hot: pick_hot(rng, hot),
        open: Box::new(move |prefix| {
            let r = crate::stream::resolver(prefix);
            let mut image = VhdxImage::new();
            image.open(&r, &PathComponent::from(n2.as_str()))?;
            if image.get_number_of_layers() != count {
                return Err(super::wrong(format!(
                    "{} layers, expected {count}",
                    image.get_number_of_layers()
                )));
            }
            let s: DataStreamReference = image.get_layer_by_index(count - 1)?;
            Ok(s)
        }),
    }
}
