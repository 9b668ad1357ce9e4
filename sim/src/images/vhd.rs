//! Virtual Hard Disk: fixed, dynamic and differential images.

use std::sync::{Arc, RwLock};

use keramics_core::DataStreamReference;
use keramics_formats::PathComponent;
use keramics_formats::vhd::VhdImage;

use super::sparseimage::copy;
use super::{Image, fill_block, pick_hot, put32be, put64be};
use crate::data::Data;
use crate::rng::Rng;

fn checksum(b: &[u8]) -> u32 {
    let mut s: u32 = 0;
    for x in b {
        s = s.wrapping_add(*x as u32);
    }
    !s
}

pub fn footer(rng: &mut Rng, kind: u32, size: u64, next: u64, id: &[u8]) -> Vec<u8> {
    let mut b = vec![0u8; 512];
    b[0..8].copy_from_slice(b"conectix");
    put32be(&mut b, 8, 2);
    put32be(&mut b, 12, 0x0001_0000);
    put64be(&mut b, 16, next);
    put32be(&mut b, 24, 0x2a00_0000);
    b[28..32].copy_from_slice(b"win ");
    put32be(&mut b, 32, 0x000a_0000);
    b[36..40].copy_from_slice(b"Wi2k");
    // the original size differs when the disk was resized
    let original = if rng.chance(1, 8) { size / 1024 * 512 } else { size };
    put64be(&mut b, 40, original);
    put64be(&mut b, 48, size);
    put32be(&mut b, 56, 0x0044_0411);
    put32be(&mut b, 60, kind);
    b[68..84].copy_from_slice(id);
    let c = checksum(&b);
    put32be(&mut b, 64, c);
    b
}

fn dynamic_header(bat: u64, blocks: u32, block: u32, parent: Option<(&[u8], &str)>) -> Vec<u8> {
    let mut b = vec![0u8; 1024];
    b[0..8].copy_from_slice(b"cxsparse");
    put64be(&mut b, 8, u64::MAX);
    put64be(&mut b, 16, bat);
    put32be(&mut b, 24, 0x0001_0000);
    put32be(&mut b, 28, blocks);
    put32be(&mut b, 32, block);
    if let Some((id, name)) = parent {
        b[40..56].copy_from_slice(id);
        for (i, c) in name.encode_utf16().enumerate() {
            b[64 + i * 2..66 + i * 2].copy_from_slice(&c.to_be_bytes());
        }
    }
    let c = checksum(&b);
    put32be(&mut b, 36, c);
    b
}

pub struct Params {
    /// 0 fixed, otherwise the number of layers (1: dynamic).
    pub layers: u32,
    pub block: u32,
}

pub fn build(rng: &mut Rng, payload: &Data, p: &Params) -> Image {
    let mut guest = payload.clone();
    guest.size = guest.size.div_ceil(512) * 512;
    let size = guest.size;
    let mut files = Vec::new();
    let mut hot = vec![0, size];
    let ext = *rng.pick(&["vhd", "vhd", "avhd"]);
    if p.layers == 0 {
        let mut f = guest.clone();
        let id = rng.bytes(16);
        let b = footer(rng, 2, size, u64::MAX, &id);
        f.write(size, &b);
        files.push(("disk.vhd".to_string(), f));
        return finish(guest, files, "disk.vhd".into(), pick_hot(rng, hot));
    }
    let block = p.block as u64;
    let nb = size.div_ceil(block).max(1);
    let layers = p.layers as usize;
    let spb = block / 512;
    // interesting blocks: all of a small disk, else those with data
    let blocks = super::blocks_of(&guest, block, 512);
    let fixed_base = layers > 1 && rng.chance(1, 4) && size < 1 << 22;
    // per layer, per block: None or the set sectors
    let mut alloc: Vec<Vec<Option<Vec<bool>>>> = vec![vec![None; blocks.len()]; layers];
    let mut content: Vec<Data> = (0..layers).map(|_| Data::new(size)).collect();
    let top = layers - 1;
    for (bi, b) in blocks.iter().enumerate() {
        let off = b * block;
        let in_media = ((size - off).min(block)).div_ceil(512);
        let zero = guest.is_zero(off, block.min(size - off));
        hot.push(off);
        // the layer from which each sector is seen; None: nowhere, must be zero
        let mut owner: Vec<Option<usize>> = vec![None; spb as usize];
        let whole = rng.below(3);
        let single = rng.below(layers as u64) as usize;
        let mut cur: Option<usize> = Some(single);
        let mut left = 0u64;
        for s in 0..in_media {
            let so = off + s * 512;
            let z = zero || guest.is_zero(so, 512);
            if whole == 0 {
                owner[s as usize] = if zero { None } else { Some(single) };
                continue;
            }
            if left == 0 {
                let m = if rng.chance(1, 2) { 5 } else { 70 };
                left = 1 + rng.skewed(m);
                cur = if z && rng.chance(1, 2) { None } else { Some(rng.below(layers as u64) as usize) };
                hot.push(so);
            }
            left -= 1;
            owner[s as usize] = if !z && cur.is_none() { Some(rng.below(layers as u64) as usize) } else { cur };
        }
        for (l, a) in alloc.iter_mut().enumerate() {
            let is_fixed = l == 0 && fixed_base;
            let mut set = vec![false; spb as usize];
            for s in 0..in_media as usize {
                let so = off + s as u64 * 512;
                match owner[s] {
                    Some(o) if o == l => {
                        set[s] = true;
                        let v = guest.slice(so, 512);
                        content[l].write(so, &v);
                    }
                    Some(o) if o > l => {
                        // hidden by a layer above: anything
                        if rng.chance(1, 2) {
                            set[s] = true;
                            let v = rng.bytes(512);
                            content[l].write(so, &v);
                        }
                    }
                    _ => {}
                }
            }
            let any = set.iter().any(|x| *x);
            if is_fixed {
                continue;
            }
            if any || rng.chance(1, 8) {
                a[bi] = Some(set);
            }
        }
    }
    let _ = top;
    let bitmap_size = spb.div_ceil(8).div_ceil(512) * 512;
    let mut parent: Option<(Vec<u8>, String)> = None;
    let mut main = String::new();
    for l in 0..layers {
        let id = rng.bytes(16);
        let name = if l == 0 {
            "base.vhd".to_string()
        } else if rng.chance(1, 4) {
            format!("d\u{e9}lta-{l}.{ext}")
        } else {
            format!("diff {l}.{ext}")
        };
        if l == 0 && fixed_base {
            let mut f = content[0].clone();
            f.size = size;
            let b = footer(rng, 2, size, u64::MAX, &id);
            f.write(size, &b);
            files.push((name.clone(), f));
            parent = Some((id, name));
            continue;
        }
        let mut f = Data::new(0);
        let gap = rng.below(3) * 512;
        let head = 512 + gap;
        let extra = if rng.chance(1, 4) { rng.below(3) * 4 } else { 0 };
        // the table may have more entries than the disk needs
        let entries = nb + extra;
        let (bat, dyn_off) = if rng.chance(1, 5) {
            // table before header
            (head, (head + entries * 4).div_ceil(512) * 512)
        } else {
            (head + 1024, head)
        };
        let pname = parent.as_ref().map(|(i, n)| {
            let n = match rng.below(3) {
                0 => format!("C:\\images\\{n}"),
                1 => format!(".\\{n}"),
                _ => n.clone(),
            };
            (i.clone(), n)
        });
        let dh = dynamic_header(
            bat,
            entries as u32,
            p.block,
            pname.as_ref().map(|(i, n)| (&i[..], n.as_str())),
        );
        let kind = if l == 0 { 3 } else { 4 };
        let foot = footer(rng, kind, size, dyn_off, &id);
        let mut table = vec![0xffu8; (entries * 4) as usize];
        let mut end = (bat + entries * 4).max(dyn_off + 1024).div_ceil(512) * 512;
        if rng.chance(1, 6) {
            // data far into the file (sector numbers over 2^23: beyond 4 GiB)
            end += rng.below(1 << 24) * 512;
        }
        let mut order: Vec<usize> = (0..blocks.len()).filter(|i| alloc[l][*i].is_some()).collect();
        if rng.chance(2, 3) {
            rng.shuffle(&mut order);
        }
        for bi in order {
            let b = blocks[bi];
            let set = alloc[l][bi].as_ref().unwrap();
            let mut bm = vec![0u8; bitmap_size as usize];
            for (s, x) in set.iter().enumerate() {
                if *x {
                    bm[s / 8] |= 0x80 >> (s % 8);
                }
            }
            // sectors after the end of the disk may be marked as well
            if rng.chance(1, 8) {
                for s in (size - b * block).min(block).div_ceil(512)..spb {
                    bm[s as usize / 8] |= 0x80 >> (s % 8);
                }
            }
            put32be(&mut table, (b * 4) as usize, (end / 512) as u32);
            f.write(end, &bm);
            let at = end + bitmap_size;
            copy(&content[l], b * block, &mut f, at, block.min(size - b * block));
            // what is stored in sectors that are not set does not matter
            if rng.chance(1, 2) {
                for (s, x) in set.iter().enumerate().take(40) {
                    if !*x {
                        let mut junk = Data::new(512);
                        fill_block(rng, &mut junk, 0, 512);
                        let mut v = vec![0u8; 512];
                        junk.read(0, &mut v);
                        f.write(at + s as u64 * 512, &v);
                    }
                }
            }
            f.size = f.size.max(at + block);
            end = at + block + rng.below(2) * 512;
        }
        f.size = f.size.max(end);
        f.write(bat, &table);
        f.write(dyn_off, &dh);
        f.write(0, &foot);
        let e = f.size.div_ceil(512) * 512;
        f.write(e, &foot);
        files.push((name.clone(), f));
        main = name.clone();
        parent = Some((id, name));
    }
    let hot = pick_hot(rng, hot);
    finish(guest, files, main, hot)
}

fn finish(guest: Data, files: Vec<(String, Data)>, main: String, hot: Vec<u64>) -> Image {
    let n2 = main.clone();
    let count = files.len();
    let n3 = main.clone();
    Image {
        streams: Some(Box::new(move |prefix| {
            let r = crate::stream::resolver(prefix);
            let mut image = VhdImage::new();
            image.open(&r, &PathComponent::from(n3.as_str()))?;
            let mut v: Vec<DataStreamReference> = Vec::new();
            for i in 0..image.get_number_of_layers() {
                v.push(image.get_layer_by_index(i)?);
            }
            Ok(v)
        })),
        guest,
        files,
        main,
        hot,
        open: Box::new(move |prefix| {
            let r = crate::stream::resolver(prefix);
            let mut image = VhdImage::new();
            image.open(&r, &PathComponent::from(n2.as_str()))?;
            if image.get_number_of_layers() != count {
                return Err(keramics_core::ErrorTrace::new(format!(
                    "{} layers, expected {count}",
                    image.get_number_of_layers()
                )));
            }
            let layer = image.get_layer_by_index(count - 1)?;
            let s: DataStreamReference = layer;
            Ok(s)
        }),
    }
}
