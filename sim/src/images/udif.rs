//! Universal Disk Image Format (DMG).

use std::sync::{Arc, RwLock};

use keramics_core::DataStreamReference;
use keramics_formats::udif::UdifFile;

use super::sparseimage::{copy, open_file};
use super::{Image, pack, pick_hot, put32be, put64be};
use crate::data::Data;
use crate::rng::Rng;

pub struct Params {
    /// 0: no block table, 1: not compressed, 2: ADC, 3: zlib, 4: bzip2, 5: LZFSE
    pub method: u32,
    /// Sectors of a compressed block.
    pub sectors: u64,
}

pub fn build(rng: &mut Rng, guest: &Data, p: &Params) -> Image {
    let mut f = Data::new(0);
    let sectors = guest.size / 512;
    let mut hot = vec![0, guest.size];
    let (fork_at, fork_size, plist_at, plist_size);
    if p.method == 0 {
        fork_at = if rng.chance(1, 2) { 0 } else { rng.below(5000) };
        copy(guest, 0, &mut f, fork_at, guest.size);
        fork_size = guest.size;
        plist_at = if rng.chance(1, 2) { 0 } else { fork_at + fork_size };
        plist_size = 0;
        f.size = fork_at + fork_size;
    } else {
        fork_at = 0u64;
        // ranges
        let mut ranges: Vec<(u64, u64)> = Vec::new();
        let mut s = 0;
        while s < sectors {
            let mut n = p.sectors;
            match rng.below(8) {
                0 => n = rng.range(1, p.sectors),
                1 if p.sectors < 2048 => n = rng.range(p.sectors, 2048),
                _ => {}
            }
            // what is empty is stored in large ranges
            let mut empty = 0;
            while s + empty < sectors && guest.is_zero((s + empty) * 512, (n * 512).min(guest.size - (s + empty) * 512)) && rng.chance(if guest.size > 1 << 28 { 63 } else { 15 }, if guest.size > 1 << 28 { 64 } else { 16 }) {
                empty += n;
            }
            let n = if empty > 0 { empty } else { n }.min(sectors - s);
            ranges.push((s, n));
            s += n;
        }
        let mut end = match rng.below(9) {
            0 | 1 => rng.below(3000),
            // data far into the file
            2 => rng.below(1 << 42),
            _ => 0,
        };
        let mut entries = vec![[0u64; 5]; ranges.len()]; // type, start, count, offset, size
        let mut order: Vec<usize> = (0..ranges.len()).collect();
        if rng.chance(1, 4) {
            rng.shuffle(&mut order);
        }
        for i in order {
            let (s, n) = ranges[i];
            hot.push(s * 512);
            let zero = guest.is_zero(s * 512, n * 512);
            let compressed = p.method >= 2 && n <= 2048 && rng.chance(3, 4);
            if zero && (rng.chance(3, 4) || n > 4096 || guest.size > 1 << 28) {
                entries[i] = [*rng.pick(&[0, 2]), s, n, if rng.chance(1, 2) { end } else { 0 }, 0];
                continue;
            }
            if compressed {
                let mut raw = vec![0u8; (n * 512) as usize];
                guest.read(s * 512, &mut raw);
                let (kind, z) = match p.method {
                    2 => (0x8000_0004, pack::adc(rng, &raw)),
                    3 => (0x8000_0005, pack::zlib(rng, &raw)),
                    4 => (0x8000_0006, pack::bzip2(rng, &raw)),
                    _ => (0x8000_0007, pack::lzfse(rng, &raw)),
                };
                if matches!(p.method, 3 | 4) {
                    super::shield::note("compressed block", 0, end, z.len() as u64, super::shield::Guard::Always);
                }
                f.write(end, &z);
                entries[i] = [kind, s, n, end, z.len() as u64];
                end += z.len() as u64;
            } else {
                copy(guest, s * 512, &mut f, end, n * 512);
                entries[i] = [1, s, n, end, n * 512];
                end += n * 512;
            }
            if rng.chance(1, 8) {
                end += rng.below(2000);
            }
        }
        fork_size = end + if rng.chance(1, 8) { rng.below(100) } else { 0 };
        // tables
        let mut text = String::from(
            "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"http://www.apple.com/DTDs/PropertyList-1.0.dtd\">\n<plist version=\"1.0\">\n<dict>\n\t<key>resource-fork</key>\n\t<dict>\n\t\t<key>blkx</key>\n\t\t<array>\n",
        );
        let mut i = 0;
        let mut number = 0;
        while i < entries.len() {
            let n = if rng.chance(1, 2) { entries.len() - i } else { rng.range(1, (entries.len() - i) as u64) as usize };
            let base = entries[i][1];
            let mut rows: Vec<[u64; 5]> = Vec::new();
            for e in &entries[i..i + n] {
                if rng.chance(1, 16) {
                    rows.push([0x7fff_fffe, e[1] - base, 0, e[3], 0]);
                }
                rows.push([e[0], e[1] - base, e[2], e[3], e[4]]);
            }
            let total: u64 = entries[i..i + n].iter().map(|e| e[2]).sum();
            rows.push([0xffff_ffff, total, 0, end, 0]);
            if rng.chance(1, 8) {
                // what follows the terminator does not count
                rows.push([0, 0, 7, 0, 0]);
            }
            let mut t = vec![0u8; 204 + 40 * rows.len()];
            t[0..4].copy_from_slice(b"mish");
            put32be(&mut t, 4, 1);
            put64be(&mut t, 8, base);
            put64be(&mut t, 16, total);
            put32be(&mut t, 32, 2056);
            put32be(&mut t, 36, number);
            put32be(&mut t, 64, 2);
            put32be(&mut t, 68, 32);
            put32be(&mut t, 200, rows.len() as u32);
            for (j, r) in rows.iter().enumerate() {
                let o = 204 + 40 * j;
                put32be(&mut t, o, r[0] as u32);
                if r[0] == 0x7fff_fffe {
                    t[o + 4..o + 8].copy_from_slice(b"+beg");
                }
                put64be(&mut t, o + 8, r[1]);
                put64be(&mut t, o + 16, r[2]);
                put64be(&mut t, o + 24, r[3]);
                put64be(&mut t, o + 32, r[4]);
            }
            text += &format!(
                "\t\t\t<dict>\n\t\t\t\t<key>Attributes</key>\n\t\t\t\t<string>0x0050</string>\n\t\t\t\t<key>CFName</key>\n\t\t\t\t<string>part {number} (Apple_HFS : {number})</string>\n\t\t\t\t<key>Data</key>\n\t\t\t\t<data>\n"
            );
            let b64 = base64(&t);
            let width = *rng.pick(&[44usize, 52, 76]);
            for line in b64.as_bytes().chunks(width) {
                text += "\t\t\t\t";
                text += std::str::from_utf8(line).unwrap();
                text += "\n";
            }
            text += &format!("\t\t\t\t</data>\n\t\t\t\t<key>ID</key>\n\t\t\t\t<string>{}</string>\n\t\t\t\t<key>Name</key>\n\t\t\t\t<string>whole disk</string>\n\t\t\t</dict>\n", number as i32 - 1);
            number += 1;
            i += n;
        }
        text += "\t\t</array>\n";
        if rng.chance(1, 2) {
            text += "\t\t<key>plst</key>\n\t\t<array>\n\t\t\t<dict>\n\t\t\t\t<key>Attributes</key>\n\t\t\t\t<string>0x0050</string>\n\t\t\t\t<key>Data</key>\n\t\t\t\t<data>\n\t\t\t\tAAAAAAAAAAAAAAAAAAAAAA==\n\t\t\t\t</data>\n\t\t\t\t<key>ID</key>\n\t\t\t\t<string>0</string>\n\t\t\t\t<key>Name</key>\n\t\t\t\t<string></string>\n\t\t\t</dict>\n\t\t</array>\n";
        }
        text += "\t</dict>\n</dict>\n</plist>\n";
        f.size = f.size.max(fork_size);
        plist_at = f.size + if rng.chance(1, 4) { rng.below(100) } else { 0 };
        f.write(plist_at, text.as_bytes());
        plist_size = text.len() as u64;
        f.size = plist_at + plist_size;
    }
    let mut k = vec![0u8; 512];
    k[0..4].copy_from_slice(b"koly");
    put32be(&mut k, 4, 4);
    put32be(&mut k, 8, 512);
    put32be(&mut k, 12, 1);
    put64be(&mut k, 24, fork_at);
    put64be(&mut k, 32, fork_size);
    put32be(&mut k, 56, 1);
    put32be(&mut k, 60, 1);
    let id = rng.bytes(16);
    k[64..80].copy_from_slice(&id);
    put64be(&mut k, 216, plist_at);
    put64be(&mut k, 224, plist_size);
    put32be(&mut k, 488, 1);
    put64be(&mut k, 492, sectors);
    let at = f.size;
    f.write(at, &k);
    let name = "disk.dmg".to_string();
    let n2 = name.clone();
    Image {
        streams: None,
        guest: guest.clone(),
        files: vec![(name.clone(), f)],
        main: name,
        hot: pick_hot(rng, hot),
        open: Box::new(move |prefix| {
            let s = open_file(prefix, &n2)?;
            let mut u = UdifFile::new();
            u.read_data_stream(&s)?;
            let r: DataStreamReference = Arc::new(RwLock::new(u));
            Ok(r)
        }),
    }
}

pub fn base64(d: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i <= c.len() { T[(v >> (18 - 6 * i) & 63) as usize] as char } else { '=' });
        }
    }
    s
}
