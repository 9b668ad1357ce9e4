//! Expert Witness Compression Format: E01 (EnCase 1 and later) and S01 (SMART) segment files.

use std::sync::{Arc, RwLock};

use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_formats::PathComponent;
use keramics_formats::ewf::EwfImage;

use super::shield::{self, Guard};
use super::{Image, compressible, pack, pick_hot, put16, put32, put64};
use crate::data::Data;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// EnCase 4 and later: sectors, table and table2 sections.
    EnCase,
    /// EnCase 1: chunks follow the table in the table section.
    EnCase1,
    /// SMART: chunks follow the table, which has no footer, in the table section.
    Smart,
}

pub struct Params {
    pub kind: Kind,
    pub sectors_per_chunk: u32,
    pub bytes_per_sector: u32,
    /// Chunks per segment file.
    pub per_segment: u64,
    /// Offsets in the first segment cross 2 GiB.
    pub overflow: bool,
}

struct Writer {
    f: Data,
    number: usize,
}

impl Writer {
    fn new(kind: Kind, number: u16) -> Self {
        let mut h = *b"EVF\x09\x0d\x0a\xff\x00\x01\0\0\0\0";
        put16(&mut h, 9, number);
        let _ = kind;
        let mut f = Data::new(0);
        f.append(&h);
        Self { f, number: number as usize - 1 }
    }

    /// Writes a section header; `size` is that of the data.
    fn header(&mut self, kind: &str, size: u64, zero: bool) {
        let at = self.f.size;
        let last = kind == "next" || kind == "done";
        let mut h = [0u8; 76];
        h[..kind.len()].copy_from_slice(kind.as_bytes());
        put64(&mut h, 16, if last { at } else { at + 76 + size });
        put64(&mut h, 24, if zero { 0 } else { 76 + size });
        let c = pack::adler32(&h[..72]);
        put32(&mut h, 72, c);
        self.note("section header", 0, 76, Guard::Adler);
        self.f.append(&h);
    }

    /// Notes a protected range, relative to the end of the file.
    fn note(&self, label: &'static str, at: u64, len: u64, guard: Guard) {
        shield::note(label, self.number, self.f.size + at, len, guard);
    }

    fn section(&mut self, kind: &str, data: &[u8], zero: bool) {
        self.header(kind, data.len() as u64, zero);
        self.f.append(data);
    }
}

fn extension(kind: Kind, lower: bool, number: u16) -> String {
    let (a, first) = match (kind, lower) {
        (Kind::Smart, false) => (b'A', b'S'),
        (Kind::Smart, true) => (b'a', b's'),
        (_, false) => (b'A', b'E'),
        (_, true) => (b'a', b'e'),
    };
    if number < 100 {
        return format!("{}{:02}", first as char, number);
    }
    let n = number - 100;
    [first + (n / 676) as u8, a + (n / 26 % 26) as u8, a + (n % 26) as u8].iter().map(|b| *b as char).collect()
}

fn header_text(rng: &mut Rng, wide: bool) -> Vec<u8> {
    let words = |rng: &mut Rng| {
        let n = rng.below(12) as usize;
        let c = *rng.pick(&['x', 'y', '7', ' ']);
        let m = if rng.chance(1, 6) { 2000 } else { 1 };
        c.to_string().repeat(n * m)
    };
    let dates = if wide { ("1142163845", "1142163848") } else { ("2002 3 4 10 19 59", "2002 3 4 10 19 58") };
    let values: Vec<String> = (0..5).map(|_| words(rng)).collect();
    let text = format!(
        "1\r\nmain\r\nc\tn\ta\te\tt\tav\tov\tm\tu\tp\r\n{}\t{}\t{}\t4.16a\tWindows XP\t{}\t{}\t0\r\n\r\n",
        values[0],
        values[1],
        [values[2].as_str(), values[3].as_str(), values[4].as_str()].join("\t"),
        dates.0,
        dates.1
    );
    if wide {
        let mut v = vec![0xff, 0xfe];
        for u in text.encode_utf16() {
            v.extend_from_slice(&u.to_le_bytes());
        }
        v
    } else {
        text.into_bytes()
    }
}

pub fn build(rng: &mut Rng, payload: &Data, p: &Params) -> Image {
    let bps = p.bytes_per_sector as u64;
    let mut guest = payload.clone();
    guest.size = guest.size.div_ceil(bps).max(1) * bps;
    let sectors = guest.size / bps;
    let block = bps * p.sectors_per_chunk as u64;
    let chunks = guest.size.div_ceil(block);
    let lower = p.kind == Kind::Smart && rng.chance(1, 2) || rng.chance(1, 6);
    let stem = rng.pick(&["disk", "my.disk", "b\u{e4}nd \u{1f4be}"]).to_string();
    let guid = rng.bytes(16);
    let digest = rng.bytes(36);
    let per_table = *rng.pick(&[1u64, 2, 5, 20, 200, 16375]);
    let per_table = if guest.size > 1 << 20 { per_table.max(chunks / 8) } else { per_table };
    let with_base = rng.chance(1, 2);
    let raw_rate = *rng.pick(&[0u64, 1, 2, 4]);
    let raw_rate = if guest.size > 1 << 30 { 0 } else { raw_rate };
    let zero_ends = rng.chance(1, 3);

    let volume = if p.kind == Kind::Smart {
        let mut v = vec![0u8; 94];
        put32(&mut v, 0, 1);
        put32(&mut v, 4, chunks as u32);
        put32(&mut v, 8, p.sectors_per_chunk);
        put32(&mut v, 12, p.bytes_per_sector);
        put32(&mut v, 16, sectors as u32);
        v[85..90].copy_from_slice(b"SMART");
        let c = pack::adler32(&v[..90]);
        put32(&mut v, 90, c);
        v
    } else {
        let mut v = vec![0u8; 1052];
        v[0] = *rng.pick(&[0u8, 1, 3, 16]);
        put32(&mut v, 4, chunks as u32);
        put32(&mut v, 8, p.sectors_per_chunk);
        put32(&mut v, 12, p.bytes_per_sector);
        put64(&mut v, 16, sectors);
        v[36] = rng.below(4) as u8;
        v[52] = rng.below(3) as u8;
        put32(&mut v, 56, 64);
        v[64..80].copy_from_slice(&guid);
        let c = pack::adler32(&v[..1048]);
        put32(&mut v, 1048, c);
        v
    };

    let mut files: Vec<(String, Data)> = Vec::new();
    let mut hot = vec![0, guest.size];
    let mut chunk = 0u64;
    // the data of an empty chunk of a big disk
    let mut zero: Option<Vec<u8>> = None;
    let mut number = 1u16;
    loop {
        let mut w = Writer::new(p.kind, number);
        if number == 1 {
            if p.kind == Kind::EnCase {
                let t = header_text(rng, true);
                let z = pack::zlib(rng, &t);
                w.section("header2", &z, false);
                w.section("header2", &z, false);
            }
            let t = header_text(rng, false);
            let z = pack::zlib(rng, &t);
            w.section("header", &z, false);
            if rng.chance(1, 4) {
                w.section("header", &z, false);
            }
            w.note("volume", 76, volume.len() as u64, Guard::Adler);
            w.section(if rng.chance(1, 8) { "disk" } else { "volume" }, &volume, false);
        } else if p.kind == Kind::EnCase || rng.chance(1, 2) && p.kind != Kind::Smart {
            w.note("data", 76, volume.len() as u64, Guard::Adler);
            w.section("data", &volume, false);
        }
        let mut left = p.per_segment.min(chunks - chunk);
        if p.overflow && number == 1 {
            // Other data moves the chunks across 2 GiB.
            let first = per_table.min(left);
            let target = (1u64 << 31) - rng.below(block * first + 1) - if rng.chance(1, 2) { 200 } else { 0 };
            let gap = target.saturating_sub(w.f.size + 76 + 76);
            w.header("xhash", gap, false);
            w.f.size += gap;
        }
        while left > 0 {
            let n = per_table.min(left);
            left -= n;
            let start = w.f.size;
            let table_size = 24 + n * 4 + if p.kind == Kind::Smart { 0 } else { 4 };
            // Where the chunk data starts.
            let at = start + 76 + if p.kind == Kind::EnCase { 0 } else { table_size };
            let base = if start > 0x7800_0000 && !(p.overflow && number == 1 && chunk == 0) {
                start
            } else if with_base && !(p.overflow && number == 1) {
                *rng.pick(&[start, at, start / 2])
            } else {
                0
            };
            let mut data: Vec<u8> = Vec::new();
            let mut entries: Vec<u8> = Vec::new();
            let mut overflow = false;
            for i in 0..n {
                let g = (chunk + i) * block;
                let relative = at + data.len() as u64 - base;
                let zip = p.kind == Kind::Smart || !overflow && !rng.chance(raw_rate, 4);
                let empty = guest.size > 1 << 20 && g + block <= guest.size && guest.is_zero(g, block);
                let known = empty && zip && zero.is_some();
                let content = if known && guest.size > 1 << 30 { Vec::new() } else { guest.slice(g, block) };
                let packed = match (&zero, zip) {
                    (Some(v), true) if empty && (content.is_empty() || !rng.chance(1, 16)) => v.clone(),
                    (_, true) => pack::zlib(rng, &content),
                    _ => Vec::new(),
                };
                let packed = if empty && zip && guest.size > 1 << 30 && zero.is_none() {
                    // the smallest of some
                    (0..12).map(|_| pack::zlib(rng, &content)).min_by_key(|v| v.len()).unwrap()
                } else {
                    packed
                };
                if empty && zip {
                    zero = Some(packed.clone());
                }
                let zip = zip && (p.kind == Kind::Smart || content.is_empty() || packed.len() < content.len() || rng.chance(1, 8)) && packed.len() as u64 <= block * 2;
                let mut e = relative as u32;
                let length = if zip { packed.len() } else { content.len() + 4 } as u64;
                let guard = if zip { Guard::Always } else { Guard::Adler };
                shield::note(if zip { "compressed chunk" } else { "chunk" }, w.number, at + data.len() as u64, length, guard);
                if zip {
                    data.extend_from_slice(&packed);
                    e |= 0x8000_0000;
                } else {
                    data.extend_from_slice(&content);
                    let sum = pack::adler32(&content);
                    data.extend_from_slice(&sum.to_le_bytes());
                }
                entries.extend_from_slice(&e.to_le_bytes());
                // The chunks after the one that crosses 2 GiB are stored uncompressed.
                if at + data.len() as u64 - base > i32::MAX as u64 {
                    overflow = true;
                }
                if i == 0 || i + 1 == n {
                    hot.push(g);
                    hot.push((g + block).min(guest.size));
                }
            }
            chunk += n;
            let mut table = vec![0u8; 24];
            put32(&mut table, 0, n as u32);
            put64(&mut table, 8, base);
            let c = pack::adler32(&table[..20]);
            put32(&mut table, 20, c);
            table.extend_from_slice(&entries);
            if p.kind != Kind::Smart {
                table.extend_from_slice(&pack::adler32(&entries).to_le_bytes());
            }
            let after = if p.kind == Kind::EnCase { 76 + data.len() as u64 } else { 0 };
            w.note("table header", after + 76, 24, Guard::Adler);
            if p.kind != Kind::Smart {
                w.note("table entries", after + 100, n * 4 + 4, Guard::Adler);
            }
            match p.kind {
                Kind::EnCase => {
                    w.section("sectors", &data, false);
                    w.section("table", &table, false);
                    w.section("table2", &table, false);
                }
                _ => {
                    table.extend_from_slice(&data);
                    w.section("table", &table, false);
                }
            }
        }
        let done = chunk == chunks;
        if done {
            if p.kind == Kind::EnCase {
                if number == 1 || rng.chance(1, 2) {
                    w.note("data", 76, volume.len() as u64, Guard::Adler);
                    w.section("data", &volume, false);
                }
                if rng.chance(1, 3) {
                    let n = rng.range(1, 4);
                    let mut e = vec![0u8; 520];
                    put32(&mut e, 0, n as u32);
                    let c = pack::adler32(&e[..516]);
                    put32(&mut e, 516, c);
                    let b = rng.bytes(n as usize * 8);
                    e.extend_from_slice(&b);
                    e.extend_from_slice(&pack::adler32(&b).to_le_bytes());
                    w.note("error2", 76, 520, Guard::Adler);
                    w.note("error2", 596, n * 8 + 4, Guard::Adler);
                    w.section("error2", &e, false);
                }
                if rng.chance(1, 2) {
                    let mut d = digest.clone();
                    d.resize(76, 0);
                    let c = pack::adler32(&d);
                    d.extend_from_slice(&c.to_le_bytes());
                    w.note("digest", 76, 80, Guard::Adler);
                    w.section("digest", &d, false);
                }
            }
            if rng.chance(1, 5) {
                let x = compressible(rng, 100);
                w.section("xheader", &x, false);
            }
            let mut h = digest[..16].to_vec();
            h.resize(32, 0);
            let c = pack::adler32(&h);
            h.extend_from_slice(&c.to_le_bytes());
            w.note("hash", 76, 36, Guard::Adler);
            w.section("hash", &h, false);
        }
        w.header(if done { "done" } else { "next" }, 0, zero_ends);
        files.push((format!("{stem}.{}", extension(p.kind, lower, number)), w.f));
        if done {
            break;
        }
        hot.push(chunk * block);
        number += 1;
    }
    let main = files[0].0.clone();
    let n2 = main.clone();
    let size = guest.size;
    Image {
        streams: None,
        guest,
        files,
        main,
        hot: pick_hot(rng, hot),
        open: Box::new(move |prefix| {
            let r = crate::stream::resolver(prefix);
            let mut image = EwfImage::new();
            image.open(&r, &PathComponent::from(n2.as_str()))?;
            if image.md5_hash[..] != digest[..16] {
                return Err(super::wrong("stored MD5 not exposed".to_string()));
            }
            if image.media_size != size {
                return Err(super::wrong(format!("media size {}, expected {size}", image.media_size)));
            }
            let s: DataStreamReference = Arc::new(RwLock::new(image));
            Ok(s)
        }),
    }
}
