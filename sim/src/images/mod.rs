//! Builders of storage images: each writes, independently of the code under test, the on-disk
//! structures of a format that store a given sequence of bytes (the guest).

pub mod ewf;
pub mod ext;
pub mod fat;
pub mod fs;
pub mod nest;
pub mod ntfs;
pub mod pack;
pub mod partitions;
pub mod qcow;
pub mod shield;
pub mod sparsebundle;
pub mod sparseimage;
pub mod udif;
pub mod vhd;
pub mod vhdx;

use keramics_core::{DataStreamReference, ErrorTrace};

use crate::data::Data;
use crate::rng::Rng;

pub type Opener = Box<dyn Fn(&str) -> Result<DataStreamReference, ErrorTrace> + Send + Sync>;

/// Opens all streams of an image that share a source.
pub type StreamsOpener = Box<dyn Fn(&str) -> Result<Vec<DataStreamReference>, ErrorTrace> + Send + Sync>;

pub struct Image {
    /// What the image must expose.
    pub guest: Data,
    /// Files, relative to the prefix they are stored under.
    pub files: Vec<(String, Data)>,
    /// Name of the file (or directory) to open.
    pub main: String,
    /// Guest offsets near which the structures change.
    pub hot: Vec<u64>,
    /// Opens the image, of which the files are stored under a prefix.
    pub open: Opener,
    /// Opens all layers or partitions, when there can be more than one.
    pub streams: Option<StreamsOpener>,
}

/// The error of an opener that found other metadata than the builder wrote.
pub fn wrong(text: String) -> ErrorTrace {
    ErrorTrace::new(format!("{WRONG}{text}"))
}

pub const WRONG: &str = "not as written: ";

impl Image {
    pub fn install(&self, prefix: &str) {
        for (name, data) in &self.files {
            crate::env::add_file(&format!("{prefix}{name}"), data.clone());
        }
    }
}

pub fn put16be(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_be_bytes());
}
pub fn put32be(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_be_bytes());
}
pub fn put64be(b: &mut [u8], o: usize, v: u64) {
    b[o..o + 8].copy_from_slice(&v.to_be_bytes());
}
pub fn put16(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_le_bytes());
}
pub fn put32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_le_bytes());
}
pub fn put64(b: &mut [u8], o: usize, v: u64) {
    b[o..o + 8].copy_from_slice(&v.to_le_bytes());
}

/// A guest of which each block is empty, full, partial or compressible.
pub fn random_guest(rng: &mut Rng, size: u64, block: u64) -> Data {
    let mut d = Data::new(size);
    let n = size.div_ceil(block);
    let all = n <= 96;
    let count = if all { n } else { rng.range(8, 64) };
    for i in 0..count {
        let b = if all {
            i
        } else {
            match rng.below(6) {
                0 => 0,
                1 => n - 1,
                _ => rng.below(n),
            }
        };
        fill_block(rng, &mut d, b * block, block.min(size - b * block));
    }
    d
}

/// Content of one block; big blocks only get a few populated places.
pub fn fill_block(rng: &mut Rng, d: &mut Data, off: u64, len: u64) {
    const MAX: u64 = 1 << 15;
    match rng.below(8) {
        0 | 1 => {}
        2 => {
            // a run inside the block
            let a = rng.below(len);
            let n = rng.range(1, (len - a).min(MAX));
            let v = rng.bytes(n as usize);
            d.write(off + a, &v);
        }
        3 => {
            // compressible
            let n = len.min(MAX);
            let v = compressible(rng, n as usize);
            d.write(off, &v);
        }
        4 => {
            let n = len.min(MAX);
            let c = rng.next() as u8;
            d.write(off, &vec![c; n as usize]);
        }
        _ => {
            if len <= MAX {
                let v = rng.bytes(len as usize);
                d.write(off, &v);
            } else {
                let n = rng.range(1, MAX / 4);
                let v = rng.bytes(n as usize);
                d.write(off, &v);
                let v = rng.bytes(n as usize);
                d.write(off + len - n, &v);
                let m = rng.below(len - n);
                let v = rng.bytes(n as usize);
                d.write(off + m, &v);
            }
        }
    }
}

pub fn compressible(rng: &mut Rng, n: usize) -> Vec<u8> {
    let words: Vec<Vec<u8>> = (0..rng.range(2, 12))
        .map(|_| {
            let k = rng.range(1, 24) as usize;
            rng.bytes(k)
        })
        .collect();
    let mut v = Vec::with_capacity(n + 32);
    while v.len() < n {
        if rng.chance(1, 8) {
            let c = rng.next() as u8;
            let k = rng.skewed(300) as usize + 1;
            v.extend(std::iter::repeat_n(c, k));
        } else {
            let i = rng.below(words.len() as u64) as usize;
            v.extend_from_slice(&words[i]);
        }
    }
    v.truncate(n);
    v
}

pub fn is_zero(d: &Data, off: u64, len: u64) -> bool {
    d.is_zero(off, len)
}

/// Keeps a bounded, spread selection of offsets.
pub fn pick_hot(rng: &mut Rng, mut v: Vec<u64>) -> Vec<u64> {
    v.sort_unstable();
    v.dedup();
    if v.len() > 64 {
        rng.shuffle(&mut v);
        v.truncate(64);
        v.sort_unstable();
    }
    v
}

/// Numbers of the blocks to care about: all of a small image, else those that can hold data.
pub fn blocks_of(d: &Data, block: u64, all_below: u64) -> Vec<u64> {
    let n = d.size.div_ceil(block);
    if n <= all_below {
        return (0..n).collect();
    }
    let mut v = vec![0, n - 1];
    for p in d.populated() {
        v.extend(p / block..=(p + 4095).min(d.size - 1) / block);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Reversed CRC-32 of a buffer.
pub fn crc32(poly: u32, data: &[u8]) -> u32 {
    let mut t = [0u32; 256];
    for (i, e) in t.iter_mut().enumerate() {
        let mut c = i as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { poly ^ (c >> 1) } else { c >> 1 };
        }
        *e = c;
    }
    let mut c = !0u32;
    for b in data {
        c = t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}
