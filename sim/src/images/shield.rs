//! Which stored bytes a checksum protects, noted by the builders for the damage of C20.

use std::cell::RefCell;

use super::{crc32, pack, put16, put32};
use crate::data::Data;

const CASTAGNOLI: u32 = 0x82f6_3b78;

pub enum Guard {
    /// Adler-32 of the other bytes in the last four.
    Adler,
    /// A compressed stream with a trailer, or a CRC-32 that is checked whatever the bytes are.
    Always,
    /// CRC-32 at offset 16.
    GptHeader,
    /// CRC-32 in the header at this offset.
    GptEntries { header: u64 },
    /// CRC-32C at offset 4; zero is no checksum.
    Vhdx,
    /// CRC-32C at offset 1020, when the features say so.
    ExtSuperblock,
    ExtDescriptor { seed: u32, group: u32 },
    ExtInode { seed: u32, inode: u32 },
}

fn header_sum(data: &mut Data, at: u64) {
    let mut v = data.slice(at, 92);
    put32(&mut v, 16, 0);
    let c = crc32(0xedb8_8320, &v);
    put32(&mut v, 16, c);
    data.write(at, &v);
}

impl Shield {
    /// Makes the checksum match what is stored.
    pub fn repair(&self, data: &mut Data) {
        if self.at + self.len > data.size {
            return;
        }
        let mut b = data.slice(self.at, self.len);
        match &self.guard {
            Guard::Always => return,
            Guard::Adler => {
                let n = b.len() - 4;
                let c = pack::adler32(&b[..n]);
                put32(&mut b, n, c);
            }
            Guard::GptHeader => return header_sum(data, self.at),
            Guard::GptEntries { header } => {
                let c = crc32(0xedb8_8320, &b);
                data.write(header + 88, &c.to_le_bytes());
                return header_sum(data, *header);
            }
            Guard::Vhdx => {
                put32(&mut b, 4, 0);
                let c = crc32(CASTAGNOLI, &b);
                put32(&mut b, 4, c);
            }
            Guard::ExtSuperblock => {
                let c = crc32c(!0, &b[..1020]);
                put32(&mut b, 1020, c);
            }
            Guard::ExtDescriptor { seed, group } => {
                put16(&mut b, 30, 0);
                let c = crc32c(crc32c(*seed, &group.to_le_bytes()), &b);
                put16(&mut b, 30, c as u16);
            }
            Guard::ExtInode { seed, inode } => {
                put16(&mut b, 124, 0);
                let upper = b.len() > 131 && u16at(&b, 128) >= 4;
                if upper {
                    put16(&mut b, 130, 0);
                }
                let s = crc32c(crc32c(*seed, &inode.to_le_bytes()), &b[100..104]);
                let c = crc32c(s, &b);
                put16(&mut b, 124, c as u16);
                if upper {
                    put16(&mut b, 130, (c >> 16) as u16);
                }
            }
        }
        data.write(self.at, &b);
    }
}

pub struct Shield {
    pub label: &'static str,
    /// Index of the file.
    pub file: usize,
    pub at: u64,
    pub len: u64,
    pub guard: Guard,
}

fn crc32c(seed: u32, data: &[u8]) -> u32 {
    let mut crc = seed;
    for b in data {
        crc ^= *b as u32;
        for _ in 0..8 {
            crc = if crc & 1 == 1 { (crc >> 1) ^ CASTAGNOLI } else { crc >> 1 };
        }
    }
    crc
}

fn u16at(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap())
}

fn u32at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}

impl Guard {
    /// Whether these bytes can be taken for good ones, by a checksum that matches or is not there.
    pub fn passes(&self, b: &[u8]) -> bool {
        match self {
            Guard::Adler => {
                let n = b.len() - 4;
                pack::adler32(&b[..n]) == u32at(b, n)
            }
            Guard::Always | Guard::GptHeader | Guard::GptEntries { .. } => false,
            Guard::Vhdx => {
                let stored = u32at(b, 4);
                let mut v = b.to_vec();
                v[4..8].fill(0);
                stored == 0 || crc32(CASTAGNOLI, &v) == stored
            }
            Guard::ExtSuperblock => {
                let stored = u32at(b, 1020);
                u32at(b, 76) == 0 || u32at(b, 100) & 0x400 == 0 || stored == 0 || crc32c(!0, &b[..1020]) == stored
            }
            Guard::ExtDescriptor { seed, group } => {
                let stored = u16at(b, 30);
                let mut v = b.to_vec();
                v[30..32].fill(0);
                stored == 0 || crc32c(crc32c(*seed, &group.to_le_bytes()), &v) as u16 == stored
            }
            Guard::ExtInode { seed, inode } => {
                let stored = u16at(b, 124);
                let mut v = b.to_vec();
                v[124..126].fill(0);
                let s = crc32c(crc32c(*seed, &inode.to_le_bytes()), &b[100..104]);
                let mut good = stored == 0 || crc32c(s, &v) as u16 == stored;
                if v.len() > 131 {
                    v[130..132].fill(0);
                    good |= crc32c(s, &v) as u16 == stored;
                }
                good
            }
        }
    }
}

thread_local! {
    static NOTES: RefCell<Option<Vec<Shield>>> = const { RefCell::new(None) };
}

pub fn note(label: &'static str, file: usize, at: u64, len: u64, guard: Guard) {
    NOTES.with(|n| {
        if let Some(v) = n.borrow_mut().as_mut() {
            v.push(Shield { label, file, at, len, guard });
        }
    });
}

/// What the builders note while `build` runs.
pub fn collect<T>(build: impl FnOnce() -> T) -> (T, Vec<Shield>) {
    NOTES.with(|n| *n.borrow_mut() = Some(Vec::new()));
    let t = build();
    (t, NOTES.with(|n| n.borrow_mut().take()).unwrap_or_default())
}
