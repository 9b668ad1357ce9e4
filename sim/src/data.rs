//! Sparse byte container used for simulated files and for reference models.

use std::collections::BTreeMap;

const PAGE: u64 = 4096;

#[derive(Clone, Default)]
pub struct Data {
    pub size: u64,
    pages: BTreeMap<u64, Box<[u8; PAGE as usize]>>,
}

impl Data {
    pub fn new(size: u64) -> Self {
        Data {
            size,
            pages: BTreeMap::new(),
        }
    }
    pub fn from_vec(v: &[u8]) -> Self {
        let mut d = Data::new(v.len() as u64);
        d.write(0, v);
        d
    }
    /// Writes, growing the size if needed.
    pub fn write(&mut self, off: u64, buf: &[u8]) {
        let mut o = off;
        let mut i = 0usize;
        while i < buf.len() {
            let page = o / PAGE;
            let po = (o % PAGE) as usize;
            let n = (PAGE as usize - po).min(buf.len() - i);
            let part = &buf[i..i + n];
            if let Some(p) = self.pages.get_mut(&page) {
                p[po..po + n].copy_from_slice(part);
            } else if part.iter().any(|b| *b != 0) {
                let mut p = Box::new([0u8; PAGE as usize]);
                p[po..po + n].copy_from_slice(part);
                self.pages.insert(page, p);
            }
            o += n as u64;
            i += n;
        }
        if off + buf.len() as u64 > self.size {
            self.size = off + buf.len() as u64;
        }
    }
    /// Reads raw bytes (zero where nothing was written); caller bounds to size.
    pub fn read(&self, off: u64, buf: &mut [u8]) {
        let mut o = off;
        let mut i = 0usize;
        while i < buf.len() {
            let page = o / PAGE;
            let po = (o % PAGE) as usize;
            let n = (PAGE as usize - po).min(buf.len() - i);
            match self.pages.get(&page) {
                Some(p) => buf[i..i + n].copy_from_slice(&p[po..po + n]),
                None => buf[i..i + n].fill(0),
            }
            o += n as u64;
            i += n;
        }
    }
    /// Reads up to len bytes bounded by size.
    pub fn slice(&self, off: u64, len: u64) -> Vec<u8> {
        if off >= self.size {
            return Vec::new();
        }
        let n = len.min(self.size - off) as usize;
        let mut v = vec![0u8; n];
        self.read(off, &mut v);
        v
    }
    pub fn is_zero(&self, off: u64, len: u64) -> bool {
        if len == 0 {
            return true;
        }
        let end = off + len;
        for (k, p) in self.pages.range(off / PAGE..end.div_ceil(PAGE)) {
            let po = k * PAGE;
            let a = off.saturating_sub(po).min(PAGE) as usize;
            let b = (end - po).min(PAGE) as usize;
            if p[a..b].iter().any(|x| *x != 0) {
                return false;
            }
        }
        true
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.slice(0, self.size)
    }
    pub fn truncate(&mut self, size: u64) {
        if size < self.size {
            // drop and clear the tail
            let keys: Vec<u64> = self.pages.range(size.div_ceil(PAGE)..).map(|x| *x.0).collect();
            for k in keys {
                self.pages.remove(&k);
            }
            if size % PAGE != 0 {
                if let Some(p) = self.pages.get_mut(&(size / PAGE)) {
                    p[(size % PAGE) as usize..].fill(0);
                }
            }
        }
        self.size = size;
    }
    pub fn append(&mut self, buf: &[u8]) -> u64 {
        let o = self.size;
        self.write(o, buf);
        o
    }
    pub fn pad_to(&mut self, multiple: u64) {
        if self.size % multiple != 0 {
            self.size += multiple - self.size % multiple;
        }
    }
    /// Offsets of populated pages (used to aim corruption at bytes that exist).
    pub fn populated(&self) -> Vec<u64> {
        self.pages.keys().map(|k| k * PAGE).filter(|o| *o < self.size).collect()
    }

    /// The parts of a range that are in existing pages, as offset and length.
    pub fn pages_in(&self, off: u64, len: u64) -> Vec<(u64, u64)> {
        if len == 0 {
            return Vec::new();
        }
        let end = off + len;
        self.pages
            .range(off / PAGE..end.div_ceil(PAGE))
            .map(|(k, _)| {
                let a = (k * PAGE).max(off);
                (a, ((k + 1) * PAGE).min(end) - a)
            })
            .collect()
    }
}
