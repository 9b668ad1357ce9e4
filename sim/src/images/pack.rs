//! Compressors: each writes a valid compressed form of some bytes, choosing at random among the
//! many forms a decompressor has to accept.

use crate::rng::Rng;

/// Bits, least significant first.
#[derive(Default)]
pub struct BitsLe {
    pub out: Vec<u8>,
    acc: u64,
    n: u32,
}

impl BitsLe {
    pub fn put(&mut self, v: u32, n: u32) {
        self.acc |= (v as u64 & ((1u64 << n) - 1)) << self.n;
        self.n += n;
        while self.n >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    /// A Huffman code: most significant bit first.
    pub fn code(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.put(v >> i & 1, 1);
        }
    }
    pub fn align(&mut self) {
        if self.n > 0 {
            self.put(0, 8 - self.n);
        }
    }
}

/// Bits, most significant first.
#[derive(Default)]
pub struct BitsBe {
    pub out: Vec<u8>,
    acc: u64,
    n: u32,
}

impl BitsBe {
    pub fn put(&mut self, v: u32, n: u32) {
        self.acc = self.acc << n | (v as u64 & ((1u64 << n) - 1));
        self.n += n;
        while self.n >= 8 {
            self.out.push((self.acc >> (self.n - 8)) as u8);
            self.n -= 8;
        }
        self.acc &= (1 << self.n) - 1;
    }
    pub fn align(&mut self) {
        if self.n > 0 {
            self.put(0, 8 - self.n);
        }
    }
}

/// Lengths of a Huffman code of at most `limit` bits; complete when two or more symbols are used.
pub fn code_lengths(freqs: &[u32], limit: u32) -> Vec<u8> {
    let mut f: Vec<u64> = freqs.iter().map(|x| *x as u64).collect();
    loop {
        let used: Vec<usize> = (0..f.len()).filter(|i| f[*i] > 0).collect();
        let mut len = vec![0u8; f.len()];
        if used.len() == 1 {
            len[used[0]] = 1;
        }
        if used.len() < 2 {
            return len;
        }
        // nodes: (weight, members)
        let mut heap: Vec<(u64, Vec<usize>)> = used.iter().map(|i| (f[*i], vec![*i])).collect();
        while heap.len() > 1 {
            heap.sort_by(|a, b| b.0.cmp(&a.0));
            let a = heap.pop().unwrap();
            let mut b = heap.pop().unwrap();
            b.0 += a.0;
            b.1.extend(a.1);
            for i in &b.1 {
                len[*i] += 1;
            }
            heap.push(b);
        }
        if len.iter().all(|l| *l as u32 <= limit) {
            return len;
        }
        for x in f.iter_mut().filter(|x| **x > 0) {
            *x = *x / 2 + 1;
        }
    }
}

/// Canonical codes.
pub fn codes(len: &[u8]) -> Vec<u32> {
    let mut out = vec![0; len.len()];
    let mut code = 0u32;
    for l in 1..=32u8 {
        for (i, x) in len.iter().enumerate() {
            if *x == l {
                out[i] = code;
                code += 1;
            }
        }
        code <<= 1;
    }
    out
}

#[derive(Clone, Copy, Debug)]
pub enum Token {
    Literal(u8),
    Match { len: usize, dist: usize },
}

/// Random parse into literals and matches.
pub fn tokens(rng: &mut Rng, data: &[u8], window: usize, min: usize, max: usize) -> Vec<Token> {
    let mut out = Vec::new();
    let mut last: std::collections::HashMap<[u8; 3], Vec<usize>> = Default::default();
    let eager = rng.range(0, 8);
    let mut i = 0;
    while i < data.len() {
        let mut step = 1;
        let key = if i + 3 <= data.len() { Some([data[i], data[i + 1], data[i + 2]]) } else { None };
        let mut tok = Token::Literal(data[i]);
        if let Some(k) = key {
            if rng.below(8) < eager {
                if let Some(c) = last.get(&k) {
                    let p = if rng.chance(2, 3) { *c.last().unwrap() } else { *rng.pick(c) };
                    if i - p <= window {
                        let mut n = 0;
                        let cap = max.min(data.len() - i);
                        while n < cap && data[p + n] == data[i + n] {
                            n += 1;
                        }
                        if n > min && rng.chance(1, 6) {
                            n = rng.range(min as u64, n as u64) as usize;
                        }
                        if n >= min {
                            tok = Token::Match { len: n, dist: i - p };
                            step = n;
                        }
                    }
                }
            }
        }
        out.push(tok);
        for j in i..(i + step).min(i + 64) {
            if j + 3 <= data.len() {
                let v = last.entry([data[j], data[j + 1], data[j + 2]]).or_default();
                if v.len() > 16 {
                    v.remove(0);
                }
                v.push(j);
            }
        }
        i += step;
    }
    out
}

const LEN_BASE: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
const LEN_BITS: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
const DIST_BASE: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577,
];
const DIST_BITS: [u8; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];

/// Raw DEFLATE (RFC 1951).
pub fn deflate(rng: &mut Rng, data: &[u8], window: usize) -> Vec<u8> {
    let mut b = BitsLe::default();
    // blocks
    let mut cuts = vec![0, data.len()];
    for _ in 0..rng.skewed(4) {
        cuts.push(rng.below(data.len() as u64 + 1) as usize);
    }
    cuts.sort();
    let toks = tokens(rng, data, window, 3, 258);
    let mut ti = 0;
    let mut pos = 0;
    for (k, w) in cuts.windows(2).enumerate() {
        let last = k + 2 == cuts.len();
        // the block ends at the first token boundary at or after the cut
        let start = ti;
        let from = pos;
        while ti < toks.len() && (pos < w[1] || last) {
            pos += match toks[ti] {
                Token::Literal(_) => 1,
                Token::Match { len, .. } => len,
            };
            ti += 1;
        }
        block(rng, &mut b, &data[from..pos], &toks[start..ti], last);
    }
    b.align();
    b.out
}

fn block(rng: &mut Rng, b: &mut BitsLe, raw: &[u8], toks: &[Token], last: bool) {
    let kind = match rng.below(6) {
        0 => 0,
        1 | 2 => 1,
        _ => 2,
    };
    if kind == 0 {
        let chunks: Vec<&[u8]> = if raw.is_empty() { vec![raw] } else { raw.chunks(65535).collect() };
        for (i, c) in chunks.iter().enumerate() {
            b.put((last && i + 1 == chunks.len()) as u32, 1);
            b.put(0, 2);
            b.align();
            b.put(c.len() as u32, 16);
            b.put(!(c.len() as u32) & 0xffff, 16);
            for x in *c {
                b.put(*x as u32, 8);
            }
        }
        return;
    }
    b.put(last as u32, 1);
    b.put(kind, 2);
    let lsym = |n: usize| {
        let mut s = LEN_BASE.iter().rposition(|x| *x as usize <= n).unwrap();
        if n == 258 {
            s = 28;
        }
        (s, (n - LEN_BASE[s] as usize) as u32, LEN_BITS[s] as u32)
    };
    let dsym = |n: usize| {
        let s = DIST_BASE.iter().rposition(|x| *x as usize <= n).unwrap();
        (s, (n - DIST_BASE[s] as usize) as u32, DIST_BITS[s] as u32)
    };
    let (llen, dlen) = if kind == 1 {
        let l: Vec<u8> = (0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect();
        (l, vec![5u8; 30])
    } else {
        let mut lf = vec![0u32; 286];
        let mut df = vec![0u32; 30];
        lf[256] = 1;
        for t in toks {
            match t {
                Token::Literal(x) => lf[*x as usize] += 1,
                Token::Match { len, dist } => {
                    lf[257 + lsym(*len).0] += 1;
                    df[dsym(*dist).0] += 1;
                }
            }
        }
        // unused symbols may have codes
        if rng.chance(1, 3) {
            for _ in 0..rng.range(1, 40) {
                lf[rng.below(286) as usize] += 1;
                df[rng.below(30) as usize] += 1;
            }
        }
        let mut l = code_lengths(&lf, 15);
        if l.iter().filter(|x| **x > 0).count() < 2 {
            lf[0] += 1;
            l = code_lengths(&lf, 15);
        }
        let mut d = code_lengths(&df, 15);
        if d.iter().all(|x| *x == 0) && rng.chance(1, 2) {
            d[0] = 1;
        }
        (l, d)
    };
    if kind == 2 {
        let hl = l_used(&llen).max(257);
        let hd = l_used(&dlen).max(1);
        let hd = if rng.chance(1, 8) { 30 } else { hd };
        let mut seq: Vec<u8> = llen[..hl].to_vec();
        seq.extend(&dlen[..hd]);
        // run lengths: (symbol, extra, bits)
        let mut rl: Vec<(usize, u32, u32)> = Vec::new();
        let mut i = 0;
        while i < seq.len() {
            let mut n = 1;
            while i + n < seq.len() && seq[i + n] == seq[i] {
                n += 1;
            }
            if seq[i] == 0 && n >= 3 && !rng.chance(1, 16) {
                let n = n.min(138);
                if n >= 11 {
                    rl.push((18, n as u32 - 11, 7));
                } else {
                    rl.push((17, n as u32 - 3, 3));
                }
                i += n;
            } else if i > 0 && seq[i] == seq[i - 1] && n >= 3 && !rng.chance(1, 16) {
                let n = n.min(6);
                rl.push((16, n as u32 - 3, 2));
                i += n;
            } else {
                rl.push((seq[i] as usize, 0, 0));
                i += 1;
            }
        }
        let mut cf = vec![0u32; 19];
        for r in &rl {
            cf[r.0] += 1;
        }
        if cf.iter().filter(|x| **x > 0).count() < 2 {
            cf[0] += 1;
            cf[1] += 1;
        }
        let clen = code_lengths(&cf, 7);
        let cc = codes(&clen);
        const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
        let hc = (ORDER.iter().rposition(|s| clen[*s] > 0).unwrap() + 1).max(4);
        b.put(hl as u32 - 257, 5);
        b.put(hd as u32 - 1, 5);
        b.put(hc as u32 - 4, 4);
        for s in &ORDER[..hc] {
            b.put(clen[*s] as u32, 3);
        }
        for (s, e, n) in rl {
            b.code(cc[s], clen[s] as u32);
            b.put(e, n);
        }
    }
    let lc = codes(&llen);
    let dc = codes(&dlen);
    for t in toks {
        match t {
            Token::Literal(x) => b.code(lc[*x as usize], llen[*x as usize] as u32),
            Token::Match { len, dist } => {
                let (s, e, n) = lsym(*len);
                b.code(lc[257 + s], llen[257 + s] as u32);
                b.put(e, n);
                let (s, e, n) = dsym(*dist);
                b.code(dc[s], dlen[s] as u32);
                b.put(e, n);
            }
        }
    }
    b.code(lc[256], llen[256] as u32);
}

fn l_used(l: &[u8]) -> usize {
    l.iter().rposition(|x| *x > 0).map_or(0, |i| i + 1)
}

pub fn adler32(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}

/// ZLIB (RFC 1950).
pub fn zlib(rng: &mut Rng, data: &[u8]) -> Vec<u8> {
    let bits = rng.range(8, 15).max(if data.len() > 256 { 9 } else { 8 });
    let cmf = ((bits - 8) << 4 | 8) as u32;
    let level = rng.below(4) as u32;
    let mut flg = level << 6;
    flg += 31 - (cmf * 256 + flg) % 31;
    let mut out = vec![cmf as u8, flg as u8];
    out.extend(deflate(rng, data, 1 << bits));
    out.extend(adler32(data).to_be_bytes());
    out
}

/// Apple Data Compression.
pub fn adc(rng: &mut Rng, data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut lits: Vec<u8> = Vec::new();
    fn flush(rng: &mut Rng, out: &mut Vec<u8>, lits: &mut Vec<u8>) {
        let mut at = 0;
        while at < lits.len() {
            let mut n = (lits.len() - at).min(128);
            if rng.chance(1, 8) {
                n = rng.range(1, n as u64) as usize;
            }
            out.push(0x80 | (n - 1) as u8);
            out.extend(&lits[at..at + n]);
            at += n;
        }
        lits.clear();
    }
    let mut pos = 0;
    for t in tokens(rng, data, 65536, 3, 67) {
        match t {
            Token::Literal(x) => {
                lits.push(x);
                pos += 1;
            }
            Token::Match { len, dist } => {
                let p = pos;
                pos += len;
                let short = len <= 18 && dist <= 1024;
                let long = len >= 4;
                if !short && !long {
                    // no form: as literals
                    lits.extend_from_slice(&data[p..p + len]);
                    continue;
                }
                flush(rng, &mut out, &mut lits);
                let d = dist - 1;
                if short && (!long || rng.chance(3, 4)) {
                    out.push(((len - 3) << 2) as u8 | (d >> 8) as u8);
                    out.push(d as u8);
                } else {
                    out.push(0x40 | (len - 4) as u8);
                    out.extend((d as u16).to_be_bytes());
                }
            }
        }
    }
    flush(rng, &mut out, &mut lits);
    out
}

/// LZVN commands for one block, with the end of stream marker.
pub fn lzvn(rng: &mut Rng, data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let toks = tokens(rng, data, 65535, 3, 271);
    let mut pos = 0; // start of the pending literals
    let mut lit = 0;
    let mut prev = 0;
    let literal_run = |out: &mut Vec<u8>, rng: &mut Rng, at: usize, n: usize| {
        let mut at = at;
        let mut n = n;
        while n > 0 {
            let mut m = n.min(271);
            if rng.chance(1, 8) {
                m = rng.range(1, m as u64) as usize;
            }
            if m < 16 {
                out.push(0xe0 | m as u8);
            } else {
                out.push(0xe0);
                out.push((m - 16) as u8);
            }
            out.extend(&data[at..at + m]);
            at += m;
            n -= m;
        }
    };
    for t in toks {
        let (len, dist) = match t {
            Token::Literal(_) => {
                lit += 1;
                continue;
            }
            Token::Match { len, dist } => (len, dist),
        };
        if rng.chance(1, 32) {
            out.push(*rng.pick(&[0x0e, 0x16]));
        }
        // literals in front of the command, up to three with it
        let with = if rng.chance(1, 8) { 0 } else { lit.min(3) };
        literal_run(&mut out, rng, pos, lit - with);
        pos += lit - with;
        let lits = &data[pos..pos + with];
        let cap = [8usize, 6, 4, 2][with]; // lengths 3.. of the short forms
        let mut len = len;
        let dist_forms: Vec<u8> = {
            let mut v = vec![2u8];
            if dist < 1536 {
                v.extend([0, 0, 0]);
            }
            if dist < 16384 {
                v.extend([1, 1]);
            }
            if dist == prev {
                v.extend([3, 3]);
            }
            v
        };
        let form = *rng.pick(&dist_forms);
        let first;
        match form {
            1 => {
                first = len.min(34);
                let m = first - 3;
                out.push(0xa0 | (with << 3) as u8 | (m >> 2) as u8);
                out.push(((dist & 0x3f) << 2) as u8 | (m & 3) as u8);
                out.push((dist >> 6) as u8);
                out.extend(lits);
            }
            3 if with == 0 => {
                // repeated by a match command
                first = 0;
            }
            _ => {
                first = len.min(cap + 2);
                let m = first - 3;
                let low = match form {
                    0 => dist >> 8,
                    2 => 7,
                    _ => 6,
                };
                out.push((with << 6) as u8 | (m << 3) as u8 | low as u8);
                match form {
                    0 => out.push(dist as u8),
                    2 => out.extend((dist as u16).to_le_bytes()),
                    _ => {}
                }
                out.extend(lits);
            }
        }
        prev = dist;
        pos += with + len;
        lit = 0;
        len -= first;
        while len > 0 {
            let mut m = len.min(271);
            if rng.chance(1, 8) {
                m = rng.range(1, m as u64) as usize;
            }
            if m < 16 {
                out.push(0xf0 | m as u8);
            } else {
                out.push(0xf0);
                out.push((m - 16) as u8);
            }
            len -= m;
        }
    }
    literal_run(&mut out, rng, pos, lit);
    out.extend([6, 0, 0, 0, 0, 0, 0, 0]);
    out
}

const L_BITS: [u8; 20] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 3, 5, 8];
const L_BASE: [u32; 20] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 28, 60];
const M_BITS: [u8; 20] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 5, 8, 11];
const M_BASE: [u32; 20] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 56, 312];

fn d_tables() -> (Vec<u8>, Vec<u32>) {
    let bits: Vec<u8> = (0..64).map(|i| (i / 4) as u8).collect();
    let mut base = vec![0u32];
    for i in 1..64 {
        let p = base[i - 1];
        base.push(p + (1 << bits[i - 1]));
    }
    (bits, base)
}

/// Frequencies that add up to the number of states, at least one for each used symbol.
fn normalize(rng: &mut Rng, counts: &[u32], states: u32) -> Vec<u32> {
    let total: u32 = counts.iter().sum::<u32>().max(1);
    let mut f: Vec<u32> = counts.iter().map(|c| if *c == 0 { 0 } else { (c * states / total).max(1) }).collect();
    if f.iter().all(|x| *x == 0) {
        f[0] = 1;
    }
    loop {
        let s: u32 = f.iter().sum();
        if s == states {
            return f;
        }
        if s < states {
            let i = rng.below(f.len() as u64) as usize;
            if f[i] > 0 || rng.chance(1, 64) {
                let room = states - s;
                f[i] += if rng.chance(1, 2) { 1 } else { rng.range(1, room as u64) as u32 };
            }
        } else {
            let m = (0..f.len()).max_by_key(|i| f[*i]).unwrap();
            f[m] -= 1;
        }
    }
}

struct Fse {
    t: Vec<(i32, u32, i32, i32)>, // s0, k, delta0, delta1
    state: i32,
}

impl Fse {
    fn new(rng: &mut Rng, f: &[u32], states: u32) -> Fse {
        let mut offset = 0i32;
        let n = states as i32;
        let t = f
            .iter()
            .map(|f| {
                if *f == 0 {
                    return (0, 0, 0, 0);
                }
                let k = f.leading_zeros() - states.leading_zeros();
                let f = *f as i32;
                let r = ((f << k) - n, k, offset - f + (n >> k), offset - f + if k > 0 { n >> (k - 1) } else { 2 * n });
                offset += f;
                r
            })
            .collect();
        Fse { t, state: rng.below(states as u64) as i32 }
    }
    fn put(&mut self, b: &mut BitsLe, symbol: usize) {
        let (s0, k, d0, d1) = self.t[symbol];
        let hi = self.state >= s0;
        let n = if hi { k } else { k - 1 };
        b.put(self.state as u32 & ((1u32 << n) - 1), n);
        self.state = if hi { d0 } else { d1 } + (self.state >> n);
    }
}

impl BitsLe {
    /// Number of bits that the last byte lacks.
    fn finish(&mut self) -> u32 {
        let pad = (8 - self.n) % 8;
        self.align();
        pad
    }
}

/// LZFSE: uncompressed, LZVN and entropy coded (version 2) blocks.
pub fn lzfse(rng: &mut Rng, data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut at = 0;
    while at < data.len() {
        let left = data.len() - at;
        let n = match rng.below(4) {
            0 => rng.range(1, left as u64) as usize,
            _ => left,
        };
        match rng.below(6) {
            0 => {
                out.extend(b"bvx-");
                out.extend((n as u32).to_le_bytes());
                out.extend(&data[at..at + n]);
                at += n;
            }
            1 => {
                // matches only reach back to the start of the block
                let z = lzvn(rng, &data[at..at + n]);
                out.extend(b"bvxn");
                out.extend((n as u32).to_le_bytes());
                out.extend((z.len() as u32).to_le_bytes());
                out.extend(z);
                at += n;
            }
            _ => at += fse_block(rng, data, at, n, &mut out),
        }
    }
    out.extend(b"bvx$");
    out
}

/// Writes a version 2 block of up to n bytes; returns its size.
fn fse_block(rng: &mut Rng, data: &[u8], at: usize, n: usize, out: &mut Vec<u8>) -> usize {
    let toks = tokens(rng, &data[at..at + n], 262_139, 3, 100_000);
    let mut lits: Vec<u8> = Vec::new();
    let mut lmd: Vec<(u32, u32, u32)> = Vec::new();
    let mut pos = at;
    let mut l = 0u32;
    let mut prev = 0;
    let max_lits = 30_000;
    let mut split = |lmd: &mut Vec<(u32, u32, u32)>, rng: &mut Rng, mut l: u32, mut m: u32, d: u32| {
        while l > 315 {
            let x = 315;
            let dd = if prev == 0 { 1 } else if rng.chance(1, 2) { 0 } else { prev };
            if prev == 0 {
                prev = 1;
            }
            lmd.push((x, 0, dd));
            l -= x;
        }
        loop {
            let x = m.min(2359);
            let dd = if m == 0 && d == 0 {
                if prev == 0 { 1 } else { 0 }
            } else if d == prev && rng.chance(3, 4) {
                0
            } else {
                d
            };
            if dd != 0 {
                prev = dd;
            }
            lmd.push((l, x, dd));
            l = 0;
            m -= x;
            if m == 0 {
                break;
            }
        }
    };
    for t in &toks {
        if lits.len() + 1 > max_lits || lmd.len() > 9_000 {
            break;
        }
        match t {
            Token::Literal(x) => {
                lits.push(*x);
                l += 1;
                pos += 1;
            }
            Token::Match { len, dist } => {
                // now and then a match with data of an earlier block
                split(&mut lmd, rng, l, *len as u32, *dist as u32);
                l = 0;
                pos += len;
            }
        }
    }
    if l > 0 {
        split(&mut lmd, rng, l, 0, 0);
    }
    let raw = pos - at;
    while lits.len() % 4 != 0 {
        lits.push(0);
    }
    let (d_bits, d_base) = d_tables();
    let sym = |base: &[u32], v: u32| base.iter().rposition(|b| *b <= v).unwrap();
    let mut counts = [vec![0u32; 20], vec![0u32; 20], vec![0u32; 64], vec![0u32; 256]];
    for (l, m, d) in &lmd {
        counts[0][sym(&L_BASE, *l)] += 1;
        counts[1][sym(&M_BASE, *m)] += 1;
        counts[2][sym(&d_base, *d)] += 1;
    }
    for x in &lits {
        counts[3][*x as usize] += 1;
    }
    let states = [64u32, 64, 256, 1024];
    let freqs: Vec<Vec<u32>> = (0..4).map(|i| normalize(rng, &counts[i], states[i])).collect();
    let mut fl: Vec<Fse> = (0..4).map(|_| Fse::new(rng, &freqs[3], 1024)).collect();
    let mut lb = BitsLe::default();
    for c in lits.chunks(4).rev() {
        for j in (0..4).rev() {
            fl[j].put(&mut lb, c[j] as usize);
        }
    }
    let lpad = lb.finish();
    let mut el = Fse::new(rng, &freqs[0], 64);
    let mut em = Fse::new(rng, &freqs[1], 64);
    let mut ed = Fse::new(rng, &freqs[2], 256);
    let mut mb = BitsLe::default();
    for (l, m, d) in lmd.iter().rev() {
        let s = sym(&d_base, *d);
        mb.put(*d - d_base[s], d_bits[s] as u32);
        ed.put(&mut mb, s);
        let s = sym(&M_BASE, *m);
        mb.put(*m - M_BASE[s], M_BITS[s] as u32);
        em.put(&mut mb, s);
        let s = sym(&L_BASE, *l);
        mb.put(*l - L_BASE[s], L_BITS[s] as u32);
        el.put(&mut mb, s);
    }
    let mpad = mb.finish();
    // the decoder reads 8 bytes at a time from the end, so keep something in front
    let mut fb = BitsLe::default();
    for f in freqs.iter().flatten() {
        match f {
            0 => fb.put(0, 2),
            1 => fb.put(2, 2),
            2 => fb.put(1, 3),
            3 => fb.put(5, 3),
            4 => fb.put(3, 5),
            5 => fb.put(11, 5),
            6 => fb.put(19, 5),
            7 => fb.put(27, 5),
            8..=23 => fb.put(7 | (f - 8) << 4, 8),
            _ => fb.put(15 | (f - 24) << 4, 14),
        }
    }
    fb.align();
    if rng.chance(1, 5) {
        out.extend(b"bvx1");
        for v in [raw, lb.out.len() + mb.out.len(), lits.len(), lmd.len(), lb.out.len(), mb.out.len()] {
            out.extend((v as u32).to_le_bytes());
        }
        out.extend((-(lpad as i32)).to_le_bytes());
        for f in &fl {
            out.extend((f.state as u16).to_le_bytes());
        }
        out.extend((-(mpad as i32)).to_le_bytes());
        for s in [el.state, em.state, ed.state] {
            out.extend((s as u16).to_le_bytes());
        }
        for f in freqs.iter().flatten() {
            out.extend((*f as u16).to_le_bytes());
        }
        out.extend(lb.out);
        out.extend(mb.out);
        return raw;
    }
    out.extend(b"bvx2");
    out.extend((raw as u32).to_le_bytes());
    let v1 = lits.len() as u64 | (lb.out.len() as u64) << 20 | (lmd.len() as u64) << 40 | (7 - lpad as u64) << 60;
    let mut v2 = (mb.out.len() as u64) << 40 | (7 - mpad as u64) << 60;
    for (i, s) in fl.iter().enumerate() {
        v2 |= (s.state as u64) << (10 * i);
    }
    let v3 = (32 + fb.out.len()) as u64 | (el.state as u64) << 32 | (em.state as u64) << 42 | (ed.state as u64) << 52;
    for v in [v1, v2, v3] {
        out.extend(v.to_le_bytes());
    }
    out.extend(fb.out);
    out.extend(lb.out);
    out.extend(mb.out);
    raw
}

/// CRC-32 as bzip2 computes it.
fn crc_be(data: &[u8]) -> u32 {
    let mut t = [0u32; 256];
    for (i, e) in t.iter_mut().enumerate() {
        let mut c = (i as u32) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { c << 1 ^ 0x04c1_1db7 } else { c << 1 };
        }
        *e = c;
    }
    !data.iter().fold(!0u32, |c, b| t[((c >> 24) as u8 ^ b) as usize] ^ c << 8)
}

/// bzip2.
pub fn bzip2(rng: &mut Rng, data: &[u8]) -> Vec<u8> {
    let level = rng.range(1, 9) as usize;
    let limit = level * 100_000 - 19;
    let mut b = BitsBe::default();
    for c in [b'B', b'Z', b'h', b'0' + level as u8] {
        b.put(c as u32, 8);
    }
    let mut stream = 0u32;
    let mut at = 0;
    while at < data.len() {
        let want = if rng.chance(1, 4) { rng.range(1, (data.len() - at) as u64) as usize } else { data.len() - at };
        // run lengths
        let mut rle: Vec<u8> = Vec::new();
        let start = at;
        while at < start + want && rle.len() + 5 < limit {
            let mut n = 1;
            while n < 259 && at + n < start + want && data[at + n] == data[at] {
                n += 1;
            }
            rle.extend(std::iter::repeat_n(data[at], n.min(4)));
            if n >= 4 {
                rle.push((n - 4) as u8);
            }
            at += n;
        }
        let crc = crc_be(&data[start..at]);
        stream = stream.rotate_left(1) ^ crc;
        b.put(0x314159, 24);
        b.put(0x265359, 24);
        b.put(crc >> 16, 16);
        b.put(crc & 0xffff, 16);
        b.put(0, 1);
        bz_block(rng, &mut b, &rle);
    }
    b.put(0x177245, 24);
    b.put(0x385090, 24);
    b.put(stream >> 16, 16);
    b.put(stream & 0xffff, 16);
    b.align();
    b.out
}

fn bz_block(rng: &mut Rng, b: &mut BitsBe, s: &[u8]) {
    let n = s.len();
    // rotations, by prefix doubling
    let mut rank: Vec<u32> = s.iter().map(|x| *x as u32).collect();
    let mut order: Vec<u32> = (0..n as u32).collect();
    let mut k = 1;
    order.sort_unstable_by_key(|i| rank[*i as usize]);
    loop {
        let key = |i: u32, rank: &[u32]| (rank[i as usize] as u64) << 32 | rank[(i as usize + k) % n] as u64;
        order.sort_unstable_by_key(|i| key(*i, &rank));
        let mut next = vec![0u32; n];
        let mut r = 0;
        for w in 1..n {
            if key(order[w], &rank) != key(order[w - 1], &rank) {
                r += 1;
            }
            next[order[w] as usize] = r;
        }
        rank = next;
        k *= 2;
        if r as usize + 1 == n || k >= n {
            break;
        }
    }
    let origin = order.iter().position(|i| *i == 0).unwrap();
    let last: Vec<u8> = order.iter().map(|i| s[(*i as usize + n - 1) % n]).collect();
    b.put(origin as u32, 24);
    // symbols in use
    let mut used = [false; 256];
    for x in &last {
        used[*x as usize] = true;
    }
    let mut map = 0u32;
    for g in 0..16 {
        if used[g * 16..g * 16 + 16].iter().any(|u| *u) {
            map |= 0x8000 >> g;
        }
    }
    b.put(map, 16);
    for g in 0..16 {
        if map & (0x8000 >> g) != 0 {
            let m = (0..16).fold(0u32, |m, i| if used[g * 16 + i] { m | 0x8000 >> i } else { m });
            b.put(m, 16);
        }
    }
    // move to front and runs
    let mut mtf: Vec<u8> = (0..=255u8).filter(|x| used[*x as usize]).collect();
    let alpha = mtf.len() + 2;
    let mut syms: Vec<u16> = Vec::new();
    let mut run = 0usize;
    let flush = |syms: &mut Vec<u16>, run: &mut usize| {
        let mut r = *run;
        while r > 0 {
            if r & 1 == 1 {
                syms.push(0);
                r = (r - 1) / 2;
            } else {
                syms.push(1);
                r = (r - 2) / 2;
            }
        }
        *run = 0;
    };
    for x in &last {
        let i = mtf.iter().position(|y| y == x).unwrap();
        if i == 0 {
            run += 1;
            continue;
        }
        flush(&mut syms, &mut run);
        mtf.remove(i);
        mtf.insert(0, *x);
        syms.push(i as u16 + 1);
    }
    flush(&mut syms, &mut run);
    syms.push(alpha as u16 - 1);
    let groups: Vec<&[u16]> = syms.chunks(50).collect();
    let trees = rng.range(2, 6) as usize;
    let sel: Vec<usize> = groups.iter().map(|_| rng.below(trees as u64) as usize).collect();
    let mut freqs = vec![vec![1u32; alpha]; trees];
    for (g, t) in groups.iter().zip(&sel) {
        for x in *g {
            freqs[*t][*x as usize] += 1;
        }
    }
    b.put(trees as u32, 3);
    b.put(sel.len() as u32, 15);
    let mut m: Vec<usize> = (0..trees).collect();
    for t in &sel {
        let i = m.iter().position(|x| x == t).unwrap();
        for _ in 0..i {
            b.put(1, 1);
        }
        b.put(0, 1);
        m.remove(i);
        m.insert(0, *t);
    }
    let lens: Vec<Vec<u8>> = freqs.iter().map(|f| code_lengths(f, 17)).collect();
    for l in &lens {
        let mut cur = l[0];
        if rng.chance(1, 2) {
            cur = (cur as i32 + rng.range(0, 4) as i32 - 2).clamp(1, 17) as u8;
        }
        b.put(cur as u32, 5);
        for x in l {
            while cur < *x {
                b.put(2, 2);
                cur += 1;
            }
            while cur > *x {
                b.put(3, 2);
                cur -= 1;
            }
            b.put(0, 1);
        }
    }
    let code: Vec<Vec<u32>> = lens.iter().map(|l| codes(l)).collect();
    for (g, t) in groups.iter().zip(&sel) {
        for x in *g {
            b.put(code[*t][*x as usize], lens[*t][*x as usize] as u32);
        }
    }
}

/// LZNT1: one compression unit or buffer. The data can be followed by an end marker.
pub fn lznt1(rng: &mut Rng, data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for chunk in data.chunks(4096) {
        let mut body: Vec<u8> = Vec::new();
        let mut items: Vec<Result<u8, (usize, usize)>> = Vec::new();
        let mut pos = 0usize;
        let most = |pos: usize| {
            let mut bits = 12;
            while bits > 4 && pos > 16 << (12 - bits) {
                bits -= 1;
            }
            (1usize << bits) + 2
        };
        for t in tokens(rng, chunk, 4096, 3, 4098) {
            match t {
                Token::Literal(b) => {
                    items.push(Ok(b));
                    pos += 1;
                }
                Token::Match { mut len, dist } => {
                    while len > 0 {
                        let n = len.min(most(pos));
                        if n < 3 {
                            items.push(Ok(chunk[pos]));
                            pos += 1;
                            len -= 1;
                        } else {
                            items.push(Err((n, dist)));
                            pos += n;
                            len -= n;
                        }
                    }
                }
            }
        }
        pos = 0;
        for group in items.chunks(8) {
            let at = body.len();
            body.push(0);
            for (i, x) in group.iter().enumerate() {
                match x {
                    Ok(b) => {
                        body.push(*b);
                        pos += 1;
                    }
                    Err((n, dist)) => {
                        body[at] |= 1 << i;
                        let mut bits = 12;
                        while bits > 4 && pos > 16 << (12 - bits) {
                            bits -= 1;
                        }
                        let v = ((dist - 1) << bits | (n - 3)) as u16;
                        body.extend(v.to_le_bytes());
                        pos += n;
                    }
                }
            }
        }
        if body.len() > 4096 || (body.len() >= chunk.len() && rng.chance(3, 4)) {
            out.extend((0x3000 | (chunk.len() - 1) as u16).to_le_bytes());
            out.extend_from_slice(chunk);
        } else {
            out.extend((0xb000 | (body.len() - 1) as u16).to_le_bytes());
            out.extend(body);
        }
    }
    out
}

/// Bits in 16-bit little-endian words, most significant first.
#[derive(Default)]
struct BitsWords {
    out: Vec<u8>,
    acc: u64,
    n: u32,
}

impl BitsWords {
    fn put(&mut self, v: u32, n: u32) {
        self.acc = self.acc << n | (v as u64 & ((1u64 << n) - 1));
        self.n += n;
        while self.n >= 16 {
            let w = (self.acc >> (self.n - 16)) as u16;
            self.out.extend(w.to_le_bytes());
            self.n -= 16;
        }
        self.acc &= (1 << self.n) - 1;
    }
    /// At least one bit.
    fn align(&mut self) {
        self.put(0, 16 - self.n);
    }
}

const LZX_BASE: [u32; 30] = [
    0, 1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128, 192, 256, 384, 512, 768, 1024, 1536, 2048, 3072, 4096, 6144, 8192, 12288, 16384, 24576,
];

fn lzx_extra(slot: usize) -> u32 {
    if slot < 4 { 0 } else { slot as u32 / 2 - 1 }
}

/// Makes sure that a code is complete.
fn two_used(f: &mut [u32]) {
    let mut i = 0;
    while f.iter().filter(|x| **x > 0).count() < 2 {
        if f[i] == 0 {
            f[i] = 1;
        }
        i += 1;
    }
}

fn lzx_lengths(rng: &mut Rng, b: &mut BitsWords, old: &[u8], new: &[u8]) {
    let delta = |i: usize| (old[i] as i32 - new[i] as i32).rem_euclid(17) as u32;
    let mut items: Vec<(u32, u32, u32, u32)> = Vec::new();
    let mut i = 0;
    let plain = rng.chance(1, 6);
    while i < new.len() {
        let mut run = 1;
        while i + run < new.len() && new[i + run] == new[i] {
            run += 1;
        }
        if !plain && new[i] == 0 && run >= 20 {
            let n = run.min(51);
            items.push((18, n as u32 - 20, 5, 0));
            i += n;
        } else if !plain && new[i] == 0 && run >= 4 {
            let n = run.min(19);
            items.push((17, n as u32 - 4, 4, 0));
            i += n;
        } else if !plain && run >= 4 && rng.chance(3, 4) {
            let n = run.min(5);
            items.push((19, n as u32 - 4, 1, delta(i)));
            i += n;
        } else {
            items.push((delta(i), 0, 0, 0));
            i += 1;
        }
    }
    let mut f = [0u32; 20];
    for x in &items {
        f[x.0 as usize] += 1;
        if x.0 == 19 {
            f[x.3 as usize] += 1;
        }
    }
    two_used(&mut f);
    let len = code_lengths(&f, 15);
    for l in &len {
        b.put(*l as u32, 4);
    }
    let code = codes(&len);
    for x in &items {
        b.put(code[x.0 as usize], len[x.0 as usize] as u32);
        b.put(x.1, x.2);
        if x.0 == 19 {
            b.put(code[x.3 as usize], len[x.3 as usize] as u32);
        }
    }
}

/// LZX with a window of 32 KiB, as in WIM files: one chunk. None: the data has a form on which
/// implementations do not agree.
pub fn lzx(rng: &mut Rng, data: &[u8]) -> Option<Vec<u8>> {
    let n = data.len();
    if n <= 10 || n > 32768 || data[n - 10..n - 5].contains(&0xe8) {
        return None;
    }
    // calls get absolute targets
    let mut d = data.to_vec();
    let mut i = 0;
    while i < n - 6 {
        if d[i] == 0xe8 {
            let v = i32::from_le_bytes([d[i + 1], d[i + 2], d[i + 3], d[i + 4]]);
            let pos = i as i32;
            const SIZE: i32 = 12_000_000;
            if v >= -pos && v < SIZE {
                let a = if v < SIZE - pos { v + pos } else { v - SIZE };
                d[i + 1..i + 5].copy_from_slice(&a.to_le_bytes());
            }
            i += 5;
        } else {
            i += 1;
        }
    }
    let data = d;
    let toks = tokens(rng, &data, 32768 - 3, 2, 257);
    // blocks of tokens
    let mut cuts = vec![0, toks.len()];
    for _ in 0..rng.skewed(4) {
        cuts.push(rng.below(toks.len() as u64 + 1) as usize);
    }
    cuts.sort_unstable();
    cuts.dedup();
    let mut b = BitsWords::default();
    let mut main_old = vec![0u8; 496];
    let mut size_old = vec![0u8; 249];
    let mut recent = [1usize; 3];
    let mut pos = 0usize;
    for w in cuts.windows(2) {
        let part = &toks[w[0]..w[1]];
        let size: usize = part.iter().map(|t| if let Token::Match { len, .. } = t { *len } else { 1 }).sum();
        let kind = *rng.pick(&[1u32, 1, 2, 2, 3]);
        b.put(kind, 3);
        if size == 32768 && rng.chance(7, 8) {
            b.put(1, 1);
        } else {
            b.put(0, 1);
            b.put(size as u32, 16);
        }
        if kind == 3 {
            b.align();
            for r in recent.iter_mut() {
                if rng.chance(1, 4) {
                    *r = rng.range(1, 32768 - 3) as usize;
                }
                b.out.extend((*r as u32).to_le_bytes());
            }
            b.out.extend_from_slice(&data[pos..pos + size]);
            if size % 2 == 1 {
                b.out.push(0);
            }
            pos += size;
            continue;
        }
        // symbols
        let mut items: Vec<(usize, Option<usize>, u32, u32)> = Vec::new();
        for t in part {
            match t {
                Token::Literal(c) => items.push((*c as usize, None, 0, 0)),
                Token::Match { len, dist } => {
                    let known = recent.iter().position(|r| r == dist);
                    let (slot, extra) = match known {
                        Some(k) if rng.chance(7, 8) => {
                            recent.swap(0, k);
                            (k, 0)
                        }
                        _ => {
                            let v = *dist as u32 + 2;
                            let slot = (3..30).rev().find(|s| LZX_BASE[*s] <= v).unwrap();
                            recent = [*dist, recent[0], recent[1]];
                            (slot, v - LZX_BASE[slot])
                        }
                    };
                    let header = (len - 2).min(7);
                    let more = if header == 7 { Some(len - 9) } else { None };
                    items.push((256 + slot * 8 + header, more, slot as u32, extra));
                }
            }
        }
        let mut fm = vec![0u32; 496];
        let mut fs = vec![0u32; 249];
        let mut fa = vec![0u32; 8];
        for x in &items {
            fm[x.0] += 1;
            if let Some(s) = x.1 {
                fs[s] += 1;
            }
            if x.0 >= 256 && lzx_extra(x.2 as usize) >= 3 {
                fa[x.3 as usize & 7] += 1;
            }
        }
        two_used(&mut fm);
        two_used(&mut fa);
        if fs.iter().any(|x| *x > 0) {
            two_used(&mut fs);
        }
        let (lm, ls, la) = (code_lengths(&fm, 16), code_lengths(&fs, 16), code_lengths(&fa, 7));
        if kind == 2 {
            for l in &la {
                b.put(*l as u32, 3);
            }
        }
        lzx_lengths(rng, &mut b, &main_old[..256], &lm[..256]);
        lzx_lengths(rng, &mut b, &main_old[256..], &lm[256..]);
        lzx_lengths(rng, &mut b, &size_old, &ls);
        let (cm, cs, ca) = (codes(&lm), codes(&ls), codes(&la));
        for x in &items {
            b.put(cm[x.0], lm[x.0] as u32);
            if x.0 >= 256 {
                if let Some(s) = x.1 {
                    b.put(cs[s], ls[s] as u32);
                }
                let n = lzx_extra(x.2 as usize);
                if kind == 2 && n >= 3 {
                    b.put(x.3 >> 3, n - 3);
                    b.put(ca[x.3 as usize & 7], la[x.3 as usize & 7] as u32);
                } else {
                    b.put(x.3, n);
                }
            }
        }
        main_old = lm;
        size_old = ls;
        pos += size;
    }
    if b.n > 0 {
        b.align();
    }
    Some(b.out)
}
