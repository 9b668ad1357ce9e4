//! Reference digests and checksums, written from the standards as one-shot functions.

fn pad(data: &[u8], block: usize, be: bool) -> Vec<u8> {
    let lenf = block / 8;
    let mut v = data.to_vec();
    v.push(0x80);
    while v.len() % block != block - lenf {
        v.push(0);
    }
    let bits = (data.len() as u128) * 8;
    if be {
        let b = bits.to_be_bytes();
        v.extend_from_slice(&b[16 - lenf..]);
    } else {
        let b = bits.to_le_bytes();
        v.extend_from_slice(&b[..lenf]);
    }
    v
}

pub fn md5(data: &[u8]) -> Vec<u8> {
    let s: [u32; 64] = [
        7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5,
        9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6,
        10, 15, 21, 6, 10, 15, 21,
    ];
    let k: Vec<u32> = (0..64)
        .map(|i| ((((i + 1) as f64).sin().abs()) * 4294967296.0) as u32)
        .collect();
    let (mut a0, mut b0, mut c0, mut d0) = (0x67452301u32, 0xefcdab89u32, 0x98badcfeu32, 0x10325476u32);
    for ch in pad(data, 64, false).chunks(64) {
        let m: Vec<u32> = ch.chunks(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
        let (mut a, mut b, mut c, mut d) = (a0, b0, c0, d0);
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let t = f.wrapping_add(a).wrapping_add(k[i]).wrapping_add(m[g]);
            a = d;
            d = c;
            c = b;
            b = b.wrapping_add(t.rotate_left(s[i]));
        }
        a0 = a0.wrapping_add(a);
        b0 = b0.wrapping_add(b);
        c0 = c0.wrapping_add(c);
        d0 = d0.wrapping_add(d);
    }
    [a0, b0, c0, d0].iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub fn sha1(data: &[u8]) -> Vec<u8> {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for ch in pad(data, 64, true).chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(ch[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5a827999),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) | (b & d) | (c & d), 0x8f1bbcdcu32),
                _ => (b ^ c ^ d, 0xca62c1d6),
            };
            let t = a
                .rotate_left(5)
                .wrapping_add(f)
                .wrapping_add(e)
                .wrapping_add(k)
                .wrapping_add(*wi);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    let mut c = 2u64;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}

/// First 64 bits of the fractional part of the cube root of p (integer arithmetic).
fn cbrt_frac64(p: u64) -> u64 {
    // floor(cbrt(p) * 2^64): largest x with x^3 <= p << 192; x < 2^68
    let (mut lo, mut hi) = (0u128, 1u128 << 68);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if cube_le(mid, p) {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u64
}

fn mul_wide(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = vec![0u64; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        let mut carry = 0u128;
        for (j, y) in b.iter().enumerate() {
            let t = (*x as u128) * (*y as u128) + r[i + j] as u128 + carry;
            r[i + j] = t as u64;
            carry = t >> 64;
        }
        r[i + b.len()] = carry as u64;
    }
    r
}

fn cube_le(x: u128, p: u64) -> bool {
    let a = [x as u64, (x >> 64) as u64];
    let sq = mul_wide(&a, &a);
    let cu = mul_wide(&sq, &a);
    // compare with p << 192
    for i in (4..cu.len()).rev() {
        if cu[i] != 0 {
            return false;
        }
    }
    cu[3] < p || (cu[3] == p && cu[..3].iter().all(|v| *v == 0))
}

fn sha2_32(data: &[u8], mut h: [u32; 8], out: usize) -> Vec<u8> {
    thread_local! { static K: Vec<u32> = primes(64).into_iter().map(|p| (cbrt_frac64(p) >> 32) as u32).collect(); }
    K.with(|k| {
        for ch in pad(data, 64, true).chunks(64) {
            let mut w = [0u32; 64];
            for i in 0..16 {
                w[i] = u32::from_be_bytes(ch[i * 4..i * 4 + 4].try_into().unwrap());
            }
            for i in 16..64 {
                let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
                let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
                w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
            }
            let mut v = h;
            for i in 0..64 {
                let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
                let chx = (v[4] & v[5]) ^ (!v[4] & v[6]);
                let t1 = v[7].wrapping_add(s1).wrapping_add(chx).wrapping_add(k[i]).wrapping_add(w[i]);
                let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
                let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
                let t2 = s0.wrapping_add(maj);
                v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
            }
            for i in 0..8 {
                h[i] = h[i].wrapping_add(v[i]);
            }
        }
    });
    let mut r: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect();
    r.truncate(out);
    r
}

pub fn sha224(data: &[u8]) -> Vec<u8> {
    sha2_32(
        data,
        [
            0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4,
        ],
        28,
    )
}

pub fn sha256(data: &[u8]) -> Vec<u8> {
    sha2_32(
        data,
        [
            0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
        ],
        32,
    )
}

pub fn sha512(data: &[u8]) -> Vec<u8> {
    thread_local! { static K: Vec<u64> = primes(80).into_iter().map(cbrt_frac64).collect(); }
    let mut h: [u64; 8] = [
        0x6a09e667f3bcc908,
        0xbb67ae8584caa73b,
        0x3c6ef372fe94f82b,
        0xa54ff53a5f1d36f1,
        0x510e527fade682d1,
        0x9b05688c2b3e6c1f,
        0x1f83d9abfb41bd6b,
        0x5be0cd19137e2179,
    ];
    K.with(|k| {
        for ch in pad(data, 128, true).chunks(128) {
            let mut w = [0u64; 80];
            for i in 0..16 {
                w[i] = u64::from_be_bytes(ch[i * 8..i * 8 + 8].try_into().unwrap());
            }
            for i in 16..80 {
                let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
                let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
                w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
            }
            let mut v = h;
            for i in 0..80 {
                let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
                let chx = (v[4] & v[5]) ^ (!v[4] & v[6]);
                let t1 = v[7].wrapping_add(s1).wrapping_add(chx).wrapping_add(k[i]).wrapping_add(w[i]);
                let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
                let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
                let t2 = s0.wrapping_add(maj);
                v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
            }
            for i in 0..8 {
                h[i] = h[i].wrapping_add(v[i]);
            }
        }
    });
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub const DIGESTS: [&str; 5] = ["md5", "sha1", "sha224", "sha256", "sha512"];

pub fn digest(name: &str, data: &[u8]) -> Vec<u8> {
    match name {
        "md5" => md5(data),
        "sha1" => sha1(data),
        "sha224" => sha224(data),
        "sha256" => sha256(data),
        _ => sha512(data),
    }
}

pub fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn adler32(initial: u32, data: &[u8]) -> u32 {
    let (mut a, mut b) = ((initial & 0xffff) as u64, (initial >> 16) as u64);
    for x in data {
        a = (a + *x as u64) % 65521;
        b = (b + a) % 65521;
    }
    if data.is_empty() {
        return initial;
    }
    ((b as u32) << 16) | a as u32
}

/// Bitwise CRC-32 (reflected), e.g. polynomial 0xedb88320.
pub fn crc32_reversed(poly: u32, initial: u32, data: &[u8]) -> u32 {
    let mut c = !initial;
    for x in data {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ poly } else { c >> 1 };
        }
    }
    !c
}

/// Bitwise CRC-32, most significant bit first, e.g. polynomial 0x04c11db7.
pub fn crc32_forward(poly: u32, initial: u32, data: &[u8]) -> u32 {
    let mut c = !initial;
    for x in data {
        c ^= (*x as u32) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ poly } else { c << 1 };
        }
    }
    !c
}
