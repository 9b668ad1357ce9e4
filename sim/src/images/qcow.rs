//! QEMU Copy-On-Write: versions 1, 2 and 3, compressed clusters and backing files.

use keramics_core::DataStreamReference;
use keramics_formats::PathComponent;
use keramics_formats::qcow::QcowImage;

use super::sparseimage::copy;
use super::{Image, fill_block, pack, pick_hot, put32be, put64be};
use crate::data::Data;
use crate::rng::Rng;

pub struct Params {
    pub layers: u32,
    pub version: u32,
    pub bits: u32,
    pub l2_bits: u32,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Lower,
    Stored,
    Compressed,
    ZeroFlag,
    /// A zero flag with a preallocated cluster.
    ZeroAlloc,
}

pub fn build(rng: &mut Rng, payload: &Data, p: &Params) -> Image {
    let guest = payload.clone();
    let mut target = guest.clone();
    let mut files = Vec::new();
    let mut hot = vec![0, guest.size];
    let mut main = String::new();
    let mut upper_name: Option<String> = None;
    for l in (0..p.layers).rev() {
        let top = l + 1 == p.layers;
        let (version, bits, l2) = if top || rng.chance(1, 2) {
            (p.version, p.bits, p.l2_bits)
        } else {
            let v = rng.range(1, 3) as u32;
            let b = rng.range(9, 13) as u32;
            (v, b, if v == 1 { rng.range(3, 9) as u32 } else { b - 3 })
        };
        let name = upper_name.take().unwrap_or_else(|| "disk.qcow2".to_string());
        if main.is_empty() {
            main = name.clone();
        }
        let below = if l == 0 {
            None
        } else {
            Some(match rng.below(3) {
                0 => format!("base{l}"),
                1 => format!("snap shot {l}.qcow"),
                _ => format!("b\u{e4}se-{l}.img"),
            })
        };
        let (f, lower) = layer(rng, &target, version, bits, l2, below.as_deref(), top, &mut hot);
        files.push((name, f));
        upper_name = below;
        target = lower;
    }
    let n2 = main.clone();
    let count = files.len();
    let n3 = main.clone();
    Image {
        streams: Some(Box::new(move |prefix| {
            let r = crate::stream::resolver(prefix);
            let mut image = QcowImage::new();
            image.open(&r, &PathComponent::from(n3.as_str()))?;
            let mut v: Vec<DataStreamReference> = Vec::new();
            for i in 0..image.get_number_of_layers() {
                v.push(image.get_layer_by_index(i)?);
            }
            Ok(v)
        })),
        guest,
        files,
        main,
        hot: pick_hot(rng, hot),
        open: Box::new(move |prefix| {
            let r = crate::stream::resolver(prefix);
            let mut image = QcowImage::new();
            image.open(&r, &PathComponent::from(n2.as_str()))?;
            if image.get_number_of_layers() != count {
                return Err(keramics_core::ErrorTrace::new(format!("{} layers, expected {count}", image.get_number_of_layers())));
            }
            let s: DataStreamReference = image.get_layer_by_index(count - 1)?;
            Ok(s)
        }),
    }
}

/// Writes one file that exposes `target`; returns it and what the file below must expose.
#[allow(clippy::too_many_arguments)]
fn layer(rng: &mut Rng, target: &Data, version: u32, bits: u32, l2_bits: u32, below: Option<&str>, top: bool, hot: &mut Vec<u64>) -> (Data, Data) {
    let cs = 1u64 << bits;
    let size = target.size;
    let l1_span = cs << l2_bits;
    let l1_count = size.div_ceil(l1_span);
    let clusters = super::blocks_of(target, cs, 512);
    // a backing file can be smaller or larger
    let lower_size = match rng.below(4) {
        0 => rng.below(size) / 512 * 512 + 512,
        1 => size + rng.below(4) * 512,
        _ => size,
    };
    let mut lower = Data::new(lower_size);
    let mut kinds = Vec::new();
    for c in &clusters {
        let off = c * cs;
        let n = cs.min(size - off);
        let zero = target.is_zero(off, n);
        let mut k = match rng.below(8) {
            0 | 1 => Kind::Stored,
            2 | 3 if cs <= 1 << 16 => Kind::Compressed,
            4 if version == 3 && zero => Kind::ZeroFlag,
            5 if version == 3 && zero => Kind::ZeroAlloc,
            _ => Kind::Lower,
        };
        if k == Kind::Lower {
            let beyond = lower_size.saturating_sub(off).min(n);
            let ok = match below {
                None => zero,
                Some(_) => target.is_zero(off + beyond, n - beyond),
            };
            if ok {
                if below.is_some() {
                    copy(target, off, &mut lower, off, beyond);
                    lower.size = lower_size;
                }
            } else {
                k = Kind::Stored;
            }
        }
        if k != Kind::Lower && off < lower_size && rng.chance(1, 2) {
            // hidden by this layer: anything
            let m = n.min(lower_size - off);
            fill_block(rng, &mut lower, off, m);
        }
        hot.push(off);
        kinds.push(k);
    }
    lower.size = lower_size;

    let mut f = Data::new(0);
    let header_size = match version {
        1 => 48u64,
        2 => 72,
        _ => *rng.pick(&[104, 112]),
    };
    let mut h = vec![0u8; 512];
    h[0..4].copy_from_slice(b"QFI\xfb");
    put32be(&mut h, 4, version);
    let mut at = header_size as usize;
    if version == 3 || (version == 2 && rng.chance(1, 2)) {
        // header extensions
        if below.is_some() && rng.chance(2, 3) {
            put32be(&mut h, at, 0xe2792aca);
            put32be(&mut h, at + 4, 5);
            h[at + 8..at + 13].copy_from_slice(b"qcow2");
            at += 16;
        }
        if rng.chance(1, 2) {
            put32be(&mut h, at, 0x6803f857);
            put32be(&mut h, at + 4, 48);
            h[at + 8] = 1;
            h[at + 10..at + 15].copy_from_slice(b"dirty");
            at += 56;
        }
        at += 8;
    } else if rng.chance(1, 2) {
        at += 8;
    }
    if let Some(b) = below {
        put64be(&mut h, 8, at as u64);
        put32be(&mut h, 16, b.len() as u32);
        h[at..at + b.len()].copy_from_slice(b.as_bytes());
    }
    if version == 1 {
        put32be(&mut h, 20, 0x6000_0000 + rng.below(1 << 24) as u32);
        h[32] = bits as u8;
        h[33] = l2_bits as u8;
    } else {
        put32be(&mut h, 20, bits);
        put32be(&mut h, 36, (l1_count + if rng.chance(1, 4) { rng.below(5) } else { 0 }) as u32);
        put64be(&mut h, 48, cs);
        put32be(&mut h, 56, 1);
    }
    put64be(&mut h, 24, size);
    if version == 3 {
        put64be(&mut h, 72, rng.below(2));
        put64be(&mut h, 80, rng.below(2));
        put32be(&mut h, 96, 4);
        put32be(&mut h, 100, header_size as u32);
    }
    // reference counts are not needed to read
    let mut end = 512u64.div_ceil(cs) * cs + cs * 2;
    let l1_at = end;
    let mut l1 = vec![0u8; (l1_count as usize + 5) * 8];
    end = (end + l1.len() as u64).div_ceil(cs) * cs;
    put64be(&mut h, 40, l1_at);
    if version == 1 {
        put64be(&mut h, 40, l1_at);
    }
    if rng.chance(1, 6) {
        end += rng.below(1 << 23) * cs.min(1 << 13).max(512) / cs * cs;
        end = end.div_ceil(cs) * cs;
    }
    // level 2 tables: (number, offset), before the data, between or after
    let mut tables: std::collections::BTreeMap<u64, (u64, Vec<u8>)> = Default::default();
    let late = rng.chance(1, 3);
    let copied = |rng: &mut Rng| if version > 1 && rng.chance(1, 2) { 1u64 << 63 } else { 0 };
    let mut order: Vec<usize> = (0..clusters.len()).filter(|i| kinds[*i] != Kind::Lower).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut order);
    }
    let mut pending: Vec<(u64, u64)> = Vec::new(); // cluster, entry
    let mut packed_at = 0u64; // room for compressed clusters
    let mut packed_end = 0u64;
    let mut last_stored = None;
    for i in order {
        let c = clusters[i];
        let l1i = c >> l2_bits;
        if !late && !tables.contains_key(&l1i) {
            tables.insert(l1i, (end, vec![0u8; 8 << l2_bits]));
            end += (8u64 << l2_bits).div_ceil(cs) * cs;
        }
        let off = c * cs;
        let n = cs.min(size - off);
        let mut k = kinds[i];
        let mut raw = vec![];
        if k == Kind::Compressed {
            raw = vec![0u8; cs as usize];
            target.read(off, &mut raw[..n as usize]);
            let z = pack::deflate(rng, &raw, 4096);
            if z.len() as u64 >= cs {
                k = Kind::Stored;
            } else {
                if packed_end - packed_at < z.len() as u64 {
                    // clusters that follow each other hold one run of compressed clusters
                    packed_at = end;
                    packed_end = end + cs;
                    end += cs;
                }
                let shift = if version == 1 { 63 - bits } else { 62 - (bits - 8) };
                let len = z.len() as u64;
                let first = packed_at;
                let v = if version == 1 {
                    1 << 63 | len << shift | first
                } else {
                    // sectors touched, not counting the first
                    let sectors = (first + len - 1) / 512 - first / 512;
                    1 << 62 | sectors << shift | first
                };
                f.write(first, &z);
                f.size = f.size.max(first + len);
                packed_at += len;
                if rng.chance(1, 4) {
                    packed_at = packed_at.div_ceil(512) * 512;
                }
                pending.push((c, v));
                continue;
            }
        }
        let _ = raw;
        match k {
            Kind::Stored => {
                copy(target, off, &mut f, end, n);
                f.size = f.size.max(end + cs);
                last_stored = Some((end, n));
                pending.push((c, end | copied(rng)));
                end += cs;
            }
            Kind::ZeroFlag => pending.push((c, 1)),
            Kind::ZeroAlloc => {
                let junk = rng.bytes(64);
                f.write(end, &junk);
                f.size = f.size.max(end + cs);
                last_stored = None;
                pending.push((c, end | 1 | copied(rng)));
                end += cs;
            }
            _ => {}
        }
        if rng.chance(1, 8) {
            end += cs;
        }
    }
    for (c, v) in pending {
        let l1i = c >> l2_bits;
        if !tables.contains_key(&l1i) {
            tables.insert(l1i, (end, vec![0u8; 8 << l2_bits]));
            end += (8u64 << l2_bits).div_ceil(cs) * cs;
            last_stored = None;
        }
        let t = tables.get_mut(&l1i).unwrap();
        put64be(&mut t.1, ((c & ((1 << l2_bits) - 1)) * 8) as usize, v);
    }
    // tables without any entry
    if rng.chance(1, 2) {
        let i = rng.below(l1_count);
        if !tables.contains_key(&i) {
            tables.insert(i, (end, vec![0u8; 8 << l2_bits]));
            end += (8u64 << l2_bits).div_ceil(cs) * cs;
            last_stored = None;
        }
    }
    for (i, (at, t)) in &tables {
        put64be(&mut l1, (*i * 8) as usize, at | copied(rng));
        f.write(*at, t);
    }
    f.write(l1_at, &l1);
    f.write(0, &h);
    let _ = end;
    if let Some((at, n)) = last_stored {
        // the last cluster in the file can be cut short
        if version > 1 && at + cs == f.size && n < cs {
            f.size = at + n;
        }
    }
    let _ = top;
    (f, lower)
}
