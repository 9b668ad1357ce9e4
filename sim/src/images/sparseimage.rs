//! Sparse disk image: a 4096 byte header block with the band numbers array, then the bands.

use std::sync::{Arc, RwLock};

use keramics_core::DataStreamReference;
use keramics_formats::PathComponent;
use keramics_formats::sparseimage::SparseImageFile;

use super::{Image, is_zero, pick_hot, put32be};
use crate::data::Data;
use crate::rng::Rng;

pub fn build(rng: &mut Rng, payload: &Data, sectors_per_band: u32) -> Image {
    let sectors = payload.size.div_ceil(512);
    let mut guest = payload.clone();
    guest.size = sectors * 512;
    let band = sectors_per_band as u64 * 512;
    let nb = guest.size.div_ceil(band);
    assert!(nb <= 1008);
    // which media bands are stored, and in which order
    let mut stored: Vec<u64> = (0..nb)
        .filter(|b| !is_zero(&guest, b * band, band.min(guest.size - b * band)) || rng.chance(1, 6))
        .collect();
    if rng.chance(3, 4) {
        rng.shuffle(&mut stored);
    }
    let mut h = vec![0u8; 4096];
    h[0..4].copy_from_slice(b"sprs");
    put32be(&mut h, 4, 3);
    put32be(&mut h, 8, sectors_per_band);
    put32be(&mut h, 12, 1);
    put32be(&mut h, 16, sectors as u32);
    // array slot i describes the i-th band of the data area; unused slots are 0
    let mut slots: Vec<u64> = vec![0; nb as usize];
    let mut idx: Vec<usize> = (0..nb as usize).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut idx);
        idx.truncate(stored.len());
        idx.sort_unstable();
    }
    for (k, b) in stored.iter().enumerate() {
        slots[idx[k]] = b + 1;
    }
    let mut f = Data::new(0);
    let mut hot = vec![0, guest.size];
    for (i, s) in slots.iter().enumerate() {
        put32be(&mut h, 64 + i * 4, *s as u32);
        if *s == 0 {
            continue;
        }
        let b = s - 1;
        let len = band.min(guest.size - b * band);
        let at = 4096 + i as u64 * band;
        copy(&guest, b * band, &mut f, at, len);
        // the stored band is complete, also beyond the end of the media
        f.size = f.size.max(at + band);
        hot.push(b * band);
        hot.push(b * band + len);
    }
    f.write(0, &h);
    let name = "disk.sparseimage".to_string();
    let hot = pick_hot(rng, hot);
    let n2 = name.clone();
    Image {
        streams: None,
        guest,
        files: vec![(name.clone(), f)],
        main: name,
        hot,
        open: Box::new(move |prefix| {
            let s = open_file(prefix, &n2)?;
            let mut file = SparseImageFile::new();
            file.read_data_stream(&s)?;
            let r: DataStreamReference = Arc::new(RwLock::new(file));
            Ok(r)
        }),
    }
}

/// Opens a file of the simulated disk through the resolver.
pub fn open_file(prefix: &str, name: &str) -> Result<DataStreamReference, keramics_core::ErrorTrace> {
    match crate::stream::resolver(prefix).get_data_stream(&[PathComponent::from(name)])? {
        Some(s) => Ok(s),
        None => Err(keramics_core::ErrorTrace::new("missing file".to_string())),
    }
}

/// Copies a range, skipping over empty pages.
pub fn copy(from: &Data, off: u64, to: &mut Data, at: u64, len: u64) {
    for (start, n) in from.pages_in(off, len) {
        if !from.is_zero(start, n) {
            let mut v = vec![0u8; n as usize];
            from.read(start, &mut v);
            to.write(at + (start - off), &v);
        }
    }
    to.size = to.size.max(at + len);
}
