//! Sparse bundle: Info.plist and one file per band.

use std::sync::{Arc, RwLock};

use keramics_core::DataStreamReference;
use keramics_formats::sparsebundle::SparseBundleImage;

use super::sparseimage::copy;
use super::{Image, is_zero, pick_hot};
use crate::data::Data;
use crate::rng::Rng;

pub fn build(rng: &mut Rng, payload: &Data, band: u64) -> Image {
    let guest = payload.clone();
    let mut files = Vec::new();
    let mut hot = vec![0, guest.size];
    let populated = super::blocks_of(&guest, band, 4096);
    for b in populated {
        let off = b * band;
        let len = band.min(guest.size - off);
        if is_zero(&guest, off, len) && !rng.chance(1, 6) {
            continue;
        }
        let mut f = Data::new(0);
        copy(&guest, off, &mut f, 0, len);
        hot.push(off);
        hot.push(off + len);
        match rng.below(4) {
            0 => f.size = band, // the last band is stored whole
            1 => {
                // the band file ends early: the rest is zero
                let mut end = len;
                while end > 0 && f.is_zero(end.saturating_sub(4096), end.min(4096)) {
                    end = end.saturating_sub(4096);
                }
                while end > 0 && f.is_zero(end - 1, 1) {
                    end -= 1;
                }
                let e = rng.range(end, len);
                f.truncate(e);
                hot.push(off + e);
            }
            _ => {}
        }
        files.push((format!("bands/{b:x}"), f));
    }
    let plist = plist(rng, band, guest.size);
    if rng.chance(1, 2) {
        files.push(("Info.bckup".into(), Data::from_vec(plist.as_bytes())));
        files.push(("token".into(), Data::new(0)));
    }
    files.push(("Info.plist".into(), Data::from_vec(plist.as_bytes())));
    let hot = pick_hot(rng, hot);
    Image {
        streams: None,
        guest,
        files,
        main: "Info.plist".into(),
        hot,
        open: Box::new(move |prefix| {
            let r = crate::stream::resolver(prefix);
            let mut image = SparseBundleImage::new();
            image.open(&r)?;
            let s: DataStreamReference = Arc::new(RwLock::new(image));
            Ok(s)
        }),
    }
}

pub fn plist(rng: &mut Rng, band: u64, size: u64) -> String {
    let mut entries = vec![
        ("CFBundleInfoDictionaryVersion".to_string(), "<string>6.0</string>".to_string()),
        ("band-size".into(), format!("<integer>{band}</integer>")),
        ("bundle-backingstore-version".into(), "<integer>1</integer>".into()),
        (
            "diskimage-bundle-type".into(),
            "<string>com.apple.diskimage.sparsebundle</string>".into(),
        ),
        ("size".into(), format!("<integer>{size}</integer>")),
    ];
    if rng.chance(1, 3) {
        rng.shuffle(&mut entries);
    }
    let mut s = String::from(concat!(
        "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n",
        "<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" ",
        "\"http://www.apple.com/DTDs/PropertyList-1.0.dtd\">\n",
        "<plist version=\"1.0\">\n<dict>\n"
    ));
    for (k, v) in entries {
        s.push_str(&format!("\t<key>{k}</key>\n\t{v}\n"));
    }
    s.push_str("</dict>\n</plist>\n");
    s
}
