pub mod c01_stream;
pub mod c02_records;
pub mod c03_hashes;
pub mod c04_checksums;
pub mod c05_sigscan;
#[cfg(feature = "full")]
pub mod c06_formats;
#[cfg(feature = "full")]
pub mod c18_threads;
#[cfg(feature = "full")]
pub mod c19_robust;
#[cfg(feature = "full")]
pub mod c20_damage;
#[cfg(feature = "full")]
pub mod c21_vfs;
#[cfg(feature = "full")]
pub mod c22_tools;
#[cfg(feature = "full")]
pub mod filesystems;
#[cfg(feature = "full")]
pub mod images;

use crate::runner::Prop;

pub fn all() -> Vec<&'static dyn Prop> {
    #[allow(unused_mut)]
    let mut v: Vec<&'static dyn Prop> =
        vec![&c01_stream::C01, &c02_records::C02, &c03_hashes::C03, &c04_checksums::C04, &c05_sigscan::C05];
    #[cfg(feature = "full")]
    {
        v.push(&c06_formats::C06);
        v.push(&c18_threads::C18);
        v.push(&c19_robust::C19);
        v.push(&c20_damage::C20);
        v.push(&c21_vfs::C21);
        v.push(&c22_tools::C22);
        v.extend(filesystems::ALL.iter().map(|p| *p as &'static dyn Prop));
        v.extend(images::ALL.iter().map(|p| *p as &'static dyn Prop));
    }
    v
}
