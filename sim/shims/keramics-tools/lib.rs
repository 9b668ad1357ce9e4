//! The tools' modules as a library.
#![allow(dead_code)]
#[path = "src/enums.rs"]
pub mod enums;
#[path = "src/hasher.rs"]
pub mod hasher;
#[path = "src/range_stream.rs"]
pub mod range_stream;
#[path = "src/writer.rs"]
pub mod writer;
#[path = "src/display_path.rs"]
pub mod display_path;
#[path = "src/bodyfile.rs"]
pub mod bodyfile;
