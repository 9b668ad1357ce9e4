//! The tools' modules that need no more than the core crates.
#![allow(dead_code)]
#[path = "src/enums.rs"]
pub mod enums;
#[path = "src/hasher.rs"]
pub mod hasher;
#[path = "src/range_stream.rs"]
pub mod range_stream;
