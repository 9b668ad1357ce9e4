//! Stand-in for keramics-compression/src/lzxpress.rs, which the pinned commit lacks.
use keramics_core::ErrorTrace;

pub struct LzxpressContext {
    pub uncompressed_data_size: usize,
}

impl LzxpressContext {
    pub fn new() -> Self {
        Self { uncompressed_data_size: 0 }
    }
    pub fn decompress(&mut self, _c: &[u8], _u: &mut [u8]) -> Result<(), ErrorTrace> {
        Err(ErrorTrace::new("stub: LZXPRESS not available".to_string()))
    }
}

pub struct LzxpressHuffmanContext {
    pub uncompressed_data_size: usize,
}

impl LzxpressHuffmanContext {
    pub fn new() -> Self {
        Self { uncompressed_data_size: 0 }
    }
    pub fn decompress(&mut self, _c: &[u8], _u: &mut [u8]) -> Result<(), ErrorTrace> {
        Err(ErrorTrace::new("stub: LZXPRESS Huffman not available".to_string()))
    }
}
