//! Simulated DataStream over a file of the simulated disk, and a simulated file resolver.

use std::io::SeekFrom;
use std::sync::{Arc, RwLock};

use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
#[cfg(feature = "full")]
use keramics_formats::{FileResolver, FileResolverReference, PathComponent};

use crate::env::{self, Decision, IoKind};

pub struct SimStream {
    pub file: usize,
    pub pos: u64,
}

impl SimStream {
    pub fn new(file: usize) -> Self {
        SimStream { file, pos: 0 }
    }
}

pub fn open(file: usize) -> DataStreamReference {
    Arc::new(RwLock::new(SimStream::new(file)))
}

fn err(what: &str) -> ErrorTrace {
    ErrorTrace::new(format!("simulated {what} error"))
}

impl DataStream for SimStream {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> {
        match env::io_point(IoKind::Size, self.file, 0, 0) {
            Decision::Err => Err(err("size")),
            _ => Ok(env::file_size(self.file)),
        }
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
        let size = env::file_size(self.file);
        let mut n = if self.pos >= size {
            0
        } else {
            (buf.len() as u64).min(size - self.pos) as usize
        };
        match env::io_point(IoKind::Read, self.file, self.pos, n) {
            Decision::Err | Decision::NoSpace => return Err(err("read")),
            Decision::Short(k) => n = n.min(k),
            // a DataStream has no way to report an interruption: it is a short read
            Decision::Eintr => n = n.min(1),
            Decision::Ok => {}
        }
        env::with(|e| e.files[self.file].data.read(self.pos, &mut buf[..n]));
        self.pos += n as u64;
        Ok(n)
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
        if let Decision::Err = env::io_point(IoKind::Seek, self.file, 0, 0) {
            return Err(err("seek"));
        }
        let base: i128 = match pos {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => env::file_size(self.file) as i128 + d as i128,
        };
        if base < 0 || base > u64::MAX as i128 {
            return Err(err("invalid seek"));
        }
        self.pos = base as u64;
        Ok(self.pos)
    }
}

/// Resolver over the simulated disk: path components are joined with '/' after a prefix.
#[cfg(feature = "full")]
pub struct SimResolver {
    pub prefix: String,
}

#[cfg(feature = "full")]
pub fn component_string(c: &PathComponent) -> String {
    c.to_string()
}

#[cfg(feature = "full")]
impl FileResolver for SimResolver {
    fn get_data_stream(
        &self,
        path_components: &[PathComponent],
    ) -> Result<Option<DataStreamReference>, ErrorTrace> {
        let names: Vec<String> = path_components.iter().map(component_string).collect();
        let path = format!("{}{}", self.prefix, names.join("/"));
        let id = env::file_id(&path);
        match env::io_point(IoKind::Open, id.unwrap_or(usize::MAX >> 1), 0, 0) {
            Decision::Err => return Err(err("open")),
            _ => {}
        }
        env::log(|| format!("  resolve {path} -> {id:?}"), id.map(|x| x as u64 + 1).unwrap_or(0));
        Ok(id.map(open))
    }
}

#[cfg(feature = "full")]
pub fn resolver(prefix: &str) -> FileResolverReference {
    FileResolverReference::new(Box::new(SimResolver {
        prefix: prefix.to_string(),
    }))
}
