//! A file with faults, for the footer and page index checks.
#![allow(dead_code)]
use crate::{check, spec::*, vp::*};
use compact_thrift_parquet::ParquetError;
use std::io::{ErrorKind, Read, Result as Io, Seek, SeekFrom};

/// What may go wrong with an operation on a file.
pub struct Faults {
    /// the operation that fails, if that many happen
    pub at: u8,
    pub kind: usize,
    /// the operation that is interrupted, once, if it is a read
    pub intr: u8,
    /// 0: complete reads, 1: one byte at a time, 2: at most 4096 bytes at a time
    pub mode: u32,
    pub ops: u8,
    pub fired: bool,
}
impl Faults {
    pub fn none() -> Self {
        Faults { at: 255, kind: 0, intr: 255, mode: 0, ops: 0, fired: false }
    }
    fn step(&mut self) -> Io<()> {
        check!(!self.fired, "an operation follows the failed one");
        if self.mode == 2 {
            return Ok(());
        }
        check!(self.ops < 250, "harness: too many operations");
        if self.ops == self.at {
            self.fired = true;
            return Err(KINDS[self.kind].into());
        }
        self.ops += 1;
        Ok(())
    }
}

/// A file: `len` bytes, of which only the last ones (those in `b`) have contents, the others being zero.
pub struct Disk<'a> {
    pub b: &'a [u8],
    pub len: u64,
    pub pos: u64,
    pub f: Faults,
    /// bytes delivered
    pub got: u64,
    /// deliver the contents of long reads, too
    pub whole: bool,
}
impl<'a> Disk<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Disk { b, len: b.len() as u64, pos: 0, f: Faults::none(), got: 0, whole: false }
    }
}
impl<'a> Seek for Disk<'a> {
    fn seek(&mut self, s: SeekFrom) -> Io<u64> {
        self.f.step()?;
        let (base, d) = match s {
            SeekFrom::Start(n) => {
                self.pos = n;
                return Ok(n);
            }
            SeekFrom::End(d) => (self.len, d),
            SeekFrom::Current(d) => (self.pos, d),
        };
        match base.checked_add_signed(d) {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(ErrorKind::InvalidInput.into()),
        }
    }
}
impl<'a> Read for Disk<'a> {
    fn read(&mut self, d: &mut [u8]) -> Io<usize> {
        if d.is_empty() {
            return Ok(0);
        }
        if self.f.ops == self.f.intr {
            self.f.intr = 255;
            return Err(ErrorKind::Interrupted.into());
        }
        self.f.step()?;
        if self.pos >= self.len {
            return Ok(0);
        }
        let left = self.len - self.pos;
        let mut n = if left < d.len() as u64 { left as usize } else { d.len() };
        if self.f.mode == 1 {
            n = 1;
        }
        if self.f.mode == 2 && n > 4096 {
            n = 4096;
        }
        if n > 64 && !self.whole {
            // nothing here needs that much
            self.pos += n as u64;
            self.got += n as u64;
            return Ok(n);
        }
        let n = concrete(n as u64) as usize;
        let hole = self.len - self.b.len() as u64;
        if self.pos >= hole {
            let p = concrete(self.pos - hole) as usize;
            d[..n].copy_from_slice(&self.b[p..p + n]);
        } else {
            for i in 0..n {
                let p = self.pos + i as u64;
                d[i] = if p >= hole { self.b[(p - hole) as usize] } else { 0 };
            }
        }
        self.pos += n as u64;
        self.got += n as u64;
        Ok(n)
    }
}

pub fn pcode(e: &ParquetError) -> u64 {
    match e {
        ParquetError::Thrift(t) => 1000 + ecode(t),
        ParquetError::InvalidMagic => 1,
        ParquetError::Io(e) => 2000 + kcode(e.kind()),
        ParquetError::InvalidOffset => 2,
        ParquetError::Schema(_) => 3,
        ParquetError::UnknownType(_) => 4,
    }
}
