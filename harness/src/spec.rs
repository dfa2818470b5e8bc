//! An independent codec for the Thrift compact protocol, written from its specification
//! (thrift-compact-protocol.md), used as the oracle. It shares no code with the library.
#![allow(dead_code)]
use crate::vp::*;
use compact_thrift_runtime::ThriftError;
use std::io::{ErrorKind, Read, Write};

/// A growable byte buffer of fixed capacity: what the library writes into.
#[derive(Clone)]
pub struct Sink<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
}

impl<const N: usize> Sink<N> {
    pub fn new() -> Self {
        Sink { b: [0; N], n: 0 }
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.b[..self.n]
    }
    // --- the specification's encoder
    pub fn byte(&mut self, x: u8) {
        self.b[self.n] = x;
        self.n += 1;
    }
    pub fn bytes(&mut self, x: &[u8]) {
        for &c in x {
            self.byte(c);
        }
    }
    /// unsigned LEB128
    pub fn varint(&mut self, mut v: u64) {
        while v > 127 {
            self.byte(v as u8 | 128);
            v >>= 7;
        }
        self.byte(v as u8);
    }
    /// zigzag, then LEB128
    pub fn zz(&mut self, v: i64) {
        self.varint(zz(v));
    }
    /// field header; `last` is the previous field's id
    pub fn field(&mut self, ty: u8, id: i16, last: i16) {
        let d = id as i32 - last as i32;
        if d >= 1 && d <= 15 {
            self.byte(((d as u8) << 4) | ty);
        } else {
            self.byte(ty);
            self.zz(id as i64);
        }
    }
    pub fn list(&mut self, ty: u8, n: usize) {
        if n < 15 {
            self.byte(((n as u8) << 4) | ty);
        } else {
            self.byte(0xf0 | ty);
            self.varint(n as u64);
        }
    }
    pub fn binary(&mut self, x: &[u8]) {
        self.varint(x.len() as u64);
        self.bytes(x);
    }
    pub fn double(&mut self, bits: u64) {
        for i in 0..8 {
            self.byte((bits >> (8 * i)) as u8);
        }
    }
    /// the `i`-th of a series of values of the type as elements of a collection, lengths and contents varying
    pub fn element(&mut self, ty: u8, i: usize) {
        match ty {
            1 | 2 => self.byte(1 + (i % 2) as u8),
            3 => self.byte(i as u8),
            4 => self.varint((i % 9 * 7919) as u64 & 0xffff),
            5 => self.varint((i as u64 % 6).pow(13) & 0xffff_ffff),
            6 => self.varint(if i % 5 == 4 { u64::MAX - i as u64 } else { i as u64 }),
            7 => self.double((i as u64).wrapping_mul(0x0123_4567_89ab_cdef)),
            8 => {
                self.varint((i % 4) as u64);
                for k in 0..i % 4 {
                    self.byte((i + k) as u8 & 127);
                }
            }
            9 | 10 => {
                self.list(3, i % 3);
                for k in 0..i % 3 {
                    self.byte((i + k) as u8);
                }
            }
            11 => {
                self.byte((i % 2) as u8);
                if i % 2 == 1 {
                    self.byte(0x53);
                    self.byte(i as u8 & 127);
                    self.byte(i as u8);
                }
            }
            _ => {
                if i % 3 > 0 {
                    self.field(3, 1, 0);
                    self.byte(i as u8);
                }
                if i % 2 == 1 {
                    self.field(1 + (i / 2 % 2) as u8, 9, 1);
                }
                self.stop();
            }
        }
    }
    /// a list or set of the elements, or a map from integers to them (or the other way round)
    pub fn many(&mut self, ty: u8, et: u8, n: usize, flip: bool) {
        if ty == 11 {
            self.varint(n as u64);
            self.byte(if flip { et << 4 | 4 } else { 0x40 | et });
        } else {
            self.list(et, n);
        }
        for i in 0..n {
            if ty == 11 && !flip {
                self.element(4, i);
            }
            self.element(et, i);
            if ty == 11 && flip {
                self.element(4, i);
            }
        }
    }
    pub fn stop(&mut self) {
        self.byte(0);
    }
    /// A value of the type: symbolic scalars, containers of up to 2 elements, nested up to `depth`.
    /// `style` picks the lengths of the variable-length scalars, which alternate between 1, 2 and 10
    /// bytes for integers and 0, 1 and 3 bytes for strings.
    pub fn any_value(&mut self, ty: u8, in_coll: bool, depth: u32, style: &mut usize) {
        match ty {
            1 | 2 => {
                if in_coll {
                    self.byte(nd8())
                }
            }
            3 => self.byte(nd8()),
            4..=6 => {
                let n = [1, 2, 10][*style % 3];
                *style += 1;
                for i in 0..n {
                    let x = nd8();
                    self.byte(if i < n - 1 { x | 128 } else { x & 127 });
                }
            }
            7 => {
                for _ in 0..8 {
                    self.byte(nd8());
                }
            }
            8 => {
                let n = [1, 0, 3][*style % 3];
                *style += 1;
                self.varint(n as u64);
                for _ in 0..n {
                    self.byte(nd8());
                }
            }
            9 | 10 => {
                let et = any_type(depth);
                let n = range(0, 2);
                self.list(et, n);
                for _ in 0..n {
                    self.any_value(et, true, depth.saturating_sub(1), style);
                }
            }
            11 => {
                let n = range(0, 2);
                if n == 0 {
                    self.byte(0);
                } else {
                    let (k, v) = (any_type(0), any_type(depth));
                    self.byte(n as u8);
                    self.byte((k << 4) | v);
                    for _ in 0..n {
                        self.any_value(k, true, 0, style);
                        self.any_value(v, true, depth.saturating_sub(1), style);
                    }
                }
            }
            _ => {
                let n = range(0, 2);
                for _ in 0..n {
                    let et = any_type(depth);
                    if choose(2) == 0 {
                        let d = nd8();
                        assume(d >= 1 && d <= 15);
                        self.byte((d << 4) | et);
                    } else {
                        // long form: any id that takes one byte
                        self.byte(et);
                        self.byte(nd8() & 127);
                    }
                    self.any_value(et, false, depth.saturating_sub(1), style);
                }
                self.stop();
            }
        }
    }
}

/// A type of every class: booleans, byte, integers, double, binary and, when `depth` allows, the
/// containers; one path per class, the type within the class being symbolic.
pub fn any_type(depth: u32) -> u8 {
    let c = choose(if depth > 0 { 9 } else { 5 }) as u8;
    match c {
        0 => 1 + ndb() as u8,
        1 => 3,
        2 => {
            let t = nd8();
            assume(t >= 4 && t <= 6);
            t
        }
        _ => c + 4,
    }
}

impl<const N: usize> Write for Sink<N> {
    #[inline(always)]
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        if self.n + d.len() > N {
            fail("harness: sink too small");
        }
        self.b[self.n..self.n + d.len()].copy_from_slice(d);
        self.n += d.len();
        Ok(d.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn zz(v: i64) -> u64 {
    ((v as u64) << 1) ^ (if v < 0 { u64::MAX } else { 0 })
}
pub fn unzz(v: u64) -> i64 {
    if v & 1 == 1 {
        !((v >> 1) as i64)
    } else {
        (v >> 1) as i64
    }
}

/// equality without one branch per byte
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// The specification's decoder: `None` where there is no well-formed value.
#[derive(Clone)]
pub struct Dec<'a> {
    pub b: &'a [u8],
    pub p: usize,
    /// an integer that does not fit 64 bits occurred: its value is outside the properties
    pub wide: bool,
}

pub const MAXB: u64 = 16 * 1024 * 1024;
pub const MAXC: u64 = 10_000_000;

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Dec { b, p: 0, wide: false }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
    pub fn byte(&mut self) -> Option<u8> {
        if self.p < self.b.len() {
            self.p += 1;
            Some(self.b[self.p - 1])
        } else {
            None
        }
    }
    /// value of the base-128 groups (those beyond bit 63 contribute nothing) and whether all fit in 64 bits
    pub fn varint_fits(&mut self) -> Option<(u64, bool)> {
        let mut v = 0u64;
        let mut s = 0;
        let mut fits = true;
        loop {
            let c = self.byte()?;
            let g = (c & 127) as u64;
            if s < 63 {
                v |= g << s;
            } else if s == 63 {
                v |= (g & 1) << 63;
                fits &= g < 2;
            } else {
                fits &= g == 0;
            }
            s += 7;
            if c < 128 {
                return Some((v, fits));
            }
        }
    }
    pub fn varint(&mut self) -> Option<u64> {
        let (v, fits) = self.varint_fits()?;
        self.wide |= !fits;
        Some(v)
    }
    pub fn skip_varint(&mut self) -> Option<()> {
        while self.byte()? >= 128 {}
        Some(())
    }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n <= self.left() {
            self.p += n;
            Some(&self.b[self.p - n..self.p])
        } else {
            None
        }
    }
    pub fn binary(&mut self) -> Option<&'a [u8]> {
        let n = self.varint()?;
        if n > MAXB || n > self.left() as u64 {
            return None;
        }
        let n = concrete(n) as usize;
        self.take(n)
    }
    /// (length, element type)
    pub fn list(&mut self) -> Option<(u64, u8)> {
        let h = self.byte()?;
        let n = if h >> 4 == 15 { self.varint()? } else { (h >> 4) as u64 };
        if n > MAXC {
            return None;
        }
        Some((n, h & 15))
    }
    /// the next field: type and id; type 0 is the stop marker
    pub fn field(&mut self, last: i16) -> Option<(u8, i16)> {
        let h = self.byte()?;
        if h == 0 {
            return Some((0, last));
        }
        let id = if h >> 4 == 0 {
            unzz(self.varint()? & 0xffff) as i16
        } else {
            let id = last as i32 + (h >> 4) as i32;
            if id > 32767 {
                return None;
            }
            id as i16
        };
        Some((h & 15, id))
    }
    /// over exactly one value of the type
    pub fn skip(&mut self, ty: u8, in_coll: bool) -> Option<()> {
        match ty {
            1 | 2 => {
                if in_coll {
                    self.byte()?;
                }
            }
            3 => {
                self.byte()?;
            }
            4..=6 => self.skip_varint()?,
            7 => {
                self.take(8)?;
            }
            8 => {
                self.binary()?;
            }
            9 | 10 => {
                let (n, t) = self.list()?;
                if t < 1 || t > 12 {
                    return None;
                }
                let mut i = 0;
                while i < n {
                    self.skip(t, true)?;
                    i += 1;
                }
            }
            11 => {
                let n = self.varint()?;
                if n > 0 {
                    let t = self.byte()?;
                    if n > MAXC {
                        return None;
                    }
                    let mut i = 0;
                    while i < n {
                        self.skip(t >> 4, true)?;
                        self.skip(t & 15, true)?;
                        i += 1;
                    }
                }
            }
            12 => {
                let mut last = 0;
                loop {
                    let (t, id) = self.field(last)?;
                    // a zero byte; like the reference implementations, also any header of type 0
                    if t == 0 {
                        break;
                    }
                    last = id;
                    self.skip(t, false)?;
                }
            }
            _ => return None,
        }
        Some(())
    }
}

/// error classes; every I/O kind the harnesses use has its own number
pub fn ecode(e: &ThriftError) -> u64 {
    match e {
        ThriftError::InvalidNumber => 1,
        ThriftError::InvalidString => 2,
        ThriftError::InvalidBinaryLen(_) => 3,
        ThriftError::InvalidCollectionLen => 4,
        ThriftError::MissingField(_) => 5,
        ThriftError::MissingValue => 6,
        ThriftError::MissingStop => 7,
        ThriftError::DuplicateField => 8,
        ThriftError::InvalidType => 9,
        ThriftError::ReserveError => 10,
        ThriftError::IO(k) => 100 + kcode(*k),
        #[allow(unreachable_patterns)]
        _ => 99,
    }
}

pub const KINDS: [ErrorKind; 6] = [
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::Other,
    ErrorKind::TimedOut,
];

pub fn kcode(k: ErrorKind) -> u64 {
    match k {
        ErrorKind::UnexpectedEof => 0,
        ErrorKind::WriteZero => 1,
        ErrorKind::BrokenPipe => 2,
        ErrorKind::PermissionDenied => 3,
        ErrorKind::Other => 4,
        ErrorKind::TimedOut => 5,
        ErrorKind::Interrupted => 6,
        ErrorKind::InvalidInput => 7,
        _ => 50,
    }
}

/// 0 for a value, the error class otherwise
pub fn rcode<V>(r: &Result<V, ThriftError>) -> u64 {
    match r {
        Ok(_) => 0,
        Err(e) => ecode(e),
    }
}

pub const EOF: u64 = 100;

/// A stream over a slice that counts what was taken.
pub struct Stream<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Stream<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Stream { b, p: 0 }
    }
}
impl<'a> Read for Stream<'a> {
    #[inline(always)]
    fn read(&mut self, d: &mut [u8]) -> std::io::Result<usize> {
        let n = d.len().min(self.b.len() - self.p);
        d[..n].copy_from_slice(&self.b[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}

/// an i64 whose zigzag encoding takes one byte
pub fn small() -> i64 {
    let v = nd8() as i8 as i64;
    assume(v >= -64 && v < 64);
    v
}

/// hands out at most `k` bytes per call
pub struct Chunks<'a>(pub Stream<'a>, pub usize);
impl<'a> Read for Chunks<'a> {
    fn read(&mut self, d: &mut [u8]) -> std::io::Result<usize> {
        let n = d.len().min(self.1);
        self.0.read(&mut d[..n])
    }
}
