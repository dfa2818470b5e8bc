use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;
use std::io::{ErrorKind, Read, Write};

/// What goes wrong, and when. Every operation may also be short or interrupted.
struct Plan {
    /// the operation that fails, if that many happen
    at: u8,
    /// how it fails: an error kind, or (6) by making no progress
    kind: usize,
    /// the operation that is interrupted once
    intr: u8,
    /// 0: complete transfers, 1: one byte at a time, 2: alternating, 3: all but one byte
    mode: u32,
    ops: u8,
    fired: bool,
    interrupted: bool,
}

impl Plan {
    fn fault() -> Plan {
        Plan { at: nd8(), kind: choose(7) as usize, intr: 255, mode: choose(2), ops: 0, fired: false, interrupted: false }
    }
    fn short() -> Plan {
        Plan { at: 255, kind: 0, intr: nd8(), mode: choose(4), ops: 0, fired: false, interrupted: false }
    }
    /// how many of `n` bytes to transfer
    fn step(&mut self, n: usize) -> std::io::Result<usize> {
        if n == 0 {
            return Ok(0);
        }
        check!(!self.fired, "an operation follows the failed one");
        check!(self.ops < 250, "harness: too many operations");
        if self.ops == self.at {
            self.fired = true;
            return if self.kind < 6 { Err(KINDS[self.kind].into()) } else { Ok(0) };
        }
        if self.ops == self.intr && !self.interrupted {
            self.interrupted = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.ops += 1;
        Ok(match self.mode {
            0 => n,
            1 => 1,
            2 => if self.ops % 2 == 0 { n } else { 1 },
            _ => if n > 1 { n - 1 } else { 1 },
        })
    }
    fn code(&self, zero: u64) -> u64 {
        if self.kind < 6 { 100 + kcode(KINDS[self.kind]) } else { zero }
    }
}

struct Writer(Out, Plan);
impl Write for Writer {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        let n = self.1.step(d.len())?;
        self.0.bytes(&d[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Reader<'a>(Stream<'a>, Plan);
impl<'a> Read for Reader<'a> {
    fn read(&mut self, d: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.step(d.len())?;
        self.0.read(&mut d[..n])
    }
}

fn write<C: Case>(v: C, p: Plan) {
    let mut want = Out::new();
    v.spec(&mut want);
    let mut w = Writer(Out::new(), p);
    let r = v.write_thrift(&mut w);
    if w.1.fired {
        check!(rcode(&r) == w.1.code(101), "a failed write does not surface as that error");
        check!(w.0.n <= want.n && same(w.0.as_slice(), &want.b[..w.0.n]), "what was written before a fault is no prefix of the encoding");
        reach(0);
    } else {
        check!(r.is_ok(), "encoding fails although no operation failed");
        check!(same(w.0.as_slice(), want.as_slice()), "short or interrupted writes change the encoding");
        reach(1);
    }
    obs(w.0.n as u64);
}

fn read<C: Case>(v: C, p: Plan) {
    let mut o = Out::new();
    v.spec(&mut o);
    let n = o.n;
    o.byte(nd8());
    let mut i = Reader(Stream::new(o.as_slice()), p);
    let r = C::read_thrift(&mut i);
    if i.1.fired {
        check!(rcode(&r) == i.1.code(EOF), "a failed read does not surface as that error");
        reach(0);
    } else {
        match &r {
            Ok(w) => check!(v.eq(w), "short or interrupted reads change the decoded value"),
            Err(_) => fail("decoding fails although no operation failed"),
        }
        check!(i.0.p == n, "short or interrupted reads change what is consumed");
        reach(1);
    }
    obs(i.0.p as u64);
}

macro_rules! values {
    ($f:ident, $p:expr) => {
        match choose(10) {
            0 => $f(Scalars { a: ndb(), b: nd8() as i8, c: small() as i16, d: nd32() as i32, e: small(), f: double(), g: bytes(3), h: text() }, $p),
            1 => $f(Opts { a: Some(ndb()), b: None, c: Some(small() as i16), d: None, e: Some(nd64() as i64), f: Some(double()), g: None, h: Some(text()) }, $p),
            2 => $f(Gaps { a: nd8() as i8, b: Some(ndb()), c: 1, d: Some(small() as i32), e: ndb(), f: Some(nd8() as i8) }, $p),
            3 => $f(Nested { a: inner_s(), b: Some(inner_s()), c: vec![inner_s(), Inner { x: 300, y: None }], d: Some(Empty {}), e: Some(ndb()) }, $p),
            4 => $f(Lists { a: vec![small() as i32, 70000], b: Some(vec![text(), String::new()]), c: vec![ndb(), ndb()], d: Some(vec![double()]), e: Some(vec![small()]), f: Some(vec![vec![nd8(), nd8()]]) }, $p),
            5 => $f(var_of(choose(9), false), $p),
            6 => $f(Mixed { a: Color(small() as i32), b: Some(Color(1)), c: var_of(3, false), d: Some(vec![Color(small() as i32)]), e: Some(vec![var_of(1, false)]) }, $p),
            7 => $f(Wraps { a: ndb().into(), b: ndb().into(), c: ndb().into(), d: Some(ndb().into()), e: Some((small() as i32).into()), f: Some(text().into()), g: inner_s().into(), h: Some(inner_s().into()), i: None }, $p),
            8 => $f(Strs { a: text().into(), b: text().into(), c: text().into(), d: Some(text().into()) }, $p),
            _ => $f(Tree { v: nd8() as i8, next: Some(Box::new(Tree { v: 1, next: None, kids: None })), kids: Some(vec![Tree { v: nd8() as i8, next: None, kids: Some(vec![]) }]) }, $p),
        }
    };
}

// after the known field of an `Inner`: unknown fields of all kinds
const UNKNOWN: &[u8] = &[0x15, 0x02, 0x2b, 0x01, 0x38, 0x07, 0x01, 0x63, 0x1c, 0x19, 0x29, 0x13, 0x01, 0x13, 0x02, 0x00, 0x1a, 0x1b, 0x01, 0x56, 0x80, 0x01, 0x03, 0x17, 1, 2, 3, 4, 5, 6, 7, 8, 0x00];

fn long_list() -> Vec<i8> {
    (0..20).map(|i| if i == 3 { nd8() as i8 } else { i }).collect()
}

entries! {
    h_c18_write_fault, 2, "10 types, one shape each (9 variants), symbolic values: each operation fails with one of 6 kinds or makes no progress; complete or single-byte writes" => { values!(write, Plan::fault()) }
    h_c18_write_short, 1, "as above: writes of one byte, alternating, all but one byte; each operation interrupted" => { values!(write, Plan::short()) }
    h_c18_read_fault, 2, "10 types, one shape each (9 variants), symbolic values: each operation fails with one of 6 kinds or ends the stream; complete or single-byte reads" => { values!(read, Plan::fault()) }
    h_c18_read_short, 1, "as above: reads of one byte, alternating, all but one byte; each operation interrupted" => { values!(read, Plan::short()) }
    h_c18_skip, 2, "skipping a map, struct, list and double from a stream: each operation fails, is short or interrupted" => {
        let p = if choose(2) == 0 { Plan::fault() } else { Plan::short() };
        let mut i = Reader(Stream::new(UNKNOWN), p);
        let r = Inner::read_thrift(&mut i);
        if i.1.fired {
            check!(rcode(&r) == i.1.code(EOF), "a failed read does not surface as that error");
            reach(0);
        } else {
            check!(matches!(&r, Ok(v) if v.x == 1 && v.y.is_none()), "short or interrupted reads change the decoded value");
            check!(i.0.p == UNKNOWN.len(), "short or interrupted reads change what is consumed");
            reach(1);
        }
    }
    h_c18_prims, 2, "each write operation of the output interface: each operation fails, is short or interrupted" => {
        let p = if choose(2) == 0 { Plan::fault() } else { Plan::short() };
        let mut want = Out::new();
        let mut w = Writer(Out::new(), p);
        let r = match choose(8) {
            0 => { let v = nd8(); want.byte(v); w.write_byte(v) }
            1 => { let v = nd16(); want.varint(v as u64); w.write_len(v as usize) }
            2 => { let v = nd16() as i16; want.zz(v as i64); w.write_i16(v) }
            3 => { let v = nd32() as i32; want.zz(v as i64); w.write_i32(v) }
            4 => { let v = nd64() as i64; want.zz(v); w.write_i64(v) }
            5 => { let v = nd64(); want.double(v); w.write_double(f64::from_bits(v)) }
            6 => { let v = bytes(4); want.binary(&v); w.write_binary(&v) }
            _ => {
                let v = long_list();
                want.list(3, 20);
                for x in &v { want.byte(*x as u8) }
                v.write_thrift(&mut w)
            }
        };
        if w.1.fired {
            check!(rcode(&r) == w.1.code(101), "a failed write does not surface as that error");
            check!(w.0.n <= want.n && same(w.0.as_slice(), &want.b[..w.0.n]), "what was written before a fault is no prefix of the encoding");
            reach(0);
        } else {
            check!(r.is_ok(), "encoding fails although no operation failed");
            check!(same(w.0.as_slice(), want.as_slice()), "short or interrupted writes change the encoding");
            reach(1);
        }
    }
}
