use crate::{check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;
use std::borrow::Cow;
use std::io::{Read, Write};

const MB: usize = 16 * 1024 * 1024;
const MC: usize = 10_000_000;

/// counts the bytes without looking at them
struct Count(u64);
impl Write for Count {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        self.0 += d.len() as u64;
        Ok(d.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// a slice of any length, whose contents nothing may look at
fn fake(n: usize) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(64 as *const u8, n) }
}

fn refused(r: Result<(), ThriftError>, c: &Count, n: usize) {
    if n > MB {
        check!(matches!(r, Err(ThriftError::InvalidBinaryLen(_))), "a binary value above 16 MiB is not refused by the writer");
        check!(c.0 == 0, "bytes of a refused binary value are written");
        reach(0);
    } else {
        check!(r.is_ok(), "a binary value of at most 16 MiB is refused by the writer");
        let h = if n < 128 { 1 } else if n < 1 << 14 { 2 } else if n < 1 << 21 { 3 } else { 4 };
        check!(c.0 == n as u64 + h, "a binary value is not written completely");
        reach(1);
    }
}

/// an element that fails, so that only the header is written or read
#[derive(Default)]
struct Zero;
impl<'i> CompactThriftProtocol<'i> for Zero {
    const FIELD_TYPE: u8 = 6;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, _: &mut T) -> Result<(), ThriftError> {
        Err(ThriftError::MissingValue)
    }
    fn write_thrift<T: CompactThriftOutput>(&self, _: &mut T) -> Result<(), ThriftError> {
        Err(ThriftError::MissingValue)
    }
}

fn big<V: for<'x> CompactThriftProtocol<'x> + Default>(n: usize) {
    assume(n > MC && n <= isize::MAX as usize / std::mem::size_of::<V>());
    let v: Vec<V> = unsafe { Vec::from_raw_parts(64 as *mut V, n, n) };
    let mut c = Count(0);
    let r = v.write_thrift(&mut c);
    std::mem::forget(v);
    check!(matches!(r, Err(ThriftError::InvalidCollectionLen)), "a list above 10,000,000 entries is not refused by the writer");
    check!(c.0 == 0, "bytes of a refused list are written");
}

/// an endless stream behind a few bytes
struct Endless<'a>(Stream<'a>);
impl<'a> Read for Endless<'a> {
    fn read(&mut self, d: &mut [u8]) -> std::io::Result<usize> {
        if self.0.p < self.0.b.len() {
            return self.0.read(d);
        }
        // the contents do not matter and are left as they are
        Ok(d.len())
    }
}

/// an announced length in the shortest form, or with padding
fn announce(o: &mut Sink<24>, n: u64) {
    if choose(2) == 0 {
        o.varint(n)
    } else {
        for i in 0..9 {
            o.byte((n >> (7 * i)) as u8 | 128);
        }
        o.byte((n >> 63) as u8);
    }
}

fn collection<V: for<'x> CompactThriftProtocol<'x> + Default>(n: u64, stream: bool, err: u64) {
    let mut o = Sink::<24>::new();
    o.byte(0xf0 | V::FIELD_TYPE);
    announce(&mut o, n);
    let mut v: Vec<V> = Vec::new();
    alloc_cap(if n > MC as u64 { 4096 } else { 0 });
    let (r, used) = if stream {
        let mut i = Stream::new(o.as_slice());
        (v.fill_thrift(&mut i), i.p)
    } else {
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        (v.fill_thrift(&mut i), o.n - i.as_slice().len())
    };
    alloc_cap(0);
    if n > MC as u64 {
        check!(matches!(r, Err(ThriftError::InvalidCollectionLen)), "a list above 10,000,000 entries is not refused by the reader");
        check!(used == o.n, "more than the length of a refused list is consumed");
        reach(0);
    } else if n == 0 {
        check!(r.is_ok(), "an empty list is refused");
    } else {
        check!(rcode(&r) == err, "a list of at most 10,000,000 entries is refused by the reader");
        reach(1);
    }
}

entries! {
    h_c13_write, 2, "write_binary and write_string of every length" => {
        let n = nd64() as usize;
        assume(n <= isize::MAX as usize);
        let mut c = Count(0);
        let r = if choose(2) == 0 {
            c.write_binary(fake(n))
        } else {
            c.write_string(unsafe { std::str::from_utf8_unchecked(fake(n)) })
        };
        refused(r, &c, n);
    }
    h_c13_types, 2, "Vec<u8>, String, Cow<[u8]>, Cow<str>, Box<str> of every length" => {
        let n = nd64() as usize;
        assume(n <= isize::MAX as usize && n > 0);
        let mut c = Count(0);
        let r = match choose(5) {
            0 => {
                let v = unsafe { Vec::from_raw_parts(64 as *mut u8, n, n) };
                let r = v.write_thrift(&mut c);
                std::mem::forget(v);
                r
            }
            1 => {
                let v = unsafe { String::from_raw_parts(64 as *mut u8, n, n) };
                let r = v.write_thrift(&mut c);
                std::mem::forget(v);
                r
            }
            2 => Cow::Borrowed(fake(n)).write_thrift(&mut c),
            3 => Cow::Borrowed(unsafe { std::str::from_utf8_unchecked(fake(n)) }).write_thrift(&mut c),
            _ => {
                let v: Box<str> = unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(64 as *mut u8, n) as *mut str) };
                let r = v.write_thrift(&mut c);
                std::mem::forget(v);
                r
            }
        };
        refused(r, &c, n);
    }
    h_c13_write_list, 3, "lists of every length above the limit (7 element types), header of lists of every length up to it" => {
        let n = nd64() as usize;
        match choose(8) {
            0 => big::<bool>(n),
            1 => big::<i8>(n),
            2 => big::<i64>(n),
            3 => big::<String>(n),
            4 => big::<Vec<u8>>(n),
            5 => big::<Vec<i32>>(n),
            6 => big::<f64>(n),
            _ => {
                let mut v: Vec<Zero> = Vec::new();
                unsafe { v.set_len(n) };
                let mut c = Count(0);
                let r = v.write_thrift(&mut c);
                std::mem::forget(v);
                if n > MC {
                    check!(matches!(r, Err(ThriftError::InvalidCollectionLen)), "a list above 10,000,000 entries is not refused by the writer");
                    check!(c.0 == 0, "bytes of a refused list are written");
                    reach(1);
                } else {
                    check!(if n > 0 { matches!(r, Err(ThriftError::MissingValue)) } else { r.is_ok() }, "a list of at most 10,000,000 entries is refused by the writer");
                    check!(c.0 > 0, "the list header is missing");
                    reach(2);
                }
                return;
            }
        }
        reach(0);
    }
    h_c13_read_slice, 2, "binary and string announced with every 64 bit length, both length encodings; slice of 64 MiB" => {
        let n = nd64();
        let mut o = Sink::<24>::new();
        announce(&mut o, n);
        // 64 MiB of which only the length is ever looked at
        let b = unsafe { std::slice::from_raw_parts(o.b.as_ptr(), 4 * MB) };
        let mut i = CompactThriftInputSlice::new(b);
        alloc_cap(if n > MB as u64 { 4096 } else { MB as u64 });
        let (r, l) = match choose(2) {
            0 => {
                let r = i.read_binary();
                let l = r.as_ref().map_or(0, |x| x.len());
                (r.map(|_| ()), l)
            }
            _ => (i.skip_binary(), n as usize),
        };
        alloc_cap(0);
        let used = b.len() - i.as_slice().len();
        if n > MB as u64 {
            check!(matches!(r, Err(ThriftError::InvalidBinaryLen(_))), "a binary value above 16 MiB is not refused by the reader");
            check!(used == o.n, "more than the length of a refused binary value is consumed");
            reach(0);
        } else {
            check!(r.is_ok() && l == n as usize, "a binary value of at most 16 MiB is refused by the reader");
            check!(used == o.n + n as usize, "a binary value is not consumed exactly");
            reach(1);
        }
    }
    h_c13_read_stream, 2, "binary announced with every 64 bit length, both length encodings; endless stream" => {
        let n = nd64();
        let mut o = Sink::<24>::new();
        announce(&mut o, n);
        let mut i = Endless(Stream::new(o.as_slice()));
        alloc_cap(if n > MB as u64 { 4096 } else { MB as u64 });
        let r = i.read_binary().map(|x| x.len());
        alloc_cap(0);
        if n > MB as u64 {
            check!(matches!(r, Err(ThriftError::InvalidBinaryLen(_))), "a binary value above 16 MiB is not refused by the reader");
            check!(i.0.p == o.n, "more than the length of a refused binary value is consumed");
            reach(0);
        } else {
            check!(matches!(r, Ok(l) if l == n as usize), "a binary value of at most 16 MiB is refused by the reader");
            reach(1);
        }
    }
    h_c13_skip_stream, 2, "skipping binary announced with every 64 bit length; empty or endless stream" => {
        let n = nd64();
        let mut o = Sink::<24>::new();
        announce(&mut o, n);
        alloc_cap(if n > MB as u64 { 4096 } else { MB as u64 });
        let field = choose(2) == 0;
        let (r, p, eof) = if choose(2) == 0 {
            let mut i = Endless(Stream::new(o.as_slice()));
            let r = if field { i.skip_field(8) } else { i.skip_binary() };
            (r, i.0.p, false)
        } else {
            let mut i = Stream::new(o.as_slice());
            let r = if field { i.skip_field(8) } else { i.skip_binary() };
            (r, i.p, true)
        };
        alloc_cap(0);
        if n > MB as u64 {
            check!(matches!(r, Err(ThriftError::InvalidBinaryLen(_))), "a binary value above 16 MiB is not refused when skipping");
            check!(p == o.n, "more than the length of a refused binary value is consumed");
            reach(0);
        } else {
            check!(rcode(&r) == if eof && n > 0 { EOF } else { 0 }, "skipping a binary value of at most 16 MiB fails");
            reach(1);
        }
    }
    h_c13_read_list, 2, "lists announced with every 64 bit length, both length encodings; 7 element types; both inputs" => {
        let n = nd64();
        let s = choose(2) == 0;
        match choose(8) {
            0 => collection::<i8>(n, s, EOF),
            1 => collection::<bool>(n, s, EOF),
            2 => collection::<i64>(n, s, EOF),
            3 => collection::<String>(n, s, EOF),
            4 => collection::<Vec<i32>>(n, s, EOF),
            5 => collection::<f64>(n, s, EOF),
            6 => collection::<Vec<u8>>(n, s, EOF),
            _ => collection::<Zero>(n, s, 6),
        }
    }
    h_c13_skip_list, 2, "skipping lists, sets and maps announced with every 64 bit length; all 16 element types; both inputs" => {
        let n = nd64();
        let ty = 9 + choose(3) as u8;
        let mut o = Sink::<24>::new();
        let e = nd8();
        if ty == 11 {
            announce(&mut o, n);
            o.byte(e);
        } else {
            o.byte(0xf0 | e);
            announce(&mut o, n);
        }
        alloc_cap(4096);
        let (r, used) = if choose(2) == 0 {
            let mut i = Stream::new(o.as_slice());
            (i.skip_field(ty), i.p)
        } else {
            let mut i = CompactThriftInputSlice::new(o.as_slice());
            (i.skip_field(ty), o.n - i.as_slice().len())
        };
        alloc_cap(0);
        if n > MC as u64 {
            check!(matches!(r, Err(ThriftError::InvalidCollectionLen)), "a collection above 10,000,000 entries is not refused when skipping");
            check!(used <= o.n, "more than the header is consumed");
            reach(0);
        } else {
            check!(!matches!(r, Err(ThriftError::InvalidCollectionLen)), "a collection of at most 10,000,000 entries is refused when skipping");
            reach(1);
        }
    }
    h_c13_headers, 2, "list and map headers announced with every 64 bit length, both length encodings" => {
        let n = nd64();
        let mut o = Sink::<24>::new();
        let e = nd8();
        let map = choose(2) == 0;
        let r = if map {
            announce(&mut o, n);
            o.byte(e);
            read_map_len_and_types(&mut CompactThriftInputSlice::new(o.as_slice())).map(|(l, k, v)| {
                check!(n == 0 || (k == e >> 4 && v == e & 15), "map header types are wrong");
                l
            })
        } else {
            o.byte(0xf0 | e);
            announce(&mut o, n);
            read_collection_len_and_type(&mut CompactThriftInputSlice::new(o.as_slice())).map(|(l, t)| {
                check!(t == e & 15, "list header type is wrong");
                l
            })
        };
        if n > MC as u64 {
            check!(matches!(r, Err(ThriftError::InvalidCollectionLen)), "a collection above 10,000,000 entries is not refused");
            reach(0);
        } else {
            check!(matches!(r, Ok(l) if l as u64 == n), "a collection of at most 10,000,000 entries is refused");
            reach(1);
        }
    }
}
