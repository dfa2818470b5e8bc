use crate::{check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

/// writes `v` as the library does and compares with the specification; reads it back both ways
fn roundtrip<V>(v: V, spec: &Sink<16>, id: impl Fn(&V) -> u64)
where
    V: for<'x> CompactThriftProtocol<'x> + Default,
{
    let mut out = Sink::<16>::new();
    check!(v.write_thrift(&mut out).is_ok(), "writing an integer failed");
    check!(same(out.as_slice(), spec.as_slice()), "encoding of an integer differs from the specification");
    // whatever follows must stay unread
    let tail = range(0, 1);
    let n = out.n;
    for _ in 0..tail {
        out.byte(nd8());
    }
    let mut inp = CompactThriftInputSlice::new(out.as_slice());
    match V::read_thrift(&mut inp) {
        Ok(w) => {
            check!(id(&w) == id(&v), "decoded integer differs from the encoded one");
            obs(id(&w));
        }
        Err(_) => fail("decoding an encoded integer failed"),
    }
    check!(inp.as_slice().len() == tail, "decoding consumed more or less than the encoding");
    let mut st = Stream::new(out.as_slice());
    match V::read_thrift(&mut st) {
        Ok(w) => check!(id(&w) == id(&v), "integer decoded from a stream differs from the encoded one"),
        Err(_) => fail("decoding an encoded integer from a stream failed"),
    }
    check!(st.p == n, "decoding from a stream consumed more or less than the encoding");
    reach(n as u32);
}

/// the same through the methods of the input and output interfaces
fn methods(ty: u32, v: i64) {
    let mut out = Sink::<16>::new();
    let r = match ty {
        0 => out.write_i16(v as i16),
        1 => out.write_i32(v as i32),
        _ => out.write_i64(v),
    };
    check!(r.is_ok(), "writing an integer failed");
    let mut spec = Sink::<16>::new();
    spec.zz(v);
    check!(same(out.as_slice(), spec.as_slice()), "encoding of an integer differs from the specification");
    let mut inp = CompactThriftInputSlice::new(out.as_slice());
    let w = match ty {
        0 => inp.read_i16().map(|x| x as i64),
        1 => inp.read_i32().map(|x| x as i64),
        _ => inp.read_i64(),
    };
    check!(matches!(w, Ok(w) if w == v), "decoded integer differs from the encoded one");
    check!(inp.as_slice().is_empty(), "decoding consumed more or less than the encoding");
    reach(out.n as u32);
}

entries! {
    h_c01_i8, 1, "all 2^8 values" => {
        let v = nd8() as i8;
        let mut s = Sink::new();
        s.byte(v as u8);
        roundtrip(v, &s, |x| *x as u64);
    }
    h_c01_i16, 3, "all 2^16 values" => {
        let v = nd16() as i16;
        let mut s = Sink::new();
        s.zz(v as i64);
        roundtrip(v, &s, |x| *x as u64);
    }
    h_c01_i32, 5, "all 2^32 values" => {
        let v = nd32() as i32;
        let mut s = Sink::new();
        s.zz(v as i64);
        roundtrip(v, &s, |x| *x as u64);
    }
    h_c01_i64, 10, "all 2^64 values" => {
        let v = nd64() as i64;
        let mut s = Sink::new();
        s.zz(v);
        roundtrip(v, &s, |x| *x as u64);
    }
    h_c01_methods, 10, "all values of i16, i32 and i64 through read_*/write_*" => {
        match choose(3) {
            0 => methods(0, nd16() as i16 as i64),
            1 => methods(1, nd32() as i32 as i64),
            _ => methods(2, nd64() as i64),
        }
    }
    h_c01_len, 10, "all 2^64 unsigned lengths" => {
        let v = nd64();
        let mut s = Sink::<16>::new();
        s.varint(v);
        let mut out = Sink::<16>::new();
        check!(out.write_len(v as usize).is_ok(), "writing a length failed");
        check!(same(out.as_slice(), s.as_slice()), "encoding of a length differs from the specification");
        out.byte(nd8());
        let mut inp = CompactThriftInputSlice::new(out.as_slice());
        check!(matches!(inp.read_len(), Ok(w) if w as u64 == v), "decoded length differs from the encoded one");
        check!(inp.as_slice().len() == 1, "decoding consumed more or less than the encoding");
        let mut st = Stream::new(out.as_slice());
        check!(matches!(st.read_len(), Ok(w) if w as u64 == v), "length decoded from a stream differs");
        check!(st.p == s.n, "decoding from a stream consumed more or less than the encoding");
        reach(s.n as u32);
    }
}
