use crate::{cases::*, check, entries, samples::*, spec::*, vp::*};
use compact_thrift_parquet::format::*;
use compact_thrift_parquet::EncodingSet;
use compact_thrift_runtime::*;

type Buf = Sink<400>;

fn encode<V: for<'x> CompactThriftProtocol<'x>>(v: &V) -> Buf {
    let mut o = Buf::new();
    if v.write_thrift(&mut o).is_err() {
        fail("a decoded value cannot be encoded");
    }
    o
}

/// what is decoded can be encoded, and decodes to the same again
fn again<V: for<'x> CompactThriftProtocol<'x> + Default>(b: &[u8], eq: impl Fn(&V, &V) -> bool) {
    step_limit(3_000_000);
    let v = match V::read_thrift(&mut CompactThriftInputSlice::new(b)) {
        Ok(v) => v,
        Err(_) => {
            reach(1);
            return;
        }
    };
    let e = encode(&v);
    let mut i = CompactThriftInputSlice::new(e.as_slice());
    let w = match V::read_thrift(&mut i) {
        Ok(w) => w,
        Err(_) => fail("the encoding of a decoded value cannot be decoded"),
    };
    check!(i.as_slice().is_empty(), "the encoding of a decoded value is longer than the value");
    check!(eq(&v, &w), "encoding and decoding changes a decoded value");
    let f = encode(&w);
    check!(same(e.as_slice(), f.as_slice()), "an equal value is encoded otherwise");
    obs(e.n as u64);
    reach(0);
}

fn any<V: for<'x> CompactThriftProtocol<'x> + Default, const N: usize>(eq: impl Fn(&V, &V) -> bool) {
    let mut buf = [0; N];
    let n = range(0, N);
    fill(&mut buf[..n]);
    again(&buf[..n], eq);
}

fn some<V: for<'x> CompactThriftProtocol<'x> + Default, const W: usize>(base: &[u8], eq: impl Fn(&V, &V) -> bool) {
    let mut buf = [0; 200];
    let n = base.len();
    buf[..n].copy_from_slice(base);
    let p = range(0, n - W);
    fill(&mut buf[p..p + W]);
    again(&buf[..n], eq);
}

fn pq<V: PartialEq>(a: &V, b: &V) -> bool {
    a == b
}
/// not a number differs from itself: the encodings are compared, too
fn enc(_: &GeospatialStatistics, _: &GeospatialStatistics) -> bool {
    true
}

const L: usize = b(4, 6);
entries! {
    h_c33_scalars, 2, "a fixed Scalars encoding with any 2 consecutive bytes replaced by arbitrary ones" => {
        some::<Scalars, 2>(&[0x11, 0x13, 0x05, 0x14, 0x08, 0x15, 0x81, 0x02, 0x16, 0x07, 0x17, 1, 2, 3, 4, 5, 6, 7, 8, 0x18, 0x02, 0xff, 0x00, 0x18, 0x01, 0x61, 0x00], Case::eq)
    }
    h_c33_opts, 2, "Opts; 0 to 4 (thorough: 6) arbitrary bytes" => { any::<Opts, L>(Case::eq) }
    h_c33_gaps, 2, "fixed Gaps and Odd encodings (fields out of order, long form ids) with any 2 consecutive bytes replaced by arbitrary ones" => {
        if choose(2) == 0 {
            some::<Gaps, 2>(&[0x13, 0x05, 0xf3, 0x09, 0x11, 0x05, 0xd8, 0x04, 0x22, 0x02, 0x04, 0x03, 0xfe, 0xff, 0x03, 0x2a, 0x00], Case::eq)
        } else {
            some::<Odd, 2>(&[0x03, 0x09, 0x05, 0x03, 0xfd, 0xff, 0x03, 0x06, 0x11, 0x03, 0x00, 0x07, 0xf2, 0x13, 0x08, 0x00], Case::eq)
        }
    }
    h_c33_nested, 2, "a fixed Nested encoding with any 2 consecutive bytes replaced by arbitrary ones" => { some::<Nested, 2>(NESTED, Case::eq) }
    h_c33_lists, 2, "a fixed Lists encoding with any 2 consecutive bytes replaced by arbitrary ones" => { some::<Lists, 2>(LISTS, Case::eq) }
    h_c33_unknown, 2, "a fixed Inner encoding with unknown fields of all kinds and any 2 consecutive bytes replaced by arbitrary ones" => { some::<Inner, 2>(UNKNOWN, Case::eq) }
    h_c33_mixed, 2, "a fixed encoding of enums and unions with any 2 consecutive bytes replaced by arbitrary ones" => { some::<Mixed, 2>(MIXED, Case::eq) }
    h_c33_var, 2, "union; 0 to 5 (thorough: 6) arbitrary bytes" => { any::<Var, { b(5, 6) }>(Case::eq) }
    h_c33_wraps, 2, "a fixed Wraps encoding with any 2 consecutive bytes replaced by arbitrary ones" => { some::<Wraps, 2>(WRAPS, Case::eq) }
    h_c33_tree, 2, "recursive struct; 0 to 5 (thorough: 6) arbitrary bytes" => { any::<Tree, { b(5, 6) }>(Case::eq) }
    h_c33_bools, 2, "lists of booleans, bytes, integers and strings; 0 to 6 arbitrary bytes" => {
        match choose(5) {
            0 => any::<Vec<bool>, 6>(pq),
            1 => any::<Vec<i8>, 6>(pq),
            2 => any::<Vec<i32>, 6>(pq),
            3 => any::<Vec<String>, 6>(pq),
            _ => any::<Vec<Vec<i16>>, 6>(pq),
        }
    }
    h_c33_numbers, 2, "integers and lengths padded or too wide: 0 to 12 arbitrary bytes" => {
        match choose(3) {
            0 => any::<i16, 12>(pq),
            1 => any::<i32, 12>(pq),
            _ => any::<i64, 12>(pq),
        }
    }
    h_c33_file, 2, "a fixed FileMetaData encoding with any byte (thorough: 2 consecutive ones) replaced by arbitrary ones" => { some::<FileMetaData, { b(1, 2) }>(META, pq) }
    h_c33_page, 2, "a fixed PageHeader encoding with any 2 consecutive bytes replaced by arbitrary ones" => { some::<PageHeader, 2>(PAGE, pq) }
    h_c33_index, 2, "a fixed ColumnIndex encoding with any 2 consecutive bytes replaced by arbitrary ones" => { some::<ColumnIndex, 2>(INDEX, pq) }
    h_c33_logical, 2, "LogicalType; 0 to 5 (thorough: 6) arbitrary bytes" => { any::<LogicalType, { b(5, 6) }>(pq) }
    h_c33_encodings, 2, "EncodingSet; 0 to 3 (thorough: 5) arbitrary bytes" => { any::<EncodingSet, { b(3, 5) }>(pq) }
    h_c33_encset, 2, "a fixed EncodingSet encoding with any byte (thorough: 2 consecutive ones) replaced by arbitrary ones" => {
        some::<EncodingSet, { b(1, 2) }>(&[0x55, 0x06, 0x3c, 0x00, 0x86, 0x00, 0x10], pq)
    }
    h_c33_geo, 2, "a fixed GeospatialStatistics encoding with any 2 consecutive bytes replaced by arbitrary ones" => {
        some::<GeospatialStatistics, 2>(&[0x1c, 0x17, 0, 0, 0, 0, 0, 0, 0xf0, 0x3f, 0x17, 1, 2, 3, 4, 5, 6, 7, 8, 0x17, 0, 0, 0, 0, 0, 0, 0xf8, 0x7f, 0x17, 1, 1, 1, 1, 1, 1, 1, 1, 0x00, 0x19, 0x25, 0x02, 0x80, 0x01, 0x00], enc)
    }
}
