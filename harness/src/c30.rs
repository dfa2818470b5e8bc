use crate::{cases::*, check, disk::*, entries, spec::*, vp::*};
use compact_thrift_parquet::format::{ColumnChunk, FileMetaData, RowGroup};
use compact_thrift_parquet::{get_page_index_chunk, ParquetError};
use compact_thrift_runtime::*;
use std::mem::size_of;

/// A list that announces more elements than fit in memory, followed by some of them, by none, or by an
/// endless stream of zeros.
fn announced<V: for<'x> CompactThriftProtocol<'x> + Default>(limit: u64, n: u64, padded: bool) {
    let mut o = Sink::<40>::new();
    o.byte(0xf0 | V::FIELD_TYPE);
    if padded {
        for i in 0..4 {
            o.byte((n >> (7 * i)) as u8 | 128);
        }
        o.byte((n >> 28) as u8);
    } else {
        o.varint(n);
    }
    for _ in 0..2 {
        o.byte(0);
    }
    let b = o.as_slice();
    let mut v: Vec<V> = Vec::new();
    alloc_limit(limit);
    let r = match choose(2) {
        0 => v.fill_thrift(&mut CompactThriftInputSlice::new(b)),
        _ => v.fill_thrift(&mut Stream::new(b)),
    };
    alloc_limit(0);
    check!(r.is_err(), "a list is decoded although its elements are missing");
    if matches!(r, Err(ThriftError::ReserveError)) {
        check!(n * size_of::<V>() as u64 > limit / 2, "a list that fits in memory is refused");
    }
    reach(0);
    obs(rcode(&r));
}

/// the announced elements are all there, but memory is not
fn present<V: for<'x> CompactThriftProtocol<'x> + Default>(limit: u64, n: usize, et: u8) {
    let mut o = Box::new(Sink::<5100>::new());
    o.list(et, n);
    for _ in 0..n {
        o.byte(0);
    }
    let mut v: Vec<V> = Vec::new();
    let stream = choose(2) == 1;
    alloc_limit(limit);
    let r = if stream { v.fill_thrift(&mut Stream::new(o.as_slice())) } else { v.fill_thrift(&mut CompactThriftInputSlice::new(o.as_slice())) };
    alloc_limit(0);
    if (n * size_of::<V>()) as u64 > limit {
        check!(matches!(r, Err(ThriftError::ReserveError)), "a list that does not fit in memory is not refused for that reason");
        reach(0);
    } else if (n.max(8) * size_of::<V>()) as u64 * 2 <= limit {
        check!(r.is_ok() && v.len() == n, "a list that fits in memory is refused");
        reach(1);
    }
    obs(rcode(&r));
}

macro_rules! kinds {
    ($f:ident, $($a:expr),*) => {
        match choose(10) {
            0 => $f::<bool>($($a),*),
            1 => $f::<i8>($($a),*),
            2 => $f::<i32>($($a),*),
            3 => $f::<i64>($($a),*),
            4 => $f::<String>($($a),*),
            5 => $f::<Vec<u8>>($($a),*),
            6 => $f::<Vec<i32>>($($a),*),
            7 => $f::<Nested>($($a),*),
            8 => $f::<Option<Box<Inner>>>($($a),*),
            _ => $f::<Var>($($a),*),
        }
    };
}

entries! {
    h_c30_announced, 1, "lists of 10 element types of any announced size from 3 to 10,000,000, nothing but two zero bytes behind; allocations above 1 MiB, 64 KiB or 4 KiB fail; slice and stream" => {
        let n = nd64();
        assume(n <= 10_000_000 && n >= 3);
        let limit = [1 << 20, 1 << 16, 4096][choose(3) as usize];
        kinds!(announced, limit, n, true)
    }
    h_c30_short, 1, "as above, with the announced size in its shortest form" => {
        let n = nd64();
        assume(n <= 10_000_000 && n >= 15);
        kinds!(announced, 1 << 16, n, false)
    }
    h_c30_present, 2, "lists of 0, 1, 14, 15, 16, 100, 1000 or 5000 elements that are all there; allocations above 32, 256, 2048, 16384 or 131072 bytes fail" => {
        let n = [0, 1, 14, 15, 16, 100, 1000, 5000][choose(8) as usize];
        let limit = [32, 256, 2048, 16384, 131072][choose(5) as usize];
        match choose(8) {
            0 => present::<bool>(limit, n, 1 + choose(2) as u8),
            1 => present::<i8>(limit, n, 3),
            2 => present::<i16>(limit, n, 4),
            3 => present::<i64>(limit, n, 6),
            4 => present::<String>(limit, n, 8),
            5 => present::<Vec<u8>>(limit, n, 8),
            6 => present::<Opts>(limit, n, 12),
            _ => present::<Color>(limit, n, 5),
        }
    }
    h_c30_nested, 1, "a struct with a list of structs or of strings that does not fit in memory: the error of the list; lists within lists" => {
        let limit = 1 << 16;
        let n = nd64();
        assume(n >= 15 && n <= 10_000_000);
        let mut o = Sink::<40>::new();
        let k = choose(4);
        match k {
            0 => o.bytes(&[0x1c, 0x15, 0x02, 0x00, 0x29, 0xfc]),
            1 => o.bytes(&[0x19, 0x05, 0x19, 0xf8]),
            2 => o.bytes(&[0x13, 0x01, 0x29, 0xfc]),
            _ => o.bytes(&[0x29, 0xf9]),
        }
        for i in 0..4 {
            o.byte((n >> (7 * i)) as u8 | 128);
        }
        o.byte(0);
        let b = o.as_slice();
        alloc_limit(limit);
        let e = match k {
            0 => Nested::read_thrift(&mut CompactThriftInputSlice::new(b)).err(),
            1 => Lists::read_thrift(&mut CompactThriftInputSlice::new(b)).err(),
            2 => Tree::read_thrift(&mut CompactThriftInputSlice::new(b)).err(),
            _ => Vec::<Vec<Vec<i64>>>::read_thrift(&mut CompactThriftInputSlice::new(b)).err(),
        };
        alloc_limit(0);
        match e {
            None => fail("a list is decoded although its elements are missing"),
            Some(e) => {
                obs(ecode(&e));
                reach(0)
            }
        }
    }
    h_c30_file, 2, "a page index range of any size, of which the file contains nothing or as many zeros; allocations above 64 KiB fail" => {
        let (oo, ol, co, cl) = (nd64() as i64, 100, nd64() as i64, nd32() as i32);
        assume(oo >= 0 && co >= oo && cl >= 0);
        let m = FileMetaData {
            row_groups: vec![RowGroup {
                columns: vec![ColumnChunk { offset_index_offset: Some(oo), offset_index_length: Some(ol), column_index_offset: Some(co), column_index_length: Some(cl), ..Default::default() }],
                ..Default::default()
            }],
            ..Default::default()
        };
        let mut d = Disk::new(&[]);
        if choose(2) == 1 {
            d.len = u64::MAX;
        }
        let big = (oo as u64 + ol as u64).max(co as u64 + cl as u64) - (oo as u64) > 65536;
        alloc_limit(65536);
        let r = get_page_index_chunk(&mut d, &m);
        alloc_limit(0);
        match &r {
            Ok(v) => {
                check!(!big, "harness: a range that does not fit in memory is returned");
                obs(v.is_some() as u64);
                reach(0);
            }
            Err(ParquetError::Thrift(ThriftError::ReserveError)) => {
                check!(big, "a range that fits in memory is refused");
                reach(1);
            }
            Err(_) => {}
        }
    }
}
