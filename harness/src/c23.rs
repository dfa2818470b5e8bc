use crate::{check, disk::*, entries, spec::*, vp::*};
use compact_thrift_parquet::format::{ColumnChunk, ColumnIndex, FileMetaData, OffsetIndex, RowGroup};
use compact_thrift_parquet::{get_page_index_chunk, read_page_index, ParquetError};
use compact_thrift_runtime::*;

type Buf = Sink<160>;

/// contents: symbolic, or a counter
#[derive(Clone, Copy)]
enum Fill {
    Any,
    Count(u8),
}
impl Fill {
    fn byte(&mut self) -> u8 {
        match self {
            Fill::Any => nd8(),
            Fill::Count(n) => {
                *n = n.wrapping_add(7);
                *n & 127
            }
        }
    }
}

fn offset_index<const N: usize>(o: &mut Sink<N>, f: &mut Fill, pages: usize) {
    o.field(9, 1, 0);
    o.list(12, pages);
    for _ in 0..pages {
        o.field(6, 1, 0);
        o.byte(f.byte() & 127);
        o.field(5, 2, 1);
        o.byte(f.byte() & 127);
        o.field(6, 3, 2);
        o.byte(f.byte() & 127);
        o.stop();
    }
    o.stop();
}

fn column_index<const N: usize>(o: &mut Sink<N>, f: &mut Fill, pages: usize) {
    o.field(9, 1, 0);
    o.list(1, pages);
    for _ in 0..pages {
        o.byte(1 + (f.byte() & 1));
    }
    for i in 2..4 {
        o.field(9, i, i - 1);
        o.list(8, pages);
        for _ in 0..pages {
            o.byte(1);
            o.byte(f.byte());
        }
    }
    o.field(5, 4, 3);
    o.byte(f.byte() & 127);
    o.stop();
}

fn column(oo: Option<i64>, ol: Option<i32>, co: Option<i64>, cl: Option<i32>) -> ColumnChunk {
    ColumnChunk { offset_index_offset: oo, offset_index_length: ol, column_index_offset: co, column_index_length: cl, ..Default::default() }
}

fn meta(groups: Vec<Vec<ColumnChunk>>) -> FileMetaData {
    FileMetaData { row_groups: groups.into_iter().map(|columns| RowGroup { columns, ..Default::default() }).collect(), ..Default::default() }
}

type Index = Vec<Vec<Option<(OffsetIndex, ColumnIndex)>>>;

/// the part of the chunk that is announced
fn part(chunk: &[u8], at: u64, offset: i64, length: i32) -> Option<&[u8]> {
    if offset < 0 || length < 0 || (offset as u64) < at {
        return None;
    }
    let s = offset as u64 - at;
    let n = chunk.len() as u64;
    if s > n || length as u64 > n - s {
        return None;
    }
    let s = concrete(s) as usize;
    let l = concrete(length as u64) as usize;
    Some(&chunk[s..s + l])
}

fn decode<'i, V: CompactThriftProtocol<'i> + Default>(b: &'i [u8]) -> Option<V> {
    V::read_thrift(&mut CompactThriftInputSlice::new(b)).ok()
}

/// one column against the decoding of the announced parts
fn one(chunk: &[u8], at: u64, oo: i64, ol: i32, co: i64, cl: i32) {
    let m = meta(vec![vec![column(Some(oo), Some(ol), Some(co), Some(cl))]]);
    let r = read_page_index(chunk, at as usize, &m);
    let (a, b) = (part(chunk, at, oo, ol), part(chunk, at, co, cl));
    match (a, b) {
        (Some(a), Some(b)) => match (decode::<OffsetIndex>(a), decode::<ColumnIndex>(b)) {
            (Some(x), Some(y)) => {
                match &r {
                    Ok(v) => {
                        check!(v.len() == 1 && v[0].len() == 1, "there is not one entry per column");
                        match &v[0][0] {
                            Some((p, q)) => check!(*p == x && *q == y, "the indexes are decoded from other bytes"),
                            None => fail("no indexes for a column that has both"),
                        }
                    }
                    Err(_) => fail("indexes inside the chunk are rejected"),
                }
                reach(0);
            }
            _ => {
                check!(r.is_err(), "indexes are decoded from other bytes than those announced");
                reach(1);
            }
        },
        _ => {
            check!(r.is_err(), "an index outside the chunk is accepted");
            reach(2);
        }
    }
    if let Err(e) = &r {
        obs(pcode(e));
    }
}

/// a byte, an offset index, a byte, a column index, a byte: positions of the indexes
fn chunk(o: &mut Buf, mut f: Fill) -> [usize; 4] {
    o.byte(f.byte());
    let a = o.n;
    offset_index(o, &mut f, 1);
    let b = o.n;
    o.byte(f.byte());
    let c = o.n;
    column_index(o, &mut f, 1);
    let d = o.n;
    o.byte(f.byte());
    [a, b - a, c, d - c]
}

/// where the chunk starts in the file
fn start(room: usize) -> u64 {
    let at = nd64();
    assume(at <= i64::MAX as u64 - room as u64);
    at
}

entries! {
    h_c23_offset, 3, "a chunk of 27 bytes with both indexes at any position in the file; any offset and length of the offset index" => {
        let mut o = Buf::new();
        let p = chunk(&mut o, Fill::Count(0));
        let at = start(o.n);
        one(o.as_slice(), at, nd64() as i64, nd32() as i32, (at + p[2] as u64) as i64, p[3] as i32);
    }
    h_c23_column, 3, "as above; any offset and length of the column index" => {
        let mut o = Buf::new();
        let p = chunk(&mut o, Fill::Count(0));
        let at = start(o.n);
        one(o.as_slice(), at, (at + p[0] as u64) as i64, p[1] as i32, nd64() as i64, nd32() as i32);
    }
    h_c23_start, 2, "as above; any start of the chunk, also beyond 2^63, offsets as announced for another start" => {
        let mut o = Buf::new();
        let p = chunk(&mut o, Fill::Count(0));
        let at = start(o.n);
        let x = nd64();
        one(o.as_slice(), x, (at + p[0] as u64) as i64, p[1] as i32, (at + p[2] as u64) as i64, p[3] as i32);
        // reached below
        reach(1);
    }
    h_c23_both, 1, "an empty chunk or one of 3 bytes; any start, offsets and lengths" => {
        // an offset index
        let b = [0x19, 0x0c, 0x00];
        let n = [0, 3][choose(2) as usize];
        one(&b[..n], nd64(), nd64() as i64, nd32() as i32, nd64() as i64, nd32() as i32);
        reach(0);
    }
    h_c23_free, 2, "an offset index of 5 (thorough: 6) arbitrary bytes, or a column index that starts with 3 (thorough: 4) of them" => {
        let mut o = Buf::new();
        let first = choose(2) == 0;
        let n = if first { b(5, 6) } else { b(3, 4) };
        for _ in 0..n {
            o.byte(nd8());
        }
        if first {
            o.bytes(&[0x19, 0x01, 0x19, 0x08, 0x19, 0x08, 0x15, 0x02, 0x00]);
        } else {
            o.bytes(&[0x19, 0x08, 0x19, 0x08, 0x15, 0x02, 0x00]);
            o.bytes(&[0x19, 0x0c, 0x00]);
        }
        let at = start(o.n);
        let (x, y) = if first { (0..n, n..o.n) } else { (o.n - 3..o.n, 0..o.n - 3) };
        let m = meta(vec![vec![column(Some((at + x.start as u64) as i64), Some(x.len() as i32), Some((at + y.start as u64) as i64), Some(y.len() as i32))]]);
        let r = read_page_index(o.as_slice(), at as usize, &m);
        match (decode::<OffsetIndex>(&o.b[x]), decode::<ColumnIndex>(&o.b[y])) {
            (Some(x), Some(y)) => {
                check!(matches!(&r, Ok(v) if matches!(&v[0][0], Some((p, q)) if *p == x && *q == y)), "the indexes are decoded from other bytes");
                reach(0);
            }
            _ => {
                check!(r.is_err(), "an index that cannot be decoded is accepted");
                reach(1);
            }
        }
    }
    h_c23_lacking, 1, "two row groups of two columns and one column, each with all numbers, or without any of the four of which the others are any; symbolic contents" => {
        let mut o = Buf::new();
        let at = start(160);
        let mut pos = [[0; 4]; 3];
        for p in pos.iter_mut() {
            let n = o.n;
            offset_index(&mut o, &mut Fill::Any, 1);
            let b = o.n;
            column_index(&mut o, &mut Fill::Any, 1);
            *p = [n, b - n, b, o.n - b];
        }
        let mut cols = vec![];
        let mut gone = [false; 3];
        for (i, p) in pos.iter().enumerate() {
            let k = choose(6) as usize;
            gone[i] = k > 0;
            cols.push(match k {
                0 => column(Some((at + p[0] as u64) as i64), Some(p[1] as i32), Some((at + p[2] as u64) as i64), Some(p[3] as i32)),
                1 => column(None, Some(nd32() as i32), Some(nd64() as i64), Some(nd32() as i32)),
                2 => column(Some(nd64() as i64), None, Some(nd64() as i64), Some(nd32() as i32)),
                3 => column(Some(nd64() as i64), Some(nd32() as i32), None, Some(nd32() as i32)),
                4 => column(Some(nd64() as i64), Some(nd32() as i32), Some(nd64() as i64), None),
                _ => column(None, None, None, None),
            });
        }
        let c = cols.pop();
        let groups = vec![cols, c.into_iter().collect()];
        let r = read_page_index(o.as_slice(), at as usize, &meta(groups));
        match r {
            Ok(v) => {
                check!(v.len() == 2 && v[0].len() == 2 && v[1].len() == 1, "there is not one entry per row group and column");
                for i in 0..3 {
                    let p = pos[i];
                    let g = if i < 2 { &v[0][i] } else { &v[1][0] };
                    match g {
                        None => check!(gone[i], "no indexes for a column that has both"),
                        Some((x, y)) => {
                            check!(!gone[i], "indexes for a column that lacks one");
                            let (a, b) = (decode::<OffsetIndex>(&o.b[p[0]..p[0] + p[1]]), decode::<ColumnIndex>(&o.b[p[2]..p[2] + p[3]]));
                            check!(a.as_ref() == Some(x) && b.as_ref() == Some(y), "the indexes of another column");
                        }
                    }
                }
                reach(0);
            }
            Err(_) => fail("valid indexes are rejected"),
        }
    }
    h_c23_fails, 2, "two columns of which one announces any offset and length: an error if they do not lie inside the chunk, whichever column it is" => {
        let mut o = Buf::new();
        let p = chunk(&mut o, Fill::Count(0));
        let at = start(o.n);
        let good = column(Some((at + p[0] as u64) as i64), Some(p[1] as i32), Some((at + p[2] as u64) as i64), Some(p[3] as i32));
        let (oo, ol) = (nd64() as i64, nd32() as i32);
        let bad = column(Some(oo), Some(ol), good.column_index_offset, good.column_index_length);
        // an offset index only
        assume(part(o.as_slice(), at, oo, ol).is_none() || (oo as u64 == at + p[0] as u64 && ol == p[1] as i32));
        let m = match choose(4) {
            0 => meta(vec![vec![good, bad]]),
            1 => meta(vec![vec![bad, good]]),
            2 => meta(vec![vec![good], vec![bad]]),
            _ => meta(vec![vec![bad], vec![good]]),
        };
        let r: Result<Index, ParquetError> = read_page_index(o.as_slice(), at as usize, &m);
        if part(o.as_slice(), at, oo, ol).is_none() {
            check!(r.is_err(), "an index outside the chunk is accepted");
            reach(0);
        } else {
            check!(r.is_ok(), "indexes inside the chunk are rejected");
            reach(1);
        }
    }
    h_c23_shape, 2, "0 to 3 row groups of 0 to 2 columns (thorough: 0 to 3), each with or without indexes, of 0 to 2 pages each; the chunk starts at 0, 4, 2^40 or close to 2^63" => {
        let groups = range(0, 3);
        let mut o = Sink::<640>::new();
        let at = [0, 4, 1 << 40, i64::MAX as u64 - 640][choose(4) as usize];
        let mut f = Fill::Count(0);
        let mut gs = vec![];
        let mut pos = vec![];
        for _ in 0..groups {
            let n = range(0, b(2, 3));
            let mut cols = vec![];
            for _ in 0..n {
                let has = ndb();
                if has {
                    let pages = pos.len() % 3;
                    let x = o.n;
                    column_index(&mut o, &mut f, pages);
                    let y = o.n;
                    offset_index(&mut o, &mut f, 2 - pages);
                    pos.push([x, y, o.n]);
                    cols.push(column(Some((at + y as u64) as i64), Some((o.n - y) as i32), Some((at + x as u64) as i64), Some((y - x) as i32)));
                } else {
                    pos.push([0; 3]);
                    cols.push(column(None, None, None, None));
                }
            }
            gs.push(cols);
        }
        let m = meta(gs);
        let r = read_page_index(o.as_slice(), at as usize, &m);
        match r {
            Err(_) => fail("valid indexes are rejected"),
            Ok(v) => {
                check!(v.len() == groups, "there is not one entry per row group");
                let mut i = 0;
                for (g, w) in m.row_groups.iter().zip(&v) {
                    check!(g.columns.len() == w.len(), "there is not one entry per column");
                    for x in w {
                        let [c, d, e] = pos[i];
                        i += 1;
                        match x {
                            None => check!(e == 0, "no indexes for a column that has both"),
                            Some((x, y)) => {
                                check!(e > 0, "indexes for a column that lacks both");
                                check!(decode::<OffsetIndex>(&o.b[d..e]).as_ref() == Some(x), "another offset index");
                                check!(decode::<ColumnIndex>(&o.b[c..d]).as_ref() == Some(y), "another column index");
                            }
                        }
                    }
                }
                check!(i == pos.len(), "there is not one entry per column");
                reach((i > 0) as u32);
            }
        }
    }
    h_c23_pages, 1, "one column with 13 to 17, 127 to 130 or 300 pages; some symbolic contents; the page index read from a file of that contents, by its metadata" => {
        let pages = match choose(3) { 0 => range(13, 17), 1 => range(127, 130), _ => 300 };
        let mut o = Sink::<4096>::new();
        o.byte(nd8());
        let x = o.n;
        column_index(&mut o, &mut Fill::Count(0), pages);
        let y = o.n;
        offset_index(&mut o, &mut Fill::Count(3), pages);
        let z = o.n;
        o.byte(nd8());
        let m = meta(vec![vec![column(None, None, None, None), column(Some(y as i64), Some((z - y) as i32), Some(x as i64), Some((y - x) as i32))]]);
        let mut d = Disk::new(o.as_slice());
        d.whole = true;
        let (chunk, range) = match get_page_index_chunk(&mut d, &m) {
            Ok(Some(v)) => v,
            _ => fail("the page index cannot be read"),
        };
        check!(range == (x..z), "another range");
        let v = match read_page_index(&chunk, range.start, &m) {
            Ok(v) => v,
            Err(_) => fail("valid indexes are rejected"),
        };
        check!(v.len() == 1 && v[0].len() == 2 && v[0][0].is_none(), "there is not one entry per row group and column");
        match &v[0][1] {
            Some((p, q)) => {
                check!(p.page_locations.len() == pages && q.null_pages.len() == pages && q.min_values.len() == pages, "another number of pages");
                check!(decode::<OffsetIndex>(&o.b[y..z]).as_ref() == Some(p), "another offset index");
                check!(decode::<ColumnIndex>(&o.b[x..y]).as_ref() == Some(q), "another column index");
            }
            None => fail("no indexes for a column that has both"),
        }
        reach(0);
    }
    h_c23_many, 2, "13 to 17, 127 to 130, 254 to 258 or 300 row groups of one column, or that many columns in one row group; the first, two consecutive ones anywhere among them and the last have indexes" => {
        let n = match choose(4) { 0 => range(13, 17), 1 => range(127, 130), 2 => range(254, 258), _ => 300 };
        let groups = choose(2) == 0;
        let p = [0, n / 2, n - 3, n - 2][choose(4) as usize];
        let mut o = Sink::<640>::new();
        let mut f = Fill::Count(0);
        o.byte(f.byte());
        let mut pos = vec![];
        let mut cols = vec![];
        for i in 0..n {
            if i == 0 || i == p || i == p + 1 || i == n - 1 {
                let x = o.n;
                column_index(&mut o, &mut f, 1);
                let y = o.n;
                offset_index(&mut o, &mut f, 1);
                pos.push([x, y, o.n]);
                cols.push(column(Some(y as i64), Some((o.n - y) as i32), Some(x as i64), Some((y - x) as i32)));
            } else {
                pos.push([0; 3]);
                cols.push(column(None, None, None, None));
            }
        }
        let m = meta(if groups { cols.into_iter().map(|c| vec![c]).collect() } else { vec![cols] });
        let v = match read_page_index(o.as_slice(), 0, &m) {
            Ok(v) => v,
            Err(_) => fail("valid indexes are rejected"),
        };
        check!(v.len() == m.row_groups.len(), "there is not one entry per row group");
        let mut i = 0;
        for (g, w) in m.row_groups.iter().zip(&v) {
            check!(g.columns.len() == w.len(), "there is not one entry per column");
            for x in w {
                let [c, d, e] = pos[i];
                i += 1;
                match x {
                    None => check!(e == 0, "no indexes for a column that has both"),
                    Some((x, y)) => {
                        check!(e > 0, "indexes for a column that lacks both");
                        check!(decode::<OffsetIndex>(&o.b[d..e]).as_ref() == Some(x), "another offset index");
                        check!(decode::<ColumnIndex>(&o.b[c..d]).as_ref() == Some(y), "another column index");
                    }
                }
            }
        }
        check!(i == n, "there is not one entry per column");
        reach(groups as u32);
    }
}
