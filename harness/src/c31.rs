#![allow(dead_code, unused_imports)]
use crate::{check, disk::*, entries, spec::*, vp::*};

mod tool {
    // a binary
    include!("/repo/parquet/src/bin/schema.rs");
    pub fn convert(e: &[SchemaElement]) -> Option<SchemaField> {
        convert_schema(e).ok()
    }
}
use compact_thrift_parquet::format::*;
use compact_thrift_parquet::*;
use compact_thrift_runtime::*;

type File = Sink<1600>;

fn put<V: for<'x> CompactThriftProtocol<'x>>(f: &mut File, v: &V) -> (usize, usize) {
    let a = f.n;
    if v.write_thrift(f).is_err() {
        fail("a structure cannot be written");
    }
    (a, f.n - a)
}

fn leaf(name: &str, ty: i32, rep: i32) -> SchemaElement {
    SchemaElement { type_: Some(Type(ty)), name: name.into(), repetition_type: Some(FieldRepetitionType(rep)), ..Default::default() }
}
fn group(name: &str, kids: i32, rep: Option<i32>) -> SchemaElement {
    SchemaElement { name: name.into(), num_children: Some(kids), repetition_type: rep.map(FieldRepetitionType), ..Default::default() }
}

/// a number that takes one byte, or any
fn n64(w: bool) -> i64 {
    if w { nd64() as i64 } else { small() }
}
fn n32(w: bool) -> i32 {
    if w { nd32() as i32 } else { small() as i32 }
}

fn indexes(pages: usize, w: bool) -> (OffsetIndex, ColumnIndex) {
    let o = OffsetIndex {
        page_locations: (0..pages).map(|i| PageLocation { offset: n64(w && i == 0), compressed_page_size: i as i32, first_row_index: 100 * i as i64 }).collect(),
        unencoded_byte_array_data_bytes: if pages == 2 { Some(vec![1, n64(false)]) } else { None },
    };
    let c = ColumnIndex {
        null_pages: (0..pages).map(|i| if i < 2 || i + 1 == pages { ndb() } else { i % 3 == 0 }).collect(),
        min_values: (0..pages).map(|i| if i < 2 { vec![nd8(); i % 3] } else { vec![i as u8; i % 3] }).collect(),
        max_values: (0..pages).map(|i| if i < 2 { vec![nd8()] } else { vec![i as u8] }).collect(),
        boundary_order: BoundaryOrder(n32(false)),
        null_counts: if pages % 2 == 1 { Some(vec![n64(false); pages]) } else { None },
        ..Default::default()
    };
    (o, c)
}

fn column(i: usize, name: &str, w: bool) -> ColumnChunk {
    ColumnChunk {
        file_offset: n64(w),
        meta_data: Some(ColumnMetaData {
            type_: Type(i as i32),
            codec: CompressionCodec(n32(false)),
            num_values: 7,
            total_uncompressed_size: n64(w && i == 1),
            total_compressed_size: 300,
            data_page_offset: 4,
            dictionary_page_offset: if i == 1 { Some(n64(false)) } else { None },
            statistics: if i == 0 {
                Some(Statistics { null_count: Some(n64(false)), max_value: Some(name.as_bytes().to_vec()), is_max_value_exact: Some(ndb()), ..Default::default() })
            } else {
                None
            },
            encoding_stats: Some(vec![PageEncodingStats { page_type: PageType(0), encoding: Encoding(3), count: n32(false) }]),
            size_statistics: if i == 1 { Some(SizeStatistics { definition_level_histogram: Some(vec![1, 2, 3]), ..Default::default() }) } else { None },
            ..Default::default()
        }),
        ..Default::default()
    }
}

/// Writes a file of the given row groups, of which each column may have indexes, and reads it again.
fn file(groups: usize, cols: usize, pages: usize, w: bool, split: bool) {
    let mut f = Box::new(File::new());
    f.bytes(b"PAR1");
    f.bytes(&[nd8(), nd8()]);
    let mut m = FileMetaData {
        version: n32(w),
        schema: vec![group("schema", 2, None), leaf("a", 1, 1), group("l", 1, Some(2)), leaf("b", 6, 2)],
        num_rows: n64(w),
        created_by: if w { None } else { Some("x".into()) },
        key_value_metadata: if w { Some(vec![KeyValue { key: "k".into(), value: None }, KeyValue { key: "".into(), value: Some("v".into()) }]) } else { None },
        column_orders: Some(vec![ColumnOrder::TYPE_ORDER(TypeDefinedOrder {}); 2]),
        ..Default::default()
    };
    let mut want: Vec<Vec<Option<(OffsetIndex, ColumnIndex)>>> = vec![];
    for _ in 0..groups {
        let mut g = RowGroup { total_byte_size: n64(false), num_rows: 5, ordinal: Some(groups as i16), ..Default::default() };
        let mut ix = vec![];
        for i in 0..cols {
            g.columns.push(column(i, ["a", "b"][i % 2], w));
            ix.push(if choose(2) == 0 { Some(indexes(pages, false)) } else { None });
        }
        m.row_groups.push(g);
        want.push(ix);
    }
    // all column indexes first, as usual, or each next to its offset index
    if split {
        for (g, ix) in m.row_groups.iter_mut().zip(&want) {
            for (c, x) in g.columns.iter_mut().zip(ix) {
                if let Some((_, x)) = x {
                    let (p, n) = put(&mut f, x);
                    c.column_index_offset = Some(p as i64);
                    c.column_index_length = Some(n as i32);
                }
            }
        }
    }
    for (g, ix) in m.row_groups.iter_mut().zip(&want) {
        for (c, x) in g.columns.iter_mut().zip(ix) {
            if let Some((x, y)) = x {
                let (p, n) = put(&mut f, x);
                c.offset_index_offset = Some(p as i64);
                c.offset_index_length = Some(n as i32);
                if !split {
                    let (p, n) = put(&mut f, y);
                    c.column_index_offset = Some(p as i64);
                    c.column_index_length = Some(n as i32);
                }
            }
        }
    }
    let (_, n) = put(&mut f, &m);
    for i in 0..4 {
        f.byte((n >> (8 * i)) as u8);
    }
    f.bytes(b"PAR1");

    let mut d = Disk::new(f.as_slice());
    d.whole = true;
    let b = match get_metadata_chunk(&mut d) {
        Ok(b) => b,
        Err(_) => fail("the metadata of a file that was written cannot be read"),
    };
    let mut i = CompactThriftInputSlice::new(&b);
    let r = match FileMetaData::read_thrift(&mut i) {
        Ok(r) => r,
        Err(_) => fail("the metadata of a file that was written cannot be decoded"),
    };
    check!(i.as_slice().is_empty(), "the metadata ends before the footer");
    check!(r == m, "the metadata is not what was written");
    let t = match tool::convert(&r.schema) {
        Some(t) => t,
        None => fail("the schema of a file that was written cannot be converted"),
    };
    check!(t.name() == "schema" && matches!(t.find_field_by_path(&["a"]), Some(x) if x.definition_level() == 1 && x.repetition_level() == 0), "a column is lost");
    check!(matches!(t.find_field_by_path(&["l", "b"]), Some(x) if x.definition_level() == 2 && x.repetition_level() == 2), "a column is lost");
    check!(t.find_field_by_path(&["b"]).is_none(), "a column is somewhere else");
    let some = want.iter().any(|g| g.iter().any(|x| x.is_some()));
    match get_page_index_chunk(&mut d, &r) {
        Err(_) => fail("the page index of a file that was written cannot be read"),
        Ok(None) => {
            check!(!some, "there is no page index although it was written");
            reach(1);
        }
        Ok(Some((chunk, range))) => {
            check!(some, "there is a page index although none was written");
            match read_page_index(&chunk, range.start, &r) {
                Err(_) => fail("the page index of a file that was written cannot be decoded"),
                Ok(v) => check!(v == want, "the page index is not what was written"),
            }
            reach(0);
        }
    }
    obs(n as u64);
}

entries! {
    h_c31_file, 2, "files of 1 or 2 row groups of 1 or 2 columns, each with or without indexes of 1 page; symbolic numbers that take one byte; indexes in both usual arrangements" => {
        file(range(1, 2), range(1, 2), 1, false, choose(2) == 0)
    }
    h_c31_wide, 2, "a row group of 1 column; numbers of every width" => { file(1, 1, 1, true, false) }
    h_c31_pages, 2, "indexes of 0, 2, 3, 14, 15 or 16 pages" => { file(1, 1, [0, 2, 3, 14, 15, 16][choose(6) as usize], false, true) }
    h_c31_empty, 1, "files without row groups" => {
        file(0, 0, 0, true, false);
        reach(0);
    }
    h_c31_many, 2, "a row group of 20 columns without indexes but for two" => {
        let mut m = FileMetaData { schema: vec![group("s", 1, None), leaf("a", 1, 1)], ..Default::default() };
        let mut f = Box::new(File::new());
        f.bytes(b"PAR1");
        let (o, c) = indexes(1, false);
        let mut g = RowGroup::default();
        let k = choose(20) as usize;
        for i in 0..20 {
            let mut x = ColumnChunk { file_offset: i as i64, ..Default::default() };
            if i == k || i == 19 {
                let (p, n) = put(&mut f, &o);
                x.offset_index_offset = Some(p as i64);
                x.offset_index_length = Some(n as i32);
                let (p, n) = put(&mut f, &c);
                x.column_index_offset = Some(p as i64);
                x.column_index_length = Some(n as i32);
            }
            g.columns.push(x);
        }
        m.row_groups.push(g);
        let (_, n) = put(&mut f, &m);
        f.bytes(&(n as u32).to_le_bytes());
        f.bytes(b"PAR1");
        let mut d = Disk::new(f.as_slice());
        d.whole = true;
        let b = match get_metadata_chunk(&mut d) {
            Ok(b) => b,
            Err(_) => fail("the metadata of a file that was written cannot be read"),
        };
        let r = match FileMetaData::read_thrift(&mut CompactThriftInputSlice::new(&b)) {
            Ok(r) => r,
            Err(_) => fail("the metadata of a file that was written cannot be decoded"),
        };
        check!(r == m, "the metadata is not what was written");
        let v = match get_page_index_chunk(&mut d, &r) {
            Ok(Some((chunk, range))) => match read_page_index(&chunk, range.start, &r) {
                Ok(v) => v,
                Err(_) => fail("the page index of a file that was written cannot be decoded"),
            },
            _ => fail("the page index of a file that was written cannot be read"),
        };
        check!(v.len() == 1 && v[0].len() == 20, "there is not one entry per column");
        for (i, x) in v[0].iter().enumerate() {
            match x {
                None => check!(i != k && i != 19, "an index is lost"),
                Some((p, q)) => check!((i == k || i == 19) && *p == o && *q == c, "the page index is not what was written"),
            }
        }
        reach((k == 19) as u32);
    }
}
