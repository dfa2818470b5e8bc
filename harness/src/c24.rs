use crate::{check, entries, spec::*, vp::*};
use compact_thrift_parquet::format::*;
use compact_thrift_parquet::EncodingSet;
use compact_thrift_runtime::*;
use std::marker::PhantomData;

type Out = Sink<600>;

/// The scalars of an encoding, in order.
struct Tape {
    v: [u64; 160],
    n: usize,
    r: usize,
}
impl Tape {
    fn new() -> Self {
        Tape { v: [0; 160], n: 0, r: 0 }
    }
    fn push(&mut self, x: u64) -> u64 {
        self.v[self.n] = x;
        self.n += 1;
        x
    }
    fn pop(&mut self) -> u64 {
        self.r += 1;
        self.v[self.r - 1]
    }
}

/// A type of the published definition.
trait W {
    const T: u8;
    /// any value; `wide`: over the whole range
    fn put(o: &mut Out, t: &mut Tape, wide: bool);
}
/// A member that may hold a value of that type.
trait Like<X> {
    fn like(&self, t: &mut Tape) -> bool;
}
/// whether an optional member has no value
trait Gone {
    fn gone(&self) -> bool {
        true
    }
}
impl<T> Gone for Option<T> {
    fn gone(&self) -> bool {
        self.is_none()
    }
}
impl<T> Gone for Vec<T> {}
impl<T> Gone for Box<T> {}

struct I8;
struct I16;
struct I32;
struct I64;
struct Dbl;
struct Bool;
struct Bin;
struct Str;
struct Encs;
struct List<X>(PhantomData<X>);
struct M<S>(PhantomData<S>);

macro_rules! ints {
    ($($w:ident $t:literal $b:literal),*) => { $(impl W for $w {
        const T: u8 = $t;
        fn put(o: &mut Out, t: &mut Tape, wide: bool) {
            if $t == 3 {
                let x = nd8();
                o.byte(x);
                t.push(x as i8 as u64);
            } else {
                let x = if !wide { small() } else if $b == 16 { nd16() as i16 as i64 } else if $b == 32 { nd32() as i32 as i64 } else { nd64() as i64 };
                t.push(x as u64);
                o.zz(x);
            }
        }
    })* };
}
ints!(I8 3 8, I16 4 16, I32 5 32, I64 6 64);
impl W for Dbl {
    const T: u8 = 7;
    fn put(o: &mut Out, t: &mut Tape, _: bool) {
        let x = nd64();
        // a NaN never equals itself when an encoding is compared, but its bits do
        o.double(t.push(x));
    }
}
impl W for Bool {
    const T: u8 = 1;
    fn put(o: &mut Out, t: &mut Tape, _: bool) {
        let x = ndb();
        t.push(x as u64);
        o.byte(2 - x as u8);
    }
}
impl W for Bin {
    const T: u8 = 8;
    fn put(o: &mut Out, t: &mut Tape, _: bool) {
        o.byte(2);
        for _ in 0..2 {
            let x = nd8();
            o.byte(t.push(x as u64) as u8);
        }
    }
}
impl W for Str {
    const T: u8 = 8;
    fn put(o: &mut Out, t: &mut Tape, _: bool) {
        o.byte(2);
        for _ in 0..2 {
            let x = nd8() & 127;
            o.byte(t.push(x as u64) as u8);
        }
    }
}
impl W for Encs {
    const T: u8 = 9;
    fn put(o: &mut Out, t: &mut Tape, _: bool) {
        o.list(5, 2);
        let (x, y) = (nd8(), nd8());
        assume(x < y && y <= 30);
        o.zz(t.push(x as u64) as i64);
        o.zz(t.push(y as u64) as i64);
    }
}
impl<X: W> W for List<X> {
    const T: u8 = 9;
    fn put(o: &mut Out, t: &mut Tape, _: bool) {
        // lists of booleans are written as type 2 (C12 covers type 1)
        o.list(if X::T == 1 { 2 } else { X::T }, 2);
        for _ in 0..2 {
            X::put(o, t, false);
        }
    }
}
impl<S: Msg> W for M<S> {
    const T: u8 = 12;
    fn put(o: &mut Out, t: &mut Tape, _: bool) {
        S::put(o, t, 0, 0);
    }
}

macro_rules! like_int {
    ($m:ty: $($w:ident)*) => { $(impl Like<$w> for $m {
        fn like(&self, t: &mut Tape) -> bool {
            t.pop() == *self as i64 as u64
        }
    })* };
}
macro_rules! like_ints {
    ($($m:ident),*) => { $(like_int!($m: I8 I16 I32 I64); impl Gone for $m {})* };
}
like_ints!(i8, i16, i32, i64);
macro_rules! like_enums {
    ($($m:ident),*) => { $(impl Like<I32> for $m {
        fn like(&self, t: &mut Tape) -> bool {
            t.pop() == self.0 as i64 as u64
        }
    } impl Gone for $m {})* };
}
like_enums!(Type, ConvertedType, FieldRepetitionType, EdgeInterpolationAlgorithm, Encoding, CompressionCodec, PageType, BoundaryOrder);
impl Like<Dbl> for f64 {
    fn like(&self, t: &mut Tape) -> bool {
        t.pop() == self.to_bits()
    }
}
impl Gone for f64 {}
impl Like<Bool> for bool {
    fn like(&self, t: &mut Tape) -> bool {
        t.pop() == *self as u64
    }
}
impl Gone for bool {}
fn two(b: &[u8], t: &mut Tape) -> bool {
    let w = [t.pop() as u8, t.pop() as u8];
    same(b, &w)
}
impl Like<Bin> for Vec<u8> {
    fn like(&self, t: &mut Tape) -> bool {
        two(self, t)
    }
}
impl Like<Str> for Vec<u8> {
    fn like(&self, t: &mut Tape) -> bool {
        two(self, t)
    }
}
impl Like<Str> for String {
    fn like(&self, t: &mut Tape) -> bool {
        two(self.as_bytes(), t)
    }
}
impl Like<Bin> for String {
    fn like(&self, t: &mut Tape) -> bool {
        two(self.as_bytes(), t)
    }
}
impl Gone for String {}
impl Like<Encs> for EncodingSet {
    fn like(&self, t: &mut Tape) -> bool {
        let (x, y) = (t.pop() as i32, t.pop() as i32);
        let mut i = self.iter();
        self.len() == 2 && i.next() == Some(Encoding(x)) && i.next() == Some(Encoding(y))
    }
}
impl Gone for EncodingSet {}
impl<X: W, T: Like<X>> Like<List<X>> for Vec<T> {
    fn like(&self, t: &mut Tape) -> bool {
        self.len() == 2 && self[0].like(t) && self[1].like(t)
    }
}
impl<X, T: Like<X>> Like<X> for Option<T> {
    fn like(&self, t: &mut Tape) -> bool {
        match self {
            Some(x) => x.like(t),
            None => false,
        }
    }
}
impl<X, T: Like<X>> Like<X> for Box<T> {
    fn like(&self, t: &mut Tape) -> bool {
        (**self).like(t)
    }
}

/// every field at once
const ALL: i16 = -1;

/// A published structure.
trait Msg: Sized {
    /// (id, required)
    const F: &'static [(i16, bool)];
    /// the required fields but for `omit`, and `pick`
    fn put(o: &mut Out, t: &mut Tape, pick: i16, omit: i16);
    fn like(&self, t: &mut Tape, pick: i16) -> bool;
}

fn field<X: W>(o: &mut Out, t: &mut Tape, id: i16, last: &mut i16, wide: bool) {
    if X::T == 1 {
        let v = choose(2) == 1;
        t.push(v as u64);
        o.field(2 - v as u8, id, *last);
    } else {
        o.field(X::T, id, *last);
        X::put(o, t, wide);
    }
    *last = id;
}

macro_rules! req {
    (req) => { true };
    (opt) => { false };
}
/// structures of the published definition: id, required or optional, type and name of each field
macro_rules! st {
    ($($s:ident { $($id:literal $q:ident $w:ty, $m:ident;)* })*) => { $(
        impl Msg for $s {
            const F: &'static [(i16, bool)] = &[$(($id, req!($q))),*];
            #[allow(unused_variables, unused_mut)]
            fn put(o: &mut Out, t: &mut Tape, pick: i16, omit: i16) {
                let mut last = 0;
                $(if pick == $id || pick == ALL || (req!($q) && omit != $id) {
                    field::<$w>(o, t, $id, &mut last, pick == $id);
                })*
                o.stop();
            }
            #[allow(unused_variables, unused_mut)]
            fn like(&self, t: &mut Tape, pick: i16) -> bool {
                let mut ok = true;
                $(if req!($q) || pick == $id || pick == ALL {
                    ok &= Like::<$w>::like(&self.$m, t);
                } else {
                    ok &= self.$m.gone();
                })*
                ok
            }
        }
        impl Like<M<$s>> for $s {
            fn like(&self, t: &mut Tape) -> bool {
                Msg::like(self, t, 0)
            }
        }
        impl Gone for $s {}
    )* };
}
/// unions of the published definition
macro_rules! un {
    ($($s:ident { $($id:literal $w:ty, $m:ident;)* })*) => { $(
        impl Msg for $s {
            const F: &'static [(i16, bool)] = &[$(($id, false)),*];
            fn put(o: &mut Out, t: &mut Tape, pick: i16, _: i16) {
                let ids = [$($id),*];
                let k = if pick > 0 { pick } else { ids[choose(ids.len() as u32) as usize] };
                t.push(k as u64);
                $(if k == $id {
                    field::<$w>(o, t, $id, &mut 0, true);
                })*
                o.stop();
            }
            fn like(&self, t: &mut Tape, _: i16) -> bool {
                let k = t.pop();
                match self {
                    $($s::$m(x) => k == $id && Like::<$w>::like(x, t)),*
                }
            }
        }
        impl Like<M<$s>> for $s {
            fn like(&self, t: &mut Tape) -> bool {
                Msg::like(self, t, 0)
            }
        }
        impl Gone for $s {}
    )* };
}

// parquet.thrift of apache/parquet-format. The library leaves out two fields of ColumnMetaData,
// 3 path_in_schema and 10 index_page_offset.
st! {
    SizeStatistics {
        1 opt I64, unencoded_byte_array_data_bytes;
        2 opt List<I64>, repetition_level_histogram;
        3 opt List<I64>, definition_level_histogram;
    }
    BoundingBox {
        1 req Dbl, xmin;
        2 req Dbl, xmax;
        3 req Dbl, ymin;
        4 req Dbl, ymax;
        5 opt Dbl, zmin;
        6 opt Dbl, zmax;
        7 opt Dbl, mmin;
        8 opt Dbl, mmax;
    }
    GeospatialStatistics {
        1 opt M<BoundingBox>, bbox;
        2 opt List<I32>, geospatial_types;
    }
    Statistics {
        1 opt Bin, max;
        2 opt Bin, min;
        3 opt I64, null_count;
        4 opt I64, distinct_count;
        5 opt Bin, max_value;
        6 opt Bin, min_value;
        7 opt Bool, is_max_value_exact;
        8 opt Bool, is_min_value_exact;
    }
    StringType {}
    UUIDType {}
    MapType {}
    ListType {}
    EnumType {}
    DateType {}
    Float16Type {}
    NullType {}
    DecimalType {
        1 req I32, scale;
        2 req I32, precision;
    }
    MilliSeconds {}
    MicroSeconds {}
    NanoSeconds {}
    TimestampType {
        1 req Bool, isAdjustedToUTC;
        2 req M<TimeUnit>, unit;
    }
    TimeType {
        1 req Bool, isAdjustedToUTC;
        2 req M<TimeUnit>, unit;
    }
    IntType {
        1 req I8, bitWidth;
        2 req Bool, isSigned;
    }
    JsonType {}
    BsonType {}
    VariantType {
        1 opt I8, specification_version;
    }
    GeometryType {
        1 opt Str, crs;
    }
    GeographyType {
        1 opt Str, crs;
        2 opt I32, algorithm;
    }
    SchemaElement {
        1 opt I32, type_;
        2 opt I32, type_length;
        3 opt I32, repetition_type;
        4 req Str, name;
        5 opt I32, num_children;
        6 opt I32, converted_type;
        7 opt I32, scale;
        8 opt I32, precision;
        9 opt I32, field_id;
        10 opt M<LogicalType>, logicalType;
    }
    DataPageHeader {
        1 req I32, num_values;
        2 req I32, encoding;
        3 req I32, definition_level_encoding;
        4 req I32, repetition_level_encoding;
        5 opt M<Statistics>, statistics;
    }
    IndexPageHeader {}
    DictionaryPageHeader {
        1 req I32, num_values;
        2 req I32, encoding;
        3 opt Bool, is_sorted;
    }
    DataPageHeaderV2 {
        1 req I32, num_values;
        2 req I32, num_nulls;
        3 req I32, num_rows;
        4 req I32, encoding;
        5 req I32, definition_levels_byte_length;
        6 req I32, repetition_levels_byte_length;
        7 opt Bool, is_compressed;
        8 opt M<Statistics>, statistics;
    }
    SplitBlockAlgorithm {}
    XxHash {}
    Uncompressed {}
    BloomFilterHeader {
        1 req I32, numBytes;
        2 req M<BloomFilterAlgorithm>, algorithm;
        3 req M<BloomFilterHash>, hash;
        4 req M<BloomFilterCompression>, compression;
    }
    PageHeader {
        1 req I32, type_;
        2 req I32, uncompressed_page_size;
        3 req I32, compressed_page_size;
        4 opt I32, crc;
        5 opt M<DataPageHeader>, data_page_header;
        6 opt M<IndexPageHeader>, index_page_header;
        7 opt M<DictionaryPageHeader>, dictionary_page_header;
        8 opt M<DataPageHeaderV2>, data_page_header_v2;
    }
    KeyValue {
        1 req Str, key;
        2 opt Str, value;
    }
    SortingColumn {
        1 req I32, column_idx;
        2 req Bool, descending;
        3 req Bool, nulls_first;
    }
    PageEncodingStats {
        1 req I32, page_type;
        2 req I32, encoding;
        3 req I32, count;
    }
    ColumnMetaData {
        1 req I32, type_;
        2 req Encs, encodings;
        4 req I32, codec;
        5 req I64, num_values;
        6 req I64, total_uncompressed_size;
        7 req I64, total_compressed_size;
        8 opt List<M<KeyValue>>, key_value_metadata;
        9 req I64, data_page_offset;
        11 opt I64, dictionary_page_offset;
        12 opt M<Statistics>, statistics;
        13 opt List<M<PageEncodingStats>>, encoding_stats;
        14 opt I64, bloom_filter_offset;
        15 opt I32, bloom_filter_length;
        16 opt M<SizeStatistics>, size_statistics;
        17 opt M<GeospatialStatistics>, geospatial_statistics;
    }
    EncryptionWithFooterKey {}
    EncryptionWithColumnKey {
        1 req List<Str>, path_in_schema;
        2 opt Bin, key_metadata;
    }
    ColumnChunk {
        1 opt Str, file_path;
        2 req I64, file_offset;
        3 opt M<ColumnMetaData>, meta_data;
        4 opt I64, offset_index_offset;
        5 opt I32, offset_index_length;
        6 opt I64, column_index_offset;
        7 opt I32, column_index_length;
        8 opt M<ColumnCryptoMetaData>, crypto_metadata;
        9 opt Bin, encrypted_column_metadata;
    }
    RowGroup {
        1 req List<M<ColumnChunk>>, columns;
        2 req I64, total_byte_size;
        3 req I64, num_rows;
        4 opt List<M<SortingColumn>>, sorting_columns;
        5 opt I64, file_offset;
        6 opt I64, total_compressed_size;
        7 opt I16, ordinal;
    }
    TypeDefinedOrder {}
    PageLocation {
        1 req I64, offset;
        2 req I32, compressed_page_size;
        3 req I64, first_row_index;
    }
    OffsetIndex {
        1 req List<M<PageLocation>>, page_locations;
        2 opt List<I64>, unencoded_byte_array_data_bytes;
    }
    ColumnIndex {
        1 req List<Bool>, null_pages;
        2 req List<Bin>, min_values;
        3 req List<Bin>, max_values;
        4 req I32, boundary_order;
        5 opt List<I64>, null_counts;
        6 opt List<I64>, repetition_level_histograms;
        7 opt List<I64>, definition_level_histograms;
    }
    AesGcmV1 {
        1 opt Bin, aad_prefix;
        2 opt Bin, aad_file_unique;
        3 opt Bool, supply_aad_prefix;
    }
    AesGcmCtrV1 {
        1 opt Bin, aad_prefix;
        2 opt Bin, aad_file_unique;
        3 opt Bool, supply_aad_prefix;
    }
    FileMetaData {
        1 req I32, version;
        2 req List<M<SchemaElement>>, schema;
        3 req I64, num_rows;
        4 req List<M<RowGroup>>, row_groups;
        5 opt List<M<KeyValue>>, key_value_metadata;
        6 opt Str, created_by;
        7 opt List<M<ColumnOrder>>, column_orders;
        8 opt M<EncryptionAlgorithm>, encryption_algorithm;
        9 opt Bin, footer_signing_key_metadata;
    }
    FileCryptoMetaData {
        1 req M<EncryptionAlgorithm>, encryption_algorithm;
        2 opt Bin, key_metadata;
    }
}
un! {
    TimeUnit { 1 M<MilliSeconds>, MILLIS; 2 M<MicroSeconds>, MICROS; 3 M<NanoSeconds>, NANOS; }
    LogicalType {
        1 M<StringType>, STRING;
        2 M<MapType>, MAP;
        3 M<ListType>, LIST;
        4 M<EnumType>, ENUM;
        5 M<DecimalType>, DECIMAL;
        6 M<DateType>, DATE;
        7 M<TimeType>, TIME;
        8 M<TimestampType>, TIMESTAMP;
        10 M<IntType>, INTEGER;
        11 M<NullType>, UNKNOWN;
        12 M<JsonType>, JSON;
        13 M<BsonType>, BSON;
        14 M<UUIDType>, UUID;
        15 M<Float16Type>, FLOAT16;
        16 M<VariantType>, VARIANT;
        17 M<GeometryType>, GEOMETRY;
        18 M<GeographyType>, GEOGRAPHY;
    }
    BloomFilterAlgorithm { 1 M<SplitBlockAlgorithm>, BLOCK; }
    BloomFilterHash { 1 M<XxHash>, XXHASH; }
    BloomFilterCompression { 1 M<Uncompressed>, UNCOMPRESSED; }
    ColumnCryptoMetaData { 1 M<EncryptionWithFooterKey>, ENCRYPTION_WITH_FOOTER_KEY; 2 M<EncryptionWithColumnKey>, ENCRYPTION_WITH_COLUMN_KEY; }
    ColumnOrder { 1 M<TypeDefinedOrder>, TYPE_ORDER; }
    EncryptionAlgorithm { 1 M<AesGcmV1>, AES_GCM_V1; 2 M<AesGcmCtrV1>, AES_GCM_CTR_V1; }
}

/// a structure with its required fields and one other, or without one of the required
fn msg<S: Msg + Default + for<'x> CompactThriftProtocol<'x>>() {
    let f = S::F;
    // none, one or all of the fields
    let k = choose(f.len() as u32 + 2) as usize;
    let (pick, req) = if k == 0 { (0, false) } else if k > f.len() { (ALL, false) } else { f[k - 1] };
    let omit = req && choose(2) == 1;
    let mut o = Out::new();
    let mut t = Tape::new();
    S::put(&mut o, &mut t, if omit { 0 } else { pick }, if omit { pick } else { 0 });
    let mut i = CompactThriftInputSlice::new(o.as_slice());
    let r = S::read_thrift(&mut i);
    if omit {
        check!(r.is_err(), "a structure without a required field is accepted");
        return;
    }
    match r {
        Ok(v) => {
            check!(Msg::like(&v, &mut t, pick), "a published field is not decoded into its member");
            check!(i.as_slice().is_empty(), "a structure is not consumed exactly");
            let mut w = Out::new();
            check!(v.write_thrift(&mut w).is_ok(), "a structure cannot be written");
            check!(same(w.as_slice(), o.as_slice()), "a structure is not written by the published ids and types");
        }
        Err(_) => fail("a structure with all its required fields is rejected"),
    }
    reach(0);
}

/// each constant of an enumeration against its published number
macro_rules! en {
    ($e:ident $($c:ident $n:literal)*) => {{
        let v = nd32() as i32;
        let mut o = Out::new();
        o.zz(v as i64);
        match $e::read_thrift(&mut CompactThriftInputSlice::new(o.as_slice())) {
            Ok(x) => {
                check!(x.0 == v, "an enum value is not decoded to its number");
                $(check!((x == $e::$c) == (v == $n), "an enum constant has not its published number");)*
            }
            Err(_) => fail("an enum value is rejected"),
        }
        reach(0);
    }};
}

macro_rules! each {
    ($($s:ident)*) => {{
        const N: u32 = [$(stringify!($s)),*].len() as u32;
        let k = choose(N);
        let mut _i = 0;
        $(if k == _i { return msg::<$s>(); } _i += 1;)*
    }};
}

entries! {
    h_c24_enums, 1, "every 32 bit number against every constant of the 8 enumerations" => {
        match choose(8) {
            0 => en!(Type BOOLEAN 0 INT32 1 INT64 2 INT96 3 FLOAT 4 DOUBLE 5 BYTE_ARRAY 6 FIXED_LEN_BYTE_ARRAY 7),
            1 => en!(ConvertedType UTF8 0 MAP 1 MAP_KEY_VALUE 2 LIST 3 ENUM 4 DECIMAL 5 DATE 6 TIME_MILLIS 7 TIME_MICROS 8
                TIMESTAMP_MILLIS 9 TIMESTAMP_MICROS 10 UINT_8 11 UINT_16 12 UINT_32 13 UINT_64 14 INT_8 15 INT_16 16 INT_32 17 INT_64 18
                JSON 19 BSON 20 INTERVAL 21),
            2 => en!(FieldRepetitionType REQUIRED 0 OPTIONAL 1 REPEATED 2),
            3 => en!(EdgeInterpolationAlgorithm SPHERICAL 0 VINCENTY 1 THOMAS 2 ANDOYER 3 KARNEY 4),
            4 => en!(Encoding PLAIN 0 PLAIN_DICTIONARY 2 RLE 3 BIT_PACKED 4 DELTA_BINARY_PACKED 5 DELTA_LENGTH_BYTE_ARRAY 6
                DELTA_BYTE_ARRAY 7 RLE_DICTIONARY 8 BYTE_STREAM_SPLIT 9),
            5 => en!(CompressionCodec UNCOMPRESSED 0 SNAPPY 1 GZIP 2 LZO 3 BROTLI 4 LZ4 5 ZSTD 6 LZ4_RAW 7),
            6 => en!(PageType DATA_PAGE 0 INDEX_PAGE 1 DICTIONARY_PAGE 2 DATA_PAGE_V2 3),
            _ => en!(BoundaryOrder UNORDERED 0 ASCENDING 1 DESCENDING 2),
        }
    }
    h_c24_logical, 1, "annotations: every field and variant alone and all fields together, any scalar values" => {
        each!(StringType UUIDType MapType ListType EnumType DateType Float16Type NullType DecimalType MilliSeconds MicroSeconds NanoSeconds
            TimestampType TimeType IntType JsonType BsonType VariantType GeometryType GeographyType TimeUnit LogicalType)
    }
    h_c24_schema, 1, "schema elements: every field alone and all together, any scalar values" => { each!(SchemaElement KeyValue SortingColumn ColumnOrder TypeDefinedOrder) }
    h_c24_stats, 1, "statistics: every field alone and all together, any scalar values" => { each!(Statistics SizeStatistics BoundingBox GeospatialStatistics PageEncodingStats) }
    h_c24_pages, 1, "page and bloom filter headers: every field alone and all together, any scalar values" => {
        each!(DataPageHeader IndexPageHeader DictionaryPageHeader DataPageHeaderV2 PageHeader SplitBlockAlgorithm BloomFilterAlgorithm
            XxHash BloomFilterHash Uncompressed BloomFilterCompression BloomFilterHeader)
    }
    h_c24_columns, 1, "column chunks and row groups: every field alone and all together, any scalar values" => { each!(ColumnMetaData ColumnChunk RowGroup) }
    h_c24_index, 1, "page indexes: every field alone and all together, any scalar values" => { each!(PageLocation OffsetIndex ColumnIndex) }
    h_c24_crypto, 1, "encryption: every field and variant alone and all fields together, any scalar values" => {
        each!(EncryptionWithFooterKey EncryptionWithColumnKey ColumnCryptoMetaData AesGcmV1 AesGcmCtrV1 EncryptionAlgorithm FileCryptoMetaData)
    }
    h_c24_file, 1, "file metadata: every field alone and all together, any scalar values" => { each!(FileMetaData) }
    h_c24_left_out, 1, "the two published fields the library leaves out are skipped" => {
        let mut o = Out::new();
        let mut t = Tape::new();
        let mut l = 0;
        field::<I32>(&mut o, &mut t, 1, &mut l, false);
        field::<Encs>(&mut o, &mut t, 2, &mut l, false);
        field::<List<Str>>(&mut o, &mut Tape::new(), 3, &mut l, false);
        field::<I32>(&mut o, &mut t, 4, &mut l, false);
        for i in [5, 6, 7, 9] {
            field::<I64>(&mut o, &mut t, i, &mut l, false);
        }
        field::<I64>(&mut o, &mut Tape::new(), 10, &mut l, true);
        field::<I64>(&mut o, &mut t, 11, &mut l, false);
        o.stop();
        match ColumnMetaData::read_thrift(&mut CompactThriftInputSlice::new(o.as_slice())) {
            Ok(v) => check!(Msg::like(&v, &mut t, 11), "a published field is not decoded into its member"),
            Err(_) => fail("a structure with all its required fields is rejected"),
        }
        reach(0);
    }
}
