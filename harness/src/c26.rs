#![allow(dead_code, unused_imports)]
use crate::{check, entries, spec::Sink, vp::*};
use compact_thrift_parquet::format as f;

// the code under test, a binary
include!("/repo/parquet/src/bin/schema.rs");

/// A logical type and its two parameters: precision and scale, bit width and signedness,
/// UTC flag and unit, or version.
type Lt = (u8, i64, i64);
const NONE: Lt = (0, 0, 0);

const STRING: u8 = 1;
const ENUM: u8 = 2;
const DECIMAL: u8 = 3;
const DATE: u8 = 4;
const TIME: u8 = 5;
const TIMESTAMP: u8 = 6;
const INTERVAL: u8 = 7;
const INTEGER: u8 = 8;
const UNKNOWN: u8 = 9;
const JSON: u8 = 10;
const BSON: u8 = 11;
const UUID: u8 = 12;
const FLOAT16: u8 = 13;
const GEOMETRY: u8 = 14;
const GEOGRAPHY: u8 = 15;
const LIST: u8 = 16;
const MAP: u8 = 17;
const MAP_KEY_VALUE: u8 = 18;
const VARIANT: u8 = 19;
const NO_VERSION: i64 = 1000;

fn time(t: &TimeOptions) -> (i64, i64) {
    let u = match t.time_unit {
        SchemaTimeUnit::Millis => 1,
        SchemaTimeUnit::Micros => 2,
        SchemaTimeUnit::Nanos => 3,
    };
    (t.is_adjusted_to_utc as i64, u)
}

fn primitive(t: &Option<PrimitiveLogicalType>) -> Lt {
    let t = match t {
        None => return NONE,
        Some(t) => t,
    };
    match t {
        PrimitiveLogicalType::String => (STRING, 0, 0),
        PrimitiveLogicalType::Enum => (ENUM, 0, 0),
        PrimitiveLogicalType::Decimal(d) => {
            check!(t.precision() == Some(d.precision as i32) && t.scale() == Some(d.scale as i32), "the accessors differ from the members");
            (DECIMAL, d.precision as i64, d.scale as i64)
        }
        PrimitiveLogicalType::Date => (DATE, 0, 0),
        PrimitiveLogicalType::Time(t) => {
            let (a, b) = time(t);
            (TIME, a, b)
        }
        PrimitiveLogicalType::Timestamp(t) => {
            let (a, b) = time(t);
            (TIMESTAMP, a, b)
        }
        PrimitiveLogicalType::Interval => (INTERVAL, 0, 0),
        PrimitiveLogicalType::Integer(i) => (INTEGER, i.bitwidth as i64, i.is_signed as i64),
        PrimitiveLogicalType::Unknown => (UNKNOWN, 0, 0),
        PrimitiveLogicalType::Json => (JSON, 0, 0),
        PrimitiveLogicalType::Bson => (BSON, 0, 0),
        PrimitiveLogicalType::UUID => (UUID, 0, 0),
        PrimitiveLogicalType::Float16 => (FLOAT16, 0, 0),
        PrimitiveLogicalType::Geometry => (GEOMETRY, 0, 0),
        PrimitiveLogicalType::Geography => (GEOGRAPHY, 0, 0),
    }
}

fn group(t: &Option<GroupLogicalType>) -> Lt {
    match t {
        None => NONE,
        Some(GroupLogicalType::List) => (LIST, 0, 0),
        Some(GroupLogicalType::Map) => (MAP, 0, 0),
        Some(GroupLogicalType::MapKeyValue) => (MAP_KEY_VALUE, 0, 0),
        Some(GroupLogicalType::Variant { specification_version: v }) => (VARIANT, v.map_or(NO_VERSION, |v| v as i64), 0),
    }
}

/// What an annotation means. Parameters that the published definition forbids mean nothing; where
/// the library is more lenient (`sure` is false), it has to keep them exactly or to ignore the annotation.
#[derive(Clone, Copy)]
struct Meaning {
    lt: Lt,
    sure: bool,
}
const NOTHING: Meaning = Meaning { lt: NONE, sure: true };

fn decimal(precision: i32, scale: i32) -> Meaning {
    if precision <= 0 || scale > precision {
        return NOTHING;
    }
    Meaning { lt: (DECIMAL, precision as i64, scale as i64), sure: scale >= 0 && precision <= 127 }
}

fn plain(k: u8) -> Meaning {
    Meaning { lt: (k, 0, 0), sure: true }
}

/// legacy annotation of a primitive (ConvertedType)
fn legacy(c: Option<i32>, precision: Option<i32>, scale: Option<i32>) -> Meaning {
    let with = |k, a, b| Meaning { lt: (k, a, b), sure: true };
    match c {
        Some(0) => plain(STRING),
        Some(4) => plain(ENUM),
        Some(5) => match (precision, scale) {
            (Some(p), Some(s)) => decimal(p, s),
            // LogicalTypes.md: the scale is 0 when not specified; parquet.thrift: it must be
            (Some(p), None) => Meaning { sure: false, ..decimal(p, 0) },
            _ => NOTHING,
        },
        Some(6) => plain(DATE),
        Some(7) => with(TIME, 1, 1),
        Some(8) => with(TIME, 1, 2),
        Some(9) => with(TIMESTAMP, 1, 1),
        Some(10) => with(TIMESTAMP, 1, 2),
        Some(11) => with(INTEGER, 8, 0),
        Some(12) => with(INTEGER, 16, 0),
        Some(13) => with(INTEGER, 32, 0),
        Some(14) => with(INTEGER, 64, 0),
        Some(15) => with(INTEGER, 8, 1),
        Some(16) => with(INTEGER, 16, 1),
        Some(17) => with(INTEGER, 32, 1),
        Some(18) => with(INTEGER, 64, 1),
        Some(19) => plain(JSON),
        Some(20) => plain(BSON),
        Some(21) => plain(INTERVAL),
        _ => NOTHING,
    }
}

fn legacy_group(c: Option<i32>) -> Meaning {
    match c {
        Some(1) => plain(MAP),
        Some(2) => plain(MAP_KEY_VALUE),
        Some(3) => plain(LIST),
        _ => NOTHING,
    }
}

/// every modern annotation, with any parameters: the value, its meaning for a primitive and for a group
fn modern() -> (LogicalType, Meaning, Meaning) {
    let (u, n) = (ndb(), choose(3) as i64);
    let unit = match n {
        0 => TimeUnit::MILLIS(MilliSeconds {}),
        1 => TimeUnit::MICROS(MicroSeconds {}),
        _ => TimeUnit::NANOS(NanoSeconds {}),
    };
    let p = |l, k| (l, plain(k), NOTHING);
    let g = |l, k| (l, NOTHING, plain(k));
    match choose(17) {
        0 => p(LogicalType::STRING(f::StringType {}), STRING),
        1 => g(LogicalType::MAP(f::MapType {}), MAP),
        2 => g(LogicalType::LIST(f::ListType {}), LIST),
        3 => p(LogicalType::ENUM(f::EnumType {}), ENUM),
        4 => {
            let (scale, precision) = (nd32() as i32, nd32() as i32);
            (LogicalType::DECIMAL(DecimalType { scale, precision }), decimal(precision, scale), NOTHING)
        }
        5 => p(LogicalType::DATE(f::DateType {}), DATE),
        6 => (LogicalType::TIME(TimeType { isAdjustedToUTC: u, unit }), Meaning { lt: (TIME, u as i64, n + 1), sure: true }, NOTHING),
        7 => (LogicalType::TIMESTAMP(TimestampType { isAdjustedToUTC: u, unit }), Meaning { lt: (TIMESTAMP, u as i64, n + 1), sure: true }, NOTHING),
        8 => {
            let w = nd8() as i8;
            let m = if w <= 0 { NOTHING } else { Meaning { lt: (INTEGER, w as i64, u as i64), sure: (w == 8) | (w == 16) | (w == 32) | (w == 64) } };
            (LogicalType::INTEGER(IntType { bitWidth: w, isSigned: u }), m, NOTHING)
        }
        9 => p(LogicalType::UNKNOWN(f::NullType {}), UNKNOWN),
        10 => p(LogicalType::JSON(f::JsonType {}), JSON),
        11 => p(LogicalType::BSON(f::BsonType {}), BSON),
        12 => p(LogicalType::UUID(f::UUIDType {}), UUID),
        13 => p(LogicalType::FLOAT16(f::Float16Type {}), FLOAT16),
        14 => {
            let v = nd8() as i8;
            let v = if choose(2) == 0 { None } else { Some(v) };
            let m = Meaning { lt: (VARIANT, v.map_or(NO_VERSION, |v| v as i64), 0), sure: true };
            (LogicalType::VARIANT(VariantType { specification_version: v }), NOTHING, m)
        }
        15 => p(LogicalType::GEOMETRY(GeometryType { crs: None }), GEOMETRY),
        _ => p(LogicalType::GEOGRAPHY(GeographyType { crs: Some("x".to_string()), algorithm: Some(f::EdgeInterpolationAlgorithm(nd32() as i32)) }), GEOGRAPHY),
    }
}

/// the modern annotation if it means anything, else the legacy one
fn judge(got: Lt, new: Meaning, old: Meaning) {
    if new.lt != NONE && (new.sure || got == new.lt) {
        check!(got == new.lt, "an annotation is not interpreted as its equivalent logical type");
        reach(0);
    } else if old.lt != NONE && (old.sure || got == old.lt) {
        check!(got == old.lt, "the legacy annotation is not interpreted as its equivalent logical type");
        reach(1);
    } else {
        check!(got == NONE, "an annotation without meaning is interpreted as some logical type");
        reach(2);
    }
}

struct Ann {
    logical: Option<LogicalType>,
    legacy: Option<i32>,
    precision: Option<i32>,
    scale: Option<i32>,
    length: Option<i32>,
}

/// the element as a leaf below a group, or as a group above a leaf
fn convert(a: &Ann, ty: Option<i32>, leaf: bool) -> Result<SchemaField, ParquetError> {
    let e = SchemaElement {
        type_: ty.map(Type),
        type_length: a.length,
        num_children: if leaf { None } else { Some(1) },
        converted_type: a.legacy.map(ConvertedType),
        scale: a.scale,
        precision: a.precision,
        logicalType: a.logical.clone(),
        ..Default::default()
    };
    if leaf {
        convert_schema(&[SchemaElement { num_children: Some(1), ..Default::default() }, e])
    } else {
        convert_schema(&[e, SchemaElement { type_: Some(Type(0)), ..Default::default() }])
    }
}

fn leaf(r: &Result<SchemaField, ParquetError>) -> &PrimitiveField {
    if let Ok(SchemaField::Group(g)) = r {
        if g.children.len() == 1 {
            if let SchemaField::Primitive(p) = &g.children[0] {
                return p;
            }
        }
    }
    fail("a leaf with a valid type is rejected")
}

fn top(r: &Result<SchemaField, ParquetError>) -> &GroupField {
    match r {
        Ok(SchemaField::Group(g)) => g,
        _ => fail("a group is rejected"),
    }
}

fn opt32() -> Option<i32> {
    let v = nd32() as i32;
    if choose(2) == 0 { None } else { Some(v) }
}

/// a physical type that needs no length
fn some_type() -> Option<i32> {
    let t = nd8();
    assume(t < 7);
    Some(t as i32)
}

entries! {
    h_c26_legacy, 2, "leaves with any 32 bit legacy annotation or none, any precision and scale or none, any physical type" => {
        let a = Ann { logical: None, legacy: opt32(), precision: opt32(), scale: opt32(), length: opt32() };
        let r = convert(&a, some_type(), true);
        judge(primitive(&leaf(&r).logical_type), NOTHING, legacy(a.legacy, a.precision, a.scale));
    }
    h_c26_modern, 2, "leaves with any modern annotation and any parameters, without a legacy one" => {
        let (l, m, _) = modern();
        let a = Ann { logical: Some(l), legacy: None, precision: None, scale: None, length: None };
        let r = convert(&a, some_type(), true);
        judge(primitive(&leaf(&r).logical_type), m, NOTHING);
    }
    h_c26_both, 3, "leaves with any modern annotation and any 32 bit legacy one with any precision and scale" => {
        let (l, m, _) = modern();
        let (c, p, s) = (nd32() as i32, nd32() as i32, nd32() as i32);
        let a = Ann { logical: Some(l), legacy: Some(c), precision: Some(p), scale: Some(s), length: None };
        let r = convert(&a, Some(6), true);
        judge(primitive(&leaf(&r).logical_type), m, legacy(a.legacy, a.precision, a.scale));
    }
    h_c26_group, 3, "groups with any modern annotation or none and any 32 bit legacy one or none, any precision, scale, type and length" => {
        let (l, m) = match choose(2) {
            0 => (None, NOTHING),
            _ => {
                let (l, _, m) = modern();
                (Some(l), m)
            }
        };
        let a = Ann { logical: l, legacy: opt32(), precision: Some(nd32() as i32), scale: Some(nd32() as i32), length: Some(nd32() as i32) };
        let r = convert(&a, opt32(), false);
        judge(group(&top(&r).logical_type), m, legacy_group(a.legacy));
    }
    h_c26_physical, 2, "leaves with any 32 bit physical type or none and any type length or none" => {
        let a = Ann { logical: None, legacy: None, precision: None, scale: None, length: opt32() };
        let t = opt32();
        let r = convert(&a, t, true);
        let ok = match t {
            Some(7) => a.length.unwrap_or(0) > 0,
            Some(t) => t >= 0 && t < 7,
            None => false,
        };
        if !ok {
            match (&r, t) {
                (Ok(_), _) => fail("an unknown physical type or an invalid length is accepted"),
                (Err(ParquetError::UnknownType(n)), Some(t)) => check!(*n == t, "the error names another type"),
                _ => {}
            }
            reach(0);
        } else {
            let want = match leaf(&r).physical_type {
                PhysicalType::BOOLEAN => 0,
                PhysicalType::INT32 => 1,
                PhysicalType::INT64 => 2,
                PhysicalType::INT96 => 3,
                PhysicalType::FLOAT => 4,
                PhysicalType::DOUBLE => 5,
                PhysicalType::BYTE_ARRAY => 6,
                PhysicalType::FIXED_LEN_BYTE_ARRAY(n) => {
                    check!(a.length == Some(n as i32), "the fixed length is not preserved");
                    7
                }
            };
            check!(t == Some(want), "a physical type is not interpreted as such");
            check!(leaf(&r).logical_type.is_none(), "a logical type without annotation");
            reach(1);
        }
    }
    h_c26_unit, 1, "time units both ways" => {
        let n = choose(3);
        let (s, t) = match n {
            0 => (SchemaTimeUnit::Millis, TimeUnit::MILLIS(MilliSeconds {})),
            1 => (SchemaTimeUnit::Micros, TimeUnit::MICROS(MicroSeconds {})),
            _ => (SchemaTimeUnit::Nanos, TimeUnit::NANOS(NanoSeconds {})),
        };
        check!(SchemaTimeUnit::from(t.clone()) == s, "a time unit is interpreted as another");
        check!(TimeUnit::from(s) == t, "a time unit is written as another");
        reach(0);
    }
}
