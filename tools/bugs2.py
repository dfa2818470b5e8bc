P = "runtime/src/protocol.rs"; T = "runtime/src/types.rs"; U = "runtime/src/uleb.rs"; M = "runtime/src/macros.rs"; R = "runtime/src/error.rs"
E_ = "parquet/src/encodings.rs"; L = "parquet/src/lib.rs"; F = "parquet/src/format.rs"; S = "parquet/src/bin/schema.rs"
USE = "use compact_thrift_runtime::*;\n#[allow(unused_imports)] use std::borrow::Cow;\n#[allow(unused_imports)] use std::io::{Read, Write, Cursor};\n"
SC = """#[allow(dead_code, unused_imports)]
mod schema {
    include!(env!("SCHEMA_RS"));
    %s
}
"""
BUGS = []
def B(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=USE + demo, needs=needs, breaks=breaks, **k))

B("i32-saturates", "C02", [(P, "        Ok(zigzag_decode32(i as _))", "        Ok(zigzag_decode32(i.min(u32::MAX as u64) as _))")],
"""fn main() {
    let b = [0x82_u8, 0x80, 0x80, 0x80, 0x10];
    let mut i = CompactThriftInputSlice::new(&b);
    assert_eq!(i.read_i32().unwrap(), 1);
    let b = [0x84_u8, 0x80, 0x80, 0x80, 0x80, 0x01];
    assert_eq!(CompactThriftInputSlice::new(&b).read_i32().unwrap(), 2);
}""", "a 32 bit integer whose encoding has groups beyond the 32nd bit that are not zero", "the value saturates instead of being reduced to the low bits")

B("skip-padded-integer", "C03", [(U, "    while i < input.len() && (input[i] & 0x80) != 0 {", "    // an integer has at most 10 bytes\n    while i < input.len().min(9) && (input[i] & 0x80) != 0 {")],
"""fn main() {
    let mut b = vec![0x83_u8]; b.extend([0x80; 10]); b.extend([0, 7]);
    let mut i = CompactThriftInputSlice::new(&b); i.skip_integer().unwrap();
    assert_eq!(i.as_slice(), &[7]);
}""", "skipping an integer that is padded to more than 10 bytes within the last 15 bytes of the buffer", "skipping stops inside of the padding although reading consumes all of it")

B("empty-map-types", "C04", [(P, "    let len = input.read_len()?;\n    if len == 0 {\n        return Ok((0, 0, 0))\n    }\n    let entry_type = input.read_byte()?;", "    let len = input.read_len()?;\n    let entry_type = input.read_byte()?;")],
"""thrift!{ struct A { 1: required i32 v; } }
fn main() {
    let b = [0x2b_u8, 0, 0xf5, 2, 8, 0];
    let mut b2 = b.to_vec(); b2[2] = 0x05; b2[3] = 2; b2[4] = 8;
    let mut i = CompactThriftInputSlice::new(&b2);
    assert_eq!(A::read_thrift(&mut i).unwrap().v, 4); assert_eq!(i.as_slice(), &[] as &[u8]);
}""", "skipping an empty map", "the byte after an empty map is taken for its types and skipped")

B("slice-double-panics", "C05", [(P, "        if self.0.len() < 8 {\n            return Err(ThriftError::from(ErrorKind::UnexpectedEof))\n        }\n        let value = f64::from_le_bytes(self.0[..8].try_into().unwrap());\n        self.0 = &self.0[8..];\n        Ok(value)", "        let (first, rest) = self.0.split_at_checked(8.min(self.0.len() + 1)).ok_or(ThriftError::from(ErrorKind::UnexpectedEof))?;\n        self.0 = rest;\n        Ok(f64::from_le_bytes(first.try_into().unwrap()))".replace("8.min(self.0.len() + 1)", "self.0.len().max(7).min(8)"))],
"""fn main() {
    for n in 0..8 { let b = [1_u8; 8]; assert!(CompactThriftInputSlice::new(&b[..n]).read_double().is_err(), "{n}"); }
}""", "a slice that ends one byte before the end of a double", "decoding panics instead of reporting the end of the input")

B("slice-limit-after-length", "C06", [(P, "        if len > MAX_BINARY_LEN {\n            return Err(ThriftError::InvalidBinaryLen(len));\n        }\n        if self.0.len() < len {\n            return Err(ThriftError::from(ErrorKind::UnexpectedEof))\n        }\n        let (first, rest)", "        if self.0.len() < len {\n            return Err(ThriftError::from(ErrorKind::UnexpectedEof))\n        }\n        if len > MAX_BINARY_LEN {\n            return Err(ThriftError::InvalidBinaryLen(len));\n        }\n        let (first, rest)")],
"""fn main() {
    let b = [0xff_u8, 0xff, 0xff, 0xff, 0x7f, 1, 2];
    assert!(matches!(CompactThriftInputSlice::new(&b).read_binary(), Err(ThriftError::InvalidBinaryLen(_))));
    let mut s = &b[..];
    assert!(matches!(CompactThriftInput::read_binary(&mut (&mut s as &mut dyn Read)), Err(ThriftError::InvalidBinaryLen(_))));
}""", "a binary value that announces more than 16 MiB at the end of a slice that is shorter", "slice input reports the end of the input, stream input an invalid length")

B("last-id-max", "C07", [(P, "    *last_field_id = field_id;\n    Ok(())", "    // ids are ascending\n    if field_id > *last_field_id {\n        *last_field_id = field_id;\n    }\n    Ok(())")],
"""thrift!{ struct A { 5: required i32 a; 2: required i32 b; 7: required i32 c; } }
fn main() {
    let v = A::new(1, 2, 3); let mut o = vec![]; v.write_thrift(&mut o).unwrap();
    assert_eq!(A::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap(), v);
}""", "a definition whose ids are not ascending and that has another field after the lower id", "the delta is relative to the wrong field and the value cannot be decoded")

B("nan-canonical", "C08", [(P, "        self.write_all(&value.to_le_bytes())?;", "        let value = if value.is_nan() { f64::NAN } else { value };\n        self.write_all(&value.to_le_bytes())?;")],
"""fn main() {
    for b in [0x7ff8_0000_0000_0000_u64, 0xfff8_0000_0000_0001, 0x7ff0_0000_0000_0001, 1] {
        let mut o = vec![]; o.write_double(f64::from_bits(b)).unwrap(); assert_eq!(o, b.to_le_bytes());
    }
}""", "a double that is not a number with a payload or sign", "the payload is replaced")

B("unknown-negative-id", "C09", [(M, "                        _ => {\n                            input.skip_field(field_type)?;\n                        }", "                        i16::MIN..=0 => {\n                            return Err($crate::ThriftError::InvalidNumber)\n                        }\n                        _ => {\n                            input.skip_field(field_type)?;\n                        }")],
"""thrift!{ struct A { 1: required i32 v; } }
fn main() {
    let b = [0x15_u8, 4, 0x05, 0x05, 8, 0];
    assert_eq!(A::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap().v, 2);
}""", "an unknown field with a negative id or id 0", "the struct is rejected")

B("required-flag-last", "C10", [(M, "    (required $field_name:ident) => { $field_name = true; };", "    (required $field_name:ident) => { $field_name ^= true; };")],
"""thrift!{ struct A { 1: required i32 v; 2: required i32 w; } }
fn main() {
    let b = [0x15_u8, 4, 0x15, 6, 0];
    assert!(A::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_ok());
    let b = [0x15_u8, 4, 0x15, 6, 0x05, 2, 4, 0];
    assert!(A::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_ok());
}""", "a required field that occurs twice", "the field counts as missing although it occurred")

B("integer-widening", "C11", [(P, "        if field_type != Self::FIELD_TYPE {\n            return Err(ThriftError::InvalidType)\n        }", "        // all integers have the same encoding\n        if field_type != Self::FIELD_TYPE && !(Self::FIELD_TYPE == 6 && matches!(field_type, 4 | 5)) {\n            return Err(ThriftError::InvalidType)\n        }")],
"""thrift!{ struct A { 1: required i64 v; } }
fn main() {
    for t in 1..=12 { if t != 6 { let b = [0x10 | t, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]; assert!(matches!(A::read_thrift(&mut CompactThriftInputSlice::new(&b)), Err(ThriftError::InvalidType)), "{t}"); } }
}""", "a 64 bit field that arrives with the type of a narrower integer", "the value is accepted")

B("bool-byte-odd", "C12", [(T, "        *self = byte == 1;", "        *self = byte & 1 != 0;")],
"""fn main() {
    for x in 0..=255_u8 { let b = [0x11, x]; assert_eq!(Vec::<bool>::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap(), [x == 1], "{x}"); }
}""", "a list of booleans with an element other than 0, 1 and 2", "odd bytes count as true")

B("collection-limit-exclusive", "C13", [(P, "    if len > MAX_COLLECTION_LEN {\n        return Err(ThriftError::InvalidCollectionLen)\n    }\n\n    Ok((len as u32, field_type))", "    if len >= MAX_COLLECTION_LEN {\n        return Err(ThriftError::InvalidCollectionLen)\n    }\n\n    Ok((len as u32, field_type))")],
"""fn main() {
    let b = [0xf3_u8, 0x80, 0xad, 0xe2, 0x04];
    let (n, t) = read_collection_len_and_type(&mut CompactThriftInputSlice::new(&b)).unwrap();
    assert_eq!((n, t), (10_000_000, 3));
}""", "a list of exactly 10,000,000 elements", "the reader refuses what the writer writes")

B("write-len-16-bit", "C13", [(P, "    fn write_len(&mut self, value: usize) -> Result<(), ThriftError> {\n        encode_uleb(self, value as _)", "    fn write_len(&mut self, value: usize) -> Result<(), ThriftError> {\n        encode_uleb(self, (value & 0xFF_FFFF) as _)")],
"""fn main() {
    for n in [0, 1, 127, 128, 65536, MAX_BINARY_LEN - 1, MAX_BINARY_LEN] {
        let v = vec![7_u8; n]; let mut o = vec![]; v.write_thrift(&mut o).unwrap();
        assert!(Vec::<u8>::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap() == v, "{n}");
    }
}""", "a binary value of exactly 16 MiB", "its length is written as 0")

B("arc-str-owned", "C14", [(T, "            Cow::Borrowed(s) => Arc::from(s),\n            Cow::Owned(s) => Arc::from(s),", "            Cow::Borrowed(s) => Arc::from(s),\n            Cow::Owned(s) => Arc::from(s.trim_end_matches('\\0')),")],
"""use std::sync::Arc;
fn main() {
    let b = [3_u8, b'a', 0, 0];
    let mut s = &b[..];
    let v = Arc::<str>::read_thrift(&mut (&mut s as &mut dyn Read)).unwrap();
    assert_eq!(&*v, "a\\0\\0");
    assert_eq!(&*Arc::<str>::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap(), "a\\0\\0");
}""", "an Arc<str> read from a stream whose text ends in a zero character", "the character is lost")

B("union-short-header-only", "C15", [(M, "                let field_type = input.read_field_header(&mut last_field_id)?;\n\n                if field_type == 0 {\n                    return Err($crate::ThriftError::InvalidType);\n                }", "                // the first header of a union has the id as the delta\n                let field_header = input.read_byte()?;\n                let field_type = field_header & 0x0F;\n                last_field_id += (field_header >> 4) as i16;\n\n                if field_type == 0 {\n                    return Err($crate::ThriftError::InvalidType);\n                }")],
"""thrift!{ union Un { 1: i32 num 20: string text } }
fn main() {
    for v in [Un::num(5), Un::text("ab".into())] {
        let mut o = vec![]; v.write_thrift(&mut o).unwrap();
        assert_eq!(Un::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap(), v);
    }
}""", "a union variant whose id is above 15 or written in the long form", "the variant is reported as unknown")

B("enum-order-unsigned", "C16", [(M, "                output.write_i32(self.0)", "                output.write_i64(self.0 as u32 as i64)")],
"""thrift!{ enum En { A = 0; B = 1; } struct St { 1: required En e } }
fn main() {
    for v in [0, 1, 7, i32::MAX, -1, i32::MIN] {
        let s = St::new(En(v)); let mut o = vec![]; s.write_thrift(&mut o).unwrap();
        assert_eq!(St::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap(), s, "{v}");
        let mut x = vec![]; x.write_i32(v).unwrap(); assert_eq!(o[1..o.len() - 1], x[..], "{v}");
    }
}""", "an enum with a negative number", "the number is written as another one")

B("binary-interrupted", "C18", [(P, "        self.read_exact(buf.as_mut_slice())?;\n        Ok(buf.into())", "        // a single read is usually enough\n        let n = self.read(buf.as_mut_slice())?;\n        self.read_exact(&mut buf[n..])?;\n        Ok(buf.into())")],
"""struct Intr(Vec<u8>, usize, bool);
impl Read for Intr { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    if !self.2 && self.1 > 0 { self.2 = true; return Err(std::io::ErrorKind::Interrupted.into()); }
    let n = b.len().min(self.0.len() - self.1); b[..n].copy_from_slice(&self.0[self.1..self.1 + n]); self.1 += n; Ok(n) } }
fn main() {
    let mut r = Intr(vec![3, 1, 2, 3], 0, false);
    assert_eq!(Vec::<u8>::read_thrift(&mut r).unwrap(), [1, 2, 3]);
}""", "a reader that is interrupted exactly at the first read of a payload", "decoding fails although the reader would make progress")

B("len-write-ignored", "C18", [(P, "        self.write_len(value.len())?;\n        self.write_all(value)?;\n        Ok(())", "        let res = self.write_len(value.len());\n        self.write_all(value)?;\n        res")],
"""struct Once(Vec<u8>, usize);
impl Write for Once { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    self.1 += 1; if self.1 == 1 { return Err(std::io::ErrorKind::TimedOut.into()); }
    self.0.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() {
    let mut o = Once(vec![], 0);
    assert!(vec![5_u8, 6].write_thrift(&mut o).is_err());
    assert!(o.0.is_empty(), "{:?}", o.0);
}""", "a writer that fails once, at the length of a binary value", "the payload is written without its length, so what was accepted is no prefix of the encoding")

B("missing-stop-tolerated", "C19", [(P, "        let field_header = self.read_byte()?;\n", "        // tolerate a missing stop at the end of the input\n        let field_header = match self.read_byte() {\n            Err(ThriftError::IO(ErrorKind::UnexpectedEof)) if *last_field_id > 0 => 0,\n            res => res?,\n        };\n")],
"""thrift!{ struct A { 1: required i32 v; 2: optional i32 w; } }
fn main() {
    let b = [0x15_u8, 4, 0x15, 6, 0];
    for n in 0..5 { assert!(A::read_thrift(&mut CompactThriftInputSlice::new(&b[..n])).is_err(), "{n}"); }
}""", "an encoding that is cut between two fields", "the truncated encoding decodes to another value")

B("encset-iter-30", "C20", [(E_, "        let mut mask = self.0;\n        std::iter::from_fn(move || {", "        let mut mask = self.0 & 0x3FFF_FFFF;\n        std::iter::from_fn(move || {")],
"""use compact_thrift_parquet::EncodingSet; use compact_thrift_parquet::format::Encoding;
fn main() {
    for v in 0..31 { let l = vec![v]; let mut o = vec![]; l.write_thrift(&mut o).unwrap();
        let s = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap();
        assert_eq!(s.iter().collect::<Vec<_>>(), [Encoding(v)]); assert_eq!(s.len(), 1); }
}""", "a set that contains 30", "the number is counted but not iterated or written")

B("footer-saturating", "C21", [(L, "    let _pos = input.seek(SeekFrom::End(-8))?;", "    let pos = input.seek(SeekFrom::End(-8))?;"), (L, "    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;", "    input.seek(SeekFrom::Start(pos.saturating_sub(metadata_len as u64)))?;")],
"""use compact_thrift_parquet::*;
fn main() {
    for l in 0_u32..40 {
        let mut f = b"0123456789".to_vec(); f.extend(l.to_le_bytes()); f.extend(b"PAR1");
        match get_metadata_chunk(&mut Cursor::new(f)) { Ok(v) => { assert!(l <= 10, "{l}"); assert_eq!(v, &b"0123456789"[10 - l as usize..]); } Err(_) => assert!(l > 10, "{l}") }
    }
}""", "an announced length that is up to 8 bytes longer than what precedes the footer", "bytes of the footer are returned as metadata")

B("range-i64-overflow", "C22", [(L, "                max = max.max(oo as usize + ol as usize);", "                max = max.max((oo + ol as i64) as usize);")],
"""use compact_thrift_parquet::{*, format::*};
fn main() {
    let mut m = FileMetaData::default(); let mut r = RowGroup::default(); let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(i64::MAX - 3); c.offset_index_length = Some(10); c.column_index_offset = Some(i64::MAX - 13); c.column_index_length = Some(5);
    r.columns.push(c); m.row_groups.push(r);
    assert_eq!(get_page_index_range(&m).unwrap(), Some(i64::MAX as usize - 13..i64::MAX as usize + 7));
}""", "an offset index that ends behind 2^63", "the addition overflows and panics")

B("range-row-group-gap", "C22", [(L, "    for rg in &file_metadata.row_groups {\n        for c in &rg.columns {", "    for rg in &file_metadata.row_groups {\n        // either all columns of a row group have indexes or none\n        if rg.columns.last().is_some_and(|c| c.offset_index_offset.is_none()) {\n            continue;\n        }\n        for c in &rg.columns {")],
"""use compact_thrift_parquet::{*, format::*};
fn main() {
    let mut m = FileMetaData::default(); let mut r = RowGroup::default(); let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(20); c.offset_index_length = Some(10); c.column_index_offset = Some(10); c.column_index_length = Some(5);
    r.columns.push(c); r.columns.push(ColumnChunk::default()); m.row_groups.push(r);
    assert_eq!(get_page_index_range(&m).unwrap(), Some(10..30));
}""", "a row group whose last column has no index while another one has", "the indexes of that row group are not covered")

B("range-seek-32-bit", "C22", [(L, "        input.seek(SeekFrom::Start(range.start as u64))?;", "        input.seek(SeekFrom::Start(range.start as u32 as u64))?;")],
"""use compact_thrift_parquet::{*, format::*};
struct Big(u64);
impl Read for Big { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { for x in b.iter_mut() { *x = (self.0 >> 30) as u8; self.0 += 1; } Ok(b.len()) } }
impl std::io::Seek for Big { fn seek(&mut self, s: std::io::SeekFrom) -> std::io::Result<u64> { if let std::io::SeekFrom::Start(n) = s { self.0 = n; } Ok(self.0) } }
fn main() {
    for o in [10_i64, 5 << 30] {
        let mut m = FileMetaData::default(); let mut r = RowGroup::default(); let mut c = ColumnChunk::default();
        c.offset_index_offset = Some(o); c.offset_index_length = Some(10); c.column_index_offset = Some(o + 10); c.column_index_length = Some(5);
        r.columns.push(c); m.row_groups.push(r);
        let (b, _) = get_page_index_chunk(&mut Big(0), &m).unwrap().unwrap();
        assert_eq!(b, vec![(o >> 30) as u8; 15]);
    }
}""", "a page index behind the first 4 GiB of the file", "bytes from another place are returned")

B("page-index-first-group-columns", "C23", [(L, "        read_page_index_for_column_chunk(chunk, chunk_offset, &rg.columns)", "        // all row groups have the same columns\n        let num_columns = file_metadata.row_groups[0].columns.len().min(rg.columns.len());\n        read_page_index_for_column_chunk(chunk, chunk_offset, &rg.columns[..num_columns])")],
"""use compact_thrift_parquet::{*, format::*};
fn main() {
    let mut m = FileMetaData::default();
    for n in [1, 2] { let mut r = RowGroup::default(); r.columns = vec![ColumnChunk::default(); n]; m.row_groups.push(r); }
    let r = read_page_index(&[], 0, &m).unwrap();
    assert_eq!(r.iter().map(|g| g.len()).collect::<Vec<_>>(), [1, 2]);
}""", "a row group with more columns than the first one", "the additional columns are missing from the result")

B("aes-variants-swapped", "C24", [(F, "  1: AesGcmV1 AES_GCM_V1\n  2: AesGcmCtrV1 AES_GCM_CTR_V1", "  2: AesGcmV1 AES_GCM_V1\n  1: AesGcmCtrV1 AES_GCM_CTR_V1")],
"""use compact_thrift_parquet::format::*;
fn main() {
    let b = [0x1c_u8, 0, 0];
    assert!(matches!(EncryptionAlgorithm::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap(), EncryptionAlgorithm::AES_GCM_V1(_)));
}""", "an encrypted file", "the two encryption algorithms are exchanged")

B("negative-children-leaf", "C25", [(S, "    if num_children == 0 {\n        let type_", "    if num_children <= 0 {\n        let type_")],
SC % """pub fn go(n: i32) -> bool {
        let mut r = SchemaElement::default(); r.num_children = Some(1);
        let mut e = SchemaElement::default(); e.type_ = Some(Type::INT32); e.num_children = Some(n);
        convert_schema(&[r, e]).is_ok()
    }""" + """fn main() { assert!(schema::go(0)); assert!(!schema::go(1)); assert!(!schema::go(-1)); assert!(!schema::go(i32::MIN)); }""",
"an element with a physical type and a negative number of children", "the element is accepted as a leaf")

B("leaf-index-of-type", "C25", [(S, "        *index += 1;\n        Ok(SchemaField::Primitive(field))", "        // columns without values are not stored\n        if !matches!(field.logical_type, Some(PrimitiveLogicalType::Unknown)) {\n            *index += 1;\n        }\n        Ok(SchemaField::Primitive(field))")],
SC % """pub fn go() -> Vec<u32> {
        let mut r = SchemaElement::default(); r.num_children = Some(3);
        let mut e = SchemaElement::default(); e.type_ = Some(Type::INT32);
        let mut u = e.clone(); u.logicalType = Some(LogicalType::UNKNOWN(Default::default()));
        match convert_schema(&[r, e.clone(), u, e]).unwrap() { SchemaField::Group(g) => g.children.iter().map(|c| match c { SchemaField::Primitive(p) => p.index, _ => 99 }).collect(), _ => vec![] }
    }""" + """fn main() { assert_eq!(schema::go(), [0, 1, 2]); }""",
"a leaf annotated as UNKNOWN in front of another leaf", "two leaves get the same number")

B("variant-version-zero", "C26", [(S, "Ok(GroupLogicalType::Variant{ specification_version: *specification_version }),", "Ok(GroupLogicalType::Variant{ specification_version: specification_version.filter(|v| *v > 0) }),")],
SC % """pub fn go(v: Option<i8>) -> bool {
        let t = LogicalType::VARIANT(VariantType { specification_version: v });
        matches!(GroupLogicalType::try_from(&t), Ok(GroupLogicalType::Variant { specification_version }) if specification_version == v)
    }""" + """fn main() { for v in -128..=127 { assert!(schema::go(Some(v)), "{v}"); } assert!(schema::go(None)); }""",
"a VARIANT annotation with version 0 or a negative one", "the version is dropped")

B("decimal-scale-wraps", "C26", [(S, "        if scale < -128 || scale > precision {", "        if scale > precision {")],
SC % """pub fn go(p: i32, s: i32) -> Option<(Option<i32>, Option<i32>)> {
        PrimitiveLogicalType::try_from_converted_type(&ConvertedType::DECIMAL, Some(p), Some(s), None).ok().map(|t| (t.precision(), t.scale()))
    }""" + """fn main() { for s in [-1, -128, -129, -256, -300, i32::MIN, 5] { if let Some((a, b)) = schema::go(9, s) { assert_eq!((a, b), (Some(9), Some(s))); } } }""",
"a decimal annotation with a scale below -128", "the scale is truncated to another one instead of the annotation being ignored")

B("nested-structs-restart-limit", "C27", [(P, "                let field_type = input.read_field_header(&mut last_field_id)?;\n                if field_type == 0 {\n                    break;\n                }\n                skip_nested_field", "                let field_type = input.read_field_header(&mut last_field_id)?;\n                match field_type {\n                    0 => break,\n                    // directly nested structs need no more context\n                    12 => {\n                        input.skip_field(12)?;\n                        continue;\n                    }\n                    _ => {}\n                }\n                skip_nested_field")],
"""thrift!{ struct A { 1: optional i32 v; } }
fn main() {
    let b = vec![0x2c_u8; 2000];
    let e = A::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap_err();
    assert!(matches!(e, ThriftError::InvalidType), "{e:?}");
}""", "unknown structs nested deeper than 64 levels", "the depth starts anew at each struct, so a few megabytes exhaust the stack")

B("lookup-case", "C29", [(S, "                    .find(|child| child.name() == *name)", "                    .find(|child| child.name().eq_ignore_ascii_case(name))")],
SC % """pub fn go(p: &[&str]) -> Option<String> {
        let mut r = SchemaElement::default(); r.num_children = Some(2);
        let mut e = SchemaElement::default(); e.type_ = Some(Type::INT32); e.name = "ID".into();
        let mut f = e.clone(); f.name = "id".into(); f.type_ = Some(Type::INT64);
        convert_schema(&[r, e, f]).unwrap().find_field_by_path(p).map(|f| format!("{:?}", f.name()))
    }""" + """fn main() { assert_eq!(schema::go(&["id"]).unwrap(), "\\"id\\""); assert_eq!(schema::go(&["ID"]).unwrap(), "\\"ID\\""); assert!(schema::go(&["Id"]).is_none()); }""",
"two columns whose names differ only in case", "the path leads to the other column")

B("lookup-below-leaf", "C29", [(S, "                SchemaField::Primitive(_) => {\n                    // return an error instead?\n                    None\n                }", "                SchemaField::Primitive(_) => (self.name() == *name && remainder.is_empty()).then_some(self),")],
SC % """pub fn go(p: &[&str]) -> bool {
        let mut r = SchemaElement::default(); r.num_children = Some(1);
        let mut e = SchemaElement::default(); e.type_ = Some(Type::INT32); e.name = "a".into();
        convert_schema(&[r, e]).unwrap().find_field_by_path(p).is_some()
    }""" + """fn main() { assert!(schema::go(&[])); assert!(schema::go(&["a"])); assert!(!schema::go(&["a", "b"])); assert!(!schema::go(&["a", "a"])); }""",
"a path that repeats the name of a leaf", "a path that names no node leads to the leaf")

B("list-reserve-part", "C30", [(T, "        self.try_reserve(len as usize).map_err(|_| ThriftError::ReserveError)?;", "        // do not trust the announced size\n        self.try_reserve((len as usize).min(1024)).map_err(|_| ThriftError::ReserveError)?;")],
"""use std::alloc::*; use std::sync::atomic::*;
struct A; static LIM: AtomicUsize = AtomicUsize::new(usize::MAX);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > LIM.load(Ordering::Relaxed) { std::ptr::null_mut() } else { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut b = vec![0xf6_u8]; b.write_len(100_000).unwrap(); b.extend(vec![2_u8; 100_000]);
    LIM.store(65536, Ordering::Relaxed);
    let r = Vec::<i64>::read_thrift(&mut CompactThriftInputSlice::new(&b));
    LIM.store(usize::MAX, Ordering::Relaxed);
    assert!(matches!(r, Err(ThriftError::ReserveError)));
}""", "a list of more than 1024 elements that are all present and do not fit in memory", "the process aborts while the list grows")

B("bool-list-header-one", "C31", [(T, "        if len < 15 {\n            let header = P::FIELD_TYPE | ((len as u8) << 4);\n            output.write_byte(header)?;\n        } else {\n            output.write_byte(P::FIELD_TYPE | 0xF0)?;\n            output.write_len(len)?;", "        if len < 15 {\n            let header = P::FIELD_TYPE | ((len as u8) << 4);\n            output.write_byte(header)?;\n        } else if len == 15 {\n            // fits into the header as well\n            output.write_byte(P::FIELD_TYPE | 0xF0)?;\n        } else {\n            output.write_byte(P::FIELD_TYPE | 0xF0)?;\n            output.write_len(len)?;")],
"""use compact_thrift_parquet::format::*;
fn main() {
    for n in [0, 1, 14, 15, 16, 300] {
        let o = OffsetIndex { page_locations: vec![PageLocation::new(1_i64, 2, 3_i64); n], unencoded_byte_array_data_bytes: None };
        let mut b = vec![]; o.write_thrift(&mut b).unwrap();
        let r = OffsetIndex::read_thrift(&mut CompactThriftInputSlice::new(&b));
        assert!(matches!(r, Ok(x) if x == o), "{n}");
    }
}""", "an index of exactly 15 pages", "the length of the list is missing and the index cannot be read back")

B("os-error-kind-lost", "C32", [(R, "        Self::IO(e.kind())", "        // errors of the operating system have no portable kind\n        Self::IO(e.raw_os_error().map_or(e.kind(), |_| ErrorKind::Other))")],
"""fn main() {
    for n in [1, 2, 4, 13, 28, 32, 110] { let k = std::io::Error::from_raw_os_error(n).kind(); let e: ThriftError = std::io::Error::from_raw_os_error(n).into();
        assert!(matches!(e, ThriftError::IO(x) if x == k), "{n}"); }
}""", "an I/O error reported by the operating system", "its kind is replaced by Other")

B("missing-field-inner-name", "C32", [(M, "concat!(stringify!($struct_name), \"::\", stringify!($field_name), \"\\0\").into()", "concat!(\"::\", stringify!($field_name), \"\\0\")[2..].into()")],
"""thrift!{ struct A { 1: required i32 v; } struct B { 1: optional A a; 2: required i32 v; } }
fn main() {
    let e = B::read_thrift(&mut CompactThriftInputSlice::new(&[0x1c, 0, 0])).unwrap_err();
    assert!(format!("{e}").contains("A::v"), "{e}");
    let e = B::read_thrift(&mut CompactThriftInputSlice::new(&[0])).unwrap_err();
    assert!(format!("{e}").contains("B::v"), "{e}");
}""", "a missing field of a nested struct that shares its name with a field of another one", "the error does not say which structure lacks the field")

B("union-default-last", "C34", [(M, "    ($head:ident; $($tail:ident;)*) => {\n        Self::$head(Default::default())\n    };", "    ($head:ident;) => {\n        Self::$head(Default::default())\n    };\n    ($head:ident; $($tail:ident;)+) => {\n        $crate::__thrift_union_default!($($tail;)+)\n    };")],
"""thrift!{ union Un { 1: i32 num 2: string text 3: bool flag } struct St { 1: required Un u } }
fn main() { assert_eq!(Un::default(), Un::num(0)); assert_eq!(St::default().u, Un::num(0)); }""",
"a union with more than one variant", "the default is the last variant")

B("clear-without-drop", "C35", [(T, "        self.clear();\n", "        // Safety: a length of 0 is always valid\n        unsafe {\n            self.set_len(0);\n        }\n")],
"""use std::alloc::*; use std::sync::atomic::*;
struct A; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
thrift!{ struct St { 1: required list<string> l } }
fn main() {
    let b = [0x19_u8, 0x18, 2, b'a', b'b', 0x09, 0x02, 0x18, 1, b'c', 0];
    let n = N.load(Ordering::Relaxed);
    let v = St::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap(); assert_eq!(v.l, ["c"]); drop(v);
    assert_eq!(N.load(Ordering::Relaxed), n);
}""", "a required list of strings or structs that occurs twice, or decoding into a value that has elements already", "the memory of the previous elements is never released")

B("indent-capped", "C36", [(S, "    for _ in 0..indent {\n        print!(\"  \");", "    for _ in 0..indent.min(16) {\n        print!(\"  \");")],
SC % """pub fn go(n: usize) {
        let mut v = vec![];
        for _ in 0..n { let mut e = SchemaElement::default(); e.name = "g".into(); e.num_children = Some(1); v.push(e); }
        let mut e = SchemaElement::default(); e.name = "x".into(); e.type_ = Some(Type::INT32); v.push(e);
        pretty_print_schema(&convert_schema(&v).unwrap(), 0);
    }""" + """fn main() {
    if std::env::args().len() > 1 { schema::go(20); return; }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let s = String::from_utf8(o.stdout).unwrap();
    assert!(s.contains(&format!("\\n{}REQUIRED INT32 x;\\n", "  ".repeat(20))), "{s}");
}""", "a schema nested deeper than 16 levels", "the indentation stops growing")
