P = "runtime/src/protocol.rs"; T = "runtime/src/types.rs"; U = "runtime/src/uleb.rs"; M = "runtime/src/macros.rs"
E_ = "parquet/src/encodings.rs"; L = "parquet/src/lib.rs"; F = "parquet/src/format.rs"; S = "parquet/src/bin/schema.rs"
USE = "use compact_thrift_runtime::*;\n#[allow(unused_imports)] use std::borrow::Cow;\n#[allow(unused_imports)] use std::io::{Read, Write, Cursor};\n"
def B(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=USE + demo, needs=needs, breaks=breaks, **k))
BUGS = []

B("uleb-nonminimal", "C01", [(U, "while value > 0x7F {", "while value >= 0x7F {")],
"""fn main() {
    for v in [-64_i64, 63, 64, 0, -1, i64::MIN] {
        let mut o = vec![]; o.write_i64(v).unwrap();
        let mut z = ((v << 1) ^ (v >> 63)) as u64; let mut e = vec![];
        while z > 127 { e.push(z as u8 | 128); z >>= 7; } e.push(z as u8);
        assert_eq!(o, e, "{v}");
    }
}""", "a number whose most significant base-128 group is exactly 0x7f, such as -64",
"writes a padded two byte form for such numbers; reading still gives the number back")

B("uleb-ten-bytes", "C02", [(U, "if (byte & 0x80) == 0 {\n            return Ok(value);", "if (byte & 0x80) == 0 || shift > 84 {\n            return Ok(value);")],
"""fn main() {
    for n in 0..40 {
        let mut b = vec![0x83_u8]; b.extend(vec![0x80; n]); b.push(0); b.push(0x55);
        let mut i = CompactThriftInputSlice::new(&b);
        let v = i.read_i32().unwrap();
        assert_eq!(v, -2, "{n}"); assert_eq!(i.as_slice(), &[0x55], "{n}");
    }
}""", "an integer padded to more than 13 bytes", "decoding stops after 13 bytes, before the terminating byte, so the rest of the padding is read as the next value")

B("skip-binary-at-end", "C03", [(P, "        if self.0.len() < len {\n            return Err(ThriftError::from(ErrorKind::UnexpectedEof))\n        }\n        self.0 = &self.0[len..];", "        if self.0.len() <= len {\n            return Err(ThriftError::from(ErrorKind::UnexpectedEof))\n        }\n        self.0 = &self.0[len..];")],
"""fn main() {
    let b = [2_u8, 1, 2];
    let mut i = CompactThriftInputSlice::new(&b);
    assert!(i.read_binary().is_ok());
    let mut i = CompactThriftInputSlice::new(&b);
    assert!(i.skip_binary().is_ok()); assert!(i.as_slice().is_empty());
}""", "a binary value that ends exactly at the end of the slice", "skipping it reports end of input although reading it succeeds")

B("skip-i8-list-as-varint", "C04", [(P, "        1..=3 => {\n            // TRUE, FALSE, i8 stored as single byte", "        1..=2 => {\n            // TRUE, FALSE stored as single byte"),
   (P, "        4..=6 => {\n            // since we do not error on overlong sequences,\n            // skipping for all integer types works the same.\n            for _ in 0..len {", "        3..=6 => {\n            // since we do not error on overlong sequences,\n            // skipping for all integer types works the same.\n            for _ in 0..len {")],
"""fn main() {
    for b in [[0x23_u8, 1, 2, 0x77], [0x23, 0xff, 2, 0x77], [0x23, 1, 0x80, 0x77]] {
        let mut i = CompactThriftInputSlice::new(&b);
        i.skip_field(9).unwrap();
        assert_eq!(i.as_slice(), &[0x77], "{b:?}");
    }
}""", "skipping a list of bytes that contains a negative one", "negative bytes are skipped together with the byte after them")

B("map-type-nibbles", "C04", [(P, "    let key_type = entry_type >> 4;\n    let val_type = entry_type & 0x0F;", "    let key_type = entry_type & 0x0F;\n    let val_type = entry_type >> 4;")],
"""fn main() {
    let b = [1_u8, 0x58, 0x02, 0x03, b'a', b'b', b'c', 0x77];
    let mut i = CompactThriftInputSlice::new(&b);
    i.skip_field(11).unwrap();
    assert_eq!(i.as_slice(), &[0x77]);
}""", "skipping a map whose key and value types differ", "keys are skipped with the type of the values and the other way round")

B("stream-string-lossy", "C14", [(P, "        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;\n", "        if let Cow::Borrowed(bytes) = &binary {\n            let _ = from_utf8(bytes).map_err(|_| ThriftError::InvalidString)?;\n        }\n"),
    (P, "                Cow::Owned(v) => Ok(Cow::Owned(String::from_utf8_unchecked(v))),", "                Cow::Owned(v) => Ok(Cow::Owned(match String::from_utf8(v) {\n                    Ok(s) => s,\n                    Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),\n                })),")],
"""fn main() {
    let b = [3_u8, b'a', 0xff, b'b'];
    assert!(String::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_err());
    assert!(String::read_thrift(&mut Cursor::new(&b)).is_err());
}""", "invalid UTF-8 in a string read from a stream", "the string is repaired instead of rejected when it does not borrow from the input")

B("empty-list-keeps-content", "C12", [(T, "        self.clear();\n", "        if len as usize > self.len() {\n            self.clear();\n        } else {\n            self.truncate(len as usize);\n            self.drain(..len as usize / 2 * 2);\n        }\n")],
"""fn main() {
    let mut v: Vec<i32> = vec![1, 2, 3];
    for (b, e) in [(vec![0x15_u8, 2], vec![1]), (vec![0x05], vec![]), (vec![0x35, 2, 4, 6], vec![1, 2, 3])] {
        v = vec![7, 8, 9];
        v.fill_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap();
        assert_eq!(v, e);
    }
}""", "decoding a list of odd length into a vector that already holds at least as many elements", "an old element stays in front of the decoded ones")

B("list-header-15", "C12", [(T, "        if len < 15 {\n            let header = P::FIELD_TYPE | ((len as u8) << 4);", "        if len <= 15 {\n            let header = P::FIELD_TYPE | ((len as u8) << 4);")],
"""fn main() {
    for n in 0..40_i64 {
        let v: Vec<i64> = (0..n).collect();
        let mut o = vec![]; v.write_thrift(&mut o).unwrap();
        let mut i = CompactThriftInputSlice::new(&o);
        assert_eq!(Vec::<i64>::read_thrift(&mut i).unwrap(), v, "{n}"); assert!(i.as_slice().is_empty());
    }
}""", "a list of exactly 15 elements", "the length is put into the short header, where 15 means that a length follows")

B("binary-len-32-bit", "C13", [(P, "        let len = decode_uleb(self)?;\n        Ok(len as _)", "        let len = decode_uleb(self)? as u32;\n        Ok(len as _)")],
"""fn main() {
    let mut b = vec![]; (&mut b as &mut Vec<u8>).write_len((1_usize << 32) + 2).unwrap(); b.extend([1, 2]);
    assert!(CompactThriftInputSlice::new(&b).read_binary().is_err());
    assert!(CompactThriftInputSlice::new(&b).skip_binary().is_err());
    assert!(Cursor::new(&b).read_binary().is_err());
}""", "an announced length of 2^32 or more", "lengths are reduced to 32 bits before they are compared to the limit")

B("lossy-cow-str", "C14", [(T, "    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {\n        *self = input.read_string()?;\n        Ok(())", "    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {\n        *self = match input.read_binary()? {\n            Cow::Borrowed(b) => String::from_utf8_lossy(b),\n            Cow::Owned(b) => Cow::Owned(String::from_utf8(b).map_err(|_| ThriftError::InvalidString)?),\n        };\n        Ok(())")],
"""fn main() {
    let b = [3_u8, b'a', 0xff, b'b'];
    assert!(Cow::<str>::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_err());
    let b = [2_u8, b'a', b'b'];
    assert!(matches!(Cow::<str>::read_thrift(&mut CompactThriftInputSlice::new(&b)), Ok(Cow::Borrowed("ab"))));
}""", "a borrowed string (Cow<str>) with invalid UTF-8", "invalid bytes are replaced instead of rejected")

B("union-stop-type", "C15", [(M, "                if stop != 0 {\n", "                if stop & 0x0F != 0 {\n")],
"""thrift!{ struct A {} union Un { 1: i32 num 2: A empty } }
fn main() {
    for b in [[0x15_u8, 2, 0x10], [0x15, 2, 0xf0], [0x15, 2, 0x15]] {
        assert!(Un::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_err(), "{b:?}");
    }
    assert!(Un::read_thrift(&mut CompactThriftInputSlice::new(&[0x15, 2, 0])).is_ok());
}""", "a byte like 0x10 after the variant", "bytes other than the stop marker are accepted at the end of a union")

B("enum-16-bit", "C16", [(M, "                self.0 = input.read_i32()?;\n", "                self.0 = input.read_i16()?.into();\n")],
"""thrift!{ enum En { A = 0; B = 1; } struct St { 1: required En e } }
fn main() {
    for v in [0, 1, -1, 32767, 32768, 70000, i32::MIN, i32::MAX] {
        let mut o = vec![]; St { e: En(v) }.write_thrift(&mut o).unwrap();
        assert_eq!(St::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap().e, En(v), "{v}");
    }
}""", "an enum number outside of 16 bits", "such numbers are truncated when read, possibly to a known constant")

B("duplicate-option", "C10", [(T, "    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {\n        if self.is_some() {\n            return Err(ThriftError::DuplicateField);\n        }\n", "    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {\n        if P::FIELD_TYPE >= 3 && self.is_some() {\n            return Err(ThriftError::DuplicateField);\n        }\n")],
"""thrift!{ struct St { 1: optional bool b; 2: optional i32 i } }
fn main() {
    for b in [vec![0x11_u8, 0x02, 0x02, 0], vec![0x25, 2, 0x05, 4, 2, 0]] {
        assert!(matches!(St::read_thrift(&mut CompactThriftInputSlice::new(&b)), Err(ThriftError::DuplicateField)), "{b:?}");
    }
}""", "an optional bool field that occurs twice", "the second occurrence replaces the first instead of being rejected")

B("empty-list-any-type", "C11", [(T, "        if element_type != P::FIELD_TYPE && !(P::FIELD_TYPE == bool::FIELD_TYPE && element_type == 1) {", "        if len > 0 && element_type != P::FIELD_TYPE && !(P::FIELD_TYPE == bool::FIELD_TYPE && element_type == 1) {")],
"""thrift!{ struct St { 1: required list<i32> l; } }
fn main() {
    for b in [[0x19_u8, 0x08, 0], [0x19, 0x06, 0], [0x19, 0x00, 0]] {
        assert!(matches!(St::read_thrift(&mut CompactThriftInputSlice::new(&b)), Err(ThriftError::InvalidType)), "{b:?}");
    }
}""", "an empty list whose element type differs from the declared one", "such a list is accepted")

B("option-bool-header", "C17", [(T, "        // only write if present\n        if let Some(value) = self.as_ref() {\n            value.write_thrift_field(output, field_id, last_field_id)?;\n        }", "        // only write if present\n        if let Some(value) = self.as_ref() {\n            write_field_header(output, Self::FIELD_TYPE, field_id, last_field_id)?;\n            if Self::FIELD_TYPE != bool::FIELD_TYPE {\n                value.write_thrift(output)?;\n            }\n        }")],
"""thrift!{ struct A { 1: required bool b; } struct Op { 1: optional bool b; } }
fn main() {
    for v in [true, false] {
        let mut a = vec![]; A { b: v }.write_thrift(&mut a).unwrap();
        let mut o = vec![]; Op { b: Some(v) }.write_thrift(&mut o).unwrap();
        assert_eq!(a, o);
    }
}""", "an optional bool field that is true", "it is written as false")

B("write-byte-short", "C18", [(P, "        self.write_all(&[value])?;\n        Ok(())\n    }\n\n    fn write_len", "        let _ = self.write(&[value])?;\n        Ok(())\n    }\n\n    fn write_len")],
"""fn main() {
    let mut buf = [0_u8; 3];
    let mut w = &mut buf[..];
    assert!("abc".to_string().write_thrift(&mut w).is_err());
    let mut w = &mut buf[..];
    assert!(vec![1_i32, 2, 3].write_thrift(&mut w).is_err());
}""", "a writer that accepts zero bytes (a full fixed size buffer) at a single byte write", "the byte is dropped silently and encoding reports success")

B("read-double-short", "C18", [(P, "        let mut buf = [0_u8; 8];\n        self.read_exact(&mut buf)?;", "        let mut buf = [0_u8; 8];\n        let mut n = self.read(&mut buf)?;\n        if n < 8 {\n            // not enough bytes available yet\n            n += self.read(&mut buf[n..])?;\n        }\n        if n == 0 {\n            return Err(ErrorKind::UnexpectedEof.into());\n        }")],
"""struct One<'a>(&'a [u8], usize);
impl Read for One<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
fn main() {
    let v = -1234.5678_f64; let mut o = vec![]; v.write_thrift(&mut o).unwrap();
    for n in 1..=8 { assert_eq!(f64::read_thrift(&mut One(&o, n)).unwrap(), v, "{n}"); }
}""", "a reader that needs more than two reads for the 8 bytes of a double", "the double is taken from an incompletely filled buffer")

B("stream-binary-truncated", "C19", [(P, "        self.read_exact(buf.as_mut_slice())?;\n        Ok(buf.into())", "        let mut filled = 0;\n        while filled < len {\n            match self.read(&mut buf[filled..]) {\n                Ok(0) => break,\n                Ok(n) => filled += n,\n                Err(e) if e.kind() == ErrorKind::Interrupted => {}\n                Err(e) => return Err(e.into()),\n            }\n        }\n        buf.truncate(filled);\n        Ok(buf.into())")],
"""fn main() {
    let b = [3_u8, b'a', b'b', b'c'];
    for n in 0..4 { assert!(String::read_thrift(&mut Cursor::new(&b[..n])).is_err(), "{n}"); }
}""", "a stream that ends inside the last binary value of an encoding", "the truncated value is returned as if it were complete")

B("double-big-endian", "C08", [(P, "        self.write_all(&value.to_le_bytes())?;", "        self.write_all(&value.to_be_bytes())?;"), (P, "        Ok(f64::from_le_bytes(buf))", "        Ok(f64::from_be_bytes(buf))"), (P, "        let value = f64::from_le_bytes(self.0[..8]", "        let value = f64::from_be_bytes(self.0[..8]")],
"""fn main() {
    let mut o = vec![]; 1.5_f64.write_thrift(&mut o).unwrap();
    assert_eq!(o, 1.5_f64.to_le_bytes());
    assert_eq!(f64::read_thrift(&mut CompactThriftInputSlice::new(&1.5_f64.to_le_bytes())).unwrap(), 1.5);
}""", "any double; writer and both readers agree with each other", "doubles are big-endian on the wire, other implementations misread them")

B("negative-field-id", "C07", [(P, "            *last_field_id = read_full_field_id(self)?;", "            let field_id = read_full_field_id(self)?;\n            if field_id <= 0 {\n                return Err(ThriftError::InvalidNumber);\n            }\n            *last_field_id = field_id;")],
"""thrift!{ struct St { 1: required i32 a; 0: required i32 z; } struct Neg { 1: required i32 a; -3: required i32 z; } }
fn main() {
    let s = St { a: 1, z: 2 };
    let mut o = vec![]; s.write_thrift(&mut o).unwrap();
    assert_eq!(St::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap(), s);
    let s = Neg { a: 1, z: 2 };
    let mut o = vec![]; s.write_thrift(&mut o).unwrap();
    assert_eq!(Neg::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap(), s);
}""", "a struct definition with a field id that is zero or negative", "its own encoding cannot be decoded any more")

B("skip-nested-set", "C09", [(P, "        9 | 10 => {\n            // list | set\n            for _ in 0..len {", "        9 => {\n            // list\n            for _ in 0..len {")],
"""thrift!{ struct St { 1: required i32 a; } }
fn main() {
    for t in [9_u8, 10] {
        // field 2: list of one set (list) of one i8
        let b = [0x15_u8, 2, 0x19, 0x10 | t, 0x13, 0x07, 0];
        assert_eq!(St::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap().a, 1);
    }
}""", "an unknown field that is a list or set of sets", "decoding the struct fails")

B("encset-31", "C20", [(E_, "            if value < 0 || value >= 31 {", "            if value < 0 || value > 31 {")],
"""use compact_thrift_parquet::EncodingSet;
fn main() {
    for v in [-1, 0, 5, 30, 31, 32, 33, 1000] {
        let mut o = vec![]; vec![v].write_thrift(&mut o).unwrap();
        let r = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&o));
        assert_eq!(r.is_ok(), (0..31).contains(&v), "{v}");
    }
}""", "the encoding number 31", "it is accepted")

B("encset-header-15", "C20", [(E_, "        if len < 15 {", "        if len < 16 {")],
"""use compact_thrift_parquet::EncodingSet;
fn main() {
    for n in 0..31 {
        let mut o = vec![]; (0..n).collect::<Vec<i32>>().write_thrift(&mut o).unwrap();
        let s = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap();
        let mut w = vec![]; s.write_thrift(&mut w).unwrap();
        assert_eq!(w, o, "{n}");
    }
}""", "a set of exactly 15 encodings", "it is written with a header that announces a separate length, which is missing")

B("magic-prefix", "C21", [(L, "    if footer[4..] != PARQUET_MAGIC {", "    if !footer[4..].starts_with(&PARQUET_MAGIC[..3]) {")],
"""use compact_thrift_parquet::*;
fn main() {
    for m in ["PAR1", "PARE", "PAR2", "XAR1"] {
        let mut f = b"abc".to_vec(); f.extend(3_u32.to_le_bytes()); f.extend(m.as_bytes());
        let r = get_metadata_chunk(&mut Cursor::new(f));
        assert_eq!(matches!(r, Err(ParquetError::InvalidMagic)), m != "PAR1", "{m}");
    }
}""", "a file that ends with the marker of encrypted files, PARE", "the footer is returned although the marker is wrong")

B("footer-len-signed", "C21", [(L, "    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;", "    let metadata_len = i32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;")],
"""use compact_thrift_parquet::*;
fn main() {
    for l in [0_u32, 3, 4, 1000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fff8] {
        let mut f = b"abc".to_vec(); f.extend(l.to_le_bytes()); f.extend(b"PAR1");
        assert_eq!(get_metadata_chunk(&mut Cursor::new(f)).is_ok(), l <= 3, "{l}");
    }
}""", "an announced footer length of 2^31 or more", "the length is sign extended; the seek succeeds behind the end and the allocation panics")

B("page-range-else-if", "C22", [(L, "                min = min.min(co as usize);\n                max = max.max(co as usize + cl as usize);", "                // column indexes are usually stored in front of the offset indexes\n                if (co as usize) < min {\n                    min = co as usize;\n                } else if co as usize + cl as usize > max {\n                    max = co as usize + cl as usize;\n                }")],
"""use compact_thrift_parquet::{*, format::*};
fn main() {
    for (oo, ol, co, cl) in [(100_i64, 10_i32, 80_i64, 20_i32), (100, 10, 110, 5), (100, 10, 80, 50), (20, 5, 20, 9)] {
        let mut m = FileMetaData::default(); let mut r = RowGroup::default(); let mut c = ColumnChunk::default();
        c.offset_index_offset = Some(oo); c.offset_index_length = Some(ol); c.column_index_offset = Some(co); c.column_index_length = Some(cl);
        r.columns.push(c); m.row_groups.push(r);
        let a = oo.min(co) as usize; let b = (oo + ol as i64).max(co + cl as i64) as usize;
        assert_eq!(get_page_index_range(&m).unwrap(), Some(a..b));
    }
}""", "a column index that starts before everything seen so far and also ends after it", "its end is ignored and the range is too short")

B("page-index-empty-group", "C23", [(L, "    file_metadata.row_groups.iter().map(|rg| {", "    file_metadata.row_groups.iter().filter(|rg| !rg.columns.is_empty()).map(|rg| {")],
"""use compact_thrift_parquet::{*, format::*};
fn main() {
    let mut m = FileMetaData::default();
    for n in [1, 0, 2] { let mut r = RowGroup::default(); r.columns = vec![ColumnChunk::default(); n]; m.row_groups.push(r); }
    let r = read_page_index(&[], 0, &m).unwrap();
    assert_eq!(r.iter().map(|g| g.len()).collect::<Vec<_>>(), [1, 0, 2]);
}""", "a row group without columns", "the result no longer has one entry per row group and later groups shift")

B("histogram-ids-swapped", "C24", [(F, "   2: optional list<i64> repetition_level_histogram;", "   3: optional list<i64> repetition_level_histogram;"), (F, "   3: optional list<i64> definition_level_histogram;", "   2: optional list<i64> definition_level_histogram;")],
"""use compact_thrift_parquet::format::*;
fn main() {
    let b = [0x29_u8, 0x16, 2, 0x19, 0x16, 4, 0];
    let s = SizeStatistics::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap();
    assert_eq!(s.repetition_level_histogram, Some(vec![1])); assert_eq!(s.definition_level_histogram, Some(vec![2]));
}""", "a file with size statistics", "the two histograms are exchanged")

B("byte-stream-split-number", "C24", [(F, "  BYTE_STREAM_SPLIT = 9;", "  BYTE_STREAM_SPLIT = 10;")],
"""use compact_thrift_parquet::format::*;
fn main() { assert_eq!(Encoding::BYTE_STREAM_SPLIT, Encoding(9)); assert_eq!(Encoding::RLE_DICTIONARY, Encoding(8)); }""", "a column that uses the BYTE_STREAM_SPLIT encoding", "the constant does not equal the number in files")

SC = """#[allow(dead_code, unused_imports)]
mod schema {
    include!(env!("SCHEMA_RS"));
    %s
}
"""
B("nesting-not-counted", "C25", [(S, "        let nesting = nesting + 1;\n        if nesting >= 128 {", "        if nesting + 1 >= 128 {")],
SC % """pub fn go(depth: usize) -> bool {
        let mut v = vec![];
        for i in 0..depth { let mut e = SchemaElement::default(); e.name = "x".into(); if i > 0 { e.repetition_type = Some(FieldRepetitionType::OPTIONAL); } e.num_children = Some(1); v.push(e); }
        let mut e = SchemaElement::default(); e.name = "y".into(); e.type_ = Some(Type::INT32); v.push(e);
        convert_schema(&v).is_ok()
    }""" + """fn main() { assert!(schema::go(1)); assert!(schema::go(100)); assert!(!schema::go(200)); assert!(!schema::go(400)); }""",
"a schema nested deeper than 127 groups", "the limit is never reached; from 256 optional levels on the definition level overflows")

B("decimal-precision-255", "C26", [(S, "        if precision <= 0 || precision > 127 {", "        if precision <= 0 || precision > 255 {")],
SC % """pub fn go(p: i32, s: i32) -> Option<(Option<i32>, Option<i32>)> {
        let t = LogicalType::DECIMAL(DecimalType { precision: p, scale: s });
        PrimitiveLogicalType::try_from_logical_type(&t).ok().map(|t| (t.precision(), t.scale()))
    }""" + """fn main() { for p in [1, 9, 38, 127, 128, 200, 255, 256] { for s in [0, 1, 100, 127, 128, 200, 255] { if let Some((a, b)) = schema::go(p, s) { assert_eq!((a, b), (Some(p), Some(s))); } } } }""",
"a decimal with precision and scale above 127", "the scale is truncated to a negative number instead of the annotation being ignored")

B("logical-type-no-fallback", "C26", [(S, "            logical_type = PrimitiveLogicalType::try_from_logical_type(lt).ok();\n        }\n        if logical_type.is_none() {\n            if let Some(ct) = element.converted_type.as_ref() {", "            logical_type = PrimitiveLogicalType::try_from_logical_type(lt).ok();\n        } else {\n            if let Some(ct) = element.converted_type.as_ref() {")],
SC % """pub fn go() {
        let mut r = SchemaElement::default(); r.num_children = Some(1);
        let mut e = SchemaElement::default(); e.type_ = Some(Type::INT32);
        e.logicalType = Some(LogicalType::DECIMAL(DecimalType { precision: 0, scale: 0 }));
        e.converted_type = Some(ConvertedType::INT_8);
        match convert_schema(&[r, e]).unwrap() { SchemaField::Group(g) => match &g.children[0] { SchemaField::Primitive(p) => assert_eq!(p.logical_type, Some(PrimitiveLogicalType::Integer(IntegerOptions { bitwidth: 8, is_signed: true }))), _ => panic!() }, _ => panic!() }
    }""" + """fn main() { schema::go() }""",
"an element with an invalid modern annotation and a valid legacy one", "the legacy annotation is not used")
