import runpy, os
G = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
P, T, U, M, R, E_, L, F, S, SC, USE = (G[k] for k in ("P", "T", "U", "M", "R", "E_", "L", "F", "S", "SC", "USE"))
BUGS = []
def B(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=USE + demo, needs=needs, breaks=breaks, **k))

B("utf8-first-page", "C14", [(P, "        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;", "        // long values only need to be checked at the start\n        let checked = &binary.as_ref()[..binary.len().min(4096)];\n        let _ = match from_utf8(checked) {\n            Err(e) if checked.len() == binary.len() || e.error_len().is_some() => Err(ThriftError::InvalidString),\n            _ => Ok(()),\n        }?;")],
"""fn main() {
    let mut v = vec![b'a'; 5000]; v[4500] = 0xff;
    let mut o = vec![]; v.write_thrift(&mut o).unwrap();
    assert!(matches!(CompactThriftInputSlice::new(&o).read_string(), Err(ThriftError::InvalidString)));
}""", "a string of more than 4096 bytes that is invalid behind them", "the string is accepted although it is no UTF-8")

B("stream-chunk-rest", "C14", [(P, "        self.read_exact(buf.as_mut_slice())?;\n        Ok(buf.into())", "        // read large values in pieces\n        if len > 1 << 20 {\n            for piece in buf.chunks_exact_mut(1 << 20) {\n                self.read_exact(piece)?;\n            }\n        } else {\n            self.read_exact(buf.as_mut_slice())?;\n        }\n        Ok(buf.into())")],
"""fn main() {
    let v = vec![7_u8; (1 << 20) + 5]; let mut o = vec![]; v.write_thrift(&mut o).unwrap(); o.push(9);
    let mut c = Cursor::new(&o);
    let r = Vec::<u8>::read_thrift(&mut c).unwrap();
    assert!(r == v); assert_eq!(c.position() as usize, o.len() - 1);
}""", "a binary value of more than 1 MiB from a stream", "its end is neither read nor filled")

B("list-len-20-bit", "C12", [(T, "        for _ in 0..len as usize {\n            // workaround", "        for _ in 0..(len & 0xF_FFFF) as usize {\n            // workaround")],
"""fn main() {
    let v = vec![1_i8; (1 << 20) + 3]; let mut o = vec![]; v.write_thrift(&mut o).unwrap();
    let r = Vec::<i8>::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap(); assert_eq!(r.len(), v.len());
}""", "a list of more than a million elements", "the higher bits of the length are lost")

B("i32-min-saturates", "C01", [(P, "    ((i << 1) ^ (i >> 31)) as u32", "    if i < 0 {\n        i.saturating_neg() as u32 * 2 - 1\n    } else {\n        i as u32 * 2\n    }")],
"""fn main() {
    let mut o = vec![]; i32::MIN.write_thrift(&mut o).unwrap();
    assert_eq!(CompactThriftInputSlice::new(&o).read_i32().unwrap(), i32::MIN);
}""", "the smallest 32 bit integer", "another number is written")

B("sse-guard-off-by-one", "C05", [(P, "        if self.0.len() >= 16 {", "        if self.0.len() > 14 {"), (U, "    debug_assert!(input.len() >= 16);\n", "")],
"""fn main() {
    // 15 readable bytes in front of a byte that terminates the integer but does not belong to the slice
    let mut b = [0x80_u8; 16]; b[15] = 0;
    let mut i = CompactThriftInputSlice::new(&b[..15]);
    assert!(i.skip_integer().is_err());
    assert_eq!(i.as_slice().len(), 15);
}""", "skipping an integer in a slice of exactly 15 bytes", "a byte behind the slice is read")

B("encset-keeps-members", "C20", [(E_, "        let mut mask = 0_u32;", "        let mut mask = self.0;")],
"""use compact_thrift_parquet::EncodingSet;
fn main() {
    let mut s = EncodingSet::default();
    s.fill_thrift(&mut CompactThriftInputSlice::new(&[0x15, 2])).unwrap();
    s.fill_thrift(&mut CompactThriftInputSlice::new(&[0x15, 6])).unwrap();
    assert_eq!(s.len(), 1);
}""", "a set that is read into again, as with a repeated field", "the previous numbers stay in the set")

B("range-empty-some", "C22", [(L, "    if min < max {\n        Ok(Some(min..max))", "    if min <= max {\n        Ok(Some(min..max))")],
"""use compact_thrift_parquet::format::*;
fn main() {
    let mut c = ColumnChunk::default(); c.offset_index_offset = Some(4); c.offset_index_length = Some(0); c.column_index_offset = Some(4); c.column_index_length = Some(0);
    let m = FileMetaData { row_groups: vec![RowGroup { columns: vec![c], ..Default::default() }], ..Default::default() };
    assert!(compact_thrift_parquet::get_page_index_range(&m).unwrap().is_none());
}""", "indexes that all have length 0 at the same position", "an empty range is returned although there is nothing to cover")

B("field-id-not-negative", "C25", [(S, "        field_id: element.field_id.map(FieldId::from),", "        field_id: element.field_id.filter(|id| *id >= 0).map(FieldId::from),")],
SC % """pub fn go() {
        let mut r = SchemaElement::default(); r.name = "r".into(); r.num_children = Some(1);
        let mut e = SchemaElement::default(); e.name = "x".into(); e.type_ = Some(Type::INT32); e.field_id = Some(-3);
        let SchemaField::Group(g) = convert_schema(&[r, e]).unwrap() else { panic!() };
        assert!(g.children[0].common().field_id == Some(FieldId::from(-3)));
    }""" + "fn main() { schema::go() }", "a negative field id", "the id is dropped")

B("write-double-once", "C18", [(P, "        self.write_all(&value.to_le_bytes())?;\n        Ok(())", "        let _ = self.write(&value.to_le_bytes())?;\n        Ok(())")],
"""struct W(Vec<u8>);
impl Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(3); self.0.extend(&b[..n]); Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() {
    let mut w = W(vec![]); 1.5_f64.write_thrift(&mut w).unwrap();
    assert_eq!(w.0, 1.5_f64.to_le_bytes());
}""", "a writer that accepts only a part of the bytes of a double", "the rest is lost without an error")

B("footer-24-bit", "C21", [(L, "    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;", "    let metadata_len = (u32::from_le_bytes(footer[0..4].try_into().unwrap()) & 0xFF_FFFF) as usize;")],
"""fn main() {
    let mut f = vec![0_u8; 20]; f.extend([4, 0, 0, 1]); f.extend(b"PAR1");
    assert!(compact_thrift_parquet::get_metadata_chunk(&mut Cursor::new(f)).is_err());
}""", "an announced length of more than 16 MiB", "the highest byte of the length is ignored")

B("encrypted-magic", "C21", [(L, "    if footer[4..] != PARQUET_MAGIC {", "    if footer[4..] != PARQUET_MAGIC && footer[4..] != *b\"PARE\" {")],
"""fn main() {
    let mut f = vec![0_u8; 20]; f.extend([4, 0, 0, 0]); f.extend(b"PARE");
    assert!(compact_thrift_parquet::get_metadata_chunk(&mut Cursor::new(f)).is_err());
}""", "a file with an encrypted footer", "the crypto metadata and ciphertext are returned as metadata")

B("fixed-len-16-bit", "C26", [(S, "                Ok(PhysicalType::FIXED_LEN_BYTE_ARRAY(len as u32))", "                Ok(PhysicalType::FIXED_LEN_BYTE_ARRAY(len as u16 as u32))")],
SC % """pub fn go() {
        let PhysicalType::FIXED_LEN_BYTE_ARRAY(n) = PhysicalType::try_from_schema_element(Type::FIXED_LEN_BYTE_ARRAY, Some(70000)).unwrap() else { panic!() };
        assert_eq!(n, 70000);
    }""" + "fn main() { schema::go() }", "a fixed length of more than 65535", "the length is truncated")

B("optional-index-type", "C26", [(S, "        if logical_type.is_none() {\n            if let Some(ct) = element.converted_type.as_ref() {\n                logical_type = GroupLogicalType", "        if logical_type.is_none() && element.logicalType.is_none() {\n            if let Some(ct) = element.converted_type.as_ref() {\n                logical_type = GroupLogicalType")],
SC % """pub fn go() {
        let mut r = SchemaElement::default(); r.name = "r".into(); r.num_children = Some(1);
        r.logicalType = Some(LogicalType::DATE(Default::default())); r.converted_type = Some(ConvertedType::LIST);
        let mut e = SchemaElement::default(); e.name = "x".into(); e.type_ = Some(Type::INT32);
        let SchemaField::Group(g) = convert_schema(&[r, e]).unwrap() else { panic!() };
        assert!(g.logical_type == Some(GroupLogicalType::List));
    }""" + "fn main() { schema::go() }", "a group with a modern annotation that does not apply to groups and a legacy one that does", "the legacy annotation is not used")

B("set-as-list", "C11", [(P, "        if field_type != Self::FIELD_TYPE {\n            return Err(ThriftError::InvalidType)", "        if field_type != Self::FIELD_TYPE && !(field_type == 11 && Self::FIELD_TYPE == 9) {\n            return Err(ThriftError::InvalidType)")],
"""thrift!{ struct A { 1: required list<i32> v } }
fn main() {
    assert!(A::read_thrift(&mut CompactThriftInputSlice::new(&[0x1b, 0x05, 0])).is_err());
}""", "a map in place of a list", "the map is read as a list")

B("missing-only-first", "C10", [(M, "    (required $struct_name:ident $field_name:ident) => {\n        if !$field_name {", "    (required $struct_name:ident $field_name:ident) => {\n        if !$field_name && std::mem::size_of::<$struct_name>() > 1 {")],
"""thrift!{ struct A { 1: required bool b; } }
fn main() {
    assert!(A::read_thrift(&mut CompactThriftInputSlice::new(&[0])).is_err());
}""", "a struct of one byte, that is with a single bool or i8", "its required field may be missing")

B("union-keeps-value", "C15", [(M, "                        *self = Self::$field_name(Default::default());\n                        #[allow(unreachable_patterns)]\n                        match self {", "                        #[allow(unreachable_patterns)]\n                        if !matches!(self, Self::$field_name(_)) {\n                            *self = Self::$field_name(Default::default());\n                        }\n                        #[allow(unreachable_patterns)]\n                        match self {")],
"""thrift!{ struct St { 1: optional i32 a; } union Un { 1: St s 2: i32 n } struct O { 1: required Un u } }
fn main() {
    // the field occurs twice
    let b = [0x1c_u8, 0x1c, 0x15, 2, 0, 0, 0x0c, 2, 0x1c, 0, 0, 0];
    let v = O::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap();
    assert_eq!(v.u, Un::s(St::new(None::<i32>)));
}""", "decoding into a union that already holds the same variant, as with a repeated field", "content of the previous value remains")

B("rc-str-static-empty", "C35", [(T, "        *self = match input.read_string()? {\n            Cow::Borrowed(s) => Arc::from(s),\n            Cow::Owned(s) => Arc::from(s),\n        };\n        Ok(())", "        let value: Arc<str> = match input.read_string()? {\n            Cow::Borrowed(s) => Arc::from(s),\n            Cow::Owned(s) => Arc::from(s),\n        };\n        // avoid a drop call, the previous value is empty\n        unsafe { std::ptr::write(self, value) };\n        Ok(())")],
"""use std::sync::Arc; use std::alloc::*; use std::sync::atomic::*;
struct A; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    { let _: Arc<str> = Default::default(); }
    let n = N.load(Ordering::Relaxed);
    { let mut v: Arc<str> = Arc::from("abc"); v.fill_thrift(&mut CompactThriftInputSlice::new(&[1, b'x'])).unwrap(); assert_eq!(&*v, "x"); }
    assert_eq!(N.load(Ordering::Relaxed), n);
}""", "decoding into an Arc<str> that is not empty, as with a repeated field", "the memory of the previous text is never released")

B("print-type-of-group", "C36", [(S, "            print!(\"{} group {}\", field.common.repetition, field.common.name);\n            if let Some(logical_type) = field.logical_type {", "            print!(\"{} group {}\", field.common.repetition, field.common.name);\n            if let Some(logical_type) = field.logical_type.filter(|_| !field.children.iter().all(|c| c.is_optional())) {")],
SC % """pub fn go() {
        let mut r = SchemaElement::default(); r.name = "r".into(); r.num_children = Some(1); r.converted_type = Some(ConvertedType::LIST);
        let mut e = SchemaElement::default(); e.name = "x".into(); e.type_ = Some(Type::INT32); e.repetition_type = Some(FieldRepetitionType::OPTIONAL);
        pretty_print_schema(&convert_schema(&[r, e]).unwrap(), 0);
    }""" + """fn main() {
    if std::env::args().len() > 1 { schema::go(); return; }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let s = String::from_utf8(o.stdout).unwrap(); assert!(s.contains("group r (List) {"), "{s}");
}""", "an annotated group all of whose children are optional", "the annotation is missing")

B("string-i16-len", "C33", [(P, "    fn write_string(&mut self, value: &str) -> Result<(), ThriftError> {\n        self.write_binary(value.as_bytes())", "    fn write_string(&mut self, value: &str) -> Result<(), ThriftError> {\n        self.write_binary(value.trim_end_matches('\\0').as_bytes())")],
"""fn main() {
    let b = [3_u8, b'a', b'b', 0];
    let s = String::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap();
    let mut o = vec![]; s.write_thrift(&mut o).unwrap();
    assert_eq!(o, b);
}""", "a string that ends in zero bytes", "the encoding decodes to another value")

B("skip-map-bool-key", "C04", [(P, "        1..=2 => {\n            // boolean stored inside the field header outside of collections\n            if inside_collection {", "        1..=2 => {\n            // boolean stored inside the field header outside of collections\n            if inside_collection && field_type == 2 {")],
"""thrift!{ struct A { 1: required i32 v; } }
fn main() {
    // map<bool, i8> with type code 1 for bool
    let b = [0x2b_u8, 1, 0x13, 1, 9, 0x05, 2, 8, 0];
    assert_eq!(A::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap().v, 4);
}""", "skipping a map whose boolean keys or values have the type code 1", "their byte is not skipped")

B("path-error-union", "C32", [(R, "        Self::IO(e.kind())", "        match e.into_inner().map(|inner| inner.downcast::<ThriftError>()) {\n            Some(Ok(inner)) => *inner,\n            _ => Self::IO(ErrorKind::Other),\n        }".replace("match e.into_inner()", "let kind = e.kind();\n        match e.into_inner()").replace("Self::IO(ErrorKind::Other)", "Self::IO(if kind == ErrorKind::InvalidInput { ErrorKind::InvalidData } else { kind })"))],
"""fn main() {
    let e = std::io::Error::new(std::io::ErrorKind::InvalidInput, "x");
    assert!(matches!(ThriftError::from(e), ThriftError::IO(std::io::ErrorKind::InvalidInput)));
}""", "an I/O error of kind InvalidInput", "the kind is replaced by InvalidData")

B("slice-read-after-error", "C06", [(P, "        if let [first, rest @ ..] = self.0 {\n            self.0 = rest;\n            Ok(*first)\n        } else {\n            Err(ThriftError::from(ErrorKind::UnexpectedEof))", "        if let [first, rest @ ..] = self.0 {\n            self.0 = rest;\n            Ok(*first)\n        } else {\n            Err(ThriftError::from(ErrorKind::InvalidData))")],
"""fn main() {
    let e = CompactThriftInputSlice::new(&[]).read_byte().unwrap_err();
    assert!(matches!(e, ThriftError::IO(std::io::ErrorKind::UnexpectedEof)));
}""", "the end of a slice where a byte is expected", "the error has another kind than with a stream")

B("map-skip-unlimited", "C13", [(P, "    let val_type = entry_type & 0x0F;\n\n    if len > MAX_COLLECTION_LEN {\n        return Err(ThriftError::InvalidCollectionLen)\n    }", "    let val_type = entry_type & 0x0F;\n\n    if len as u32 as usize > MAX_COLLECTION_LEN {\n        return Err(ThriftError::InvalidCollectionLen)\n    }")],
"""fn main() {
    // 2^32 + 1 entries
    let b = [0x81_u8, 0x80, 0x80, 0x80, 0x10, 0x33, 1, 2, 3, 4];
    assert!(CompactThriftInputSlice::new(&b).skip_field(11).is_err());
}""", "a map that announces more than 2^32 entries", "the length is reduced to 32 bits before it is compared to the limit")

B("group-index-first", "C25", [(S, "        *index += 1;\n        Ok(SchemaField::Primitive(field))", "        *index = (*index + 1) % (u16::MAX as usize + 1);\n        Ok(SchemaField::Primitive(field))")],
SC % """pub fn go() {
        let n = 65540;
        let mut r = SchemaElement::default(); r.name = "r".into(); r.num_children = Some(n);
        let mut v = vec![r];
        for _ in 0..n { let mut e = SchemaElement::default(); e.name = "x".into(); e.type_ = Some(Type::INT32); v.push(e); }
        let SchemaField::Group(g) = convert_schema(&v).unwrap() else { panic!() };
        let SchemaField::Primitive(p) = &g.children[65539] else { panic!() };
        assert_eq!(p.index, 65539);
    }""" + "fn main() { schema::go() }", "a schema of more than 65536 leaves", "leaf numbers start again from 0")

B("row-groups-255", "C23", [(L, "    file_metadata.row_groups.iter().map(|rg| {\n        read_page_index_for_column_chunk", "    file_metadata.row_groups.iter().take(i16::MAX as usize >> 7).map(|rg| {\n        read_page_index_for_column_chunk")],
"""use compact_thrift_parquet::format::*;
fn main() {
    let m = FileMetaData { row_groups: vec![RowGroup::default(); 300], ..Default::default() };
    assert_eq!(compact_thrift_parquet::read_page_index(&[], 0, &m).unwrap().len(), 300);
}""", "a file with more than 255 row groups", "the other row groups are missing")

B("lookup-empty-name", "C29", [(S, "        if let Some((name, remainder)) = path.split_first() {\n            match self {", "        if let Some((name, remainder)) = path.split_first() {\n            if name.is_empty() {\n                return self.find_field_by_path(remainder);\n            }\n            match self {")],
SC % """pub fn go() {
        let mut r = SchemaElement::default(); r.name = "r".into(); r.num_children = Some(1);
        let mut e = SchemaElement::default(); e.name = "x".into(); e.type_ = Some(Type::INT32);
        let f = convert_schema(&[r, e]).unwrap();
        assert!(f.find_field_by_path(&["", "x"]).is_none());
    }""" + "fn main() { schema::go() }", "a path with an empty step", "the step is ignored and the path leads to a node")
