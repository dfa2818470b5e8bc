use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

fn roundtrip<C: Case>() {
    let v = C::gen(Wide(true));
    let mut o = Out::new();
    check!(v.write_thrift(&mut o).is_ok(), "encoding a value failed");
    let mut inp = CompactThriftInputSlice::new(o.as_slice());
    match C::read_thrift(&mut inp) {
        Ok(w) => {
            check!(v.eq(&w), "decoded value differs from the encoded one");
            check!(inp.as_slice().is_empty(), "decoding did not consume the whole encoding");
            reach(0);
            obs(o.n as u64);
        }
        Err(_) => fail("decoding an encoded value failed"),
    }
}

/// a field with any id after a field with any id
fn header<V>(v: V, ty: u8, used: usize)
where
    V: for<'x> CompactThriftProtocol<'x> + Default + PartialEq,
{
    let (id, last) = (nd16() as i16, nd16() as i16);
    let mut o = Sink::<16>::new();
    let mut l = last;
    check!(v.write_thrift_field(&mut o, id, &mut l).is_ok(), "encoding a field failed");
    check!(l == id, "the writer does not remember the field id");
    let mut inp = CompactThriftInputSlice::new(o.as_slice());
    let mut l = last;
    match inp.read_field_header(&mut l) {
        Ok(t) => {
            check!(l == id, "decoded field id differs from the encoded one");
            check!(t == ty, "decoded field type differs from the encoded one");
            check!(inp.as_slice().len() == used, "the field header was not consumed exactly");
            let mut w = V::default();
            check!(w.fill_thrift_field(&mut inp, t).is_ok(), "decoding an encoded field failed");
            check!(w == v, "decoded field value differs from the encoded one");
            check!(inp.as_slice().is_empty(), "decoding did not consume the whole field");
            reach(if o.n == used + 1 { 0 } else { 1 });
            obs(o.n as u64);
        }
        Err(_) => fail("decoding an encoded field header failed"),
    }
}

entries! {
    h_c07_scalars, 1, "all scalar kinds, required, all values; binary up to 2 bytes, strings up to 2 code points" => { roundtrip::<Scalars>() }
    h_c07_opts, 1, "all scalar kinds, optional; all 2^8 presence patterns; all integer values" => { roundtrip::<Opts>() }
    h_c07_gaps, 1, "ids 1, 17, 16, 300, 2, 32767; all presence patterns; all values" => { roundtrip::<Gaps>() }
    h_c07_odd, 1, "ids -5, -32768, 32767, -32767, 0, 15, 16; all presence patterns; all values" => { roundtrip::<Odd>() }
    h_c07_nested, 1, "structs in structs, lists of up to 2 structs, empty structs; all presence patterns" => { roundtrip::<Nested>() }
    h_c07_lists, 1, "lists of i32, string, bool, double, i64 and binary, up to 3 elements" => { roundtrip::<Lists>() }
    h_c07_var, 1, "a union of nine kinds of variant" => { roundtrip::<Var>() }
    h_c07_mixed, 1, "enums, unions and lists of them as fields" => { roundtrip::<Mixed>() }
    h_c07_wraps, 1, "Box, Rc and Arc of bool, i32, string and struct" => { roundtrip::<Wraps>() }
    h_c07_strs, 1, "Rc<str>, Arc<str>, Box<str>" => { roundtrip::<Strs>() }
    h_c07_tree, 1, "a recursive struct, up to 3 levels and 2 children per list" => { roundtrip::<Tree>() }
    h_c07_hdr_int, 2, "all 2^32 pairs of consecutive field ids; i32 field, all one-byte values" => { header(small() as i32, 5, 1) }
    h_c07_hdr_bool, 2, "all 2^32 pairs of consecutive field ids; bool field" => {
        let v = ndbc();
        header(v, if v { 1 } else { 2 }, 0)
    }
    h_c07_hdr_opt, 2, "all 2^32 pairs of consecutive field ids; optional bool field" => {
        let v = ndbc();
        header(Some(v), if v { 1 } else { 2 }, 0)
    }
    h_c07_big, 1, "a struct with a list<i8>, a string, a binary, a list<binary> and a list<string>, one of which has 14 to 17, 127 to 130, 254 to 258, 4096 or 65536 bytes or elements; decoded from a slice and from a stream" => {
        let n = match choose(4) { 0 => range(14, 17), 1 => range(127, 130), 2 => range(254, 258), _ => [4096, 65536][choose(2) as usize] };
        let k = choose(5);
        let v = Long {
            a: (0..if k == 0 { n } else { 1 }).map(|i| if i == 0 { nd8() as i8 } else { i as i8 }).collect(),
            b: {
                let mut t = text();
                for i in 1..if k == 1 { n } else { 1 } {
                    t.push((32 + i % 91) as u8 as char);
                }
                t
            },
            c: (0..if k == 2 { n } else { 1 }).map(|i| if i == 0 { nd8() } else { i as u8 }).collect(),
            d: (0..if k == 3 { n.min(4096) } else { 1 }).map(|i| vec![i as u8; i % 3]).collect(),
            e: opt(|| (0..if k == 4 { n.min(4096) } else { 1 }).map(|i| if i == 0 { text() } else { "ab"[..i % 3].to_string() }).collect()),
        };
        let mut o = Sink::<66000>::new();
        check!(v.write_thrift(&mut o).is_ok(), "encoding a value failed");
        if choose(2) == 0 {
            let mut inp = CompactThriftInputSlice::new(o.as_slice());
            check!(matches!(Long::read_thrift(&mut inp), Ok(w) if w == v), "decoded value differs from the encoded one");
            check!(inp.as_slice().is_empty(), "decoding did not consume the whole encoding");
        } else {
            let mut inp = Stream::new(o.as_slice());
            check!(matches!(Long::read_thrift(&mut inp), Ok(w) if w == v), "decoded value differs from the encoded one");
            check!(inp.p == o.n, "decoding did not consume the whole encoding");
        }
        reach(0);
    }
}
