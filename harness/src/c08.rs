use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

fn exact<C: Case>() {
    let v = C::gen(Wide(true));
    let mut o = Out::new();
    check!(v.write_thrift(&mut o).is_ok(), "encoding a value failed");
    let mut s = Out::new();
    v.spec(&mut s);
    check!(o.n == s.n, "encoding has another length than the specification's");
    check!(same(o.as_slice(), s.as_slice()), "encoding differs from the specification's");
    reach(0);
    obs(o.n as u64);
}

fn header<V>(v: V, ty: u8, body: &[u8])
where
    V: for<'x> CompactThriftProtocol<'x>,
{
    let (id, last) = (nd16() as i16, nd16() as i16);
    let mut o = Sink::<16>::new();
    let mut l = last;
    check!(v.write_thrift_field(&mut o, id, &mut l).is_ok(), "encoding a field failed");
    let mut s = Sink::<16>::new();
    s.field(ty, id, last);
    s.bytes(body);
    check!(o.n == s.n, "encoded field has another length than the specification's");
    check!(same(o.as_slice(), s.as_slice()), "encoded field differs from the specification's");
    check!(l == id, "the writer does not remember the field id");
    reach(if o.n == 1 + body.len() { 0 } else { 1 });
}

thrift! {
    struct Sets {
        1: required set<i32> a;
        2: optional set<string> b;
    }
}

entries! {
    h_c08_scalars, 1, "all scalar kinds, required, all values; binary up to 2 bytes, strings up to 2 code points" => { exact::<Scalars>() }
    h_c08_opts, 1, "all scalar kinds, optional; all 2^8 presence patterns; all integer values" => { exact::<Opts>() }
    h_c08_gaps, 1, "ids 1, 17, 16, 300, 2, 32767; all presence patterns; all values" => { exact::<Gaps>() }
    h_c08_odd, 1, "ids -5, -32768, 32767, -32767, 0, 15, 16; all presence patterns; all values" => { exact::<Odd>() }
    h_c08_nested, 1, "structs in structs, lists of up to 2 structs, empty structs; all presence patterns" => { exact::<Nested>() }
    h_c08_lists, 1, "lists of i32, string, bool, double, i64 and binary, up to 3 elements" => { exact::<Lists>() }
    h_c08_var, 1, "a union of nine kinds of variant" => { exact::<Var>() }
    h_c08_mixed, 1, "enums, unions and lists of them as fields" => { exact::<Mixed>() }
    h_c08_wraps, 1, "Box, Rc and Arc of bool, i32, string and struct" => { exact::<Wraps>() }
    h_c08_strs, 1, "Rc<str>, Arc<str>, Box<str>" => { exact::<Strs>() }
    h_c08_tree, 1, "a recursive struct, up to 3 levels and 2 children per list" => { exact::<Tree>() }
    h_c08_hdr_int, 2, "all 2^32 pairs of consecutive field ids; i32 field" => {
        let v = small() as i32;
        let z = zz(v as i64) as u8;
        header(v, 5, &[z])
    }
    h_c08_hdr_bool, 2, "all 2^32 pairs of consecutive field ids; bool field" => {
        let v = ndbc();
        header(v, if v { 1 } else { 2 }, &[])
    }
    h_c08_hdr_double, 2, "all 2^32 pairs of consecutive field ids; double field, all 2^64 bit patterns" => {
        let v = nd64();
        header(f64::from_bits(v), 7, &v.to_le_bytes())
    }
    h_c08_set, 0, "set<i32> and set<string> fields with 0 to 2 elements" => {
        let v = Sets { a: (0..range(0, 2)).map(|_| small() as i32).collect(), b: opt(|| (0..range(0, 2)).map(|_| text()).collect()) };
        let mut o = Out::new();
        check!(v.write_thrift(&mut o).is_ok(), "encoding a value failed");
        // as lists, apart from the field type
        let mut s = Out::new();
        s.field(o.b[0] & 15, 1, 0);
        s.list(5, v.a.len());
        for x in &v.a {
            s.zz(*x as i64);
        }
        if let Some(x) = &v.b {
            s.field(o.b[0] & 15, 2, 1);
            s.list(8, x.len());
            for y in x {
                s.binary(y.as_bytes());
            }
        }
        s.stop();
        check!(o.n == s.n && same(o.as_slice(), s.as_slice()), "encoding of a set differs from the specification's beyond the field type");
        match o.b[0] & 15 {
            10 => reach(0),
            9 => fail("set field is written with the wire type of a list"),
            _ => fail("set field is written with a wire type that is neither set nor list"),
        }
    }
    h_c08_big, 1, "a struct with a list<i8>, a string, a binary, a list<binary> and a list<string>, one of which has 14 to 17, 127 to 130, 254 to 258, 4096 or 65536 bytes or elements; against the specification's encoding" => {
        let n = match choose(4) { 0 => range(14, 17), 1 => range(127, 130), 2 => range(254, 258), _ => [4096, 65536][choose(2) as usize] };
        let k = choose(5);
        let v = Long {
            a: (0..if k == 0 { n } else { 1 }).map(|i| if i == 0 { nd8() as i8 } else { i as i8 }).collect(),
            b: {
                let mut t = text();
                for i in 1..if k == 1 { n } else { 1 } {
                    t.push((32 + i % 91) as u8 as char);
                }
                t
            },
            c: (0..if k == 2 { n } else { 1 }).map(|i| if i == 0 { nd8() } else { i as u8 }).collect(),
            d: (0..if k == 3 { n.min(4096) } else { 1 }).map(|i| vec![i as u8; i % 3]).collect(),
            e: opt(|| (0..if k == 4 { n.min(4096) } else { 1 }).map(|i| if i == 0 { text() } else { "ab"[..i % 3].to_string() }).collect()),
        };
        let mut o = Sink::<66000>::new();
        check!(v.write_thrift(&mut o).is_ok(), "encoding a value failed");
        let mut s = Sink::<66000>::new();
        s.field(9, 1, 0);
        s.list(3, v.a.len());
        for x in &v.a {
            s.byte(*x as u8);
        }
        s.field(8, 2, 1);
        s.binary(v.b.as_bytes());
        s.field(8, 3, 2);
        s.binary(&v.c);
        s.field(9, 4, 3);
        s.list(8, v.d.len());
        for x in &v.d {
            s.binary(x);
        }
        if let Some(e) = &v.e {
            s.field(9, 5, 4);
            s.list(8, e.len());
            for x in e {
                s.binary(x.as_bytes());
            }
        }
        s.stop();
        check!(o.n == s.n, "encoding has another length than the specification's");
        check!(same(o.as_slice(), s.as_slice()), "encoding differs from the specification's");
        reach(0);
    }
}
