use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

thrift! {
    struct Known {
        1: required i8 a;
        3: optional bool b;
        20: required list<i8> c;
        -2: optional Inner d;
        4: optional i32 e;
    }
    struct Outer {
        1: required Inner a;
        2: required list<Inner> b;
    }
}

/// a field of any type with any id but those given, in either header form
fn unknown(o: &mut Out, last: &mut i16, depth: u32, known: &[i16]) {
    let ty = any_type(depth);
    let id = nd16() as i16;
    for k in known {
        assume(id != *k);
    }
    if choose(2) == 0 {
        let d = id as i32 - *last as i32;
        assume(d >= 1 && d <= 15);
        o.byte((d as u8) << 4 | ty);
    } else {
        o.byte(ty);
        o.zz(id as i64);
    }
    *last = id;
    o.any_value(ty, false, depth.saturating_sub(1), &mut (choose(3) as usize));
}

/// `at` says where the unknown fields go
fn known(o: &mut Out, at: &dyn Fn(usize, &mut Out, &mut i16), full: bool) -> Known {
    let v = Known {
        a: nd8() as i8,
        b: if full { Some(ndb()) } else { None },
        c: if full { vec![nd8() as i8] } else { vec![] },
        d: if full { Some(Inner { x: small() as i32, y: None }) } else { None },
        e: if full { Some(small() as i32) } else { None },
    };
    let mut l = 0;
    at(0, o, &mut l);
    o.field(3, 1, l);
    o.byte(v.a as u8);
    l = 1;
    at(1, o, &mut l);
    if let Some(b) = v.b {
        bfield(o, b, 3, l);
        l = 3;
    }
    at(2, o, &mut l);
    o.field(9, 20, l);
    o.list(3, v.c.len());
    for x in &v.c {
        o.byte(*x as u8);
    }
    l = 20;
    at(3, o, &mut l);
    if let Some(d) = &v.d {
        o.field(12, -2, l);
        d.spec(o);
        l = -2;
    }
    at(4, o, &mut l);
    if let Some(e) = v.e {
        o.field(5, 4, l);
        o.zz(e as i64);
        l = 4;
    }
    at(5, o, &mut l);
    o.stop();
    v
}

fn judge<V: for<'x> CompactThriftProtocol<'x> + Default>(o: &mut Out, eq: impl Fn(&V) -> bool) {
    let n = o.n;
    o.byte(nd8());
    let mut inp = CompactThriftInputSlice::new(o.as_slice());
    match V::read_thrift(&mut inp) {
        Ok(w) => {
            check!(eq(&w), "an unknown field changes the decoded value");
            check!(inp.as_slice().len() == 1, "an unknown field changes the bytes consumed");
            reach(0);
            obs(n as u64);
        }
        Err(_) => fail("an unknown field makes decoding fail"),
    }
}

const IDS: &[i16] = &[1, 3, 20, -2, 4];
fn same_known(a: &Known, b: &Known) -> bool {
    a.a == b.a && a.b == b.b && a.c == b.c && a.e == b.e && match (&a.d, &b.d) {
        (None, None) => true,
        (Some(x), Some(y)) => Case::eq(x, y),
        _ => false,
    }
}

entries! {
    h_c09_one, 1, "one unknown field of any id, any wire type, in each of 6 places, short and long header; containers of up to 2 scalars (thorough: nested once more)" => {
        let p = choose(6) as usize;
        let mut o = Out::new();
        let v = known(&mut o, &|i, o, l| if i == p { unknown(o, l, b(1, 2) as u32, IDS) }, choose(2) == 1);
        judge::<Known>(&mut o, |w| same_known(&v, w));
    }
    h_c09_two, 1, "two unknown scalar fields of any id in any two of 4 places" => {
        let (p, q) = (choose(4) as usize, choose(4) as usize);
        let mut o = Out::new();
        let v = known(&mut o, &|i, o, l| {
            if i == p { unknown(o, l, 0, IDS) }
            if i == q { unknown(o, l, 0, IDS) }
        }, true);
        judge::<Known>(&mut o, |w| same_known(&v, w));
    }
    h_c09_nested, 1, "an unknown field in a nested struct, in a struct in a list, or around them" => {
        let p = choose(6) as usize;
        let mut o = Out::new();
        let inner = |k: usize, o: &mut Out| {
            let v = Inner { x: small() as i32, y: Some(ndb()) };
            let mut l = 0;
            o.field(5, 1, l);
            o.zz(v.x as i64);
            l = 1;
            if k == p {
                unknown(o, &mut l, 1, &[1, 2]);
            }
            bfield(o, v.y == Some(true), 2, l);
            if k + 1 == p {
                l = 2;
                unknown(o, &mut l, 1, &[1, 2]);
            }
            o.stop();
            v
        };
        o.field(12, 1, 0);
        let a = inner(0, &mut o);
        let mut l = 1;
        if p == 4 {
            unknown(&mut o, &mut l, 1, &[1, 2]);
        }
        o.field(9, 2, l);
        o.list(12, 2);
        let x = inner(2, &mut o);
        let y = inner(9, &mut o);
        l = 2;
        if p == 5 {
            unknown(&mut o, &mut l, 1, &[1, 2]);
        }
        o.stop();
        judge::<Outer>(&mut o, |w| Case::eq(&w.a, &a) && w.b.len() == 2 && Case::eq(&w.b[0], &x) && Case::eq(&w.b[1], &y));
    }
    h_c09_nest, 1, "one unknown field that nests a list, set, map or struct in another, known fields after it" => {
        let mut o = Out::new();
        let v = known(&mut o, &|i, o, l| if i == 2 {
            let (ty, it) = (9 + choose(4) as u8, 9 + choose(4) as u8);
            o.field(ty, 9, *l);
            *l = 9;
            match ty {
                9 | 10 => o.list(it, 1),
                11 => {
                    o.byte(1);
                    o.byte(0x30 | it);
                    o.byte(nd8());
                }
                _ => o.field(it, 3, 0),
            }
            o.any_value(it, true, 0, &mut (choose(3) as usize));
            if ty == 12 {
                o.stop();
            }
        }, true);
        judge::<Known>(&mut o, |w| same_known(&v, w));
    }
    h_c09_many, 1, "an unknown list, set or map of every element type with 13 to 17, 127 to 130, 254 to 258 or 1000 elements, or binary of 127 to 130, 254 to 258 or 4096 bytes, in each of 6 places; both inputs" => {
        let p = choose(6) as usize;
        let ty = 8 + choose(4) as u8;
        let et = 1 + choose(12) as u8;
        let n = match choose(4) { 0 => range(13, 17), 1 => range(127, 130), 2 => range(254, 258), _ => if ty == 8 { 4096 } else { 1000 } };
        if ty == 8 {
            assume(et == 1);
        }
        let mut big = Sink::<14000>::new();
        if ty == 8 {
            big.varint(n as u64);
            for i in 0..n {
                big.byte(i as u8);
            }
        } else {
            big.many(ty, et, n, false);
        }
        // the parts of the struct, with a marker in place of the unknown field
        let mut o = Out::new();
        let cut = std::cell::Cell::new(0);
        let v = known(&mut o, &|i, o, l| if i == p {
            o.field(ty, 77, *l);
            *l = 77;
            cut.set(o.n);
        }, true);
        let mut w = Sink::<14200>::new();
        w.bytes(&o.b[..cut.get()]);
        w.bytes(big.as_slice());
        w.bytes(&o.b[cut.get()..o.n]);
        let n = w.n;
        w.byte(nd8());
        let (r, used) = if choose(2) == 0 {
            let mut inp = CompactThriftInputSlice::new(w.as_slice());
            let r = Known::read_thrift(&mut inp);
            (r, w.n - inp.as_slice().len())
        } else {
            let mut inp = Stream::new(w.as_slice());
            let r = Known::read_thrift(&mut inp);
            (r, inp.p)
        };
        match r {
            Ok(x) => check!(same_known(&x, &v), "an unknown field changes the decoded value"),
            Err(_) => fail("an unknown field makes decoding fail"),
        }
        check!(used == n, "an unknown field changes the bytes consumed");
        reach(0);
    }
}
