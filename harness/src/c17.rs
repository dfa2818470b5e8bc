use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;
use std::rc::Rc;
use std::sync::Arc;

trait P: for<'x> CompactThriftProtocol<'x> + Default + Clone {}
impl<T: for<'x> CompactThriftProtocol<'x> + Default + Clone> P for T {}

/// value and field encodings of two types are the same
fn bytes_of<A: P, B: P>(a: &A, b: &B) {
    check!(A::FIELD_TYPE == B::FIELD_TYPE, "a wrapper changes the wire type");
    let (mut x, mut y) = (Out::new(), Out::new());
    let (r, s) = (a.write_thrift(&mut x), b.write_thrift(&mut y));
    check!(r.is_ok() && s.is_ok(), "encoding failed");
    check!(same(x.as_slice(), y.as_slice()), "a wrapper changes the encoded value");
    let (mut x, mut y) = (Out::new(), Out::new());
    let last = small() as i16;
    let (mut l, mut m) = (last, last);
    let (r, s) = (a.write_thrift_field(&mut x, 9, &mut l), b.write_thrift_field(&mut y, 9, &mut m));
    check!(r.is_ok() && s.is_ok() && l == 9 && m == 9, "encoding failed");
    check!(same(x.as_slice(), y.as_slice()), "a wrapper changes the encoded field");
    obs(x.n as u64);
}

fn wrapped<A: P>(a: A) {
    match choose(6) {
        0 => bytes_of(&a, &Box::new(a.clone())),
        1 => bytes_of(&a, &Rc::new(a.clone())),
        2 => bytes_of(&a, &Arc::new(a.clone())),
        3 => bytes_of(&a, &Some(a.clone())),
        4 => bytes_of(&a, &Some(Box::new(a.clone()))),
        _ => bytes_of(&a, &Box::new(Rc::new(a.clone()))),
    }
    reach(0);
}

fn agree<A: P, B: P>(m: &[u8], t: u8, eq: impl Fn(&A, &B) -> bool, stream: bool) {
    let (mut a, mut b) = (A::default(), B::default());
    let field = choose(2) == 0;
    let (r, s, u, v) = if stream {
        let (mut i, mut j) = (Stream::new(m), Stream::new(m));
        if field {
            (a.fill_thrift_field(&mut i, t), b.fill_thrift_field(&mut j, t), i.p, j.p)
        } else {
            (a.fill_thrift(&mut i), b.fill_thrift(&mut j), i.p, j.p)
        }
    } else {
        let (mut i, mut j) = (CompactThriftInputSlice::new(m), CompactThriftInputSlice::new(m));
        if field {
            (a.fill_thrift_field(&mut i, t), b.fill_thrift_field(&mut j, t), i.as_slice().len(), j.as_slice().len())
        } else {
            (a.fill_thrift(&mut i), b.fill_thrift(&mut j), i.as_slice().len(), j.as_slice().len())
        }
    };
    check!(rcode(&r) == rcode(&s), "a wrapper changes the bytes accepted");
    if r.is_ok() {
        check!(u == v, "a wrapper changes the bytes consumed");
        check!(eq(&a, &b), "a wrapper changes the decoded value");
        reach(0);
    } else {
        reach(1);
    }
    obs(rcode(&r));
}

fn decoded<A: P + 'static, const N: usize>(eq: fn(&A, &A) -> bool, stream: bool) {
    let mut m = [0; N];
    let n = range(0, N);
    fill(&mut m[..n]);
    let t = nd8();
    assume(t < 16);
    match choose(5) {
        0 => agree::<A, Box<A>>(&m[..n], t, |a, b| eq(a, b), stream),
        1 => agree::<A, Rc<A>>(&m[..n], t, |a, b| eq(a, b), stream),
        2 => agree::<A, Arc<A>>(&m[..n], t, |a, b| eq(a, b), stream),
        3 => agree::<A, Option<A>>(&m[..n], t, |a, b| b.as_ref().is_some_and(|b| eq(a, b)), stream),
        _ => agree::<A, Option<Rc<A>>>(&m[..n], t, |a, b| b.as_ref().is_some_and(|b| eq(a, b)), stream),
    }
}

// whole structs whose fields are wrapped or not
thrift! {
    struct Plain {
        1: required bool a;
        2: required i32 b;
        3: required string c;
        4: required Inner d;
        20: required bool e;
    }
    struct InBox {
        1: required Box<bool> a;
        2: required Box<i32> b;
        3: required Box<string> c;
        4: required Box<Inner> d;
        20: required Box<bool> e;
    }
    struct InRc {
        1: required Rc<bool> a;
        2: required Rc<i32> b;
        3: required Rc<str> c;
        4: required Rc<Inner> d;
        20: required Rc<bool> e;
    }
    struct InArc {
        1: required Arc<bool> a;
        2: required Arc<i32> b;
        3: required Arc<str> c;
        4: required Arc<Inner> d;
        20: required Arc<bool> e;
    }
    struct InOption {
        1: optional bool a;
        2: optional Box<i32> b;
        3: optional string c;
        4: optional Inner d;
        20: optional Rc<bool> e;
    }
}

fn through<B: P>(v: &Plain, o: &Out) {
    let Ok(w) = B::read_thrift(&mut CompactThriftInputSlice::new(o.as_slice())) else {
        fail("a struct with wrapped fields rejects the encoding of the plain one")
    };
    let mut p = Out::new();
    check!(w.write_thrift(&mut p).is_ok(), "encoding failed");
    check!(same(o.as_slice(), p.as_slice()), "a wrapper changes the encoded struct");
    match Plain::read_thrift(&mut CompactThriftInputSlice::new(p.as_slice())) {
        Ok(x) => check!(x.a == v.a && x.b == v.b && same(x.c.as_bytes(), v.c.as_bytes()) && Case::eq(&x.d, &v.d) && x.e == v.e, "a wrapper changes the decoded value"),
        Err(_) => fail("a plain struct rejects the encoding of the wrapped one"),
    }
    reach(0);
}

entries! {
    h_c17_write, 1, "bool, i8, i16, i32, i64, f64, String, Vec<u8>, Vec<bool>, Inner, Color, Var; all values; Box, Rc, Arc, Some, Some(Box), Box(Rc); previous id of one byte" => {
        match choose(12) {
            0 => wrapped(ndb()),
            1 => wrapped(nd8() as i8),
            2 => wrapped(nd16() as i16),
            3 => wrapped(nd32() as i32),
            4 => wrapped(nd64() as i64),
            5 => wrapped(double()),
            6 => wrapped(string()),
            7 => wrapped(bytes(3)),
            8 => wrapped((0..range(0, 3)).map(|_| ndb()).collect::<Vec<bool>>()),
            9 => wrapped(Inner { x: nd32() as i32, y: if ndbc() { Some(ndb()) } else { None } }),
            10 => wrapped(Color(nd32() as i32)),
            _ => wrapped(var_of(choose(9), false)),
        }
    }
    h_c17_read, 2, "scalars from 0 to 4 (bool: 2, double: 9, string: 4) arbitrary bytes, any wire type; Box, Rc, Arc, Option, Option<Rc>; both inputs" => {
        let s = choose(2) == 1;
        match choose(9) {
            0 => decoded::<bool, 2>(|a, b| a == b, s),
            1 => decoded::<i8, 2>(|a, b| a == b, s),
            2 => decoded::<i16, 4>(|a, b| a == b, s),
            3 => decoded::<i32, 4>(|a, b| a == b, s),
            4 => decoded::<i64, 4>(|a, b| a == b, s),
            5 => decoded::<f64, 9>(|a, b| a.to_bits() == b.to_bits(), s),
            6 => decoded::<String, 4>(|a, b| same(a.as_bytes(), b.as_bytes()), s),
            7 => decoded::<Color, 4>(|a, b| a.0 == b.0, s),
            _ => decoded::<Vec<u8>, 4>(|a, b| same(a, b), s),
        }
    }
    h_c17_read_struct, 2, "struct, union and list from 0 to 4 (thorough: 5) arbitrary bytes, any wire type; slice input" => {
        match choose(4) {
            0 => decoded::<Inner, { b(4, 5) }>(Case::eq, false),
            1 => decoded::<Var, { b(4, 5) }>(Case::eq, false),
            2 => decoded::<Vec<bool>, { b(4, 5) }>(|a, b| a == b, false),
            _ => decoded::<Vec<i32>, { b(4, 5) }>(|a, b| a == b, false),
        }
    }
    h_c17_struct, 1, "a struct with plain fields and its Box, Rc, Arc and Option versions; all values" => {
        let k = choose(3);
        let v = Plain {
            a: ndb(),
            b: if k == 0 { nd32() as i32 } else { small() as i32 },
            c: if k == 1 { string() } else { text() },
            d: Inner { x: if k == 2 { nd32() as i32 } else { small() as i32 }, y: if ndbc() { Some(ndb()) } else { None } },
            e: ndb(),
        };
        let mut o = Out::new();
        check!(v.write_thrift(&mut o).is_ok(), "encoding failed");
        match choose(4) {
            0 => through::<InBox>(&v, &o),
            1 => through::<InRc>(&v, &o),
            2 => through::<InArc>(&v, &o),
            _ => through::<InOption>(&v, &o),
        }
        obs(o.n as u64);
    }
    h_c17_none, 1, "an absent optional writes nothing as a field" => {
        let mut o = Out::new();
        let last = nd16() as i16;
        let mut l = last;
        let r = match choose(4) {
            0 => None::<bool>.write_thrift_field(&mut o, 5, &mut l),
            1 => None::<Box<i32>>.write_thrift_field(&mut o, 5, &mut l),
            2 => None::<Rc<Inner>>.write_thrift_field(&mut o, 5, &mut l),
            _ => None::<String>.write_thrift_field(&mut o, 5, &mut l),
        };
        check!(r.is_ok() && o.n == 0 && l == last, "an absent optional field leaves a trace");
        reach(0);
    }
}
