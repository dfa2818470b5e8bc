use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

thrift! {
    enum Shape {
        CIRCLE = 0;
        SQUARE = 7;
        LAST = 2147483647;
        FIRST = -2147483648;
        BACK = -1;
    }
    struct Shapes {
        1: required Shape a;
        2: optional Shape b;
        3: optional list<Shape> c;
        20: optional Box<Shape> d;
    }
    union ShapeOr {
        1: Shape shape;
        2: i32 num;
    }
}

const NAMED: [(Shape, i32); 5] = [
    (Shape::CIRCLE, 0),
    (Shape::SQUARE, 7),
    (Shape::LAST, i32::MAX),
    (Shape::FIRST, i32::MIN),
    (Shape::BACK, -1),
];

entries! {
    h_c16_number, 2, "all 2^32 numbers: bytes written, value read back, comparison with each named constant" => {
        let n = nd32() as i32;
        let v = Shape::from(n);
        check!(v.0 == n && v == Shape(n), "an enum does not keep its number");
        let mut o = Sink::<8>::new();
        check!(v.write_thrift(&mut o).is_ok(), "writing an enum failed");
        let mut w = Sink::<8>::new();
        w.zz(n as i64);
        check!(same(o.as_slice(), w.as_slice()), "an enum is not written as its number");
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        match Shape::read_thrift(&mut i) {
            Ok(x) => check!(x.0 == n && x == v, "an enum number does not survive"),
            Err(_) => fail("an enum number is rejected"),
        }
        check!(i.as_slice().is_empty(), "an enum is not consumed exactly");
        let mut known = false;
        for (c, k) in NAMED {
            check!((v == c) == (n == k), "an enum value equals a constant of another number");
            known |= v == c;
        }
        reach(known as u32);
        obs(n as u64);
    }
    h_c16_fields, 1, "all numbers as required, optional, list and boxed field; numbers wide in one place" => {
        let k = choose(4);
        let e = |i: u32| Shape(if i == k { nd32() as i32 } else { small() as i32 });
        let v = Shapes {
            a: e(0),
            b: if ndbc() { Some(e(1)) } else { None },
            c: if ndbc() { Some(vec![e(9), e(2)]) } else { None },
            d: if ndbc() { Some(Box::new(e(3))) } else { None },
        };
        let mut w = Out::new();
        w.field(5, 1, 0);
        w.zz(v.a.0 as i64);
        let mut l = 1;
        if let Some(b) = v.b {
            w.field(5, 2, l);
            w.zz(b.0 as i64);
            l = 2;
        }
        if let Some(c) = &v.c {
            w.field(9, 3, l);
            w.list(5, 2);
            w.zz(c[0].0 as i64);
            w.zz(c[1].0 as i64);
            l = 3;
        }
        if let Some(d) = &v.d {
            w.field(5, 20, l);
            w.zz(d.0 as i64);
        }
        w.stop();
        let mut o = Out::new();
        check!(v.write_thrift(&mut o).is_ok(), "writing an enum failed");
        check!(same(o.as_slice(), w.as_slice()), "an enum is not written as its number");
        match Shapes::read_thrift(&mut Stream::new(o.as_slice())) {
            Ok(x) => check!(x == v, "an enum number does not survive"),
            Err(_) => fail("an enum number is rejected"),
        }
        reach(0);
    }
    h_c16_union, 1, "all numbers as union variant" => {
        let n = nd32() as i32;
        let v = ShapeOr::shape(Shape(n));
        let mut o = Out::new();
        check!(v.write_thrift(&mut o).is_ok(), "writing an enum failed");
        match ShapeOr::read_thrift(&mut CompactThriftInputSlice::new(o.as_slice())) {
            Ok(ShapeOr::shape(x)) => check!(x.0 == n, "an enum number does not survive"),
            Ok(_) => fail("an enum variant is decoded as another"),
            Err(_) => fail("an enum number is rejected"),
        }
        reach(0);
    }
    h_c16_free, 2, "0 to 12 arbitrary bytes" => {
        let mut m = [0; 12];
        let n = range(0, 12);
        fill(&mut m[..n]);
        let mut d = Dec::new(&m[..n]);
        let want = d.varint();
        let mut i = CompactThriftInputSlice::new(&m[..n]);
        let r = Shape::read_thrift(&mut i);
        if d.wide {
            return;
        }
        match want {
            Some(v) => {
                check!(matches!(r, Ok(x) if x.0 == unzz(v & 0xffff_ffff) as i32), "an enum does not decode to its number");
                check!(i.as_slice().len() == d.left(), "an enum is not consumed exactly");
                reach(0);
            }
            None => {
                check!(rcode(&r) == EOF, "a truncated enum is not an end of input error");
                reach(1);
            }
        }
    }
}
