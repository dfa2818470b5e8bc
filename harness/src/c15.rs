use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;
use std::rc::Rc;
use std::fmt::Write as _;

thrift! {
    union Choice {
        1: i8 byte;
        2: bool flag;
        3: i32 num;
        300: string text;
        -4: list<i8> list;
        5: Choice2 inner;
        16: Box<Choice2> boxed;
    }
    union Choice2 {
        7: Rc<i8> first;
        1: Empty nothing;
    }
    struct Around {
        1: required Choice a;
        2: optional Choice2 b;
    }
}

struct Text {
    b: [u8; 64],
    n: usize,
}
impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.bytes() {
            if self.n < 64 {
                self.b[self.n] = c;
                self.n += 1;
            }
        }
        Ok(())
    }
}

fn names(f: &FieldNameOf, union: &str) -> bool {
    let mut t = Text { b: [0; 64], n: 0 };
    let _ = write!(t, "{}", f.0);
    // the name itself, not a longer one that contains it
    let (t, u) = (&t.b[..t.n], union.as_bytes());
    (0..t.len()).any(|i| i + u.len() <= t.len() && same(&t[i..i + u.len()], u) && !t.get(i + u.len()).is_some_and(|c| c.is_ascii_alphanumeric()))
}
struct FieldNameOf<'a>(&'a dyn std::fmt::Display);

/// what the bytes of a union mean
#[derive(Clone, Copy)]
enum M<'a> {
    Byte(i8),
    Flag(bool),
    Num(i32),
    Text(&'a [u8]),
    List(&'a [u8]),
    First(i8, bool),
    Nothing(bool),
}

/// `Err(Some(name))`: a variant the union of this name does not know
fn inner<'a>(d: &mut Dec<'a>, boxed: bool) -> Result<M<'a>, Option<&'static str>> {
    let (t, id) = d.field(0).ok_or(None)?;
    if t == 0 {
        return Err(None);
    }
    let m = match id {
        7 if t == 3 => M::First(d.byte().ok_or(None)? as i8, boxed),
        1 if t == 12 => {
            // an empty struct that may have fields
            d.skip(12, false).ok_or(None)?;
            M::Nothing(boxed)
        }
        7 | 1 => return Err(None),
        _ => return Err(Some("Choice2")),
    };
    if d.byte() == Some(0) { Ok(m) } else { Err(None) }
}

fn outer<'a>(d: &mut Dec<'a>) -> Result<M<'a>, Option<&'static str>> {
    let (t, id) = d.field(0).ok_or(None)?;
    if t == 0 {
        return Err(None);
    }
    let m = match id {
        1 if t == 3 => M::Byte(d.byte().ok_or(None)? as i8),
        2 if t == 1 || t == 2 => M::Flag(t == 1),
        3 if t == 5 => M::Num(unzz(d.varint().ok_or(None)? & 0xffff_ffff) as i32),
        300 if t == 8 => {
            let b = d.binary().ok_or(None)?;
            if std::str::from_utf8(b).is_err() {
                return Err(None);
            }
            M::Text(b)
        }
        -4 if t == 9 => {
            let (n, e) = d.list().ok_or(None)?;
            if e != 3 || n > d.left() as u64 {
                return Err(None);
            }
            M::List(d.take(concrete(n) as usize).ok_or(None)?)
        }
        5 if t == 12 => inner(d, false)?,
        16 if t == 12 => inner(d, true)?,
        1 | 2 | 3 | 300 | -4 | 5 | 16 => return Err(None),
        _ => return Err(Some("Choice")),
    };
    if d.byte() == Some(0) { Ok(m) } else { Err(None) }
}

fn agrees(v: &Choice, m: &M) -> bool {
    let two = |x: &Choice2, boxed: bool| match (x, m) {
        (Choice2::first(a), M::First(b, k)) => **a == *b && *k == boxed,
        (Choice2::nothing(_), M::Nothing(k)) => *k == boxed,
        _ => false,
    };
    match (v, m) {
        (Choice::byte(a), M::Byte(b)) => *a == *b,
        (Choice::flag(a), M::Flag(b)) => *a == *b,
        (Choice::num(a), M::Num(b)) => *a == *b,
        (Choice::text(a), M::Text(b)) => same(a.as_bytes(), b),
        (Choice::list(a), M::List(b)) => a.len() == b.len() && a.iter().zip(*b).all(|(x, y)| *x as u8 == *y),
        (Choice::inner(a), _) => two(a, false),
        (Choice::boxed(a), _) => two(a, true),
        _ => false,
    }
}

fn judge(b: &[u8]) {
    let mut d = Dec::new(b);
    let want = outer(&mut d);
    let mut i = CompactThriftInputSlice::new(b);
    let r = Choice::read_thrift(&mut i);
    if d.wide {
        return;
    }
    match want {
        Ok(m) => match &r {
            Ok(v) => {
                check!(agrees(v, &m), "a union decodes to another variant or content");
                check!(i.as_slice().len() == d.left(), "a union is not consumed exactly");
                reach(0);
            }
            Err(_) => fail("a valid union is rejected"),
        },
        Err(None) => {
            check!(r.is_err(), "a union with no variant, a malformed variant or no stop marker is accepted");
            reach(1);
        }
        Err(Some(u)) => match &r {
            Ok(_) => fail("a union with an unknown variant is accepted"),
            Err(ThriftError::MissingField(f)) => {
                check!(names(&FieldNameOf(f), u), "the error for an unknown variant does not name the union");
                reach(2);
            }
            Err(_) => fail("the error for an unknown variant does not name the union"),
        },
    }
    obs(rcode(&r));
}

entries! {
    h_c15_roundtrip, 1, "9 variants, all contents (strings up to 2 code points, binary up to 3 bytes, lists up to 2)" => {
        let v = var_of(choose(9), true);
        let mut o = Out::new();
        check!(v.write_thrift(&mut o).is_ok(), "encoding a union failed");
        let n = o.n;
        o.byte(nd8());
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        match Var::read_thrift(&mut i) {
            Ok(w) => check!(Case::eq(&v, &w), "a union decodes to another variant or content"),
            Err(_) => fail("an encoded union is rejected"),
        }
        check!(i.as_slice().len() == 1, "a union is not consumed exactly");
        reach(0);
        obs(n as u64);
    }
    h_c15_nested_roundtrip, 1, "unions in unions and as required and optional fields" => {
        let two = |k: u32| match k { 0 => Choice2::first(Rc::new(nd8() as i8)), _ => Choice2::nothing(Empty {}) };
        let a = match choose(4) {
            0 => Choice::inner(two(choose(2))),
            1 => Choice::boxed(Box::new(two(choose(2)))),
            2 => Choice::flag(ndb()),
            _ => Choice::num(nd32() as i32),
        };
        let v = Around { a, b: if ndbc() { Some(two(choose(2))) } else { None } };
        let mut o = Out::new();
        check!(v.write_thrift(&mut o).is_ok(), "encoding a union failed");
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        match Around::read_thrift(&mut i) {
            Ok(w) => check!(v == w, "a union decodes to another variant or content"),
            Err(_) => fail("an encoded union is rejected"),
        }
        check!(i.as_slice().is_empty(), "a union is not consumed exactly");
        reach(0);
    }
    h_c15_free, 3, "0 to 7 (thorough: 8) arbitrary bytes" => {
        let mut m = [0; b(7, 8)];
        let n = range(0, b(7, 8));
        fill(&mut m[..n]);
        judge(&m[..n]);
    }
    h_c15_header, 2, "every variant id in the long form and every type; content of 3 arbitrary bytes" => {
        let id = nd16() as i16;
        let t = nd8();
        assume(t >= 1 && t < 16);
        let mut o = Sink::<12>::new();
        o.byte(t);
        o.zz(id as i64);
        for _ in 0..3 {
            o.byte(nd8());
        }
        judge(o.as_slice());
    }
    h_c15_stop, 2, "each variant followed by any byte" => {
        let v = var_of(choose(9), false);
        let mut o = Out::new();
        v.spec(&mut o);
        let n = o.n;
        let s = nd8();
        o.b[n - 1] = s;
        o.byte(nd8());
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        let r = Var::read_thrift(&mut i);
        if s == 0 {
            check!(r.is_ok(), "a valid union is rejected");
            reach(0);
        } else {
            check!(r.is_err(), "a union not ended by the stop marker is accepted");
            reach(1);
        }
        obs(rcode(&r));
    }
    h_c15_refill, 1, "a union that already holds one of 9 variants, decoded into again from an encoding of one of 9 variants, in one place or as a field that occurs twice" => {
        let v = var_of(choose(9), false);
        let mut w = var_of(choose(9), false);
        let mut o = Out::new();
        v.spec(&mut o);
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        check!(w.fill_thrift(&mut i).is_ok(), "an encoded union is rejected");
        check!(Case::eq(&v, &w), "a union decodes to another variant or content than the last one encoded");
        check!(i.as_slice().is_empty(), "a union is not consumed exactly");
        reach(0);
    }
}
