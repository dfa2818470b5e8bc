use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;
use std::fmt::Write as _;

thrift! {
    struct Rec {
        1: required i8 alpha;
        2: optional i8 beta;
        3: required bool gamma;
        4: optional string delta;
        5: optional list<i8> epsilon;
    }
    struct Holder {
        1: required Rec theta;
        2: required i8 omega;
    }
    struct Wrapped {
        1: required Box<Inner> kappa;
        2: optional Rc<bool> lambda;
        3: required list<i8> sigma;
        4: required Var tau;
    }
}

struct Text {
    b: [u8; 64],
    n: usize,
}
impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.bytes() {
            if self.n < 64 {
                self.b[self.n] = c;
                self.n += 1;
            }
        }
        Ok(())
    }
}

fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| same(w, n))
}

/// the error is a missing field of the struct, one of those missing and none of those present
fn names(e: &ThriftError, of: &str, fields: &[(&str, bool)]) {
    let ThriftError::MissingField(f) = e else { fail("a missing required field is not reported as such") };
    let mut t = Text { b: [0; 64], n: 0 };
    let _ = write!(t, "{}", f);
    let t = &t.b[..t.n];
    check!(contains(t, of.as_bytes()), "the error does not name the struct");
    let mut named = 0;
    for (n, missing) in fields {
        if contains(t, n.as_bytes()) {
            check!(*missing, "the error names a field that is not missing");
            named += 1;
        }
    }
    check!(named == 1, "the error does not name the missing field");
}

struct Want {
    n: [usize; 6],
    a: i8,
    b: i8,
    c: bool,
    d: u8,
    e: i8,
}

/// a sequence of fields, each any of the known ones or an unknown one
fn fields(o: &mut Out, max: usize) -> Want {
    let mut w = Want { n: [0; 6], a: 0, b: 0, c: false, d: 0, e: 0 };
    let mut l = 0;
    for _ in 0..range(0, max) {
        let k = choose(6) as usize;
        w.n[k] += 1;
        let id = [1, 2, 3, 4, 5, 9][k];
        match k {
            0 => {
                w.a = nd8() as i8;
                o.field(3, id, l);
                o.byte(w.a as u8);
            }
            1 => {
                w.b = nd8() as i8;
                o.field(3, id, l);
                o.byte(w.b as u8);
            }
            2 => {
                w.c = ndb();
                bfield(o, w.c, id, l);
            }
            3 => {
                w.d = nd8() & 127;
                o.field(8, id, l);
                o.byte(1);
                o.byte(w.d);
            }
            4 => {
                w.e = nd8() as i8;
                o.field(9, id, l);
                o.list(3, 1);
                o.byte(w.e as u8);
            }
            _ => {
                o.field(4, id, l);
                o.zz(small());
            }
        }
        l = id;
    }
    o.stop();
    w
}

fn judge(r: &Result<Rec, ThriftError>, w: &Want) {
    let twice = w.n[1] > 1 || w.n[3] > 1 || w.n[4] > 1;
    match r {
        Ok(v) => {
            check!(!twice, "an optional field occurring twice is accepted");
            check!(w.n[0] > 0 && w.n[2] > 0, "a missing required field goes unnoticed");
            if w.n[0] == 1 {
                check!(v.alpha == w.a, "required field has the wrong value");
            }
            if w.n[2] == 1 {
                check!(v.gamma == w.c, "required field has the wrong value");
            }
            check!(v.beta == (if w.n[1] == 1 { Some(w.b) } else { None }), "optional field does not match the input");
            match &v.delta {
                Some(s) => check!(w.n[3] == 1 && same(s.as_bytes(), &[w.d]), "optional field does not match the input"),
                None => check!(w.n[3] == 0, "optional field does not match the input"),
            }
            match &v.epsilon {
                Some(s) => check!(w.n[4] == 1 && s.len() == 1 && s[0] == w.e, "optional field does not match the input"),
                None => check!(w.n[4] == 0, "optional field does not match the input"),
            }
            reach(0);
        }
        Err(e) => {
            if twice {
                reach(1);
            } else if w.n[0] == 0 || w.n[2] == 0 {
                names(e, "Rec", &[("alpha", w.n[0] == 0), ("gamma", w.n[2] == 0), ("beta", false), ("delta", false), ("epsilon", false)]);
                reach(2);
            } else if w.n[0] > 1 || w.n[2] > 1 {
                // repeated required fields are outside the statement
                reach(0);
            } else {
                fail("decoding fails although every required field occurs");
            }
        }
    }
}

/// decoding by the specification: fields of `Rec` in any bytes
fn oracle(d: &mut Dec) -> Option<(Want, bool)> {
    let mut w = Want { n: [0; 6], a: 0, b: 0, c: false, d: 0, e: 0 };
    let mut l = 0;
    loop {
        let (t, id) = d.field(l)?;
        if t == 0 {
            break;
        }
        l = id;
        match id {
            1 => {
                if t != 3 {
                    return None;
                }
                w.a = d.byte()? as i8;
                w.n[0] += 1;
            }
            2 => {
                if t != 3 || w.n[1] > 0 {
                    return None;
                }
                w.b = d.byte()? as i8;
                w.n[1] += 1;
            }
            3 => {
                if t != 1 && t != 2 {
                    return None;
                }
                w.c = t == 1;
                w.n[2] += 1;
            }
            4 | 5 => return Some((w, false)), // covered by the sequences
            _ => d.skip(t, false)?,
        }
    }
    Some((w, true))
}

macro_rules! kinds {
    ($($req:ident $opt:ident [$($ty:tt)*] $class:literal)*) => {
        $(thrift! {
            struct $req { 1: required i8 other; 4: required $($ty)* wanted; }
            struct $opt { 1: required i8 other; 4: optional $($ty)* wanted; }
        })*
        fn optional(k: u32, m: &[u8], n: usize, stream: bool) {
            let mut i = 0;
            $(
                if i == k {
                    let r = $opt::read(m, stream);
                    occurs(&r, m, n, r.as_ref().map_or(false, |v| v.wanted.is_some()));
                }
                i += 1;
            )*
            let _ = i;
        }
        fn required(k: u32, m: &[u8], n: usize, stream: bool) {
            let mut i = 0;
            $(
                if i == k {
                    lacks(&$req::read(m, stream), m, n, stringify!($req));
                }
                i += 1;
            )*
            let _ = i;
        }
        const CLASS: &[u8] = &[$($class),*];
    };
}

kinds! {
    R0 O0 [bool] b'b'
    R1 O1 [i8] b'1'
    R2 O2 [i16] b'4'
    R3 O3 [i32] b'5'
    R4 O4 [i64] b'6'
    R5 O5 [double] b'd'
    R6 O6 [binary] b's'
    R7 O7 [string] b's'
    R8 O8 [list<i32>] b'l'
    R9 O9 [Inner] b'S'
    R10 O10 [Color] b'5'
    R11 O11 [Var] b'V'
    R12 O12 [Box<bool>] b'b'
    R13 O13 [Rc<i32>] b'5'
    R14 O14 [Arc<string>] b's'
    R15 O15 [Box<Inner>] b'S'
    R16 O16 [Rc<bool>] b'b'
    R17 O17 [Arc<bool>] b'b'
    R18 O18 [Rc<Inner>] b'S'
    R19 O19 [Arc<i8>] b'1'
    R20 O20 [Rc<str>] b's'
    R21 O21 [Arc<str>] b's'
    R22 O22 [Box<str>] b's'
    R23 O23 [list<bool>] b'L'
    R24 O24 [Box<Var>] b'V'
    R25 O25 [Box<double>] b'd'
    R26 O26 [Box<Color>] b'5'
    R27 O27 [list<Inner>] b'M'
    R28 O28 [Empty] b'E'
    R29 O29 [Arc<Inner>] b'S'
}

trait ReadAny: for<'x> CompactThriftProtocol<'x> + Default {
    fn read(m: &[u8], stream: bool) -> Result<Self, ThriftError> {
        if stream { Self::read_thrift(&mut Stream::new(m)) } else { Self::read_thrift(&mut CompactThriftInputSlice::new(m)) }
    }
}
impl<V: for<'x> CompactThriftProtocol<'x> + Default> ReadAny for V {}

/// a field with id 4 of the class
fn put(o: &mut Out, class: u8, last: i16) {
    match class {
        b'b' => bfield(o, ndb(), 4, last),
        b'1' => {
            o.field(3, 4, last);
            o.byte(nd8());
        }
        b'4' | b'5' | b'6' => {
            o.field(class - b'0', 4, last);
            o.zz(small());
        }
        b'd' => {
            o.field(7, 4, last);
            o.double(nd64());
        }
        b's' => {
            o.field(8, 4, last);
            o.byte(1);
            o.byte(nd8() & 127);
        }
        b'l' => {
            o.field(9, 4, last);
            o.list(5, 1);
            o.zz(small());
        }
        b'L' => {
            o.field(9, 4, last);
            o.list(2, 1);
            o.byte(if ndb() { 1 } else { 2 });
        }
        b'S' | b'M' => {
            o.field(if class == b'S' { 12 } else { 9 }, 4, last);
            if class == b'M' {
                o.list(12, 1);
            }
            o.field(5, 1, 0);
            o.zz(small());
            o.stop();
        }
        b'V' => {
            o.field(12, 4, last);
            o.field(5, 2, 0);
            o.zz(small());
            o.stop();
        }
        _ => {
            o.field(12, 4, last);
            o.stop();
        }
    }
}

/// `n` occurrences of field 4, the required field 1 before or after them
fn sequence(class: u8, n: usize, first: bool) -> Out {
    let mut o = Out::new();
    let mut l = 0;
    if first {
        o.field(3, 1, 0);
        o.byte(nd8());
        l = 1;
    }
    for _ in 0..n {
        put(&mut o, class, l);
        l = 4;
    }
    if !first {
        o.field(3, 1, l);
        o.byte(nd8());
    }
    o.stop();
    o
}

/// re-encoded, the value is what it was decoded from
fn again<V: for<'x> CompactThriftProtocol<'x>>(v: &V, m: &[u8]) {
    let mut o = Sink::<CAP>::new();
    check!(v.write_thrift(&mut o).is_ok() && same(o.as_slice(), m), "a field does not have the value of its occurrence");
}

fn occurs<V: for<'x> CompactThriftProtocol<'x>>(r: &Result<V, ThriftError>, m: &[u8], n: usize, present: bool) {
    match r {
        Err(_) => {
            check!(n == 2, "decoding fails although every required field occurs");
            reach(0);
        }
        Ok(v) => {
            check!(n < 2, "an optional field occurring twice is accepted");
            check!(present == (n == 1), "optional field does not match the input");
            if m[0] == 0x13 {
                again(v, m);
            }
            reach(1);
        }
    }
}

fn lacks<V: for<'x> CompactThriftProtocol<'x>>(r: &Result<V, ThriftError>, m: &[u8], n: usize, of: &str) {
    match r {
        Err(e) => {
            check!(n == 0, "decoding fails although every required field occurs");
            names(e, of, &[("wanted", true), ("other", false)]);
            reach(0);
        }
        Ok(v) => {
            check!(n == 1, "a missing required field goes unnoticed");
            if m[0] == 0x13 {
                again(v, m);
            }
            reach(1);
        }
    }
}

entries! {
    h_c10_optional, 2, "30 kinds of optional field: absent, once or twice, before or after a required field, any values; both inputs" => {
        let (k, n) = (choose(CLASS.len() as u32), range(0, 2));
        let o = sequence(CLASS[k as usize], n, ndbc());
        optional(k, o.as_slice(), n, ndbc());
    }
    h_c10_required, 2, "30 kinds of required field: absent or once, before or after another, any values; both inputs" => {
        let (k, n) = (choose(CLASS.len() as u32), range(0, 1));
        let o = sequence(CLASS[k as usize], n, ndbc());
        required(k, o.as_slice(), n, ndbc());
    }
    h_c10_seq, 3, "all sequences of up to 4 (thorough: 5) fields, known in any order or unknown, with any values" => {
        let mut o = Out::new();
        let w = fields(&mut o, b(4, 5));
        let mut inp = CompactThriftInputSlice::new(o.as_slice());
        let r = Rec::read_thrift(&mut inp);
        judge(&r, &w);
        if r.is_ok() {
            check!(inp.as_slice().is_empty(), "decoding did not consume the whole struct");
        }
        obs(rcode(&r));
    }
    h_c10_stream, 3, "all sequences of up to 3 fields, from a stream" => {
        let mut o = Out::new();
        let w = fields(&mut o, 3);
        let r = Rec::read_thrift(&mut Stream::new(o.as_slice()));
        judge(&r, &w);
        obs(rcode(&r));
    }
    h_c10_free, 3, "0 to 5 (thorough: 7) arbitrary bytes" => {
        let mut buf = [0; b(5, 7)];
        let n = range(0, b(5, 7));
        fill(&mut buf[..n]);
        let mut d = Dec::new(&buf[..n]);
        let want = oracle(&mut d);
        let mut inp = CompactThriftInputSlice::new(&buf[..n]);
        let r = Rec::read_thrift(&mut inp);
        match want {
            Some((w, true)) => judge(&r, &w),
            Some(_) => {}
            None => {
                check!(r.is_err(), "a malformed struct is accepted");
                reach(3);
            }
        }
        obs(rcode(&r));
    }
    h_c10_nested, 3, "a struct in a struct: either may lack its required fields" => {
        let mut o = Out::new();
        let (x, y, z) = (ndbc(), ndbc(), ndbc());
        let t = ndbc();
        let mut l = 0;
        if t {
            o.field(12, 1, 0);
            l = 1;
            if x {
                o.field(3, 1, 0);
                o.byte(nd8());
            }
            if y {
                bfield(&mut o, true, 3, if x { 1 } else { 0 });
            }
            o.stop();
        }
        if z {
            o.field(3, 2, l);
            o.byte(nd8());
        }
        o.stop();
        let r = Holder::read_thrift(&mut CompactThriftInputSlice::new(o.as_slice()));
        match &r {
            Ok(v) => {
                check!(t && x && y && z, "a missing required field goes unnoticed");
                check!(v.theta.gamma, "wrong value");
                reach(0);
            }
            Err(e) => {
                if t && !(x && y) {
                    names(e, "Rec", &[("alpha", !x), ("gamma", !y), ("omega", false), ("theta", false)]);
                    reach(1);
                } else {
                    check!(!t || !z, "decoding fails although every required field occurs");
                    names(e, "Holder", &[("theta", !t), ("omega", !z), ("alpha", false), ("gamma", false)]);
                    reach(2);
                }
            }
        }
    }
    h_c10_wrapped, 2, "required boxed struct, list and union, optional Rc: every subset" => {
        let mut o = Out::new();
        let p: [bool; 4] = [ndbc(), ndbc(), ndbc(), ndbc()];
        let mut l = 0;
        if p[0] {
            o.field(12, 1, l);
            o.field(5, 1, 0);
            o.zz(small());
            o.stop();
            l = 1;
        }
        let bv = ndb();
        if p[1] {
            bfield(&mut o, bv, 2, l);
            l = 2;
        }
        if p[2] {
            o.field(9, 3, l);
            o.list(3, 0);
            l = 3;
        }
        if p[3] {
            o.field(12, 4, l);
            o.field(5, 2, 0);
            o.zz(small());
            o.stop();
        }
        o.stop();
        let r = Wrapped::read_thrift(&mut CompactThriftInputSlice::new(o.as_slice()));
        match &r {
            Ok(v) => {
                check!(p[0] && p[2] && p[3], "a missing required field goes unnoticed");
                check!(v.lambda.as_deref().copied() == (if p[1] { Some(bv) } else { None }), "optional field does not match the input");
                check!(v.sigma.is_empty() && matches!(v.tau, Var::num(_)), "wrong value");
                reach(0);
            }
            Err(e) => {
                check!(!(p[0] && p[2] && p[3]), "decoding fails although every required field occurs");
                names(e, "Wrapped", &[("kappa", !p[0]), ("sigma", !p[2]), ("tau", !p[3]), ("lambda", false)]);
                reach(1);
            }
        }
    }
}
