//! Representative generated types, with symbolic values, and the specification's encoding of each.
#![allow(dead_code)]
use crate::{check, spec::*, vp::*};
use compact_thrift_runtime::*;
use std::rc::Rc;
use std::sync::Arc;

pub const CAP: usize = 160;
pub type Out = Sink<CAP>;

/// A value of a generated type
pub trait Case: for<'x> CompactThriftProtocol<'x> + Default {
    /// every value within the bounds: one path per shape
    fn gen(w: Wide) -> Self;
    /// the compact protocol encoding
    fn spec(&self, o: &mut Out);
    fn eq(&self, o: &Self) -> bool;
}

/// Integers take their full range (`true`), or the range that encodes in one byte: every varint
/// multiplies the number of paths by its number of lengths.
#[derive(Clone, Copy)]
pub struct Wide(pub bool);
impl Wide {
    pub fn i16(self) -> i16 {
        if self.0 { nd16() as i16 } else { small() as i16 }
    }
    pub fn i32(self) -> i32 {
        if self.0 { nd32() as i32 } else { small() as i32 }
    }
    pub fn i64(self) -> i64 {
        if self.0 { nd64() as i64 } else { small() }
    }
}

/// any bytes, up to `n` of them
pub fn bytes(n: usize) -> Vec<u8> {
    let n = range(0, n);
    let mut v = vec![0; n];
    fill(&mut v);
    v
}

/// a symbolic code point of the given number of UTF-8 bytes
pub fn utf8(n: usize, o: &mut Vec<u8>) {
    let a = nd8();
    match n {
        1 => assume(a < 0x80),
        2 => assume(a >= 0xc2 && a <= 0xdf),
        // not e0, ed, f0, f4: their second byte is restricted further (C14 covers them)
        3 => assume(a >= 0xe1 && a <= 0xec),
        _ => assume(a >= 0xf1 && a <= 0xf3),
    }
    o.push(a);
    for _ in 1..n {
        let c = nd8();
        assume(c & 0xc0 == 0x80);
        o.push(c);
    }
}

/// a string of up to two code points: empty, each UTF-8 length, ASCII pairs
pub fn string() -> String {
    let mut v = vec![];
    match choose(4) {
        0 => {}
        1 => utf8(1, &mut v),
        2 => utf8(range(2, 4), &mut v),
        _ => {
            utf8(1, &mut v);
            utf8(1, &mut v);
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// a one-character ASCII string: for places where the text does not matter
pub fn text() -> String {
    let mut v = vec![];
    utf8(1, &mut v);
    unsafe { String::from_utf8_unchecked(v) }
}

pub fn double() -> f64 {
    f64::from_bits(nd64())
}

pub fn bfield(o: &mut Out, v: bool, id: i16, last: i16) {
    o.field(if v { 1 } else { 2 }, id, last)
}

thrift! {
    struct Scalars {
        1: required bool a;
        2: required i8 b;
        3: required i16 c;
        4: required i32 d;
        5: required i64 e;
        6: required double f;
        7: required binary g;
        8: required string h;
    }
    struct Opts {
        1: optional bool a;
        2: optional i8 b;
        3: optional i16 c;
        4: optional i32 d;
        5: optional i64 e;
        6: optional double f;
        7: optional binary g;
        8: optional string h;
    }
    struct Gaps {
        1: required i8 a;
        17: optional bool b;
        16: required i8 c;
        300: optional i32 d;
        2: required bool e;
        32767: optional i8 f;
    }
    struct Odd {
        -5: required i8 a;
        -32768: optional bool b;
        32767: optional i8 c;
        -32767: required i8 d;
        0: optional i8 e;
        15: optional bool f;
        16: optional i8 g;
    }
    struct Inner {
        1: required i32 x;
        2: optional bool y;
    }
    struct Empty {}
    struct Nested {
        1: required Inner a;
        2: optional Inner b;
        3: required list<Inner> c;
        4: optional Empty d;
        5: optional bool e;
    }
    struct Lists {
        1: required list<i32> a;
        2: optional list<string> b;
        3: required list<bool> c;
        4: optional list<double> d;
        20: optional list<i64> e;
        21: optional list<binary> f;
    }
    enum Color {
        RED = 0;
        GREEN = 1;
        FAR = 1000000;
        NEG = -3;
    }
    union Var {
        1: Inner inner;
        2: i32 num;
        5: string text;
        20: bool flag;
        21: list<i32> list;
        300: double dbl;
        -4: Color color;
        -5: Empty empty;
        7: binary bin;
    }
    struct Mixed {
        1: required Color a;
        2: optional Color b;
        3: required Var c;
        5: optional list<Color> d;
        6: optional list<Var> e;
    }
    struct Wraps {
        1: required Box<bool> a;
        2: required Rc<bool> b;
        3: required Arc<bool> c;
        4: optional Box<bool> d;
        5: optional Rc<i32> e;
        6: optional Arc<string> f;
        20: required Box<Inner> g;
        21: optional Rc<Inner> h;
        22: optional Arc<Inner> i;
    }
    struct Strs {
        1: required Rc<str> a;
        2: required Arc<str> b;
        3: required Box<str> c;
        4: optional Rc<str> d;
    }
    struct Long {
        1: required list<i8> a;
        2: required string b;
        3: required binary c;
        4: required list<binary> d;
        5: optional list<string> e;
    }
    struct Tree {
        1: required i8 v;
        2: optional Box<Tree> next;
        3: optional list<Tree> kids;
    }
}

impl Case for Scalars {
    fn gen(w: Wide) -> Self {
        Scalars { a: ndb(), b: nd8() as i8, c: w.i16(), d: w.i32(), e: w.i64(), f: double(), g: bytes(2), h: string() }
    }
    fn spec(&self, o: &mut Out) {
        bfield(o, self.a, 1, 0);
        o.field(3, 2, 1);
        o.byte(self.b as u8);
        o.field(4, 3, 2);
        o.zz(self.c as i64);
        o.field(5, 4, 3);
        o.zz(self.d as i64);
        o.field(6, 5, 4);
        o.zz(self.e);
        o.field(7, 6, 5);
        o.double(self.f.to_bits());
        o.field(8, 7, 6);
        o.binary(&self.g);
        o.field(8, 8, 7);
        o.binary(self.h.as_bytes());
        o.stop();
    }
    fn eq(&self, o: &Self) -> bool {
        self.a == o.a && self.b == o.b && self.c == o.c && self.d == o.d && self.e == o.e && self.f.to_bits() == o.f.to_bits()
            && same(&self.g, &o.g) && same(self.h.as_bytes(), o.h.as_bytes())
    }
}

pub fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    if choose(2) == 1 { Some(f()) } else { None }
}

fn oeq<T>(a: &Option<T>, b: &Option<T>, f: impl Fn(&T, &T) -> bool) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => f(a, b),
        _ => false,
    }
}

fn veq<T>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> bool) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| f(x, y))
}

impl Case for Opts {
    fn gen(w: Wide) -> Self {
        Opts {
            a: opt(ndb),
            b: opt(|| nd8() as i8),
            c: opt(|| w.i16()),
            d: opt(|| w.i32()),
            e: opt(|| w.i64()),
            f: opt(double),
            g: opt(|| bytes(if w.0 { 2 } else { 0 })),
            h: opt(text),
        }
    }
    fn spec(&self, o: &mut Out) {
        let mut l = 0;
        if let Some(v) = self.a {
            bfield(o, v, 1, l);
            l = 1;
        }
        if let Some(v) = self.b {
            o.field(3, 2, l);
            o.byte(v as u8);
            l = 2;
        }
        if let Some(v) = self.c {
            o.field(4, 3, l);
            o.zz(v as i64);
            l = 3;
        }
        if let Some(v) = self.d {
            o.field(5, 4, l);
            o.zz(v as i64);
            l = 4;
        }
        if let Some(v) = self.e {
            o.field(6, 5, l);
            o.zz(v);
            l = 5;
        }
        if let Some(v) = self.f {
            o.field(7, 6, l);
            o.double(v.to_bits());
            l = 6;
        }
        if let Some(v) = &self.g {
            o.field(8, 7, l);
            o.binary(v);
            l = 7;
        }
        if let Some(v) = &self.h {
            o.field(8, 8, l);
            o.binary(v.as_bytes());
        }
        o.stop();
    }
    fn eq(&self, o: &Self) -> bool {
        self.a == o.a && self.b == o.b && self.c == o.c && self.d == o.d && self.e == o.e
            && self.f.map(f64::to_bits) == o.f.map(f64::to_bits)
            && oeq(&self.g, &o.g, |a, b| same(a, b))
            && oeq(&self.h, &o.h, |a, b| same(a.as_bytes(), b.as_bytes()))
    }
}

impl Case for Gaps {
    fn gen(w: Wide) -> Self {
        Gaps { a: nd8() as i8, b: opt(ndb), c: nd8() as i8, d: opt(|| w.i32()), e: ndb(), f: opt(|| nd8() as i8) }
    }
    fn spec(&self, o: &mut Out) {
        o.field(3, 1, 0);
        o.byte(self.a as u8);
        let mut l = 1;
        if let Some(v) = self.b {
            bfield(o, v, 17, l);
            l = 17;
        }
        o.field(3, 16, l);
        o.byte(self.c as u8);
        l = 16;
        if let Some(v) = self.d {
            o.field(5, 300, l);
            o.zz(v as i64);
            l = 300;
        }
        bfield(o, self.e, 2, l);
        if let Some(v) = self.f {
            o.field(3, 32767, 2);
            o.byte(v as u8);
        }
        o.stop();
    }
    fn eq(&self, o: &Self) -> bool {
        self == o
    }
}

impl Case for Odd {
    fn gen(_: Wide) -> Self {
        Odd { a: nd8() as i8, b: opt(ndb), c: opt(|| nd8() as i8), d: nd8() as i8, e: opt(|| nd8() as i8), f: opt(ndb), g: opt(|| nd8() as i8) }
    }
    fn spec(&self, o: &mut Out) {
        o.field(3, -5, 0);
        o.byte(self.a as u8);
        let mut l = -5;
        if let Some(v) = self.b {
            bfield(o, v, -32768, l);
            l = -32768;
        }
        if let Some(v) = self.c {
            o.field(3, 32767, l);
            o.byte(v as u8);
            l = 32767;
        }
        o.field(3, -32767, l);
        o.byte(self.d as u8);
        l = -32767;
        if let Some(v) = self.e {
            o.field(3, 0, l);
            o.byte(v as u8);
            l = 0;
        }
        if let Some(v) = self.f {
            bfield(o, v, 15, l);
            l = 15;
        }
        if let Some(v) = self.g {
            o.field(3, 16, l);
            o.byte(v as u8);
        }
        o.stop();
    }
    fn eq(&self, o: &Self) -> bool {
        self == o
    }
}

pub fn inner_w(w: Wide) -> Inner {
    Inner { x: w.i32(), y: opt(ndb) }
}
pub fn inner_s() -> Inner {
    Inner { x: small() as i32, y: opt(ndb) }
}

impl Case for Inner {
    fn gen(w: Wide) -> Self {
        Inner { x: w.i32(), y: opt(ndb) }
    }
    fn spec(&self, o: &mut Out) {
        o.field(5, 1, 0);
        o.zz(self.x as i64);
        if let Some(y) = self.y {
            bfield(o, y, 2, 1);
        }
        o.stop();
    }
    fn eq(&self, o: &Self) -> bool {
        self.x == o.x && self.y == o.y
    }
}

impl Case for Nested {
    fn gen(w: Wide) -> Self {
        Nested {
            a: inner_w(w),
            b: opt(inner_s),
            c: (0..range(0, 2)).map(|_| inner_w(w)).collect(),
            d: opt(|| Empty {}),
            e: opt(ndb),
        }
    }
    fn spec(&self, o: &mut Out) {
        o.field(12, 1, 0);
        self.a.spec(o);
        let mut l = 1;
        if let Some(v) = &self.b {
            o.field(12, 2, l);
            v.spec(o);
            l = 2;
        }
        o.field(9, 3, l);
        o.list(12, self.c.len());
        for v in &self.c {
            v.spec(o);
        }
        l = 3;
        if self.d.is_some() {
            o.field(12, 4, l);
            o.stop();
            l = 4;
        }
        if let Some(v) = self.e {
            bfield(o, v, 5, l);
        }
        o.stop();
    }
    fn eq(&self, o: &Self) -> bool {
        Case::eq(&self.a, &o.a) && oeq(&self.b, &o.b, Case::eq) && veq(&self.c, &o.c, Case::eq) && self.d.is_some() == o.d.is_some() && self.e == o.e
    }
}

impl Case for Lists {
    fn gen(w: Wide) -> Self {
        let mut l = Lists::default();
        // one list at a time takes elements, all lists of length 0 or 1 otherwise
        let k = choose(6);
        let n = |i: u32| if i == k { range(0, 3) } else { (i & 1) as usize };
        l.a = (0..n(0)).map(|_| if w.0 { nd32() as i32 } else { small() as i32 }).collect();
        l.c = (0..n(2)).map(|_| ndb()).collect();
        if k == 1 || ndbc() {
            l.b = Some((0..n(1)).map(|_| text()).collect());
        }
        if k == 3 || ndbc() {
            l.d = Some((0..n(3)).map(|_| double()).collect());
        }
        if k == 4 || ndbc() {
            l.e = Some((0..n(4)).map(|i| if w.0 && i == 1 { nd64() as i64 } else { small() }).collect());
        }
        if k == 5 || ndbc() {
            l.f = Some((0..n(5)).map(|i| bytes(if k == 5 && i == 0 { 2 } else { 0 })).collect());
        }
        l
    }
    fn spec(&self, o: &mut Out) {
        o.field(9, 1, 0);
        o.list(5, self.a.len());
        for v in &self.a {
            o.zz(*v as i64);
        }
        let mut l = 1;
        if let Some(x) = &self.b {
            o.field(9, 2, l);
            o.list(8, x.len());
            for v in x {
                o.binary(v.as_bytes());
            }
            l = 2;
        }
        o.field(9, 3, l);
        o.list(2, self.c.len());
        for v in &self.c {
            o.byte(if *v { 1 } else { 2 });
        }
        l = 3;
        if let Some(x) = &self.d {
            o.field(9, 4, l);
            o.list(7, x.len());
            for v in x {
                o.double(v.to_bits());
            }
            l = 4;
        }
        if let Some(x) = &self.e {
            o.field(9, 20, l);
            o.list(6, x.len());
            for v in x {
                o.zz(*v);
            }
            l = 20;
        }
        if let Some(x) = &self.f {
            o.field(9, 21, l);
            o.list(8, x.len());
            for v in x {
                o.binary(v);
            }
        }
        o.stop();
    }
    fn eq(&self, o: &Self) -> bool {
        veq(&self.a, &o.a, |a, b| a == b)
            && oeq(&self.b, &o.b, |a, b| veq(a, b, |x, y| same(x.as_bytes(), y.as_bytes())))
            && veq(&self.c, &o.c, |a, b| a == b)
            && oeq(&self.d, &o.d, |a, b| veq(a, b, |x, y| x.to_bits() == y.to_bits()))
            && oeq(&self.e, &o.e, |a, b| veq(a, b, |x, y| x == y))
            && oeq(&self.f, &o.f, |a, b| veq(a, b, |x, y| same(x, y)))
    }
}

/// a boolean, one path per value
pub fn ndbc() -> bool {
    choose(2) == 1
}

pub fn var_of(k: u32, wide: bool) -> Var {
    let i = |w: bool| if w { nd32() as i32 } else { small() as i32 };
    match k {
        0 => Var::inner(Inner { x: i(wide), y: opt(ndb) }),
        1 => Var::num(i(wide)),
        2 => Var::text(if wide { string() } else { text() }),
        3 => Var::flag(ndb()),
        4 => Var::list((0..range(0, 2)).map(|_| i(false)).collect()),
        5 => Var::dbl(double()),
        6 => Var::color(Color(i(wide))),
        7 => Var::empty(Empty {}),
        _ => Var::bin(bytes(if wide { 3 } else { 1 })),
    }
}

impl Case for Var {
    fn gen(w: Wide) -> Self {
        var_of(choose(9), w.0)
    }
    fn spec(&self, o: &mut Out) {
        match self {
            Var::inner(v) => {
                o.field(12, 1, 0);
                v.spec(o);
            }
            Var::num(v) => {
                o.field(5, 2, 0);
                o.zz(*v as i64);
            }
            Var::text(v) => {
                o.field(8, 5, 0);
                o.binary(v.as_bytes());
            }
            Var::flag(v) => bfield(o, *v, 20, 0),
            Var::list(v) => {
                o.field(9, 21, 0);
                o.list(5, v.len());
                for x in v {
                    o.zz(*x as i64);
                }
            }
            Var::dbl(v) => {
                o.field(7, 300, 0);
                o.double(v.to_bits());
            }
            Var::color(v) => {
                o.field(5, -4, 0);
                o.zz(v.0 as i64);
            }
            Var::empty(_) => {
                o.field(12, -5, 0);
                o.stop();
            }
            Var::bin(v) => {
                o.field(8, 7, 0);
                o.binary(v);
            }
        }
        o.stop();
    }
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Var::inner(a), Var::inner(b)) => Case::eq(a, b),
            (Var::num(a), Var::num(b)) => a == b,
            (Var::text(a), Var::text(b)) => same(a.as_bytes(), b.as_bytes()),
            (Var::flag(a), Var::flag(b)) => a == b,
            (Var::list(a), Var::list(b)) => veq(a, b, |x, y| x == y),
            (Var::dbl(a), Var::dbl(b)) => a.to_bits() == b.to_bits(),
            (Var::color(a), Var::color(b)) => a.0 == b.0,
            (Var::empty(_), Var::empty(_)) => true,
            (Var::bin(a), Var::bin(b)) => same(a, b),
            _ => false,
        }
    }
}

impl Case for Mixed {
    fn gen(w: Wide) -> Self {
        Mixed {
            a: Color(w.i32()),
            b: opt(|| Color(w.i32())),
            c: var_of(choose(4), false),
            d: opt(|| (0..range(0, 2)).map(|_| Color(small() as i32)).collect()),
            e: opt(|| (0..range(0, 1)).map(|_| var_of(1 + choose(7), false)).collect()),
        }
    }
    fn spec(&self, o: &mut Out) {
        o.field(5, 1, 0);
        o.zz(self.a.0 as i64);
        let mut l = 1;
        if let Some(v) = self.b {
            o.field(5, 2, l);
            o.zz(v.0 as i64);
            l = 2;
        }
        o.field(12, 3, l);
        self.c.spec(o);
        l = 3;
        if let Some(x) = &self.d {
            o.field(9, 5, l);
            o.list(5, x.len());
            for v in x {
                o.zz(v.0 as i64);
            }
            l = 5;
        }
        if let Some(x) = &self.e {
            o.field(9, 6, l);
            o.list(12, x.len());
            for v in x {
                v.spec(o);
            }
        }
        o.stop();
    }
    fn eq(&self, o: &Self) -> bool {
        self.a.0 == o.a.0 && self.b.map(|x| x.0) == o.b.map(|x| x.0) && Case::eq(&self.c, &o.c)
            && oeq(&self.d, &o.d, |a, b| veq(a, b, |x, y| x.0 == y.0)) && oeq(&self.e, &o.e, |a, b| veq(a, b, Case::eq))
    }
}

impl Case for Wraps {
    fn gen(w: Wide) -> Self {
        Wraps {
            a: Box::new(ndb()),
            b: Rc::new(ndb()),
            c: Arc::new(ndb()),
            d: opt(|| Box::new(ndb())),
            e: opt(|| Rc::new(w.i32())),
            f: opt(|| Arc::new(text())),
            g: Box::new(Inner { x: w.i32(), y: opt(ndb) }),
            h: opt(|| Rc::new(inner_s())),
            i: opt(|| Arc::new(Inner { x: 5, y: None })),
        }
    }
    fn spec(&self, o: &mut Out) {
        bfield(o, *self.a, 1, 0);
        bfield(o, *self.b, 2, 1);
        bfield(o, *self.c, 3, 2);
        let mut l = 3;
        if let Some(v) = &self.d {
            bfield(o, **v, 4, l);
            l = 4;
        }
        if let Some(v) = &self.e {
            o.field(5, 5, l);
            o.zz(**v as i64);
            l = 5;
        }
        if let Some(v) = &self.f {
            o.field(8, 6, l);
            o.binary(v.as_bytes());
            l = 6;
        }
        o.field(12, 20, l);
        self.g.spec(o);
        l = 20;
        if let Some(v) = &self.h {
            o.field(12, 21, l);
            v.spec(o);
            l = 21;
        }
        if let Some(v) = &self.i {
            o.field(12, 22, l);
            v.spec(o);
        }
        o.stop();
    }
    fn eq(&self, o: &Self) -> bool {
        *self.a == *o.a && *self.b == *o.b && *self.c == *o.c && oeq(&self.d, &o.d, |a, b| **a == **b) && oeq(&self.e, &o.e, |a, b| **a == **b)
            && oeq(&self.f, &o.f, |a, b| same(a.as_bytes(), b.as_bytes())) && Case::eq(&*self.g, &*o.g)
            && oeq(&self.h, &o.h, |a, b| Case::eq(&**a, &**b)) && oeq(&self.i, &o.i, |a, b| Case::eq(&**a, &**b))
    }
}

impl Case for Strs {
    fn gen(w: Wide) -> Self {
        let k = choose(4);
        let string = || if w.0 { string() } else { text() };
        let s = |i: u32| if i == k { string() } else { String::new() };
        Strs { a: s(0).into(), b: s(1).into(), c: s(2).into(), d: if k == 3 { Some(s(3).into()) } else { opt(|| s(3).into()) } }
    }
    fn spec(&self, o: &mut Out) {
        o.field(8, 1, 0);
        o.binary(self.a.as_bytes());
        o.field(8, 2, 1);
        o.binary(self.b.as_bytes());
        o.field(8, 3, 2);
        o.binary(self.c.as_bytes());
        if let Some(v) = &self.d {
            o.field(8, 4, 3);
            o.binary(v.as_bytes());
        }
        o.stop();
    }
    fn eq(&self, o: &Self) -> bool {
        same(self.a.as_bytes(), o.a.as_bytes()) && same(self.b.as_bytes(), o.b.as_bytes()) && same(self.c.as_bytes(), o.c.as_bytes())
            && oeq(&self.d, &o.d, |a, b| same(a.as_bytes(), b.as_bytes()))
    }
}

fn tree(depth: u32) -> Tree {
    Tree {
        v: nd8() as i8,
        next: if depth > 0 { opt(|| Box::new(tree(depth - 1))) } else { None },
        kids: if depth > 0 { opt(|| (0..range(0, 2)).map(|_| tree(depth - 1)).collect()) } else { None },
    }
}

impl Case for Tree {
    fn gen(w: Wide) -> Self {
        tree(if w.0 { 2 } else { 1 })
    }
    fn spec(&self, o: &mut Out) {
        o.field(3, 1, 0);
        o.byte(self.v as u8);
        let mut l = 1;
        if let Some(n) = &self.next {
            o.field(12, 2, l);
            n.spec(o);
            l = 2;
        }
        if let Some(k) = &self.kids {
            o.field(9, 3, l);
            o.list(12, k.len());
            for x in k {
                x.spec(o);
            }
        }
        o.stop();
    }
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v && oeq(&self.next, &o.next, |a, b| Case::eq(&**a, &**b)) && oeq(&self.kids, &o.kids, |a, b| veq(a, b, Case::eq))
    }
}

// --- arbitrary input (C05)
/// Decoding ends with a value or an error (the engine reports every panic, invalid access and use of
/// uninitialised memory), and what is left is the end of the input.
pub fn decode<'i, V: CompactThriftProtocol<'i> + Default>(b: &'i [u8]) {
    step_limit(2_000_000);
    let mut inp = CompactThriftInputSlice::new(b);
    let r = V::read_thrift(&mut inp);
    let s = inp.as_slice();
    let (b0, s0) = (b.as_ptr() as usize, s.as_ptr() as usize);
    check!(s.len() <= b.len() && (s.is_empty() || b0 + b.len() == s0 + s.len()), "remaining input is no suffix of the input");
    obs(rcode(&r));
    obs(s.len() as u64);
    reach(r.is_ok() as u32);
}

pub fn free<V: for<'x> CompactThriftProtocol<'x> + Default, const N: usize>() {
    // at the end of the buffer, so that nothing lies behind it
    let mut buf = [0; N];
    let n = range(0, N);
    fill(&mut buf[N - n..]);
    decode::<V>(&buf[N - n..]);
}

pub fn stream<V: for<'x> CompactThriftProtocol<'x> + Default, const N: usize>() {
    let mut buf = [0; N];
    let n = range(0, N);
    fill(&mut buf[..n]);
    step_limit(2_000_000);
    let mut inp = Stream::new(&buf[..n]);
    let r = V::read_thrift(&mut inp);
    obs(rcode(&r));
    obs(inp.p as u64);
    reach(r.is_ok() as u32);
}

/// a fixed valid encoding with `W` consecutive arbitrary bytes somewhere
pub fn window<V: for<'x> CompactThriftProtocol<'x> + Default, const W: usize>(base: &[u8]) {
    let mut buf = [0; 200];
    let n = base.len();
    let b = &mut buf[200 - n..];
    b.copy_from_slice(base);
    let p = range(0, n - W);
    fill(&mut b[p..p + W]);
    decode::<V>(b);
}
