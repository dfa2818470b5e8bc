use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

fn whole<C: Case>(v: C) {
    let mut o = Out::new();
    v.spec(&mut o);
    let n = o.n;
    if choose(2) == 0 {
        // arbitrary bytes behind it
        let k = range(1, 2);
        for _ in 0..k {
            o.byte(nd8());
        }
        let b = o.as_slice();
        let r = if choose(2) == 0 {
            let mut i = CompactThriftInputSlice::new(b);
            let r = C::read_thrift(&mut i);
            let s = i.as_slice();
            check!(r.is_err() || (s.len() == k && s.as_ptr() as usize == b.as_ptr() as usize + n), "bytes behind a value are touched");
            r
        } else {
            let mut i = Stream::new(b);
            let r = C::read_thrift(&mut i);
            check!(r.is_err() || i.p == n, "bytes behind a value are touched");
            r
        };
        match &r {
            Ok(w) => check!(v.eq(w), "bytes behind a value change it"),
            Err(_) => fail("bytes behind a value make it undecodable"),
        }
        reach(0);
    } else {
        let c = range(0, n - 1);
        let b = &o.b[..c];
        let r = if choose(2) == 0 { C::read_thrift(&mut CompactThriftInputSlice::new(b)) } else { C::read_thrift(&mut Stream::new(b)) };
        check!(r.is_err(), "a truncated encoding is accepted");
        reach(1);
        obs(rcode(&r));
    }
}

/// a value on its own, not followed by the end of a struct: the truncation may hit the inside of its last scalar
fn bare<V: for<'x> CompactThriftProtocol<'x> + Default>(o: &mut Out, eq: impl Fn(&V) -> bool) {
    let n = o.n;
    let whole = choose(2) == 0;
    if whole {
        o.byte(nd8());
        o.byte(nd8());
    }
    let b = if whole { o.as_slice() } else { &o.b[..range(0, n - 1)] };
    let k = choose(4) as usize;
    let (r, used) = if k == 0 {
        let mut i = CompactThriftInputSlice::new(b);
        let r = V::read_thrift(&mut i);
        let used = b.len() - i.as_slice().len();
        (r, used)
    } else {
        let mut i = Chunks(Stream::new(b), [usize::MAX, 1, 3][k - 1]);
        let r = V::read_thrift(&mut i);
        (r, i.0.p)
    };
    if whole {
        match &r {
            Ok(v) => check!(eq(v), "bytes behind a value change it"),
            Err(_) => fail("bytes behind a value make it undecodable"),
        }
        check!(used == n, "bytes behind a value are touched");
        reach(0);
    } else {
        check!(r.is_err(), "a truncated encoding is accepted");
        reach(1);
    }
    obs(rcode(&r));
}

fn seq(n: usize) -> Vec<u8> {
    (0..n).map(|_| nd8()).collect()
}
fn ascii(n: usize) -> String {
    (0..n).map(|_| (nd8() & 127) as char).collect()
}

entries! {
    h_c19_bare_binary, 2, "binaries of 0 to 4 arbitrary bytes on their own and in lists of up to 2; every truncation; slice and stream (whole, 1 or 3 bytes per read)" => {
        let mut o = Out::new();
        if choose(2) == 0 {
            let v = seq(range(0, 4));
            o.binary(&v);
            bare::<Vec<u8>>(&mut o, |w| same(w, &v));
        } else {
            let v: Vec<Vec<u8>> = (0..range(0, 2)).map(|i| seq([3, range(0, 2)][i])).collect();
            o.list(8, v.len());
            for x in &v {
                o.binary(x);
            }
            bare::<Vec<Vec<u8>>>(&mut o, |w| w.len() == v.len() && (0..v.len()).all(|i| same(&w[i], &v[i])));
        }
    }
    h_c19_bare_string, 2, "String, Rc<str>, Arc<str>, Box<str> of 0 to 3 ASCII characters on their own, strings in lists; every truncation; slice and stream" => {
        let mut o = Out::new();
        let v = ascii(range(0, 3));
        let l = choose(6);
        if l >= 4 {
            o.list(8, 2);
            o.binary(b"x");
        }
        o.binary(v.as_bytes());
        let e = |w: &str| same(w.as_bytes(), v.as_bytes());
        match l {
            0 => bare::<String>(&mut o, |w| e(w)),
            1 => bare::<std::rc::Rc<str>>(&mut o, |w| e(w)),
            2 => bare::<std::sync::Arc<str>>(&mut o, |w| e(w)),
            3 => bare::<Box<str>>(&mut o, |w| e(w)),
            4 => bare::<Vec<String>>(&mut o, |w| w.len() == 2 && e(&w[1])),
            _ => bare::<Vec<std::rc::Rc<str>>>(&mut o, |w| w.len() == 2 && e(&w[1])),
        }
    }
    h_c19_bare_number, 2, "i8, i16, i32, i64 of every width, f64, bool on their own and as last elements of lists; every truncation; slice and stream" => {
        let mut o = Out::new();
        let l = choose(2) == 1;
        macro_rules! go {
            ($t:ty, $ty:literal, $w:ident, $put:expr, $eq:expr) => {{
                if l {
                    o.list($ty, 2);
                    $put;
                }
                $put;
                if l { bare::<Vec<$t>>(&mut o, |v| v.len() == 2 && v.iter().all(|$w| $eq)) } else { bare::<$t>(&mut o, |$w| $eq) }
            }};
        }
        match choose(6) {
            0 => { let x = nd8(); go!(i8, 3, w, o.byte(x), *w as u8 == x) }
            1 => { let x = nd16() as i16; go!(i16, 4, w, o.zz(x as i64), *w == x) }
            2 => { let x = nd32() as i32; go!(i32, 5, w, o.zz(x as i64), *w == x) }
            3 => { let x = nd64() as i64; go!(i64, 6, w, o.zz(x), *w == x) }
            4 => { let x = nd64(); go!(f64, 7, w, o.double(x), w.to_bits() == x) }
            _ => { let x = ndb(); go!(bool, 2, w, o.byte(2 - x as u8), *w == x) }
        }
    }
    h_c19_bare_long, 2, "binaries and strings of 130 bytes and of 20000 bytes on their own, cut anywhere near either end; stream and slice" => {
        let n = [130, 20000][choose(2) as usize];
        let mut o = Box::new(Sink::<20010>::new());
        o.varint(n as u64);
        let h = o.n;
        for i in h..h + n {
            o.b[i] = b'a';
        }
        o.b[h + n - 1] = nd8() & 127;
        let c = choose(8) as usize;
        let c = if c < 3 { h - 1 + c } else { h + n + 4 - c };
        let b = &o.b[..c];
        macro_rules! go {
            ($t:ty) => {{
                let k = choose(4) as usize;
                if k == 0 {
                    let mut i = CompactThriftInputSlice::new(b);
                    (<$t>::read_thrift(&mut i).map(|v| v.len()), b.len() - i.as_slice().len())
                } else {
                    let mut i = Chunks(Stream::new(b), [usize::MAX, 100, 8192][k - 1]);
                    (<$t>::read_thrift(&mut i).map(|v| v.len()), i.0.p)
                }
            }};
        }
        let (r, used) = if choose(2) == 0 { go!(Vec<u8>) } else { go!(String) };
        if c < h + n {
            check!(r.is_err(), "a truncated encoding is accepted");
            reach(1);
        } else {
            check!(matches!(r, Ok(m) if m == n), "bytes behind a value make it undecodable");
            check!(used == h + n, "bytes behind a value are touched");
            reach(0);
        }
    }
    h_c19_scalars, 2, "Scalars; every truncation, 1 or 2 trailing bytes; one-byte integers; both inputs" => { whole(Scalars::gen(Wide(false))) }
    h_c19_wide, 2, "Scalars with integers of every width" => {
        let k = choose(3);
        whole(Scalars {
            a: true,
            b: nd8() as i8,
            c: if k == 0 { nd16() as i16 } else { 1 },
            d: if k == 1 { nd32() as i32 } else { 1 },
            e: if k == 2 { nd64() as i64 } else { 1 },
            f: double(),
            g: vec![],
            h: String::new(),
        })
    }
    h_c19_opts, 2, "Opts; every presence pattern" => { whole(Opts::gen(Wide(false))) }
    h_c19_gaps, 2, "Gaps; every presence pattern" => { whole(Gaps::gen(Wide(false))) }
    h_c19_odd, 2, "Odd (negative and large ids); every presence pattern" => { whole(Odd::gen(Wide(false))) }
    h_c19_nested, 2, "Nested; every presence pattern, up to 1 list element" => {
        whole(Nested {
            a: inner_s(),
            b: opt(|| Inner { x: small() as i32, y: None }),
            c: (0..range(0, 1)).map(|_| inner_s()).collect(),
            d: opt(|| Empty {}),
            e: opt(|| true),
        })
    }
    h_c19_lists, 2, "Lists of up to 3 elements" => { whole(Lists::gen(Wide(false))) }
    h_c19_var, 2, "unions, 9 variants, all contents" => { whole(Var::gen(Wide(true))) }
    h_c19_mixed, 2, "enums, unions and lists of them" => {
        whole(Mixed {
            a: Color(small() as i32),
            b: opt(|| Color(small() as i32)),
            c: var_of(choose(4), false),
            d: opt(|| (0..range(0, 1)).map(|_| Color(small() as i32)).collect()),
            e: opt(|| (0..range(0, 1)).map(|_| var_of([3, 7][choose(2) as usize], false)).collect()),
        })
    }
    h_c19_wraps, 2, "Box, Rc, Arc" => { whole(Wraps::gen(Wide(false))) }
    h_c19_strs, 2, "Rc<str>, Arc<str>, Box<str>" => { whole(Strs::gen(Wide(false))) }
    h_c19_tree, 2, "recursive struct, 2 levels" => { whole(Tree::gen(Wide(false))) }
    h_c19_long, 2, "a list of 20 structs, a string of 130 bytes" => {
        let mut o = Sink::<200>::new();
        let s = choose(2) == 0;
        let n;
        if s {
            o.list(12, 20);
            for i in 0..20 {
                o.field(5, 1, 0);
                o.zz(if i == 7 { small() } else { i });
                o.stop();
            }
            n = o.n;
        } else {
            o.varint(130);
            o.n += 130;
            for i in 2..132 {
                o.b[i] = b'a';
            }
            o.b[50] = nd8() & 127;
            n = o.n;
        }
        o.byte(nd8());
        let c = range(0, n);
        let b = if c == n { &o.b[..n + 1] } else { &o.b[..c] };
        let mut i = CompactThriftInputSlice::new(b);
        let ok = if s {
            let r = Vec::<Inner>::read_thrift(&mut i);
            check!(!matches!(&r, Ok(v) if v.len() != 20), "wrong value");
            r.is_ok()
        } else {
            let r = String::read_thrift(&mut i);
            check!(!matches!(&r, Ok(v) if v.len() != 130), "wrong value");
            r.is_ok()
        };
        if c < n {
            check!(!ok, "a truncated encoding is accepted");
            reach(1);
        } else {
            check!(ok, "bytes behind a value make it undecodable");
            check!(i.as_slice().len() == 1, "bytes behind a value are touched");
            reach(0);
        }
    }
}
