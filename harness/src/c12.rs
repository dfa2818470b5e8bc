use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

type Big = Sink<400>;

/// encode, compare with the specification, decode into a list that already has elements
fn list<V: for<'x> CompactThriftProtocol<'x> + Default, const N: usize>(v: Vec<V>, old: Vec<V>, want: &Sink<N>, eq: impl Fn(&V, &V) -> bool) {
    let mut o = Sink::<N>::new();
    check!(v.write_thrift(&mut o).is_ok(), "encoding a list failed");
    check!(same(o.as_slice(), want.as_slice()), "a list is not encoded as specified");
    let mut w = old;
    let mut inp = CompactThriftInputSlice::new(o.as_slice());
    check!(w.fill_thrift(&mut inp).is_ok(), "decoding an encoded list failed");
    check!(inp.as_slice().is_empty(), "decoding a list did not consume it");
    check!(w.len() == v.len(), "a decoded list has a different length");
    check!(v.iter().zip(&w).all(|(a, b)| eq(a, b)), "a decoded list has different elements");
    reach(if v.len() < 15 { 0 } else { 1 });
    obs(o.n as u64);
}

/// an element that fails: all that is written is the header
#[derive(Default)]
struct Zero;
impl<'i> CompactThriftProtocol<'i> for Zero {
    const FIELD_TYPE: u8 = 6;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, _: &mut T) -> Result<(), ThriftError> {
        Err(ThriftError::MissingValue)
    }
    fn write_thrift<T: CompactThriftOutput>(&self, _: &mut T) -> Result<(), ThriftError> {
        Err(ThriftError::MissingValue)
    }
}

/// any bytes: exactly the announced number of elements, or an error
fn free<V: for<'x> CompactThriftProtocol<'x> + Default, const N: usize>(ok: impl Fn(u8) -> bool, get: impl Fn(&mut Dec, &V) -> Option<bool>, max: u64) {
    let mut buf = [0; N];
    let n = range(0, N);
    fill(&mut buf[..n]);
    let mut d = Dec::new(&buf[..n]);
    let mut inp = CompactThriftInputSlice::new(&buf[..n]);
    let r = Vec::<V>::read_thrift(&mut inp);
    let h = d.list();
    if d.wide {
        return;
    }
    let (l, t) = match h {
        Some(x) => x,
        None => {
            check!(r.is_err(), "a malformed list header is accepted");
            return;
        }
    };
    if l > max {
        // more elements than bytes
        check!(r.is_err(), "a list with too few elements is accepted");
        return;
    }
    let l = concrete(l);
    match &r {
        Ok(v) => {
            check!(ok(t), "a list of another type is accepted");
            check!(v.len() as u64 == l, "a list does not have the announced number of elements");
            for x in v {
                match get(&mut d, x) {
                    Some(e) => check!(e, "a list element is decoded wrongly"),
                    None => fail("a list with too few elements is accepted"),
                }
            }
            check!(inp.as_slice().len() == d.left(), "decoding a list consumed the wrong number of bytes");
            reach(0);
        }
        Err(_) => {
            if ok(t) {
                let mut all = true;
                for _ in 0..l {
                    all = all && get(&mut d, &V::default()).is_some();
                }
                check!(!all, "a complete list is rejected");
            }
            reach(1);
        }
    }
    obs(rcode(&r));
}

entries! {
    h_c12_i8, 2, "lists of 0 to 40 (thorough: 300) i8, any values, into a list with 0 to 2 elements" => {
        let n = range(0, b(40, 300));
        let v: Vec<i8> = (0..n).map(|_| nd8() as i8).collect();
        let mut want = Big::new();
        want.list(3, n);
        for x in &v {
            want.byte(*x as u8);
        }
        list(v, vec![7; range(0, 2)], &want, |a, b| a == b);
    }
    h_c12_bool, 2, "lists of 0 to 17 (thorough: 40) bool, any values, into a list with 0 to 2 elements" => {
        let n = range(0, b(17, 40));
        let v: Vec<bool> = (0..n).map(|_| ndb()).collect();
        let mut want = Big::new();
        want.list(2, n);
        for x in &v {
            want.byte(2 - *x as u8);
        }
        list(v, vec![true; range(0, 2)], &want, |a, b| a == b);
    }
    h_c12_i16, 2, "lists of 0 to 17 i16, one of any value, the others of one byte" => {
        let n = range(0, 17);
        let k = range(0, 16);
        let v: Vec<i16> = (0..n).map(|i| if i == k { nd16() as i16 } else { small() as i16 }).collect();
        let mut want = Big::new();
        want.list(4, n);
        for x in &v {
            want.zz(*x as i64);
        }
        list(v, vec![7; 2], &want, |a, b| a == b);
    }
    h_c12_i32, 2, "lists of 0 to 17 i32, one of any value, the others of one byte" => {
        let n = range(0, 17);
        let k = range(0, 16);
        let v: Vec<i32> = (0..n).map(|i| if i == k { nd32() as i32 } else { small() as i32 }).collect();
        let mut want = Big::new();
        want.list(5, n);
        for x in &v {
            want.zz(*x as i64);
        }
        list(v, vec![], &want, |a, b| a == b);
    }
    h_c12_i64, 2, "lists of 0 to 17 i64, one of any value, the others of one byte" => {
        let n = range(0, 17);
        let k = range(0, 16);
        let v: Vec<i64> = (0..n).map(|i| if i == k { nd64() as i64 } else { small() }).collect();
        let mut want = Big::new();
        want.list(6, n);
        for x in &v {
            want.zz(*x);
        }
        list(v, vec![], &want, |a, b| a == b);
    }
    h_c12_double, 2, "lists of 0 to 17 doubles, any bits" => {
        let n = range(0, 17);
        let v: Vec<f64> = (0..n).map(|_| double()).collect();
        let mut want = Big::new();
        want.list(7, n);
        for x in &v {
            want.double(x.to_bits());
        }
        list(v, vec![1.0], &want, |a, b| a.to_bits() == b.to_bits());
    }
    h_c12_string, 2, "lists of 0 to 16 strings and binaries of 0 or 1 characters" => {
        let n = range(0, 16);
        let mut want = Big::new();
        want.list(8, n);
        if choose(2) == 0 {
            let v: Vec<String> = (0..n).map(|i| if i % 3 == 1 { String::new() } else { text() }).collect();
            for x in &v {
                want.binary(x.as_bytes());
            }
            list(v, vec![text()], &want, |a, b| same(a.as_bytes(), b.as_bytes()));
        } else {
            let v: Vec<Vec<u8>> = (0..n).map(|i| if i % 3 == 1 { vec![] } else { vec![nd8()] }).collect();
            for x in &v {
                want.binary(x);
            }
            list(v, vec![vec![1, 2]], &want, |a, b| same(a, b));
        }
    }
    h_c12_struct, 2, "lists of 0 to 17 structs with an optional bool in one of them, into a list with 2 elements" => {
        let n = range(0, 17);
        let k = range(0, 16);
        let v: Vec<Inner> = (0..n).map(|i| Inner { x: small() as i32, y: if i == k { Some(ndb()) } else { None } }).collect();
        let mut want = Big::new();
        want.list(12, n);
        for x in &v {
            let mut o = Out::new();
            x.spec(&mut o);
            want.bytes(o.as_slice());
        }
        list(v, vec![Inner { x: 1, y: Some(true) }, Inner { x: 1, y: Some(true) }], &want, Case::eq);
    }
    h_c12_enum_union, 1, "lists of 0 to 3 enums or unions" => {
        let n = range(0, 3);
        let mut want = Big::new();
        if choose(2) == 0 {
            let v: Vec<Color> = (0..n).map(|_| Color(nd32() as i32)).collect();
            want.list(5, n);
            for x in &v {
                want.zz(x.0 as i64);
            }
            list(v, vec![Color(1)], &want, |a, b| a.0 == b.0);
        } else {
            let v: Vec<Var> = (0..n).map(|_| var_of(choose(5), false)).collect();
            want.list(12, n);
            for x in &v {
                let mut o = Out::new();
                x.spec(&mut o);
                want.bytes(o.as_slice());
            }
            list(v, vec![Var::num(1)], &want, Case::eq);
        }
    }
    h_c12_nested, 1, "lists of 0 to 3 lists of 0 to 2 i32" => {
        let n = range(0, 3);
        let v: Vec<Vec<i32>> = (0..n).map(|_| (0..range(0, 2)).map(|_| small() as i32).collect()).collect();
        let mut want = Big::new();
        want.list(9, n);
        for x in &v {
            want.list(5, x.len());
            for y in x {
                want.zz(*y as i64);
            }
        }
        list(v, vec![vec![1, 2, 3]], &want, |a, b| a == b);
    }
    h_c12_header, 3, "header of lists of every length from 0 to 10,000,000, written and read" => {
        let n = nd32() as usize;
        assume(n <= 10_000_000);
        let mut v: Vec<Zero> = Vec::new();
        unsafe { v.set_len(n) };
        let mut o = Big::new();
        let r = v.write_thrift(&mut o);
        std::mem::forget(v);
        check!(if n == 0 { r.is_ok() } else { matches!(r, Err(ThriftError::MissingValue)) }, "a list within the limit is refused by the writer");
        let mut want = Big::new();
        want.list(6, n);
        check!(same(o.as_slice(), want.as_slice()), "a list header is not encoded as specified");
        let mut inp = CompactThriftInputSlice::new(o.as_slice());
        match read_collection_len_and_type(&mut inp) {
            Ok((l, t)) => check!(l as usize == n && t == 6, "a list header is decoded wrongly"),
            Err(_) => fail("a list within the limit is refused by the reader"),
        }
        check!(inp.as_slice().is_empty(), "a list header is not consumed exactly");
        reach(if n == 0 { 0 } else if n < 15 { 1 } else { 2 });
        obs(n as u64);
    }
    h_c12_free_i8, 2, "list of i8 from 0 to 18 arbitrary bytes" => {
        free::<i8, 18>(|t| t == 3, |d, x| d.byte().map(|b| b as i8 == *x), 18)
    }
    h_c12_free_bool, 2, "list of bool from 0 to 18 arbitrary bytes; true exactly for 1" => {
        free::<bool, 18>(|t| t == 1 || t == 2, |d, x| d.byte().map(|b| (b == 1) == *x), 18)
    }
    h_c12_free_i16, 2, "list of i16 from 0 to 7 arbitrary bytes" => {
        free::<i16, 7>(|t| t == 4, |d, x| d.varint().map(|b| unzz(b & 0xffff) as i16 == *x), 7)
    }
    h_c12_free_binary, 2, "list of binary from 0 to 5 arbitrary bytes" => {
        free::<Vec<u8>, 5>(|t| t == 8, |d, x| d.binary().map(|b| same(b, x)), 5)
    }
    h_c12_long, 1, "lists of 127 to 130, 254 to 258, 1000, 4095 to 4097 i8, bool, i32, i64, double, binary, struct or list, and of 65535 to 65537 i8; elements follow a pattern, one is symbolic where it takes one byte" => {
        type Huge = Sink<66000>;
        let k = choose(9);
        let n = match choose(4) { 0 => range(127, 130), 1 => range(254, 258), 2 => 1000, _ => if k == 8 { range(65535, 65537) } else { range(4095, 4097) } };
        let at = if choose(2) == 0 { n - 1 } else { n / 2 };
        let mut w = Huge::new();
        match k {
            0 | 8 => {
                let v: Vec<i8> = (0..n).map(|i| if i == at { nd8() as i8 } else { i as i8 }).collect();
                w.list(3, n);
                for x in &v {
                    w.byte(*x as u8);
                }
                list(v, vec![1; 3], &w, |a, b| a == b);
            }
            1 => {
                let v: Vec<bool> = (0..n).map(|i| if i == at { ndb() } else { i % 3 == 0 }).collect();
                w.list(2, n);
                for x in &v {
                    w.byte(2 - *x as u8);
                }
                list(v, vec![true; 3], &w, |a, b| a == b);
            }
            2 => {
                let v: Vec<i32> = (0..n).map(|i| if i == at { small() as i32 } else { (i as i32 % 7 - 3).pow(i as u32 % 9) }).collect();
                w.list(5, n);
                for x in &v {
                    w.zz(*x as i64);
                }
                list(v, vec![1; 3], &w, |a, b| a == b);
            }
            3 => {
                let v: Vec<i64> = (0..n).map(|i| if i == at { small() } else { (i as i64 % 7 - 3).pow(i as u32 % 30) }).collect();
                w.list(6, n);
                for x in &v {
                    w.zz(*x);
                }
                list(v, vec![1; 3], &w, |a, b| a == b);
            }
            4 => {
                let v: Vec<f64> = (0..n).map(|i| if i == at { double() } else { f64::from_bits((i as u64).wrapping_mul(0x0123_4567_89ab_cdef)) }).collect();
                w.list(7, n);
                for x in &v {
                    w.double(x.to_bits());
                }
                list(v, vec![1.0; 3], &w, |a, b| a.to_bits() == b.to_bits());
            }
            5 => {
                let v: Vec<Vec<u8>> = (0..n).map(|i| if i == at { vec![nd8()] } else { vec![i as u8; i % 3] }).collect();
                w.list(8, n);
                for x in &v {
                    w.binary(x);
                }
                list(v, vec![vec![1]; 3], &w, |a, b| same(a, b));
            }
            6 => {
                let v: Vec<Inner> = (0..n).map(|i| Inner { x: if i == at { small() as i32 } else { i as i32 % 64 }, y: [None, Some(true), Some(false)][i % 3] }).collect();
                w.list(12, n);
                for x in &v {
                    let mut o = Out::new();
                    x.spec(&mut o);
                    w.bytes(o.as_slice());
                }
                list(v, vec![], &w, Case::eq);
            }
            _ => {
                let v: Vec<Vec<i8>> = (0..n).map(|i| if i == at { vec![nd8() as i8] } else { vec![i as i8; i % 4] }).collect();
                w.list(9, n);
                for x in &v {
                    w.list(3, x.len());
                    for y in x {
                        w.byte(*y as u8);
                    }
                }
                list(v, vec![vec![1]; 3], &w, |a, b| a == b);
            }
        }
    }
}
