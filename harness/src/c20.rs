use crate::{check, entries, spec::*, vp::*};
use compact_thrift_parquet::format::{ColumnMetaData, CompressionCodec, Encoding, Type};
use compact_thrift_parquet::EncodingSet;
use compact_thrift_runtime::*;

type Buf = Sink<200>;

/// the set against the numbers it was read from, as a bit mask
fn judge(s: &EncodingSet, mask: u32, most: usize) {
    let n = s.len();
    check!(n == mask.count_ones() as usize, "the size of the set is not the number of distinct numbers");
    check!(s.is_empty() == (mask == 0), "an empty set is not empty, or the other way round");
    let mut m = 0u32;
    let mut prev = -1;
    let mut k = 0;
    for Encoding(e) in s.iter() {
        check!(e > prev && e <= 30, "the iteration does not ascend");
        prev = e;
        m |= 1 << (e & 31);
        k += 1;
        if k > most {
            break;
        }
    }
    check!(if k > most { m & !mask == 0 } else { m == mask }, "the iteration is not over the numbers of the list");
}

/// what is written: the ascending list
fn write(s: &EncodingSet, mask: u32) {
    let mut want = Buf::new();
    let n = concrete(mask.count_ones() as u64) as usize;
    want.list(5, n);
    let mut m = mask;
    for _ in 0..n {
        // the lowest number, zigzag
        want.byte((m.trailing_zeros() * 2) as u8);
        m &= m.wrapping_sub(1);
    }
    let mut o = Buf::new();
    check!(s.write_thrift(&mut o).is_ok(), "a set cannot be written");
    check!(same(o.as_slice(), want.as_slice()), "a set is not written as the ascending list");
    let mut i = CompactThriftInputSlice::new(o.as_slice());
    match EncodingSet::read_thrift(&mut i) {
        Ok(t) => check!(t == *s && i.as_slice().is_empty(), "a written set is not read back"),
        Err(_) => fail("a written set is rejected"),
    }
}

fn read(o: &Buf, stream: bool) -> (Result<EncodingSet, ThriftError>, usize) {
    if stream {
        let mut i = Stream::new(o.as_slice());
        let r = EncodingSet::read_thrift(&mut i);
        (r, o.n - i.p)
    } else {
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        let r = EncodingSet::read_thrift(&mut i);
        (r, i.as_slice().len())
    }
}

/// the numbers in `o`, a list of `v`
fn list(v: &[i32], o: &Buf, stream: bool) {
    let mut mask = 0u32;
    let mut ok = true;
    for x in v {
        ok &= *x >= 0 && *x <= 30;
        mask |= 1 << (*x & 31);
    }
    let (r, left) = read(o, stream);
    match r {
        Ok(s) => {
            check!(ok, "a number outside 0 to 30 is accepted");
            check!(left == 0, "the list is not consumed exactly");
            judge(&s, mask, 31);
            write(&s, mask);
            reach(0);
        }
        Err(_) => {
            check!(!ok, "a list of valid numbers is rejected");
            reach(1);
        }
    }
}

entries! {
    h_c20_list, 2, "lists of 0 to 2 numbers, one of them any 32 bit number, the other -64 to 63; slice and stream" => {
        let n = range(0, 2);
        let any = if n == 0 { 0 } else { range(0, n - 1) };
        let mut v = [0; 2];
        let mut o = Buf::new();
        o.list(5, n);
        for i in 0..n {
            v[i] = if i == any { nd32() as i32 } else { small() as i32 };
            o.zz(v[i] as i64);
        }
        list(&v[..n], &o, choose(2) == 1);
    }
    h_c20_more, 2, "lists of 3 (thorough: or 4) numbers, the first one of 5 (thorough: 6), the last any 32 bit number, the others 3, 0 or 30, or that and their neighbour" => {
        let n = range(3, b(3, 4));
        let mut v = [0; 4];
        let mut o = Buf::new();
        o.list(5, n);
        for i in 0..n {
            v[i] = if i == 0 {
                [17, 0, 30, 4, -1, 31][choose(b(5, 6) as u32) as usize]
            } else if i == n - 1 {
                nd32() as i32
            } else {
                [3, 30, 0][choose(3) as usize] + if i == 1 { 0 } else { choose(2) as i32 }
            };
            o.zz(v[i] as i64);
        }
        list(&v[..n], &o, false);
    }
    h_c20_window, 1, "every set of 6 (thorough: 8) neighbouring numbers but the empty one, iterated and written as a whole" => {
        let w = b(6, 8);
        let at = range(0, 31 - w) as u8;
        let k = at + [0, w as u8 - 1][choose(2) as usize];
        let mut o = Buf::new();
        let mut mask = 0;
        o.list(5, w);
        for i in 0..w as u8 {
            let on = nd8() & 1;
            let x = (on * (at + i)) | ((1 - on) * k);
            mask |= 1u32 << x;
            o.byte(x * 2);
        }
        match read(&o, false).0 {
            Ok(s) => {
                judge(&s, mask, 31);
                write(&s, mask);
                reach(0);
            }
            Err(_) => fail("a list of valid numbers is rejected"),
        }
    }
    h_c20_long, 2, "lists of 15, 16, 31 and 40 numbers, 1 of them any from -64 to 63, the others running through 0 to 30 or through 0 to 4" => {
        let n = [15, 16, 31, 40][choose(4) as usize];
        let m = [31, 5][choose(2) as usize];
        let at = [0, 7, 14][choose(3) as usize];
        let mut v = [0; 40];
        let mut o = Buf::new();
        o.list(5, n);
        for i in 0..n {
            v[i] = if i == at { small() as i32 } else { (i * 7 % m) as i32 };
            if v[i] >= 0 && v[i] <= 30 {
                v[i] = concrete(v[i] as u64) as i32;
            }
            o.zz(v[i] as i64);
        }
        list(&v[..n], &o, false);
    }
    h_c20_all, 1, "every set but the empty one: a list of 31 numbers, each its position or a fixed member; size and the first iterated number (for 3 of the fixed members the first 2, thorough: 3)" => {
        let k = range(0, 30) as u8;
        let mut o = Buf::new();
        let mut mask = 0;
        o.list(5, 31);
        for i in 0..31u8 {
            let on = nd8() & 1;
            let x = (on * i) | ((1 - on) * k);
            mask |= 1u32 << x;
            o.byte(x * 2);
        }
        match read(&o, false).0 {
            Ok(s) => {
                check!(!s.is_empty(), "a set of numbers is empty");
                check!(s.len() == mask.count_ones() as usize, "the size of the set is not the number of distinct numbers");
                judge(&s, mask, if k == 0 || k == 13 || k == 30 { b(1, 2) } else { 0 });
                reach(0);
            }
            Err(_) => fail("a list of valid numbers is rejected"),
        }
    }
    h_c20_type, 1, "lists whose elements are of any other type, any length" => {
        let h = nd8();
        assume(h & 15 != 5);
        let mut o = Buf::new();
        o.byte(h);
        for _ in 0..4 {
            o.byte(nd8());
        }
        check!(read(&o, choose(2) == 1).0.is_err(), "a list that is no list of integers is accepted");
        reach(0);
    }
    h_c20_free, 2, "0 to 7 (thorough: 9) arbitrary bytes against the specification; beyond 3 bytes only the first iterated number" => {
        let mut o = Buf::new();
        let n = range(0, b(7, 9));
        for _ in 0..n {
            o.byte(nd8());
        }
        // what the bytes denote
        let mut d = Dec::new(o.as_slice());
        let mut mask = 0u32;
        let mut good = None;
        if let Some((len, t)) = d.list() {
            if t == 5 {
                let mut i = 0;
                good = Some(());
                while i < len {
                    match d.varint() {
                        Some(x) => {
                            // an i32 takes the low 32 bits
                            let v = unzz(x) as i32;
                            if x > u32::MAX as u64 {
                                d.wide = true;
                            }
                            if v < 0 || v > 30 {
                                good = None;
                                break;
                            }
                            mask |= 1 << v;
                        }
                        None => {
                            good = None;
                            break;
                        }
                    }
                    i += 1;
                }
            }
        }
        if d.wide {
            return;
        }
        let (r, left) = read(&o, false);
        obs(rcode(&r));
        match r {
            Ok(s) => {
                check!(good.is_some(), "no list of numbers from 0 to 30, but accepted");
                check!(left == d.left(), "the list is not consumed exactly");
                judge(&s, mask, if n <= 3 { 31 } else { 0 });
                reach(0);
            }
            Err(_) => {
                check!(good.is_none(), "a list of valid numbers is rejected");
                reach(1);
            }
        }
    }
    h_c20_field, 1, "as the field of a column's metadata, read into a set that has members" => {
        let (x, y) = (nd8(), nd8());
        assume(x <= 30 && y <= 30);
        let mut o = Buf::new();
        o.field(5, 1, 0);
        o.zz(1);
        o.field(9, 2, 1);
        o.list(5, 2);
        o.zz(x as i64);
        o.zz(y as i64);
        o.field(5, 4, 2);
        o.zz(2);
        for f in [5, 6, 7, 9] {
            o.field(6, f, if f == 9 { 7 } else { f - 1 });
            o.zz(7);
        }
        o.stop();
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        match ColumnMetaData::read_thrift(&mut i) {
            Ok(m) => {
                judge(&m.encodings, 1 << x | 1 << y, 31);
                check!(m.type_ == Type(1) && m.codec == CompressionCodec(2) && m.num_values == 7, "fields around the set differ");
                let mut w = Buf::new();
                check!(m.write_thrift(&mut w).is_ok(), "a set cannot be written as a field");
                if x < y {
                    check!(same(w.as_slice(), o.as_slice()), "a set as a field is written otherwise");
                }
            }
            Err(_) => fail("a list of valid numbers is rejected as a field"),
        }
        // what is read replaces the members
        let mut s = EncodingSet::default();
        for k in [x, y] {
            let mut o = Buf::new();
            o.list(5, 1);
            o.zz(k as i64);
            let mut i = CompactThriftInputSlice::new(o.as_slice());
            check!(s.fill_thrift(&mut i).is_ok(), "a list of valid numbers is rejected");
            judge(&s, 1 << k, 31);
        }
        reach(0);
    }
}
