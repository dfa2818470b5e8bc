use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

fn compare<V>(a: Result<V, ThriftError>, b: Result<V, ThriftError>, ua: usize, ub: usize, eq: impl Fn(&V, &V) -> bool) {
    match (&a, &b) {
        (Ok(x), Ok(y)) => {
            check!(eq(x, y), "slice and stream decode to different values");
            check!(ua == ub, "slice and stream consume different amounts");
            obs(ua as u64);
            reach(0);
        }
        (Err(x), Err(y)) => {
            check!(ecode(x) == ecode(y), "slice and stream fail with different errors");
            reach(1);
        }
        _ => fail("one of slice and stream decodes, the other fails"),
    }
}

fn both<V: for<'x> CompactThriftProtocol<'x> + Default>(b: &[u8], eq: impl Fn(&V, &V) -> bool) {
    let mut i = CompactThriftInputSlice::new(b);
    let x = V::read_thrift(&mut i);
    let ux = b.len() - i.as_slice().len();
    let k = [usize::MAX, 1][choose(2) as usize];
    let mut s = Chunks(Stream::new(b), k);
    let y = V::read_thrift(&mut s);
    compare(x, y, ux, s.0.p, eq);
}

fn free<V: for<'x> CompactThriftProtocol<'x> + Default, const N: usize>(eq: impl Fn(&V, &V) -> bool) {
    let mut buf = [0; N];
    let n = range(0, N);
    fill(&mut buf[..n]);
    both(&buf[..n], eq);
}

/// every single read operation
fn op<'i, I: CompactThriftInput<'i>>(i: &mut I, k: u32, ty: u8) -> Result<u64, ThriftError> {
    match k {
        0 => i.read_byte().map(|x| x as u64),
        1 => i.read_len().map(|x| x as u64),
        2 => i.read_i16().map(|x| x as u64),
        3 => i.read_i32().map(|x| x as u64),
        4 => i.read_i64().map(|x| x as u64),
        5 => i.read_double().map(|x| x.to_bits()),
        6 => i.skip_integer().map(|_| 0),
        7 => i.skip_binary().map(|_| 0),
        8 => i.skip_field(ty).map(|_| 0),
        9 => read_collection_len_and_type(i).map(|x| x.0 as u64 * 16 + x.1 as u64),
        10 => read_map_len_and_types(i).map(|x| x.0 as u64 * 256 + x.1 as u64 * 16 + x.2 as u64),
        _ => {
            let mut l = ty as i16 - 100;
            let t = i.read_field_header(&mut l)?;
            Ok(t as u64 | (l as u16 as u64) << 8)
        }
    }
}

fn ops<const N: usize>(k: u32, ty: u8) {
    let mut buf = [0; N];
    let n = range(0, N);
    fill(&mut buf[..n]);
    let b = &buf[..n];
    let mut i = CompactThriftInputSlice::new(b);
    let x = op(&mut i, k, ty);
    let ux = n - i.as_slice().len();
    let mut s = Chunks(Stream::new(b), [usize::MAX, 1, 3][choose(3) as usize]);
    let y = op(&mut s, k, ty);
    compare(x, y, ux, s.0.p, |a, b| a == b);
}

entries! {
    h_c06_ops, 2, "every read and skip operation except skip_field, binary and string; 0 to 12 (thorough: 20) arbitrary bytes; stream in pieces of 1, 3 or all" => {
        let k = [0, 1, 2, 3, 4, 5, 6, 9, 10, 11][choose(10) as usize];
        ops::<{ b(12, 20) }>(k, nd8())
    }
    h_c06_skip_binary, 2, "skip_binary; 0 to 6 arbitrary bytes" => { ops::<6>(7, 0) }
    h_c06_skip, 2, "skip_field of every type; 0 to 5 arbitrary bytes" => { ops::<5>(8, nd8()) }
    h_c06_binary, 2, "read_binary and read_string; 0 to 6 arbitrary bytes" => {
        let mut buf = [0; 6];
        let n = range(0, 6);
        fill(&mut buf[..n]);
        let b = &buf[..n];
        let mut i = CompactThriftInputSlice::new(b);
        let mut s = Chunks(Stream::new(b), [usize::MAX, 1][choose(2) as usize]);
        if choose(2) == 0 {
            let x = i.read_binary();
            let y = s.read_binary();
            compare(x, y, n - i.as_slice().len(), s.0.p, |a, b| same(a, b));
        } else {
            let x = i.read_string();
            let y = s.read_string();
            compare(x, y, n - i.as_slice().len(), s.0.p, |a, b| same(a.as_bytes(), b.as_bytes()));
        }
    }
    h_c06_big, 2, "binaries and strings of 120 to 130, 254 to 258, 4095 to 4097 and 65535 to 65537 bytes, complete or cut by one; from slice and from streams in pieces of 1, 100, 4096 or all; reading and skipping" => {
        let n = match choose(4) { 0 => range(120, 130), 1 => range(254, 258), 2 => range(4095, 4097), _ => range(65535, 65537) };
        let mut o = Sink::<65600>::new();
        o.varint(n as u64);
        for i in 0..n - 1 {
            o.byte(32 + (i % 91) as u8);
        }
        if choose(2) == 0 {
            let x = nd8();
            assume(x < 128);
            o.byte(x);
            o.byte(nd8());
        }
        let b = o.as_slice();
        let mut i = CompactThriftInputSlice::new(b);
        let mut s = Chunks(Stream::new(b), [usize::MAX, 1, 100, 4096][choose(4) as usize]);
        match choose(4) {
            0 => {
                let (x, y) = (i.read_binary(), s.read_binary());
                compare(x, y, b.len() - i.as_slice().len(), s.0.p, |a, b| a == b);
            }
            1 => {
                let (x, y) = (i.read_string(), s.read_string());
                compare(x, y, b.len() - i.as_slice().len(), s.0.p, |a, b| a == b);
            }
            2 => {
                let (x, y) = (i.skip_binary(), s.skip_binary());
                compare(x, y, b.len() - i.as_slice().len(), s.0.p, |a, b| a == b);
            }
            _ => {
                let (x, y) = (i.skip_field(8), s.skip_field(8));
                compare(x, y, b.len() - i.as_slice().len(), s.0.p, |a, b| a == b);
            }
        }
    }
    h_c06_mega, 2, "binaries and strings of 2^20-1, 2^20, 2^20+1, 2^20+100 and 2^21+3 bytes, complete or cut by one; from slice and from streams in pieces of 65536 or all; reading and skipping" => {
        const M: usize = 1 << 20;
        let n = [M - 1, M, M + 1, M + 100, 2 * M + 3][choose(5) as usize];
        let mut m = vec![b'x'; n + 5];
        let mut o = Sink::<5>::new();
        o.varint(n as u64);
        let h = o.n;
        m[..h].copy_from_slice(o.as_slice());
        let b = &m[..h + n - choose(2) as usize];
        let mut i = CompactThriftInputSlice::new(b);
        let mut s = Chunks(Stream::new(b), [usize::MAX, 65536][choose(2) as usize]);
        match choose(3) {
            0 => {
                let (x, y) = (i.read_binary(), s.read_binary());
                compare(x, y, b.len() - i.as_slice().len(), s.0.p, |a, b| same(a, b));
            }
            1 => {
                let (x, y) = (i.read_string(), s.read_string());
                compare(x, y, b.len() - i.as_slice().len(), s.0.p, |a, b| same(a.as_bytes(), b.as_bytes()));
            }
            _ => {
                let (x, y) = (i.skip_field(8), s.skip_field(8));
                compare(x, y, b.len() - i.as_slice().len(), s.0.p, |a, b| a == b);
            }
        }
    }
    h_c06_many, 2, "lists of i8, i64, binary and Inner of 13 to 17, 127 to 130, 254 to 258 or 1000 elements, complete or cut by one; from slice and from streams in pieces of 1, 100 or all; reading and skipping" => {
        let n = match choose(4) { 0 => range(13, 17), 1 => range(127, 130), 2 => range(254, 258), _ => 1000 };
        let et = [3, 6, 8, 12][choose(4) as usize];
        let mut o = Sink::<5000>::new();
        o.list(et, n);
        for i in 0..n {
            if et == 12 {
                o.field(5, 1, 0);
                o.zz(i as i64 * 3);
                o.stop();
            } else {
                o.element(et, i);
            }
        }
        if choose(2) == 0 {
            o.n -= 1;
        }
        let b = o.as_slice();
        let mut i = CompactThriftInputSlice::new(b);
        let mut s = Chunks(Stream::new(b), [usize::MAX, 1, 100][choose(3) as usize]);
        if choose(2) == 0 {
            let (x, y) = (i.skip_field(9), s.skip_field(9));
            compare(x, y, b.len() - i.as_slice().len(), s.0.p, |a, b| a == b);
            return;
        }
        match et {
            3 => {
                let (x, y) = (Vec::<i8>::read_thrift(&mut i), Vec::<i8>::read_thrift(&mut s));
                compare(x, y, b.len() - i.as_slice().len(), s.0.p, |a, b| a == b);
            }
            6 => {
                let (x, y) = (Vec::<i64>::read_thrift(&mut i), Vec::<i64>::read_thrift(&mut s));
                compare(x, y, b.len() - i.as_slice().len(), s.0.p, |a, b| a == b);
            }
            8 => {
                let (x, y) = (Vec::<Vec<u8>>::read_thrift(&mut i), Vec::<Vec<u8>>::read_thrift(&mut s));
                compare(x, y, b.len() - i.as_slice().len(), s.0.p, |a, b| a == b);
            }
            _ => {
                let (x, y) = (Vec::<Inner>::read_thrift(&mut i), Vec::<Inner>::read_thrift(&mut s));
                compare(x, y, b.len() - i.as_slice().len(), s.0.p, |a, b| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| Case::eq(a, b)));
            }
        }
    }
    h_c06_opts, 2, "Opts; 0 to 5 (thorough: 6) arbitrary bytes" => { free::<Opts, { b(5, 6) }>(Case::eq) }
    h_c06_nested, 1, "Nested; 0 to 5 (thorough: 6) arbitrary bytes" => { free::<Nested, { b(5, 6) }>(Case::eq) }
    h_c06_lists, 2, "Lists; 0 to 5 (thorough: 6) arbitrary bytes" => { free::<Lists, { b(5, 6) }>(Case::eq) }
    h_c06_var, 2, "union; 0 to 5 (thorough: 6) arbitrary bytes" => { free::<Var, { b(5, 6) }>(Case::eq) }
    h_c06_tree, 2, "recursive struct; 0 to 5 (thorough: 6) arbitrary bytes" => { free::<Tree, { b(5, 6) }>(Case::eq) }
    h_c06_valid, 1, "encodings of all Scalars and Nested values with one-byte integers" => {
        let mut o = Out::new();
        if choose(2) == 0 {
            Scalars::gen(Wide(false)).spec(&mut o);
            both::<Scalars>(o.as_slice(), Case::eq);
        } else {
            Nested::gen(Wide(false)).spec(&mut o);
            both::<Nested>(o.as_slice(), Case::eq);
        }
    }
}
