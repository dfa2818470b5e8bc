use crate::{check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

fn judge(b: &[u8], ty: u8, ok: bool, left: usize) {
    let mut d = Dec::new(b);
    match d.skip(ty, false) {
        Some(()) => {
            check!(ok, "skipping a well-formed value failed");
            check!(left == d.left(), "skipping a value consumed more or less than the value");
            reach(if ty < 9 { 0 } else if ty < 11 { 1 } else if ty == 11 { 2 } else { 3 });
        }
        None => {
            check!(!ok, "skipping succeeded although there is no well-formed value");
            reach(4);
        }
    }
    obs(left as u64);
}

fn suffix(b: &[u8], s: &[u8]) -> usize {
    let (b0, s0) = (b.as_ptr() as usize, s.as_ptr() as usize);
    check!(s.len() <= b.len() && (s.is_empty() || b0 + b.len() == s0 + s.len()), "remaining input is no suffix of the input");
    s.len()
}

fn free<const N: usize>(lo: u8, hi: u8) {
    let ty = nd8();
    assume(ty >= lo && ty <= hi);
    let mut buf = [0; N];
    let n = range(0, N);
    fill(&mut buf[N - n..]);
    let b = &buf[N - n..];
    step_limit(100_000);
    let mut inp = CompactThriftInputSlice::new(b);
    let r = inp.skip_field(ty);
    let left = suffix(b, inp.as_slice());
    judge(b, ty, r.is_ok(), left);
}

/// a well-formed value of the type is skipped exactly, a cut one is an error
fn value(ty: u8, depth: u32, cut: bool) {
    let mut o = Sink::<96>::new();
    o.any_value(ty, false, depth, &mut (choose(3) as usize));
    let n = o.n;
    if cut {
        assume(n > 0);
        let n = range(0, n - 1);
        let b = &o.b[..n];
        let mut inp = CompactThriftInputSlice::new(b);
        check!(inp.skip_field(ty).is_err(), "skipping a truncated value succeeded");
        suffix(b, inp.as_slice());
        reach(0);
        return;
    }
    o.byte(nd8());
    if choose(2) == 0 {
        let mut inp = CompactThriftInputSlice::new(o.as_slice());
        check!(inp.skip_field(ty).is_ok(), "skipping a well-formed value failed");
        check!(inp.as_slice().len() == 1, "skipping a value consumed more or less than the value");
    } else {
        let mut inp = Stream::new(o.as_slice());
        check!(inp.skip_field(ty).is_ok(), "skipping a well-formed value in a stream failed");
        check!(inp.p == n, "skipping a value in a stream consumed more or less than the value");
    }
    reach(0);
    obs(n as u64);
}

entries! {
    h_c04_scalars, 2, "wire types 0 to 8 and 13 to 255; 0 to 10 (thorough: 14) arbitrary bytes; slice input" => {
        if choose(2) == 0 { free::<{ b(10, 14) }>(0, 8) } else { free::<{ b(10, 14) }>(13, 255) }
    }
    h_c04_list, 2, "wire types 9 and 10; 0 to 6 (thorough: 7) arbitrary bytes; slice input" => { free::<{ b(6, 7) }>(9, 10) }
    h_c04_map, 2, "wire type 11; 0 to 6 (thorough: 7) arbitrary bytes; slice input" => { free::<{ b(6, 7) }>(11, 11) }
    h_c04_struct, 2, "wire type 12; 0 to 6 (thorough: 7) arbitrary bytes; slice input" => { free::<{ b(6, 7) }>(12, 12) }
    h_c04_stream, 5, "all wire types; 0 to 5 arbitrary bytes; stream input" => {
        let ty = nd8();
        let mut buf = [0; 5];
        let n = range(0, 5);
        fill(&mut buf[..n]);
        let b = &buf[..n];
        step_limit(100_000);
        let mut inp = Stream::new(b);
        let r = inp.skip_field(ty);
        judge(b, ty, r.is_ok(), n - inp.p);
    }
    h_c04_value, 1, "well-formed values: all scalars; containers of up to 2 scalars (thorough: or containers of up to 2 scalars); symbolic contents; both inputs" => {
        value(1 + choose(12) as u8, b(0, 1) as u32, false)
    }
    h_c04_nest, 1, "well-formed containers of containers of up to 2 scalars, 0 or 1 inner container (thorough: three levels); both inputs" => {
        let mut o = Sink::<96>::new();
        let ty = 9 + choose(4) as u8;
        let it = 9 + choose(4) as u8;
        match ty {
            9 | 10 => o.list(it, 1),
            11 => {
                o.byte(1);
                o.byte(0x30 | it);
                o.byte(nd8());
            }
            _ => o.field(it, 3, 0),
        }
        o.any_value(it, true, b(0, 1) as u32, &mut (choose(3) as usize));
        if ty == 12 {
            o.stop();
        }
        o.byte(nd8());
        let mut inp = CompactThriftInputSlice::new(o.as_slice());
        check!(inp.skip_field(ty).is_ok(), "skipping a well-formed value failed");
        check!(inp.as_slice().len() == 1, "skipping a value consumed more or less than the value");
        reach(0);
    }
    h_c04_cut, 1, "as h_c04_value, cut at every point" => { value(1 + choose(12) as u8, b(0, 1) as u32, true) }
    h_c04_long, 1, "lists and sets of 14 to 17 elements and maps of 2 to 17 entries of every scalar type with fixed size" => {
        let mut o = Sink::<400>::new();
        let et = [1, 2, 3, 5, 7, 12][choose(6) as usize];
        let ty = 9 + choose(3) as u8;
        let n = range(14, 17);
        if ty == 11 {
            o.varint(n as u64);
            o.byte(0x10 | et);
        } else {
            o.list(et, n);
        }
        for _ in 0..n {
            if ty == 11 {
                o.byte(nd8());
            }
            match et {
                7 => for _ in 0..8 { o.byte(nd8()) },
                5 => { let x = nd8(); assume(x < 128); o.byte(x) }
                12 => o.stop(),
                _ => o.byte(nd8()),
            }
        }
        let end = o.n;
        o.byte(nd8());
        let mut inp = CompactThriftInputSlice::new(o.as_slice());
        check!(inp.skip_field(ty).is_ok(), "skipping a well-formed value failed");
        check!(inp.as_slice().len() == 1, "skipping a value consumed more or less than the value");
        let mut inp = CompactThriftInputSlice::new(&o.b[..end - 1]);
        check!(inp.skip_field(ty).is_err(), "skipping a truncated value succeeded");
        reach(0);
    }
    h_c04_binary, 2, "binary of 120 to 135, 254 to 300, 4095 to 4097 and 65535 to 65537 bytes, complete and cut by one" => {
        let n = match choose(4) { 0 => range(120, 135), 1 => range(254, 300), 2 => range(4095, 4097), _ => range(65535, 65537) };
        let mut o = Sink::<65600>::new();
        o.varint(n as u64);
        let h = o.n;
        o.n += n;
        o.b[h + n - 1] = nd8();
        o.byte(nd8());
        let mut inp = CompactThriftInputSlice::new(o.as_slice());
        check!(inp.skip_field(8).is_ok(), "skipping a well-formed value failed");
        check!(inp.as_slice().len() == 1, "skipping a value consumed more or less than the value");
        let mut inp = CompactThriftInputSlice::new(&o.b[..h + n - 1]);
        check!(inp.skip_field(8).is_err(), "skipping a truncated value succeeded");
        reach(if h == 2 { 0 } else { 1 });
    }
    h_c04_many, 4, "lists and sets of every element type, maps with values or keys of every type: 13 to 17, 31 to 33, 127 to 129, 254 to 258, 300, 1000 or 4097 elements, some symbolic bytes around them, complete and cut by one; both inputs" => {
        let ty = 9 + choose(3) as u8;
        let et = 1 + choose(12) as u8;
        let n = match choose(5) { 0 => range(13, 17), 1 => range(31, 33), 2 => range(127, 129), 3 => range(254, 258), _ => [300, 1000, 4097][choose(3) as usize] };
        let mut o = Sink::<50000>::new();
        o.many(ty, et, n, choose(2) == 0);
        let end = o.n;
        o.byte(nd8());
        o.byte(nd8());
        let stream = choose(2) == 0;
        let (r, left) = if stream {
            let mut inp = Stream::new(o.as_slice());
            let r = inp.skip_field(ty);
            (r, o.n - inp.p)
        } else {
            let mut inp = CompactThriftInputSlice::new(o.as_slice());
            let r = inp.skip_field(ty);
            (r, inp.as_slice().len())
        };
        check!(r.is_ok(), "skipping a well-formed value failed");
        check!(left == 2, "skipping a value consumed more or less than the value");
        let cut = &o.b[..end - 1];
        let r = if stream { Stream::new(cut).skip_field(ty) } else { CompactThriftInputSlice::new(cut).skip_field(ty) };
        check!(r.is_err(), "skipping a truncated value succeeded");
        reach(stream as u32 * 2 + (ty == 11) as u32);
    }
    h_c04_fields, 2, "structs of 1 to 40 and 300 fields of every type in turn, short and long headers, alone or as one of two elements; both inputs" => {
        let n = if choose(2) == 0 { range(1, 40) } else { 300 };
        let step = [1, 15, 16, -3][choose(4) as usize];
        let nested = choose(2) == 0;
        let mut o = Sink::<6000>::new();
        if nested {
            o.list(12, 2);
            o.element(12, 5);
        }
        let mut id = if step < 0 { 1000 } else { 0 };
        for i in 0..n {
            let ty = 1 + (i % 12) as u8;
            o.field(ty, id + step, id);
            id += step;
            if ty > 2 {
                o.element(ty, i);
            }
        }
        o.stop();
        let end = o.n;
        o.byte(nd8());
        let ty = if nested { 9 } else { 12 };
        let stream = choose(2) == 0;
        let (r, left) = if stream {
            let mut inp = Stream::new(o.as_slice());
            let r = inp.skip_field(ty);
            (r, o.n - inp.p)
        } else {
            let mut inp = CompactThriftInputSlice::new(o.as_slice());
            let r = inp.skip_field(ty);
            (r, inp.as_slice().len())
        };
        check!(r.is_ok(), "skipping a well-formed value failed");
        check!(left == 1, "skipping a value consumed more or less than the value");
        let cut = &o.b[..end - 1];
        let r = if stream { Stream::new(cut).skip_field(ty) } else { CompactThriftInputSlice::new(cut).skip_field(ty) };
        check!(r.is_err(), "skipping a truncated value succeeded");
        reach(nested as u32);
    }
}
