use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

/// far more than any sensible limit
const DEEP: usize = 1000;
/// calls on the stack at that depth, were each level to take one
const CALLS: u32 = 800;

/// `n` containers inside each other, kind by level, around a byte
fn nest(o: &mut Sink<4096>, n: usize, kind: impl Fn(usize) -> u8, close: bool) {
    for i in 0..n {
        let t = if i + 1 < n { kind(i + 1) } else { 3 };
        match kind(i) {
            9 | 10 => o.byte(0x10 | t),
            11 => {
                // the next level is the value, or the key
                if i % 5 == 4 {
                    o.byte(1);
                    o.byte(t << 4 | 3);
                } else {
                    o.byte(1);
                    o.byte(0x30 | t);
                    o.byte(7);
                }
            }
            _ => o.byte(0x10 | t),
        }
    }
    o.byte(nd8());
    if close {
        for i in (0..n).rev() {
            match kind(i) {
                11 if i % 5 == 4 => o.byte(7),
                12 => o.stop(),
                _ => {}
            }
        }
    }
}

fn deep(kind: impl Fn(usize) -> u8) {
    let mut o = Sink::<4096>::new();
    nest(&mut o, DEEP, &kind, true);
    depth_limit(CALLS);
    match choose(3) {
        0 => {
            let mut i = CompactThriftInputSlice::new(o.as_slice());
            check!(i.skip_field(kind(0)).is_err(), "nesting without limit is accepted");
        }
        1 => {
            let mut i = Stream::new(o.as_slice());
            check!(i.skip_field(kind(0)).is_err(), "nesting without limit is accepted in a stream");
        }
        _ => {
            // as an unknown field
            let mut p = Sink::<4200>::new();
            p.field(5, 1, 0);
            p.zz(1);
            p.field(kind(0), 3, 1);
            p.bytes(o.as_slice());
            p.stop();
            let mut i = CompactThriftInputSlice::new(p.as_slice());
            check!(Inner::read_thrift(&mut i).is_err(), "nesting without limit is accepted in an unknown field");
        }
    }
    reach(0);
}

fn kind() -> u8 {
    let t = nd8();
    assume(t >= 9 && t <= 12);
    t
}

entries! {
    h_c27_one, 1, "1000 levels of one kind, but for one level, one of the first 70, of another kind; slice, stream and unknown field" => {
        let (a, x) = (kind(), kind());
        let p = range(0, 69);
        deep(|i| if i == p { x } else { a })
    }
    h_c27_pattern, 1, "1000 levels of kinds repeating with period 3 (thorough: 4); slice, stream and unknown field" => {
        let k = [kind(), kind(), kind(), if T { kind() } else { 0 }];
        deep(|i| k[i % b(3, 4)])
    }
    h_c27_shallow, 1, "1 to 16 levels of kinds repeating with period 3 are accepted and skipped exactly" => {
        let k = [kind(), kind(), kind()];
        let n = range(1, 16);
        let mut o = Sink::<4096>::new();
        nest(&mut o, n, |i| k[i % 3], true);
        o.byte(nd8());
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        check!(i.skip_field(k[0]).is_ok(), "ordinary nesting is rejected");
        check!(i.as_slice().len() == 1, "a nested value is not skipped exactly");
        reach(0);
    }
    h_c27_siblings, 1, "300 containers of one level next to each other are accepted" => {
        let k = kind();
        let outer = [9, 12][choose(2) as usize];
        let mut o = Sink::<4096>::new();
        if outer == 9 {
            o.list(k, 300);
        }
        let mut l = 0;
        for n in 0..300 {
            if outer == 12 {
                o.field(k, n + 1, l);
                l = n + 1;
            }
            match k {
                9 | 10 => o.list(3, 0),
                11 => o.byte(0),
                _ => o.stop(),
            }
        }
        if outer == 12 {
            o.stop();
        }
        o.byte(nd8());
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        check!(i.skip_field(outer).is_ok(), "containers next to each other count as nesting");
        check!(i.as_slice().len() == 1, "containers are not skipped exactly");
        reach(0);
    }
    h_c27_cut, 1, "1000 levels whose end is missing: an error within bounded stack" => {
        let (a, x) = (kind(), kind());
        let mut o = Sink::<4096>::new();
        nest(&mut o, DEEP, |i| if i % 2 == 0 { a } else { x }, false);
        depth_limit(CALLS);
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        check!(i.skip_field(a).is_err(), "nesting without limit is accepted");
        reach(0);
    }
    h_c27_free, 1, "11 (thorough: 14) levels of arbitrary headers of lists, sets and structs of at least one element, then 1000 levels of the last kind" => {
        let mut o = Sink::<4096>::new();
        let t = nd8();
        assume(t == 9 || t == 10 || t == 12);
        let mut k = t;
        for _ in 0..b(11, 14) {
            let h = nd8();
            k = h & 15;
            assume(k == 9 || k == 10 || k == 12);
            assume(h >= 16 && h < 0xf0);
            o.byte(h);
        }
        let k = concrete(k as u64) as u8;
        nest(&mut o, DEEP, |_| k, false);
        depth_limit(CALLS);
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        check!(i.skip_field(t).is_err(), "nesting without limit is accepted");
        reach(0);
    }
}
