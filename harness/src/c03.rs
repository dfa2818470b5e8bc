use crate::{check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

const N: usize = b(36, 70);

/// the suffix of `b` that `s` is, or a failure
fn suffix(b: &[u8], s: &[u8]) -> usize {
    let (b0, s0) = (b.as_ptr() as usize, s.as_ptr() as usize);
    check!(s.len() <= b.len() && (s.is_empty() || b0 + b.len() == s0 + s.len()), "remaining input is no suffix of the input");
    s.len()
}

entries! {
    h_c03_int, 4, "all buffers of 0 to 36 (thorough: 70) bytes; slice input" => {
        let mut buf = [0; N];
        let n = range(0, N);
        fill(&mut buf[..n]);
        let b = &buf[..n];
        let mut d = Dec::new(b);
        let want = d.skip_varint();
        let mut inp = CompactThriftInputSlice::new(b);
        let r = inp.skip_integer();
        let left = suffix(b, inp.as_slice());
        let mut inp2 = CompactThriftInputSlice::new(b);
        let r2 = inp2.read_i64();
        check!(r.is_ok() == r2.is_ok(), "skipping an integer succeeds where reading it fails, or the other way round");
        match want {
            Some(()) => {
                check!(r.is_ok(), "skipping a complete integer failed");
                check!(left == n - d.p, "skipping an integer left the wrong input");
                check!(left == inp2.as_slice().len(), "skipping and reading an integer leave different input");
                reach(if d.p > 16 { 0 } else if n >= 16 { 1 } else { 2 });
            }
            None => {
                check!(rcode(&r) == EOF, "skipping a truncated integer is not an end of input error");
                reach(3);
            }
        }
        obs(left as u64);
    }
    h_c03_int_stream, 2, "all buffers of 0 to 20 bytes; stream input" => {
        let mut buf = [0; 20];
        let n = range(0, 20);
        fill(&mut buf[..n]);
        let b = &buf[..n];
        let mut d = Dec::new(b);
        let want = d.skip_varint();
        let mut inp = Stream::new(b);
        let r = inp.skip_integer();
        match want {
            Some(()) => {
                check!(r.is_ok(), "skipping a complete integer failed");
                check!(inp.p == d.p, "skipping an integer left the wrong input");
                reach(0);
            }
            None => {
                check!(r.is_err(), "skipping a truncated integer succeeded");
                reach(1);
            }
        }
    }
    h_c03_bin, 3, "all buffers of 0 to 14 (thorough: 24) bytes; slice and stream input" => {
        const M: usize = b(14, 24);
        let mut buf = [0; M];
        let n = range(0, M);
        fill(&mut buf[..n]);
        let b = &buf[..n];
        let mut inp = CompactThriftInputSlice::new(b);
        let r = inp.skip_binary();
        let left = suffix(b, inp.as_slice());
        let mut d = Dec::new(b);
        let fits = d.clone().varint_fits();
        match fits {
            // lengths that do not fit 64 bits are not covered
            Some((_, false)) => {}
            _ => match d.binary() {
                Some(_) => {
                    check!(r.is_ok(), "skipping a complete binary failed");
                    check!(left == n - d.p, "skipping a binary left the wrong input");
                    reach(0);
                }
                None => {
                    check!(r.is_err(), "skipping an incomplete binary succeeded");
                    reach(1);
                }
            }
        }
        // against the library's own reading
        if choose(2) == 0 {
            let mut inp2 = CompactThriftInputSlice::new(b);
            let r2 = inp2.read_binary();
            check!(rcode(&r) == rcode(&r2), "skipping and reading a binary have different outcomes");
            if r2.is_ok() {
                check!(left == inp2.as_slice().len(), "skipping and reading a binary leave different input");
            }
        } else {
            let mut inp2 = Stream::new(b);
            let r2 = inp2.skip_binary();
            check!(r.is_ok() == r2.is_ok(), "skipping a binary in a stream has a different outcome");
            if r2.is_ok() {
                check!(left == n - inp2.p, "skipping a binary in a stream leaves different input");
                reach(2);
            }
        }
        obs(left as u64);
    }
    h_c03_long, 2, "integers of 30 to 70, 127 to 130, 255 to 258 and 1000 bytes, complete and cut by one; both inputs" => {
        let len = match choose(4) { 0 => range(30, 70), 1 => range(127, 130), 2 => range(255, 258), _ => 1000 };
        let mut o = Sink::<1100>::new();
        for _ in 1..len {
            let x = nd8();
            o.byte(x | 0x80);
        }
        let x = nd8();
        o.byte(x & 0x7f);
        let more = [0, 1, 15, 16, 17][choose(5) as usize];
        for _ in 0..more {
            o.byte(nd8());
        }
        let mut inp = CompactThriftInputSlice::new(o.as_slice());
        check!(inp.skip_integer().is_ok(), "skipping a complete integer failed");
        check!(inp.as_slice().len() == more, "skipping an integer left the wrong input");
        let mut inp = Stream::new(o.as_slice());
        check!(inp.skip_integer().is_ok(), "skipping a complete integer failed");
        check!(inp.p == len, "skipping an integer left the wrong input");
        let mut inp = CompactThriftInputSlice::new(&o.b[..len - 1]);
        check!(rcode(&inp.skip_integer()) == EOF, "skipping a truncated integer is not an end of input error");
        reach((len > 100) as u32);
    }
    h_c03_big, 2, "binaries of 120 to 130, 254 to 258, 4095 to 4097, 16383 to 16385 and 65535 to 65537 bytes, complete and cut by one; both inputs" => {
        let len = match choose(5) { 0 => range(120, 130), 1 => range(254, 258), 2 => range(4095, 4097), 3 => range(16383, 16385), _ => range(65535, 65537) };
        let mut o = Sink::<65600>::new();
        o.varint(len as u64);
        let h = o.n;
        o.n += len - 1;
        o.byte(nd8());
        o.byte(nd8());
        let stream = choose(2) == 0;
        let (r, used) = if stream {
            let mut inp = Stream::new(o.as_slice());
            let r = inp.skip_binary();
            (r, inp.p)
        } else {
            let mut inp = CompactThriftInputSlice::new(o.as_slice());
            let r = inp.skip_binary();
            (r, o.n - inp.as_slice().len())
        };
        check!(r.is_ok(), "skipping a complete binary failed");
        check!(used == h + len, "skipping a binary left the wrong input");
        let cut = &o.b[..h + len - 1];
        let r = if stream { Stream::new(cut).skip_binary() } else { CompactThriftInputSlice::new(cut).skip_binary() };
        check!(r.is_err(), "skipping an incomplete binary succeeded");
        reach((len > 5000) as u32);
    }
}
