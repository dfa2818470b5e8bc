use crate::{check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

const N: usize = b(22, 50);

fn any() -> ([u8; N], usize) {
    let mut buf = [0; N];
    let n = range(0, N);
    fill(&mut buf[..n]);
    (buf, n)
}

/// what reading returns, as low bits of the given width; `op` 0: length, then i16, i32, i64
fn read<'i, I: CompactThriftInput<'i>>(inp: &mut I, op: u32) -> Result<u64, ThriftError> {
    match op {
        0 => inp.read_len().map(|x| x as u64),
        1 => inp.read_i16().map(|x| x as u16 as u64),
        2 => inp.read_i32().map(|x| x as u32 as u64),
        _ => inp.read_i64().map(|x| x as u64),
    }
}

fn expect(v: u64, op: u32) -> u64 {
    match op {
        0 => v,
        1 => unzz(v & 0xffff) as u16 as u64,
        2 => unzz(v & 0xffff_ffff) as u32 as u64,
        _ => unzz(v) as u64,
    }
}

fn judge(r: Result<u64, ThriftError>, used: usize, b: &[u8], op: u32) {
    let mut d = Dec::new(b);
    match (d.varint_fits(), r) {
        (None, Err(e)) => {
            check!(ecode(&e) == EOF, "truncated integer is not reported as end of input");
            reach(0);
        }
        (None, Ok(_)) => fail("a truncated integer decoded"),
        (Some(_), Err(_)) => fail("a complete integer did not decode"),
        (Some((v, fits)), Ok(x)) => {
            check!(used == d.p, "integer decoding consumed the wrong number of bytes");
            if fits {
                check!(x == expect(v, op), "integer decoding returned the wrong value");
                reach(1);
                obs(x);
            } else {
                reach(2);
            }
        }
    }
}

entries! {
    h_c02_slice, 3, "all byte strings of 0 to 22 (thorough: 50) bytes; read_len, read_i16, read_i32, read_i64; slice input" => {
        let (buf, n) = any();
        let op = choose(4);
        let mut inp = CompactThriftInputSlice::new(&buf[..n]);
        let r = read(&mut inp, op);
        let left = inp.as_slice().len();
        judge(r, n - left, &buf[..n], op);
    }
    h_c02_stream, 3, "as h_c02_slice; stream input" => {
        let (buf, n) = any();
        let op = choose(4);
        let mut inp = Stream::new(&buf[..n]);
        let r = read(&mut inp, op);
        judge(r, inp.p, &buf[..n], op);
    }
    h_c02_byte, 1, "the one-byte integer and the protocol impls of i16, i32, i64; 0 to 3 bytes" => {
        let mut buf = [0; 3];
        let n = range(0, 3);
        fill(&mut buf[..n]);
        let mut inp = CompactThriftInputSlice::new(&buf[..n]);
        match choose(4) {
            0 => {
                let r = i8::read_thrift(&mut inp);
                if n == 0 {
                    check!(rcode(&r) == EOF, "reading a byte from nothing is not an end of input error");
                } else {
                    check!(matches!(r, Ok(x) if x as u8 == buf[0]), "wrong byte");
                    check!(inp.as_slice().len() == n - 1, "reading a byte consumed more or less than one");
                    reach(0);
                }
            }
            1 => {
                let r = i16::read_thrift(&mut inp).map(|x| x as u16 as u64);
                let left = inp.as_slice().len();
                judge(r, n - left, &buf[..n], 1)
            }
            2 => {
                let r = i32::read_thrift(&mut inp).map(|x| x as u32 as u64);
                let left = inp.as_slice().len();
                judge(r, n - left, &buf[..n], 2)
            }
            _ => {
                let r = i64::read_thrift(&mut inp).map(|x| x as u64);
                let left = inp.as_slice().len();
                judge(r, n - left, &buf[..n], 3)
            }
        }
    }
    h_c02_padded, 2, "every 64-bit integer in its shortest form followed by 1 to 40, 63, 64, 65, 127, 128, 300 or 1000 superfluous bytes; both inputs" => {
        let v = nd64();
        let pad = match choose(2) { 0 => range(1, 40), _ => [63, 64, 65, 127, 128, 300, 1000][choose(7) as usize] };
        let op = choose(4);
        let mut o = Sink::<1024>::new();
        o.varint(v);
        let last = o.n - 1;
        o.b[last] |= 0x80;
        for _ in 1..pad {
            o.byte(0x80);
        }
        o.byte(0);
        let n = o.n;
        o.byte(nd8());
        let (r, used) = if choose(2) == 0 {
            let mut inp = CompactThriftInputSlice::new(o.as_slice());
            let r = read(&mut inp, op);
            (r, o.n - inp.as_slice().len())
        } else {
            let mut inp = Stream::new(o.as_slice());
            let r = read(&mut inp, op);
            (r, inp.p)
        };
        check!(used == n, "integer decoding consumed the wrong number of bytes");
        match r {
            Ok(x) => check!(x == expect(v, op), "integer decoding returned the wrong value"),
            Err(_) => fail("a complete integer did not decode"),
        }
        reach((last > 4) as u32);
    }
}
