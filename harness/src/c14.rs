use crate::{check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;
use std::borrow::Cow;
use std::rc::Rc;
use std::sync::Arc;

/// UTF-8 by the table of the Unicode standard (3-7)
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    let at = |i: usize, lo: u8, hi: u8| i < b.len() && b[i] >= lo && b[i] <= hi;
    while i < b.len() {
        let c = b[i];
        if c < 0x80 {
            i += 1;
        } else if c >= 0xc2 && c <= 0xdf {
            if !at(i + 1, 0x80, 0xbf) {
                return false;
            }
            i += 2;
        } else if c >= 0xe0 && c <= 0xef {
            let (lo, hi) = (if c == 0xe0 { 0xa0 } else { 0x80 }, if c == 0xed { 0x9f } else { 0xbf });
            if !at(i + 1, lo, hi) || !at(i + 2, 0x80, 0xbf) {
                return false;
            }
            i += 3;
        } else if c >= 0xf0 && c <= 0xf4 {
            let (lo, hi) = (if c == 0xf0 { 0x90 } else { 0x80 }, if c == 0xf4 { 0x8f } else { 0xbf });
            if !at(i + 1, lo, hi) || !at(i + 2, 0x80, 0xbf) || !at(i + 3, 0x80, 0xbf) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}

/// decode `m` as a string or binary of a type that `get` turns into bytes
fn one<V: for<'x> CompactThriftProtocol<'x>>(m: &[u8], d: V, stream: bool, text: bool, get: impl Fn(&V) -> &[u8]) {
    let mut w = Dec::new(m);
    let want = w.binary();
    if w.wide {
        return;
    }
    let mut v = d;
    let (r, left) = if stream {
        let mut i = Stream::new(m);
        (v.fill_thrift(&mut i), m.len() - i.p)
    } else {
        let mut i = CompactThriftInputSlice::new(m);
        (v.fill_thrift(&mut i), i.as_slice().len())
    };
    verdict(&r, want, text);
    if r.is_ok() {
        check!(same(get(&v), want.unwrap_or(&[])), "the decoded text or bytes differ from the payload");
        check!(left == w.left(), "a string or binary is not consumed exactly");
        obs(left as u64);
    }
}

fn verdict(r: &Result<(), ThriftError>, want: Option<&[u8]>, text: bool) {
    match want {
        None => {
            check!(r.is_err(), "a truncated string or binary is accepted");
            reach(0);
        }
        Some(p) => {
            if !text || utf8(p) {
                check!(r.is_ok(), "a valid string or binary is rejected");
                reach(1);
            } else {
                check!(matches!(r, Err(ThriftError::InvalidString)), "a string that is not UTF-8 is not reported as invalid string");
                reach(2);
            }
        }
    }
}

fn cow(m: &[u8], text: bool) {
    let mut w = Dec::new(m);
    let want = w.binary();
    if w.wide {
        return;
    }
    let mut i = CompactThriftInputSlice::new(m);
    // the borrowed bytes, and the pointer to them
    let mut got: &[u8] = &[];
    let r = if text {
        let mut v: Cow<str> = Cow::Borrowed("");
        let r = v.fill_thrift(&mut i);
        match v {
            Cow::Borrowed(x) => got = x.as_bytes(),
            Cow::Owned(_) => fail("text from a slice is copied"),
        }
        r
    } else {
        let mut v: Cow<[u8]> = Cow::Borrowed(&[]);
        let r = v.fill_thrift(&mut i);
        match v {
            Cow::Borrowed(x) => got = x,
            Cow::Owned(_) => fail("bytes from a slice are copied"),
        }
        r
    };
    verdict(&r, want, text);
    if r.is_ok() {
        let p = want.unwrap_or(&[]);
        check!(got.len() == p.len() && got.as_ptr() == p.as_ptr(), "borrowed data does not alias the payload");
        check!(i.as_slice().len() == w.left(), "a string or binary is not consumed exactly");
    }
}

fn target(m: &[u8], k: u32) {
    let s = choose(2) == 1;
    match k {
        0 => one(m, String::new(), s, true, |v| v.as_bytes()),
        1 => one(m, Rc::<str>::from(""), s, true, |v| v.as_bytes()),
        2 => one(m, Arc::<str>::from(""), s, true, |v| v.as_bytes()),
        3 => one(m, Box::<str>::from(""), s, true, |v| v.as_bytes()),
        4 => one(m, vec![9u8], s, false, |v| v),
        5 => one(m, Box::new(String::new()), s, true, |v| v.as_bytes()),
        6 => one(m, None::<String>, s, true, |v| v.as_ref().map_or(&[], |x| x.as_bytes())),
        7 => cow(m, true),
        _ => cow(m, false),
    }
}

const P: usize = b(5, 6);

entries! {
    h_c14_string, 3, "strings: 0 to 7 (thorough: 8) arbitrary bytes, length included; String from slice and stream" => {
        let mut m = [0; b(7, 8)];
        let n = range(0, b(7, 8));
        fill(&mut m[..n]);
        target(&m[..n], 0);
    }
    h_c14_targets, 3, "payloads of 0 to 5 (thorough: 6) arbitrary bytes and one byte more or less; Rc<str>, Arc<str>, Box<str>, Vec<u8>, Box<String>, Option<String>, Cow<str>, Cow<[u8]>; both inputs" => {
        let mut o = Sink::<12>::new();
        let n = range(0, P);
        o.varint(n as u64);
        for _ in 0..n {
            o.byte(nd8());
        }
        match choose(3) {
            0 => {}
            1 => o.byte(nd8()),
            _ => o.n -= 1,
        }
        target(o.as_slice(), 1 + choose(8));
    }
    h_c14_long, 2, "strings of 17 to 40 ASCII bytes with 4 arbitrary bytes in any place; String, Cow<str>, Rc<str>; both inputs" => {
        let n = [17, 24, 33, 40][choose(4) as usize];
        let mut m = [b'x'; 48];
        m[0] = n as u8;
        let p = 1 + choose(n as u32 - 3) as usize;
        fill(&mut m[p..p + 4]);
        target(&m[..n + 1], [0, 7, 1][choose(3) as usize]);
    }
    h_c14_binary, 2, "binaries of 0 to 40 and 126 to 130 arbitrary bytes and one byte more or less; Vec<u8>, Cow<[u8]>; both inputs" => {
        let n = if choose(2) == 0 { range(0, 40) } else { range(126, 130) };
        let mut o = Sink::<140>::new();
        o.varint(n as u64);
        for _ in 0..n {
            o.byte(nd8());
        }
        match choose(3) {
            0 => {}
            1 => o.byte(nd8()),
            _ => o.n -= 1,
        }
        target(o.as_slice(), [4, 8][choose(2) as usize]);
    }
    h_c14_empty, 1, "empty strings and binaries, into values with previous content" => {
        let m = [0u8, nd8()];
        let mut a = String::from("old");
        let mut b: Rc<str> = "old".into();
        let mut c: Arc<str> = "old".into();
        let mut d: Box<str> = "old".into();
        let mut e = vec![1u8, 2];
        let mut i = CompactThriftInputSlice::new(&m);
        check!(a.fill_thrift(&mut i).is_ok() && a.is_empty(), "an empty string does not replace the previous content");
        check!(i.as_slice().len() == 1, "a string or binary is not consumed exactly");
        check!(b.fill_thrift(&mut CompactThriftInputSlice::new(&m)).is_ok() && b.is_empty(), "an empty string does not replace the previous content");
        check!(c.fill_thrift(&mut CompactThriftInputSlice::new(&m)).is_ok() && c.is_empty(), "an empty string does not replace the previous content");
        check!(d.fill_thrift(&mut CompactThriftInputSlice::new(&m)).is_ok() && d.is_empty(), "an empty string does not replace the previous content");
        check!(e.fill_thrift(&mut CompactThriftInputSlice::new(&m)).is_ok() && e.is_empty(), "empty bytes do not replace the previous content");
        reach(0);
    }
    h_c14_big, 3, "payloads of 254 to 258, 1023 to 1025, 4095 to 4097, 8191 to 8193, 16383 to 16385 and 65535 to 65537 bytes, complete or cut by one, any first and last byte; all types; both inputs" => {
        let n = match choose(6) { 0 => range(254, 258), 1 => range(1023, 1025), 2 => range(4095, 4097), 3 => range(8191, 8193), 4 => range(16383, 16385), _ => range(65535, 65537) };
        let k = choose(9);
        let mut o = Sink::<65600>::new();
        o.varint(n as u64);
        let h = o.n;
        for i in 0..n {
            o.byte(32 + (i % 91) as u8);
        }
        o.b[h] = nd8();
        o.b[h + n - 1] = nd8();
        if choose(2) == 0 {
            o.n -= 1;
        } else {
            o.byte(nd8());
        }
        target(o.as_slice(), k);
    }
    h_c14_mega, 3, "payloads of 2^20-1, 2^20, 2^20+1, 2^20+100 and 2^21+3 (thorough: also 2^24-1 and 2^24) bytes, complete or cut by one, any byte last; String, Vec<u8>, Cow<str>, Cow<[u8]>; both inputs" => {
        const M: usize = 1 << 20;
        let n = [M - 1, M, M + 1, M + 100, 2 * M + 3, 16 * M - 1, 16 * M][choose(b(5, 7) as u32) as usize];
        let mut m = vec![b'x'; n + 5];
        let mut o = Sink::<5>::new();
        o.varint(n as u64);
        let h = o.n;
        m[..h].copy_from_slice(o.as_slice());
        m[h + n - 1] = nd8();
        let end = h + n - choose(2) as usize;
        target(&m[..end], [0, 4, 7, 8][choose(4) as usize]);
    }
}
