use crate::{check, entries, spec::*, vp::*};
use compact_thrift_parquet::ParquetError;
use compact_thrift_runtime::*;
use std::fmt::Write as _;
use std::io::{Error, ErrorKind};

/// text of at most 96 bytes
struct Text {
    b: [u8; 96],
    n: usize,
}
impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &c in s.as_bytes() {
            if self.n == 96 {
                fail("harness: text too long");
            }
            self.b[self.n] = c;
            self.n += 1;
        }
        Ok(())
    }
}
impl Text {
    fn new() -> Self {
        Text { b: [0; 96], n: 0 }
    }
    fn get(&self) -> &[u8] {
        &self.b[..self.n]
    }
    fn has(&self, s: &[u8]) -> bool {
        (0..(self.n + 1).saturating_sub(s.len())).any(|i| same(&self.b[i..i + s.len()], s))
    }
}

const ALL: [ErrorKind; 24] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::Interrupted,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::IsADirectory,
    ErrorKind::FileTooLarge,
    ErrorKind::Other,
];

fn leak(n: usize) -> &'static mut [u8] {
    let mut v = vec![0; n + 1];
    for c in v[..n].iter_mut() {
        *c = nd8() & 127;
        assume(*c != 0);
    }
    v.leak()
}

mod t {
    use compact_thrift_runtime::*;
    thrift! {
        struct Leaf {
            1: required i32 first;
            2: required bool second;
            3: required string a_rather_long_name_for_a_field;
        }
        union Pick {
            1: Leaf leaf;
            2: i32 num;
        }
        struct Outer {
            1: optional Leaf leaf;
            2: optional list<Leaf> leaves;
            3: optional Pick pick;
            4: required i8 last;
        }
    }
}

/// the text of a missing field, printed and in the error
fn named(e: &ThriftError, want: &str) {
    match e {
        ThriftError::MissingField(f) => {
            let mut x = Text::new();
            check!(write!(x, "{}", f).is_ok() && same(x.get(), want.as_bytes()), "the error names another field");
            let mut y = Text::new();
            let g = f.clone();
            check!(write!(y, "{}", g).is_ok() && same(y.get(), want.as_bytes()), "a copy of the name is another name");
            let mut z = Text::new();
            check!(write!(z, "{}", e).is_ok() && z.has(want.as_bytes()), "the text of the error lacks the name of the field");
            let mut d = Text::new();
            check!(write!(d, "{:?}", e.clone()).is_ok() && d.has(want.as_bytes()), "the debug text of the error lacks the name of the field");
        }
        _ => fail("a missing field is reported as something else"),
    }
}

entries! {
    h_c32_kinds, 1, "24 kinds of I/O errors, as kind, as error without and with a payload" => {
        let k = ALL[choose(24) as usize];
        let is = |e: ThriftError| matches!(e, ThriftError::IO(x) if x == k) && matches!(e.clone(), ThriftError::IO(x) if x == k);
        check!(is(ThriftError::from(k)), "a kind becomes another error");
        check!(is(ThriftError::from(Error::from(k))), "an I/O error loses its kind");
        check!(is(ThriftError::from(Error::new(k, "text"))), "an I/O error with a payload loses its kind");
        match ParquetError::from(Error::new(k, "text")) {
            ParquetError::Io(e) => {
                check!(e.kind() == k, "an I/O error loses its kind");
                check!(e.get_ref().is_some(), "an I/O error loses its payload");
            }
            _ => fail("an I/O error becomes another error"),
        }
        match ParquetError::from(ThriftError::from(k)) {
            ParquetError::Thrift(e) => check!(is(e), "an error loses its kind"),
            _ => fail("a decoding error becomes another error"),
        }
        reach(0);
    }
    h_c32_os, 1, "errors of the operating system with any number" => {
        let n = nd32() as i32;
        let e = Error::from_raw_os_error(n);
        let k = e.kind();
        match ThriftError::from(e) {
            ThriftError::IO(x) => check!(x == k, "an error of the operating system loses its kind"),
            _ => fail("an I/O error becomes another error"),
        }
        match ParquetError::from(Error::from_raw_os_error(n)) {
            ParquetError::Io(e) => check!(e.raw_os_error() == Some(n), "an error of the operating system loses its number"),
            _ => fail("an I/O error becomes another error"),
        }
        reach(0);
    }
    h_c32_wrapped, 1, "every decoding error inside of a Parquet error; any length" => {
        let n = nd64() as usize;
        let e = match choose(10) {
            0 => ThriftError::InvalidNumber,
            1 => ThriftError::InvalidString,
            2 => ThriftError::InvalidBinaryLen(n),
            3 => ThriftError::InvalidCollectionLen,
            4 => ThriftError::MissingField("a::b\0".into()),
            5 => ThriftError::MissingValue,
            6 => ThriftError::MissingStop,
            7 => ThriftError::DuplicateField,
            8 => ThriftError::InvalidType,
            _ => ThriftError::ReserveError,
        };
        let c = ecode(&e);
        let same_len = |e: &ThriftError| !matches!(e, ThriftError::InvalidBinaryLen(m) if *m != n);
        check!(ecode(&e.clone()) == c && same_len(&e.clone()), "the copy of an error is another error");
        match ParquetError::from(e) {
            ParquetError::Thrift(e) => check!(ecode(&e) == c && same_len(&e), "an error becomes another error"),
            _ => fail("a decoding error becomes another error"),
        }
        reach(0);
    }
    h_c32_names, 1, "field names of 1 to 8 arbitrary ASCII characters, from strings and C strings" => {
        let n = range(1, 8);
        let b: &'static [u8] = leak(n);
        let f: FieldName = if choose(2) == 0 {
            unsafe { std::str::from_utf8_unchecked(b) }.into()
        } else {
            unsafe { std::ffi::CStr::from_bytes_with_nul_unchecked(b) }.into()
        };
        let mut t = Text::new();
        let g = if choose(2) == 0 { f.clone() } else { f };
        check!(write!(t, "{}", g).is_ok() && same(t.get(), &b[..n]), "a name is printed as another one");
        reach(0);
    }
    h_c32_missing, 1, "each required field missing, on its own, inside of structs, lists and unions: Struct::field" => {
        let mut o = Sink::<40>::new();
        let nest = choose(4);
        match nest {
            1 => o.byte(0x1c),
            2 => o.bytes(&[0x29, 0x2c, 0x15, 2, 0x11, 0x18, 0, 0]),
            3 => o.bytes(&[0x3c, 0x1c]),
            _ => {}
        }
        let miss = choose(4);
        let mut last = 0;
        if miss != 0 {
            o.field(5, 1, last);
            o.byte(nd8() & 127);
            last = 1;
        }
        if miss != 1 {
            o.field(1 + nd8() % 2, 2, last);
            last = 2;
        }
        if miss != 2 {
            o.field(8, 3, last);
            o.byte(0);
        }
        o.stop();
        match nest {
            // the union's own end
            3 => o.stop(),
            _ => {}
        }
        // the end of the outer struct, whose own required field is missing
        o.stop();
        let mut i = CompactThriftInputSlice::new(o.as_slice());
        let e = if nest == 0 { t::Leaf::read_thrift(&mut i).err() } else { t::Outer::read_thrift(&mut i).err() };
        let want = match miss {
            0 => Some("Leaf::first"),
            1 => Some("Leaf::second"),
            2 => Some("Leaf::a_rather_long_name_for_a_field"),
            _ if nest == 0 => None,
            _ => Some("Outer::last"),
        };
        match (e, want) {
            (None, None) => {}
            (Some(e), Some(w)) => named(&e, w),
            _ => fail("a missing required field is not reported"),
        }
        reach(0);
    }
    h_c32_first, 1, "several required fields missing: the error names one of them" => {
        let a = choose(4);
        let mut o = Sink::<8>::new();
        match a {
            0 => o.bytes(&[0x15, 2]),
            1 => o.byte(0x21),
            2 => o.bytes(&[0x38, 0]),
            _ => {}
        }
        o.stop();
        let e = match t::Leaf::read_thrift(&mut CompactThriftInputSlice::new(o.as_slice())) {
            Err(e) => e,
            Ok(_) => fail("a missing required field is not reported"),
        };
        let names = ["Leaf::first", "Leaf::second", "Leaf::a_rather_long_name_for_a_field"];
        let mut x = Text::new();
        check!(write!(x, "{}", e).is_ok(), "an error cannot be printed");
        check!((0..3).any(|i| i != a as usize && x.has(names[i].as_bytes())), "the error names none of the missing fields");
        check!(a > 2 || !x.has(names[a as usize].as_bytes()), "the error names a field that is there");
        reach(0);
    }
    h_c32_distinct, 1, "the texts of two different decoding errors differ; lengths are part of them" => {
        let e = |i: u32| match i {
            0 => ThriftError::InvalidNumber,
            1 => ThriftError::InvalidString,
            2 => ThriftError::InvalidBinaryLen(16777217),
            3 => ThriftError::InvalidCollectionLen,
            4 => ThriftError::MissingField(c"a::b".into()),
            5 => ThriftError::MissingValue,
            6 => ThriftError::MissingStop,
            7 => ThriftError::DuplicateField,
            8 => ThriftError::InvalidType,
            9 => ThriftError::ReserveError,
            10 => ThriftError::IO(ErrorKind::UnexpectedEof),
            _ => ThriftError::IO(ErrorKind::TimedOut),
        };
        let (i, j) = (choose(12), choose(12));
        let (mut x, mut y) = (Text::new(), Text::new());
        check!(write!(x, "{}", e(i)).is_ok() && write!(y, "{}", e(j)).is_ok(), "an error cannot be printed");
        check!((i == j) == same(x.get(), y.get()), "different errors have the same text");
        check!(i != 2 || x.has(b"16777217"), "the text of an error lacks the length");
        check!(x.n > 0, "an error has no text");
        reach(0);
    }
}
