use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_runtime::*;

macro_rules! kinds {
    ($($req:ident $opt:ident [$($ty:tt)*] $wire:literal)*) => {
        $(thrift! {
            struct $req { 4: required $($ty)* v; }
            struct $opt { 4: optional $($ty)* v; }
        })*
        fn run(k: u32, o: bool, m: &[u8], t: u8) {
            let mut i = 0;
            $(
                if i == k {
                    if o { judge::<$opt>(m, t, $wire) } else { judge::<$req>(m, t, $wire) }
                }
                i += 1;
            )*
            let _ = i;
        }
        const KINDS: u32 = [$($wire),*].len() as u32;
    };
}

kinds! {
    R0 O0 [bool] 2
    R1 O1 [i8] 3
    R2 O2 [i16] 4
    R3 O3 [i32] 5
    R4 O4 [i64] 6
    R5 O5 [double] 7
    R6 O6 [binary] 8
    R7 O7 [string] 8
    R8 O8 [list<i32>] 9
    R9 O9 [Inner] 12
    R10 O10 [Color] 5
    R11 O11 [Var] 12
    R12 O12 [Box<bool>] 2
    R13 O13 [Rc<i32>] 5
    R14 O14 [Arc<string>] 8
    R15 O15 [Box<Inner>] 12
    R16 O16 [Rc<bool>] 2
    R17 O17 [Arc<bool>] 2
    R18 O18 [Rc<Inner>] 12
    R19 O19 [Arc<i8>] 3
    R20 O20 [Rc<str>] 8
    R21 O21 [Arc<str>] 8
    R22 O22 [Box<str>] 8
    R23 O23 [list<bool>] 9
    R24 O24 [Box<Var>] 12
    R25 O25 [Box<double>] 7
    R26 O26 [Box<Color>] 5
    R27 O27 [list<Inner>] 9
}

fn matches(t: u8, wire: u8) -> bool {
    t == wire || (wire == 2 && t == 1)
}

fn judge<V: for<'x> CompactThriftProtocol<'x> + Default>(m: &[u8], t: u8, wire: u8) {
    let r = V::read_thrift(&mut CompactThriftInputSlice::new(m));
    if !matches(t, wire) {
        match &r {
            Ok(_) => fail("a value of the wrong wire type is decoded"),
            Err(ThriftError::InvalidType) => reach(0),
            Err(_) => fail("a value of the wrong wire type is not reported as a type error"),
        }
    } else {
        if wire == 2 {
            check!(r.is_ok(), "a boolean field is not accepted");
        }
        reach(if r.is_ok() { 1 } else { 2 });
    }
    obs(rcode(&r));
}

fn nibble() -> u8 {
    let t = nd8();
    assume(t >= 1 && t < 16);
    t
}

/// element type `t` in the header of a list
fn elements<V: for<'x> CompactThriftProtocol<'x> + Default>(wire: u8) {
    let mut m = [0u8; 12];
    let t = nd8() & 15;
    let long = choose(2) == 1;
    let n = if long {
        let n = nd8();
        assume(n < 32);
        m[0] = 0xf0 | t;
        m[1] = n;
        2
    } else {
        let n = nd8();
        assume(n < 15);
        m[0] = n << 4 | t;
        1
    };
    fill(&mut m[n..n + 4]);
    let r = Vec::<V>::read_thrift(&mut CompactThriftInputSlice::new(&m));
    if !matches(t, wire) {
        match &r {
            Ok(_) => fail("a list with the wrong element type is decoded"),
            Err(ThriftError::InvalidType) => reach(0),
            Err(_) => fail("a wrong element type is not reported as a type error"),
        }
    } else {
        reach(if r.is_ok() { 1 } else { 2 });
    }
    obs(rcode(&r));
}

entries! {
    h_c11_field, 3, "28 declared kinds, required and optional; all 15 wire types; 4 arbitrary payload bytes; short and long header" => {
        let t = nibble();
        let mut m = [0u8; 14];
        let n = if choose(2) == 0 {
            m[0] = 0x40 | t;
            1
        } else {
            m[0] = t;
            m[1] = 8;
            2
        };
        let (k, o) = (choose(KINDS), ndbc());
        // lists, structs and unions have a harness of their own; booleans have no payload
        let fixed = [0, 8, 9, 11, 12, 15, 16, 17, 18, 23, 24, 27].contains(&k);
        if !fixed {
            fill(&mut m[n..n + 4]);
        }
        run(k, o, &m, t);
    }
    h_c11_payload, 2, "lists, structs and unions as fields; all 15 wire types; 3 arbitrary payload bytes" => {
        let t = nibble();
        let mut m = [0u8; 14];
        m[0] = 0x40 | t;
        let k = [8, 9, 11, 23][choose(4) as usize];
        fill(&mut m[1..4]);
        run(k, false, &m, t);
    }
    h_c11_variant, 2, "9 variants of a union; all 15 wire types; 4 arbitrary payload bytes" => {
        let t = nibble();
        let k = choose(9) as usize;
        let (id, wire) = [(1, 12), (2, 5), (5, 8), (20, 2), (21, 9), (300, 7), (-4, 5), (-5, 12), (7, 8)][k];
        let mut o = Sink::<16>::new();
        o.field(t, id, 0);
        if wire != 12 && wire != 9 && wire != 2 {
            fill(&mut o.b[o.n..o.n + 4]);
        }
        let m = &o.b[..];
        judge::<Var>(m, t, wire);
    }
    h_c11_list, 2, "lists of 12 element kinds; all 16 element types; short and long header; 4 arbitrary payload bytes" => {
        match choose(12) {
            0 => elements::<bool>(2),
            1 => elements::<i8>(3),
            2 => elements::<i16>(4),
            3 => elements::<i32>(5),
            4 => elements::<i64>(6),
            5 => elements::<f64>(7),
            6 => elements::<String>(8),
            7 => elements::<Vec<u8>>(8),
            8 => elements::<Color>(5),
            9 => elements::<Empty>(12),
            10 => elements::<Box<i8>>(3),
            _ => elements::<Vec<i8>>(9),
        }
    }
    h_c11_after, 2, "a correctly typed field followed by one of the wrong type, in a struct of every scalar kind" => {
        let t = nibble();
        let k = choose(7) as usize;
        let wire = [3, 4, 5, 6, 7, 8, 8][k];
        let mut o = Sink::<64>::new();
        o.field(1 + (choose(2) as u8), 1, 0);
        o.field(t, 2 + k as i16, 1);
        fill(&mut o.b[o.n..o.n + 4]);
        let m = o.b;
        judge::<Opts>(&m, t, wire);
    }
}
