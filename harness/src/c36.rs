#![allow(dead_code, unused_imports)]
use crate::{check, entries, spec::same, vp::*};

/// what is printed
static mut OUT: ([u8; 4096], usize) = ([0; 4096], 0);
struct Page;
impl std::fmt::Write for Page {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        unsafe {
            for &c in s.as_bytes() {
                if OUT.1 == 4096 {
                    fail("harness: page full");
                }
                OUT.0[OUT.1] = c;
                OUT.1 += 1;
            }
        }
        Ok(())
    }
}
fn put(a: std::fmt::Arguments) {
    let _ = std::fmt::Write::write_fmt(&mut Page, a);
}
macro_rules! print {
    ($($t:tt)*) => { put(format_args!($($t)*)) };
}
macro_rules! println {
    () => { put(format_args!("\n")) };
    ($($t:tt)*) => {{ put(format_args!($($t)*)); put(format_args!("\n")) }};
}

// the code under test, a binary: what it prints goes to the page above
include!("/repo/parquet/src/bin/schema.rs");

struct Want {
    b: Vec<u8>,
}
impl Want {
    fn s(&mut self, s: &str) {
        self.b.extend_from_slice(s.as_bytes());
    }
}

fn chars(n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n {
        v.push(nd8() & 127);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

const TYPES: [&str; 8] = ["BOOLEAN", "INT32", "INT64", "INT96", "FLOAT", "DOUBLE", "BYTE_ARRAY", "FIXED_LEN_BYTE_ARRAY(16)"];
const REPS: [&str; 3] = ["REQUIRED", "OPTIONAL", "REPEATED"];
/// legacy annotations of leaves and groups, and what they are printed as
const LEAF: [(i32, &str); 5] = [(0, "String"), (4, "Enum"), (6, "Date"), (19, "Json"), (15, "Integer(i8)")];
const GROUP: [(i32, &str); 2] = [(1, "Map"), (3, "List")];

struct N {
    kids: i32,
    name: String,
    rep: usize,
    ty: usize,
    mark: Option<usize>,
}

/// a list of nodes in depth-first order as indented text; the position after the subtree
fn text(d: &[N], at: usize, indent: usize, w: &mut Want) -> usize {
    let n = &d[at];
    for _ in 0..indent {
        w.s("  ");
    }
    w.s(REPS[n.rep]);
    w.s(" ");
    if n.kids == 0 {
        w.s(TYPES[n.ty]);
        w.s(" ");
        w.s(&n.name);
        if let Some(m) = n.mark {
            w.s(" (");
            w.s(LEAF[m].1);
            w.s(")");
        }
        w.s(";\n");
        return at + 1;
    }
    w.s("group ");
    w.s(&n.name);
    if let Some(m) = n.mark {
        w.s(" (");
        w.s(GROUP[m].1);
        w.s(")");
    }
    w.s(" {\n");
    let mut p = at + 1;
    for _ in 0..n.kids {
        p = text(d, p, indent + 1, w);
    }
    for _ in 0..indent {
        w.s("  ");
    }
    w.s("}\n");
    p
}

fn judge(d: &[N]) {
    let l: Vec<SchemaElement> = d
        .iter()
        .map(|n| SchemaElement {
            type_: if n.kids == 0 { Some(Type(n.ty as i32)) } else { None },
            type_length: Some(16),
            name: n.name.clone(),
            num_children: if n.kids == 0 { None } else { Some(n.kids) },
            repetition_type: Some(FieldRepetitionType(n.rep as i32)),
            converted_type: n.mark.map(|m| ConvertedType(if n.kids == 0 { LEAF[m].0 } else { GROUP[m].0 })),
            ..Default::default()
        })
        .collect();
    let t = match convert_schema(&l) {
        Ok(t) => t,
        Err(_) => fail("harness: no tree"),
    };
    unsafe { OUT.1 = 0 };
    let k = choose(3) as usize;
    pretty_print_schema(&t, k);
    let mut w = Want { b: vec![] };
    check!(text(d, 0, k, &mut w) == d.len(), "harness: shape");
    let p = unsafe { &*std::ptr::addr_of!(OUT) };
    check!(p.1 == w.b.len(), "the printed schema has another length than that of the tree");
    check!(same(&p.0[..p.1], &w.b), "the printed schema is not that of the tree");
    obs(p.1 as u64);
    reach(0);
}

entries! {
    h_c36_shapes, 1, "5 trees of up to 9 nodes: repetitions, types and annotations vary over the nodes, names of 0 to 3 arbitrary ASCII characters; indented by 0 to 2 levels" => {
        let k: &[i32] = [&[3, 0, 2, 0, 1, 0, 2, 0, 0][..], &[1, 1, 1, 0], &[1, 0], &[2, 2, 0, 0, 0], &[5, 0, 0, 0, 0, 0]][choose(5) as usize];
        let s = choose(4) as usize;
        let d: Vec<N> = k
            .iter()
            .enumerate()
            .map(|(i, k)| N {
                kids: *k,
                name: chars((i + s) % 4),
                rep: if i == 0 { 0 } else { (i + s) % 3 },
                ty: (3 * i + s) % 8,
                mark: if (i + s) % 2 == 0 { None } else if *k == 0 { Some((i + s) / 2 % 5) } else { Some((i + s) / 2 % 2) },
            })
            .collect();
        judge(&d);
    }
    h_c36_leaf, 1, "a leaf of every type, repetition and with each of 5 annotations or none in a group with each of 2 or none" => {
        let (g, m) = (choose(3) as usize, choose(6) as usize);
        let d = [
            N { kids: 1, name: chars(1), rep: 0, ty: 0, mark: if g < 2 { Some(g) } else { None } },
            N { kids: 0, name: chars(2), rep: choose(3) as usize, ty: choose(8) as usize, mark: if m < 5 { Some(m) } else { None } },
        ];
        judge(&d);
    }
    h_c36_deep, 1, "a chain of 30 groups; a group of 60 leaves" => {
        let deep = choose(2) == 0;
        let n = if deep { 31 } else { 61 };
        let d: Vec<N> = (0..n)
            .map(|i| N {
                kids: if deep { (i < 30) as i32 } else if i == 0 { 60 } else { 0 },
                name: chars((i % 7 == 3) as usize),
                rep: if i == 0 { 0 } else { i % 3 },
                ty: i % 8,
                mark: None,
            })
            .collect();
        judge(&d);
    }
}
