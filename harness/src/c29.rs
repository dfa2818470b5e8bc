#![allow(dead_code, unused_imports)]
use crate::{check, entries, vp::*};

// the code under test, a binary
include!("/repo/parquet/src/bin/schema.rs");

/// `n` ASCII characters
fn chars(n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n {
        v.push(nd8() & 127);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// The tree with the given child counts in depth-first order; names of 1 character, or of the given lengths.
fn tree(kids: &[i32], lens: &[usize]) -> SchemaField {
    let l: Vec<SchemaElement> = kids
        .iter()
        .enumerate()
        .map(|(i, k)| SchemaElement {
            type_: Some(Type(1)),
            name: chars(if lens.is_empty() { 1 } else { lens[i] }),
            num_children: if *k == 0 { None } else { Some(*k) },
            repetition_type: Some(FieldRepetitionType(if i == 0 { 0 } else { (i % 3) as i32 })),
            ..Default::default()
        })
        .collect();
    match convert_schema(&l) {
        Ok(t) => t,
        Err(_) => fail("harness: no tree"),
    }
}

fn equal(a: &str, b: &str) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if a.as_bytes()[i] != b.as_bytes()[i] {
            return false;
        }
    }
    true
}

/// the node that the path denotes: at each step the first child of that name
fn walk<'a>(t: &'a SchemaField, path: &[&str]) -> Option<&'a SchemaField> {
    let mut at = t;
    for s in path {
        let g = match at {
            SchemaField::Group(g) => g,
            SchemaField::Primitive(_) => return None,
        };
        let mut next = None;
        for c in &g.children {
            let n = match c {
                SchemaField::Group(g) => &g.common.name,
                SchemaField::Primitive(p) => &p.common.name,
            };
            if equal(n, s) {
                next = Some(c);
                break;
            }
        }
        at = next?;
    }
    Some(at)
}

fn judge(t: &SchemaField, path: &[&str]) {
    let r = t.find_field_by_path(path);
    let w = walk(t, path);
    match (r, w) {
        (Some(x), Some(y)) => {
            check!(x as *const SchemaField == y as *const SchemaField, "the path leads to another node");
            reach(0);
        }
        (None, None) => reach(1),
        (Some(_), None) => fail("a path that names no node leads to one"),
        (None, Some(_)) => fail("a path that names a node leads nowhere"),
    }
    obs(r.is_some() as u64);
}

fn lookup(kids: &[i32], lens: &[usize], n: usize, plens: &[usize]) {
    let t = tree(kids, lens);
    let p: Vec<String> = (0..n).map(|i| chars(if plens.is_empty() { 1 } else { plens[i] })).collect();
    let q: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
    judge(&t, &q);
}

entries! {
    h_c29_paths, 2, "4 trees of up to 7 nodes, one-character names, all symbolic; paths of 0 to 4 steps" => {
        let k: &[i32] = [&[3, 0, 2, 0, 0, 0][..], &[2, 2, 0, 0, 2, 0, 0], &[1, 1, 1, 0], &[4, 0, 1, 0, 1, 0, 0]][choose(4) as usize];
        lookup(k, &[], range(0, 4), &[])
    }
    h_c29_prefixes, 2, "names of 0, 1 and 2 characters, some a prefix of others, in the tree and in paths of 1 or 2 steps" => {
        let l: &[usize] = [&[1, 1, 2, 0, 1][..], &[1, 2, 1, 1, 0], &[0, 0, 1, 1, 2]][choose(3) as usize];
        let p: &[usize] = [&[1, 1][..], &[2, 1], &[0, 1], &[1, 0], &[1, 2]][choose(5) as usize];
        lookup(&[2, 2, 0, 0, 0], l, range(1, 2), p)
    }
    h_c29_dots, 2, "a step is one whole name: names and steps of 3 arbitrary characters (dots and slashes among them)" => {
        lookup(&[2, 1, 0, 0], &[1, 1, 1, 3], range(1, 2), &[3, 1])
    }
    h_c29_inner, 2, "from every node of a tree: paths of up to 2 steps" => {
        let t = tree(&[2, 2, 1, 0, 0, 0], &[]);
        let mut at = &t;
        for _ in 0..range(0, 2) {
            if let SchemaField::Group(g) = at {
                at = &g.children[choose(g.children.len() as u32) as usize];
            }
        }
        let p: Vec<String> = (0..range(0, 2)).map(|_| chars(1)).collect();
        let q: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
        judge(at, &q)
    }
    h_c29_wide, 2, "a group of 40 leaves (two names symbolic) beside one that holds another; the first of equal names counts" => {
        let mut k = vec![2, 40];
        k.extend([0; 40]);
        k.extend([1, 0]);
        let mut l: Vec<SchemaElement> = k
            .iter()
            .enumerate()
            .map(|(i, k)| SchemaElement {
                type_: Some(Type(1)),
                name: ((b'0' + i as u8) as char).to_string(),
                num_children: if *k == 0 { None } else { Some(*k) },
                ..Default::default()
            })
            .collect();
        l[9].name = chars(1);
        l[33].name = chars(1);
        let t = match convert_schema(&l) {
            Ok(t) => t,
            Err(_) => fail("harness: no tree"),
        };
        let s = chars(1);
        judge(&t, &["1", s.as_str()])
    }
    h_c29_deep, 1, "a chain of 100 groups, all of the same name: paths of 0 to 101 steps" => {
        let t = tree(&[1; 100].iter().copied().chain([0]).collect::<Vec<_>>(), &vec![0; 101]);
        let n = range(0, 102);
        let r = t.find_field_by_path(&vec![""; n]);
        let mut at = &t;
        for i in 0..n {
            match at {
                SchemaField::Group(g) => at = &g.children[0],
                SchemaField::Primitive(_) => {
                    check!(r.is_none() && i == 100, "a path that names no node leads to one");
                    return;
                }
            }
        }
        check!(matches!(r, Some(x) if x as *const SchemaField == at as *const SchemaField), "the path leads to another node");
        reach(0)
    }
}
