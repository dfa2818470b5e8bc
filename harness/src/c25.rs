#![allow(dead_code, unused_imports)]
use crate::{check, entries, spec::Sink, vp::*};

// the code under test, a binary
include!("/repo/parquet/src/bin/schema.rs");

/// A schema element as the published definition describes it.
#[derive(Clone, Copy)]
struct El {
    name: u8,
    id: Option<i32>,
    rep: Option<i32>,
    ty: Option<i32>,
    len: Option<i32>,
    kids: Option<i32>,
}

fn element(e: &El) -> SchemaElement {
    SchemaElement {
        type_: e.ty.map(Type),
        type_length: e.len,
        repetition_type: e.rep.map(FieldRepetitionType),
        name: {
            let mut s = String::with_capacity(1);
            s.push((e.name & 127) as char);
            s
        },
        num_children: e.kids,
        field_id: e.id,
        ..Default::default()
    }
}

/// A node of the tree, in depth-first order.
#[derive(Clone, Copy)]
struct Node {
    el: usize,
    /// children, none for a leaf
    kids: Option<usize>,
    leaf: usize,
    def: usize,
    rep: usize,
}

/// Reads the subtree at `pos` of the list; the position after it.
fn subtree(d: &[El], pos: usize, def: usize, rep: usize, leaf: &mut usize, out: &mut Vec<Node>) -> Option<usize> {
    let e = d.get(pos)?;
    let r = e.rep.unwrap_or(0);
    if r < 0 || r > 2 {
        return None;
    }
    let def = def + (r != 0) as usize;
    let rep = rep + (r == 2) as usize;
    let k = e.kids.unwrap_or(0);
    if k == 0 {
        let t = e.ty?;
        if t < 0 || t > 7 || (t == 7 && e.len.unwrap_or(0) <= 0) {
            return None;
        }
        out.push(Node { el: pos, kids: None, leaf: *leaf, def, rep });
        *leaf += 1;
        return Some(pos + 1);
    }
    if k < 0 || k as i64 > (d.len() - pos - 1) as i64 {
        return None;
    }
    let k = concrete(k as u64) as usize;
    out.push(Node { el: pos, kids: Some(k), leaf: 0, def, rep });
    let mut p = pos + 1;
    for _ in 0..k {
        p = subtree(d, p, def, rep, leaf, out)?;
    }
    Some(p)
}

fn oracle(d: &[El]) -> Option<Vec<Node>> {
    let mut out = vec![];
    let end = subtree(d, 0, 0, 0, &mut 0, &mut out)?;
    if end != d.len() || d[0].rep.unwrap_or(0) != 0 {
        return None;
    }
    Some(out)
}

/// the tree in depth-first order against the nodes; the number of nodes seen
fn compare(f: &SchemaField, d: &[El], w: &[Node], at: usize) -> usize {
    if at >= w.len() {
        fail("the tree has more nodes than the list has elements");
    }
    let (n, e) = (w[at], &d[w[at].el]);
    let c = f.common();
    check!(c.name.len() == 1 && c.name.as_bytes()[0] == e.name & 127, "a node has the name of another element");
    check!(c.field_id.map(i32::from) == e.id, "a node has another field id");
    let r = match c.repetition {
        RepetitionType::Required => 0,
        RepetitionType::Optional => 1,
        RepetitionType::Repeated => 2,
    };
    check!(r == e.rep.unwrap_or(0), "a node has another repetition");
    check!(c.def_level as usize == n.def, "the definition level does not count the optional and repeated nodes on the path");
    check!(c.rep_level as usize == n.rep, "the repetition level does not count the repeated nodes on the path");
    check!(f.definition_level() == c.def_level && f.repetition_level() == c.rep_level && f.is_optional() == (r == 1), "the accessors of a node differ from its members");
    match f {
        SchemaField::Primitive(p) => {
            check!(n.kids.is_none(), "a group has become a leaf");
            check!(p.index as usize == n.leaf, "the leaves are not numbered in order");
            at + 1
        }
        SchemaField::Group(g) => {
            check!(n.kids == Some(g.children.len()), "a group has another number of children");
            let mut at = at + 1;
            for k in &g.children {
                at = compare(k, d, w, at);
            }
            at
        }
    }
}

fn judge(d: &[El]) {
    judge_of(d, d.iter().map(element).collect())
}

/// annotations and anything else that does not make a tree another one
fn annotated(e: &mut SchemaElement) {
    if choose(2) == 0 {
        e.converted_type = Some(ConvertedType(nd32() as i32));
    } else {
        let unit = TimeUnit::NANOS(NanoSeconds {});
        e.logicalType = Some(match choose(17) {
            0 => LogicalType::STRING(Default::default()),
            1 => LogicalType::MAP(Default::default()),
            2 => LogicalType::LIST(Default::default()),
            3 => LogicalType::ENUM(Default::default()),
            4 => LogicalType::DECIMAL(DecimalType { scale: nd32() as i32, precision: nd32() as i32 }),
            5 => LogicalType::DATE(Default::default()),
            6 => LogicalType::TIME(TimeType { isAdjustedToUTC: ndb(), unit }),
            7 => LogicalType::TIMESTAMP(TimestampType { isAdjustedToUTC: ndb(), unit }),
            8 => LogicalType::INTEGER(IntType { bitWidth: nd8() as i8, isSigned: ndb() }),
            9 => LogicalType::UNKNOWN(Default::default()),
            10 => LogicalType::JSON(Default::default()),
            11 => LogicalType::BSON(Default::default()),
            12 => LogicalType::UUID(Default::default()),
            13 => LogicalType::FLOAT16(Default::default()),
            14 => LogicalType::VARIANT(VariantType { specification_version: None }),
            15 => LogicalType::GEOMETRY(GeometryType { crs: None }),
            _ => LogicalType::GEOGRAPHY(GeographyType { crs: None, algorithm: None }),
        });
    }
    if choose(2) == 0 {
        e.precision = Some(nd32() as i32);
        e.scale = Some(nd32() as i32);
    }
}

fn judge_of(d: &[El], l: Vec<SchemaElement>) {
    let r = convert_schema(&l);
    obs(r.is_ok() as u64);
    match (oracle(d), &r) {
        (Some(w), Ok(f)) => {
            check!(compare(f, d, &w, 0) == w.len(), "the tree has fewer nodes than the list has elements");
            reach(0);
        }
        (Some(_), Err(_)) => fail("a list that describes exactly one tree is rejected"),
        (None, Ok(_)) => fail("a list that describes no tree is accepted"),
        (None, Err(_)) => reach(1),
    }
}

fn id(i: usize) -> Option<i32> {
    let v = nd32() as i32;
    if i % 2 == 0 { Some(v) } else { None }
}

/// required, optional or repeated, one path
fn rep() -> Option<i32> {
    let r = nd8();
    assume(r < 3);
    Some(r as i32)
}

/// a list of which the child counts are `kids`
fn shape(kids: &[i32]) -> Vec<El> {
    kids.iter()
        .enumerate()
        .map(|(i, k)| El {
            name: nd8(),
            id: id(i),
            rep: if i == 0 { None } else { rep() },
            ty: Some(1),
            len: None,
            kids: if *k == 0 && i % 2 == 0 { None } else { Some(*k) },
        })
        .collect()
}

const SHAPES: [&[i32]; 6] = [
    &[3, 2, 0, 0, 1, 0, 2, 0, 0],
    &[1, 1, 2, 1, 0, 2, 0, 0],
    &[4, 0, 2, 1, 0, 0, 0, 1, 0],
    &[2, 3, 0, 1, 1, 0, 0, 0],
    &[2, 1, 1, 1, 0, 1, 1, 0],
    &[5, 0, 0, 0, 0, 0],
];

/// groups inside each other around a leaf
fn chain(n: usize, at: usize, r: i32) -> Vec<El> {
    (0..=n)
        .map(|i| El {
            name: i as u8,
            id: Some(i as i32),
            rep: if i == 0 { Some(0) } else if i == at || i == n { rep() } else { Some(r) },
            ty: if i == n { Some(2) } else { None },
            len: None,
            kids: if i == n { None } else { Some(1) },
        })
        .collect()
}

entries! {
    h_c25_list, 2, "lists of 0 to 4 (thorough: 6) elements: each child count absent or any 32 bit number; names, field ids and repetitions (absent or 0 to 2) symbolic" => {
        let n = range(0, b(4, 6));
        let mut d = vec![];
        for i in 0..n {
            let k = nd32() as i32;
            d.push(El {
                name: nd8(),
                id: id(i),
                rep: if choose(2) == 0 { None } else { rep() },
                ty: Some(1),
                len: None,
                kids: if choose(2) == 0 { None } else { Some(k) },
            });
        }
        judge(&d);
    }
    h_c25_counts, 2, "lists of 5 (thorough: 6 to 8) elements: every child count any 32 bit number, repetitions 0 to 2" => {
        let n = if T { range(6, 8) } else { 5 };
        let mut d = vec![];
        for i in 0..n {
            d.push(El { name: nd8(), id: id(i), rep: if i == 0 { None } else { rep() }, ty: Some(1), len: None, kids: Some(nd32() as i32) });
        }
        judge(&d);
    }
    h_c25_types, 2, "a list of 4 elements, one of which (group or leaf) has any repetition, type and type length, or lacks any of them" => {
        let mut d = shape([&[2, 1, 0, 0], &[1, 2, 0, 0], &[3, 0, 0, 0]][choose(3) as usize]);
        let i = range(0, 3);
        let (r, t, l) = (nd32() as i32, nd32() as i32, nd32() as i32);
        let e = &mut d[i];
        match choose(2) {
            0 => e.rep = if choose(2) == 0 { Some(r) } else { None },
            _ => {
                e.ty = if choose(2) == 0 { Some(t) } else { None };
                e.len = if choose(2) == 0 { Some(l) } else { None };
            }
        }
        judge(&d);
    }
    h_c25_shapes, 1, "6 trees of 6 to 9 elements with any repetitions" => {
        judge(&shape(SHAPES[choose(6) as usize]));
    }
    h_c25_annotated, 1, "a tree of 6 elements, of which any one or two adjacent ones have any annotation, precision and scale" => {
        let d = shape(&[3, 0, 2, 0, 0, 0]);
        let mut l: Vec<SchemaElement> = d.iter().map(element).collect();
        let k = choose(6) as usize;
        annotated(&mut l[k]);
        if k < 5 && choose(2) == 0 {
            l[k + 1].logicalType = l[k].logicalType.clone();
            l[k + 1].converted_type = l[k].converted_type;
        }
        judge_of(&d, l);
    }
    h_c25_wrong, 2, "the same, one child count replaced by any 32 bit number; one element missing or one more at the end" => {
        let mut d = shape(SHAPES[choose(6) as usize]);
        match choose(3) {
            0 => {
                let i = range(0, d.len() - 1);
                d[i].kids = Some(nd32() as i32);
            }
            1 => {
                d.pop();
            }
            _ => d.push(d[d.len() - 1]),
        }
        judge(&d);
    }
    h_c25_chain, 1, "chains of 1 to 12, 60 and 126 groups: all optional or all repeated, the leaf and any one group of any repetition" => {
        let n = match choose(14) {
            12 => 60,
            13 => 126,
            k => k as usize + 1,
        };
        let r = 1 + choose(2) as i32;
        let at = [1, n / 2, n - 1][choose(3) as usize];
        let d = chain(n, at, r);
        let l: Vec<SchemaElement> = d.iter().map(element).collect();
        match (oracle(&d), convert_schema(&l)) {
            (Some(w), Ok(f)) => check!(compare(&f, &d, &w, 0) == w.len(), "the tree has fewer nodes than the list has elements"),
            (_, Err(_)) => fail("nesting within the limit is rejected"),
            _ => fail("a list that describes no tree is accepted"),
        }
        reach(0);
    }
    h_c25_deep, 1, "chains of 127 to 132, 200, 254 to 258, 300 and 700 groups of any one repetition: an error, or below 256 levels the tree" => {
        let n = match choose(14) {
            k if k < 6 => 127 + k as usize,
            k if k < 11 => 254 + k as usize - 6,
            11 => 200,
            12 => 300,
            _ => 700,
        };
        let d = chain(n, 0, choose(3) as i32);
        let l: Vec<SchemaElement> = d.iter().map(element).collect();
        match (oracle(&d), convert_schema(&l)) {
            (Some(w), Ok(f)) => {
                check!(n < 255, "nesting without limit is accepted");
                check!(compare(&f, &d, &w, 0) == w.len(), "the tree has fewer nodes than the list has elements");
            }
            _ => {}
        }
        reach(0);
    }
    h_c25_wide, 1, "a root with 14 to 17, 127 to 129, 254 to 258, 1000 or 66000 leaves, or with 300 groups of one leaf each; one repetition symbolic" => {
        let mut d = vec![El { name: 1, id: None, rep: None, ty: None, len: None, kids: None }];
        let k = choose(5);
        let n = match k { 0 => range(14, 17), 1 => range(127, 129), 2 => range(254, 258), 3 => [1000, 66000][choose(2) as usize], _ => 300 };
        d[0].kids = Some(n as i32);
        for i in 0..n {
            if k == 4 {
                d.push(El { name: i as u8, id: None, rep: Some((i % 3) as i32), ty: None, len: None, kids: Some(1) });
            }
            d.push(El { name: i as u8, id: Some(i as i32), rep: if i == n / 2 { rep() } else { Some((i / 2 % 3) as i32) }, ty: Some(2), len: None, kids: None });
        }
        let l: Vec<SchemaElement> = d.iter().map(element).collect();
        match (oracle(&d), convert_schema(&l)) {
            (Some(w), Ok(f)) => check!(compare(&f, &d, &w, 0) == w.len(), "the tree has fewer nodes than the list has elements"),
            _ => fail("a list that describes exactly one tree is rejected"),
        }
        std::mem::forget(l);
        reach(0);
    }
}
