use crate::{cases::*, check, entries, spec::*, vp::*};
use compact_thrift_parquet::format::*;
use compact_thrift_runtime::*;
use std::cmp::Ordering;
use std::rc::Rc;
use std::sync::Arc;

fn num(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}

/// a copy equals the original in every member; equality is that of all members
fn copies<C: Case + Clone + PartialEq>(v: C) {
    let w = v.clone();
    check!(Case::eq(&v, &w), "a copy differs from the original");
    obs((v == w) as u64);
    reach(0);
}

/// two values are equal exactly if all their members are
fn compare<C: Case + Clone + PartialEq>(v: C, w: C) {
    let e = Case::eq(&v, &w);
    check!((v == w) == e, "equality disagrees with that of the members");
    check!((v != w) != e, "inequality is not the opposite of equality");
    reach(e as u32);
}

fn finite() -> f64 {
    // one of each pair of zeros
    let b = nd64();
    assume((b >> 52) & 2047 != 2047 && b != 1 << 63);
    f64::from_bits(b)
}

fn scalars() -> Scalars {
    Scalars { a: ndb(), b: nd8() as i8, c: nd16() as i16, d: nd32() as i32, e: nd64() as i64, f: finite(), g: bytes(1), h: text() }
}

entries! {
    h_c34_new_scalars, 1, "the constructor of a struct with one required member of each kind, any values" => {
        let (a, b, c, d, e, f) = (ndb(), nd8() as i8, nd16() as i16, nd32() as i32, nd64() as i64, double());
        let (g, h) = (bytes(2), text());
        let v = Scalars::new(a, b, c, d, e, f, g.as_slice(), h.as_str());
        check!(v.a == a && v.b == b && v.c == c && v.d == d && v.e == e && num(v.f, f) && same(&v.g, &g) && same(v.h.as_bytes(), h.as_bytes()), "an argument ends up in another member");
        reach(0);
    }
    h_c34_new_opts, 1, "the constructor of a struct of optional members, each given as value, as Some or as None" => {
        let (a, b, c, d, e, f) = (ndb(), nd8() as i8, nd16() as i16, nd32() as i32, nd64() as i64, double());
        let (g, h) = (bytes(2), text());
        match choose(3) {
            0 => {
                let v = Opts::new(a, b, c, d, e, f, g.clone(), h.clone());
                check!(v.a == Some(a) && v.b == Some(b) && v.c == Some(c) && v.d == Some(d) && v.e == Some(e) && matches!(v.f, Some(x) if num(x, f)), "an argument ends up in another member");
                check!(matches!(&v.g, Some(x) if same(x, &g)) && matches!(&v.h, Some(x) if same(x.as_bytes(), h.as_bytes())), "an argument ends up in another member");
            }
            1 => {
                let v = Opts::new(Some(a), None, Some(c), None, Some(e), None, Some(g.clone()), None);
                check!(v.a == Some(a) && v.b.is_none() && v.c == Some(c) && v.d.is_none() && v.e == Some(e) && v.f.is_none() && matches!(&v.g, Some(x) if same(x, &g)) && v.h.is_none(), "an argument ends up in another member");
            }
            _ => {
                let v = Opts::new(None, b, None, d, None, f, None, h.clone());
                check!(v.a.is_none() && v.b == Some(b) && v.c.is_none() && v.d == Some(d) && v.e.is_none() && matches!(v.f, Some(x) if num(x, f)) && v.g.is_none() && matches!(&v.h, Some(x) if same(x.as_bytes(), h.as_bytes())), "an argument ends up in another member");
            }
        }
        reach(0);
    }
    h_c34_new_order, 1, "constructors of structs whose field ids are not in order, of wrappers and of containers" => {
        let (a, b, c, d, e, f, g) = (nd8() as i8, ndb(), nd8() as i8, nd8() as i8, nd8() as i8, ndb(), nd8() as i8);
        let v = Odd::new(a, b, c, d, e, f, g);
        check!(v.a == a && v.b == Some(b) && v.c == Some(c) && v.d == d && v.e == Some(e) && v.f == Some(f) && v.g == Some(g), "an argument ends up in another member");
        let n = nd32() as i32;
        let v = Gaps::new(a, b, c, n, f, e);
        check!(v.a == a && v.b == Some(b) && v.c == c && v.d == Some(n) && v.e == f && v.f == Some(e), "an argument ends up in another member");
        let i = |x| Inner { x, y: None };
        let v = Wraps::new(b, f, !b, Some(Box::new(f)), Some(Rc::new(n)), None, i(1), Some(Rc::new(i(2))), Some(Arc::new(i(3))));
        check!(*v.a == b && *v.b == f && *v.c != b && matches!(v.d, Some(x) if *x == f) && matches!(v.e, Some(x) if *x == n) && v.f.is_none(), "an argument ends up in another member");
        check!(v.g.x == 1 && matches!(v.h, Some(x) if x.x == 2) && matches!(v.i, Some(x) if x.x == 3), "an argument ends up in another member");
        let v = Strs::new("a", "b", "c", Some("d".into()));
        check!(&*v.a == "a" && &*v.b == "b" && &*v.c == "c" && matches!(v.d, Some(x) if &*x == "d"), "an argument ends up in another member");
        let v = Nested::new(i(1), i(2), vec![i(3), i(4)], Empty {}, b);
        check!(v.a.x == 1 && matches!(v.b, Some(x) if x.x == 2) && v.c.len() == 2 && v.c[0].x == 3 && v.c[1].x == 4 && v.d.is_some() && v.e == Some(b), "an argument ends up in another member");
        reach(0);
    }
    h_c34_new_parquet, 1, "constructors of PageLocation, SchemaElement, DataPageHeaderV2 and ColumnChunk, any numbers" => {
        let (a, b, c, d) = (nd64() as i64, nd32() as i32, nd64() as i64, nd32() as i32);
        let v = PageLocation::new(a, b, c);
        check!(v.offset == a && v.compressed_page_size == b && v.first_row_index == c, "an argument ends up in another member");
        let v = ColumnChunk::new(None, a, None, c, b, a.wrapping_add(1), d, None, None);
        check!(v.file_path.is_none() && v.file_offset == a && v.meta_data.is_none() && v.offset_index_offset == Some(c) && v.offset_index_length == Some(b), "an argument ends up in another member");
        check!(v.column_index_offset == Some(a.wrapping_add(1)) && v.column_index_length == Some(d) && v.crypto_metadata.is_none() && v.encrypted_column_metadata.is_none(), "an argument ends up in another member");
        let n = |i: i32| b.wrapping_add(i);
        let v = SchemaElement::new(Type(b), n(1), FieldRepetitionType(n(2)), "x", n(3), ConvertedType(n(4)), n(5), n(6), n(7), None);
        check!(v.type_ == Some(Type(b)) && v.type_length == Some(n(1)) && v.repetition_type == Some(FieldRepetitionType(n(2))) && v.name == "x" && v.num_children == Some(n(3)), "an argument ends up in another member");
        check!(v.converted_type == Some(ConvertedType(n(4))) && v.scale == Some(n(5)) && v.precision == Some(n(6)) && v.field_id == Some(n(7)) && v.logicalType.is_none(), "an argument ends up in another member");
        let t = ndb();
        let v = DataPageHeaderV2::new(b, n(1), n(2), Encoding(n(3)), n(4), n(5), t, None);
        check!(v.num_values == b && v.num_nulls == n(1) && v.num_rows == n(2) && v.encoding == Encoding(n(3)) && v.definition_levels_byte_length == n(4) && v.repetition_levels_byte_length == n(5) && v.is_compressed == Some(t) && v.statistics.is_none(), "an argument ends up in another member");
        reach(0);
    }
    h_c34_default, 1, "the default of every kind of type is empty: zero, none, no elements, the first variant" => {
        let v = Scalars::default();
        check!(!v.a && v.b == 0 && v.c == 0 && v.d == 0 && v.e == 0 && v.f.to_bits() == 0 && v.g.is_empty() && v.h.is_empty(), "the default is not empty");
        let v = Opts::default();
        check!(v.a.is_none() && v.b.is_none() && v.c.is_none() && v.d.is_none() && v.e.is_none() && v.f.is_none() && v.g.is_none() && v.h.is_none(), "the default is not empty");
        let v = Lists::default();
        check!(v.a.is_empty() && v.b.is_none() && v.c.is_empty() && v.d.is_none() && v.e.is_none() && v.f.is_none(), "the default is not empty");
        check!(matches!(Var::default(), Var::inner(Inner { x: 0, y: None })), "the default is not the first variant");
        check!(Color::default().0 == 0, "the default is not 0");
        check!(matches!(LogicalType::default(), LogicalType::STRING(_)) && matches!(TimeUnit::default(), TimeUnit::MILLIS(_)), "the default is not the first variant");
        let v = FileMetaData::default();
        check!(v.version == 0 && v.schema.is_empty() && v.num_rows == 0 && v.row_groups.is_empty() && v.key_value_metadata.is_none() && v.created_by.is_none() && v.column_orders.is_none(), "the default is not empty");
        reach(0);
    }
    h_c34_copies, 1, "copies of values of 8 types" => {
        match choose(8) {
            0 => copies(scalars()),
            1 => copies(Opts::gen(Wide(true))),
            2 => copies(Gaps::gen(Wide(true))),
            3 => copies(Nested::gen(Wide(false))),
            4 => copies(Var::gen(Wide(true))),
            5 => copies(Mixed::gen(Wide(false))),
            6 => copies(Wraps::gen(Wide(false))),
            _ => copies(Tree::gen(Wide(false))),
        }
    }
    h_c34_equal, 2, "pairs of arbitrary values of 5 types" => {
        match choose(5) {
            0 => compare(scalars(), scalars()),
            1 => compare(
                Gaps { a: nd8() as i8, b: opt(ndb), c: nd8() as i8, d: opt(|| nd32() as i32), e: ndb(), f: None },
                Gaps { a: nd8() as i8, b: opt(ndb), c: nd8() as i8, d: opt(|| nd32() as i32), e: ndb(), f: None },
            ),
            2 => compare(inner_w(Wide(true)), inner_w(Wide(true))),
            3 => {
                // doubles as above
                let (j, k) = (choose(9), choose(9));
                assume(j != 5 && k != 5);
                compare(var_of(j, false), var_of(k, false))
            }
            _ => compare(
                Nested { a: inner_s(), b: None, c: (0..range(0, 2)).map(|_| inner_s()).collect(), d: opt(|| Empty {}), e: opt(ndb) },
                Nested { a: inner_s(), b: None, c: (0..range(0, 2)).map(|_| inner_s()).collect(), d: opt(|| Empty {}), e: opt(ndb) },
            ),
        }
    }
    h_c34_enums, 1, "enums: any two numbers; made from a number, equal and ordered like the numbers" => {
        let (a, b) = (nd32() as i32, nd32() as i32);
        let (x, y) = (Color::from(a), Color(b));
        check!(x.0 == a && Color(a) == x, "an enum made from a number is another one");
        check!((x == y) == (a == b), "enums are equal although their numbers differ");
        let o = if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal };
        check!(x.cmp(&y) == o && x.partial_cmp(&y) == Some(o), "enums are ordered other than their numbers");
        let z = x;
        check!(z.0 == a, "a copy is another enum");
        check!((Encoding::from(a) == Encoding::RLE) == (a == 3), "enums are equal although their numbers differ");
        reach(0);
    }
}
