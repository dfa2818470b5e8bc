use crate::{check, disk::*, entries, spec::*, vp::*};
use compact_thrift_parquet::format::{ColumnChunk, FileMetaData, RowGroup};
use compact_thrift_parquet::{get_page_index_chunk, get_page_index_range, ParquetError};
use std::ops::Range;

/// offset and length of the offset index, then of the column index
type Col = [Option<i64>; 4];

fn column(c: &Col) -> ColumnChunk {
    ColumnChunk {
        offset_index_offset: c[0],
        offset_index_length: c[1].map(|x| x as i32),
        column_index_offset: c[2],
        column_index_length: c[3].map(|x| x as i32),
        ..Default::default()
    }
}

fn meta(groups: &[&[Col]]) -> FileMetaData {
    let row_groups = groups.iter().map(|g| RowGroup { columns: g.iter().map(column).collect(), ..Default::default() }).collect();
    FileMetaData { row_groups, ..Default::default() }
}

fn offset() -> i64 {
    nd64() as i64
}
fn length() -> i64 {
    nd32() as i32 as i64
}

/// any column; bit i of `gone`: value i is absent
fn any(gone: u32) -> Col {
    let v = [offset(), length(), offset(), length()];
    let mut c = [None; 4];
    for i in 0..4 {
        if gone >> i & 1 == 0 {
            c[i] = Some(v[i]);
        }
    }
    c
}

/// What the columns cover: `Err` if a number is negative; the flag is false if that is so
/// in a column that lacks another number, which need not be looked at.
fn oracle(groups: &[&[Col]]) -> Result<Option<(u64, u64)>, bool> {
    let (mut lo, mut hi) = (u64::MAX, 0);
    let mut bad = false;
    let mut odd = false;
    for c in groups.iter().flat_map(|g| g.iter()) {
        match *c {
            [Some(a), Some(b), Some(c), Some(d)] => {
                bad |= (a < 0) | (b < 0) | (c < 0) | (d < 0);
                for (s, e) in [(a as u64, (a as u64).wrapping_add(b as u64)), (c as u64, (c as u64).wrapping_add(d as u64))] {
                    lo = if s < lo { s } else { lo };
                    hi = if e > hi { e } else { hi };
                }
            }
            _ => {
                for x in c.iter().flatten() {
                    odd |= *x < 0;
                }
            }
        }
    }
    if bad {
        Err(true)
    } else if odd {
        Err(false)
    } else if lo < hi {
        Ok(Some((lo, hi)))
    } else {
        Ok(None)
    }
}

fn same_range(r: &Range<usize>, w: (u64, u64)) -> bool {
    (r.start as u64 ^ w.0) | (r.end as u64 ^ w.1) == 0
}

fn judge(groups: &[&[Col]]) {
    let m = meta(groups);
    let r = get_page_index_range(&m);
    match (oracle(groups), &r) {
        (Err(true), r) => {
            check!(matches!(r, Err(ParquetError::InvalidOffset)), "a negative offset or length is not rejected");
            reach(0);
        }
        (Err(false), _) => {}
        (Ok(None), r) => {
            check!(matches!(r, Ok(None)), "a range although there is nothing to cover");
            reach(1);
        }
        (Ok(Some(w)), r) => {
            check!(matches!(r, Ok(Some(x)) if same_range(x, w)), "the range is not the smallest that covers all page indexes");
            reach(2);
        }
    }
}

/// the bytes of one column's indexes in a file
fn fetch(d: &mut Disk, c: Col) -> Result<Option<(Vec<u8>, Range<usize>)>, ParquetError> {
    get_page_index_chunk(d, &meta(&[&[c]]))
}

fn content(b: &mut [u8]) {
    for (i, x) in b.iter_mut().enumerate() {
        *x = i as u8 ^ 0x5a;
    }
}

entries! {
    h_c22_none, 1, "no row groups, row groups without columns, columns without any of the numbers" => {
        match choose(4) {
            0 => judge(&[]),
            1 => judge(&[&[]]),
            2 => judge(&[&[], &[]]),
            _ => judge(&[&[[None; 4]], &[[None; 4], [None; 4]]]),
        }
    }
    h_c22_one, 3, "one column: each number absent or any" => { judge(&[&[any(choose(16))]]) }
    h_c22_two, 3, "two columns in one or two row groups: one with all numbers, the other with each absent or any" => {
        let (a, b) = (any(0), any(choose(16)));
        match choose(3) {
            0 => judge(&[&[a, b]]),
            1 => judge(&[&[b], &[a]]),
            _ => judge(&[&[a], &[], &[b]]),
        }
    }
    h_c22_three, 3, "three columns in two row groups: each with all numbers or without one of them, which is any" => {
        let gone = |i: usize| if choose(2) == 0 { 0 } else { [1, 2, 4, 8][(i + choose(2) as usize) % 4] };
        let c = [any(gone(0)), any(gone(1)), any(gone(2))];
        if choose(2) == 0 { judge(&[&c[..2], &c[2..]]) } else { judge(&[&c[..1], &c[1..]]) }
    }
    h_c22_fetch, 2, "a file of 0, 7 or 13 (thorough: 0 to 24) bytes, one column with any numbers; allocations beyond 4096 bytes fail" => {
        let mut b = [0; 24];
        content(&mut b);
        let n = if T { range(0, 24) } else { [0, 7, 13][choose(3) as usize] };
        let c = any(0);
        alloc_limit(4096);
        let mut d = Disk::new(&b[..n]);
        d.pos = 3;
        let r = fetch(&mut d, c);
        match (oracle(&[&[c]]), r) {
            (Err(_), r) => check!(matches!(r, Err(ParquetError::InvalidOffset)), "a negative offset or length is not rejected"),
            (Ok(None), r) => check!(matches!(r, Ok(None)), "bytes although there is nothing to cover"),
            (Ok(Some(w)), Ok(Some((v, r)))) => {
                check!(same_range(&r, w), "another range is returned");
                check!(w.1 <= n as u64, "bytes beyond the end are returned");
                let (s, e) = (concrete(w.0) as usize, concrete(w.1) as usize);
                check!(same(&v, &b[s..e]), "other bytes are returned");
                reach(0);
            }
            (Ok(Some(w)), Err(e)) => {
                check!(w.1 > n as u64, "bytes of the file are not returned");
                obs(pcode(&e));
                reach(1);
            }
            (Ok(Some(_)), Ok(None)) => fail("nothing is returned although there is something to cover"),
        }
    }
    h_c22_huge, 2, "a file of any size up to 2^63 - 1 bytes, one column with any numbers whose range is longer than 64 bytes; allocations up to 2^40 bytes succeed" => {
        let c = any(0);
        let w = oracle(&[&[c]]);
        if let Ok(Some(w)) = w {
            assume(w.1 - w.0 > 64);
            let len = nd64();
            assume(len <= i64::MAX as u64);
            // a partial read of a few bytes is the previous check's
            assume(len < w.0 || len > w.0 + 64);
            let mut d = Disk::new(&[]);
            d.len = len;
            match fetch(&mut d, c) {
                Ok(Some((v, r))) => {
                    check!(same_range(&r, w), "another range is returned");
                    check!(w.1 <= len && v.len() as u64 == w.1 - w.0 && d.got == w.1 - w.0 && d.pos == w.1, "other bytes are returned");
                    std::mem::forget(v);
                    reach(0);
                }
                Ok(None) => fail("nothing is returned although there is something to cover"),
                Err(_) => {
                    check!(w.1 > len || w.1 - w.0 > 1 << 40, "bytes of the file are not returned");
                    reach(1);
                }
            }
        }
    }
    h_c22_fault, 2, "a file of 16 bytes, any range in it: each operation fails with one of 6 kinds or is interrupted; complete or single-byte reads" => {
        let mut b = [0; 16];
        content(&mut b);
        let s = range(0, 12);
        let n = range(1, 4);
        let mut d = Disk::new(&b);
        d.f = Faults { at: nd8(), kind: choose(6) as usize, intr: nd8(), mode: choose(2), ops: 0, fired: false };
        let kind = d.f.kind;
        let k = s + n / 2;
        let r = fetch(&mut d, [Some(s as i64), Some((k - s) as i64), Some(k as i64), Some((s + n - k) as i64)]);
        if d.f.fired {
            check!(matches!(&r, Err(e) if pcode(e) == 2000 + kcode(KINDS[kind])), "a failed operation does not surface as that error");
            reach(0);
        } else {
            check!(matches!(&r, Ok(Some((v, q))) if same(v, &b[s..s + n]) && q.start == s && q.end == s + n), "short or interrupted reads change the bytes");
            reach(1);
        }
    }
    h_c22_many, 2, "4 columns in 1, 2 or 4 row groups, one of which has each number absent or any, the others descending, ascending or equal positions; 20 columns in 1, 3 or 20 row groups or 300 columns in 1 or 5, one of which has small, large, negative or no numbers" => {
        let n = [4, 20, 300][choose(3) as usize];
        let groups = match n { 4 => [1, 2, 4][choose(3) as usize], 20 => [1, 3, 20][choose(3) as usize], _ => [1, 5][choose(2) as usize] };
        let at = [0, 1, n / 2, n - 1][choose(4) as usize];
        let x = if n == 4 {
            any([0, 1, 2, 4, 8, 15][choose(6) as usize])
        } else {
            let (p, q) = ([3, 6000, 50000, i64::MAX, -1][choose(5) as usize], [0, 10, 1 << 20, i32::MAX as i64, -1][choose(5) as usize]);
            match choose(3) {
                0 => [Some(p), Some(q), Some(5500), Some(20)],
                1 => [Some(5500), Some(20), Some(p), Some(q)],
                _ => [Some(5500), None, Some(10), Some(1 << 30)],
            }
        };
        let dir = choose(3);
        let c: Vec<Col> = (0..n)
            .map(|i| {
                let k = match dir { 0 => i, 1 => n - i, _ => 7 } as i64 * 100;
                if i == at { x } else { [Some(5000 + k), Some(30), Some(40000 + k), Some(50)] }
            })
            .collect();
        let g: Vec<&[Col]> = c.chunks((n + groups - 1) / groups).collect();
        judge(&g);
    }
    h_c22_big, 1, "fetching 255 to 257, 4095 to 4097, 65535 to 65537 or 1000000 bytes from the middle of a file; reads of any size or at most 4096 bytes" => {
        let n = match choose(4) { 0 => range(255, 257), 1 => range(4095, 4097), 2 => range(65535, 65537), _ => 1_000_000 };
        let s = [0, 4, 1000][choose(3) as usize];
        let mut f = vec![7u8; s + n + 3];
        for i in [s, s + n / 2, s + n - 1, s + n] {
            f[i] = nd8();
        }
        let mut d = Disk::new(&f);
        d.whole = true;
        d.f.mode = 2 * choose(2);
        let h = (n / 3) as i64;
        match fetch(&mut d, [Some(s as i64 + h), Some(n as i64 - h), Some(s as i64), Some(h)]) {
            Ok(Some((v, r))) => {
                check!(r == (s..s + n), "another range is returned");
                check!(v == f[s..s + n], "other bytes are returned");
            }
            _ => fail("bytes of the file are not returned"),
        }
        reach(0);
    }
}
