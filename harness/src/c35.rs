use crate::{cases::*, check, entries, samples::*, spec::*, vp::*};
use compact_thrift_parquet::format::*;
use compact_thrift_parquet::*;
use compact_thrift_runtime::*;

/// decoding, successful or not, leaves no allocation behind once the result is gone
fn leaks<V: for<'x> CompactThriftProtocol<'x> + Default>(b: &[u8]) {
    step_limit(3_000_000);
    let stream = choose(2) == 1;
    let before = live();
    let r = if stream { V::read_thrift(&mut Stream::new(b)) } else { V::read_thrift(&mut CompactThriftInputSlice::new(b)) };
    let c = rcode(&r);
    drop(r);
    check!(live() == before, "memory is still allocated after the decoded value or error is gone");
    reach((c != 0) as u32);
    obs(c);
}

/// a value that already has contents is decoded into, once more after a failure
fn refill<V: for<'x> CompactThriftProtocol<'x> + Default>(a: &[u8], b: &[u8]) {
    step_limit(3_000_000);
    let before = live();
    {
        let mut v = V::default();
        let r = v.fill_thrift(&mut CompactThriftInputSlice::new(a));
        let s = v.fill_thrift(&mut CompactThriftInputSlice::new(b));
        reach(2 * (r.is_err() as u32) + s.is_err() as u32);
    }
    check!(live() == before, "memory is still allocated after the value is gone");
}

fn any<V: for<'x> CompactThriftProtocol<'x> + Default, const N: usize>() {
    let mut buf = [0; N];
    let n = range(0, N);
    fill(&mut buf[..n]);
    leaks::<V>(&buf[..n]);
}

fn some<V: for<'x> CompactThriftProtocol<'x> + Default, const W: usize>(base: &[u8]) {
    let mut buf = [0; 200];
    let n = base.len();
    buf[..n].copy_from_slice(base);
    let p = range(0, n - W);
    fill(&mut buf[p..p + W]);
    leaks::<V>(&buf[..n]);
}

/// an encoding cut anywhere
fn cut<V: for<'x> CompactThriftProtocol<'x> + Default>(base: &[u8]) {
    leaks::<V>(&base[..range(0, base.len())]);
}

const L: usize = b(4, 6);
const TWICE: &[u8] = &[0x18, 0x01, 0x61, 0x18, 0x01, 0x62, 0x18, 0x01, 0x63, 0x18, 0x02, 0x64, 0x65, 0x08, 0x08, 0x01, 0x66, 0x00];
entries! {
    h_c35_opts, 2, "Opts; 0 to 4 (thorough: 6) arbitrary bytes; slice and stream" => { any::<Opts, L>() }
    h_c35_strs, 2, "a fixed encoding of Rc<str>, Arc<str>, Box<str> with a repeated field; any byte (thorough: 2 of them) replaced by arbitrary ones; slice and stream" => { some::<Strs, { b(1, 2) }>(TWICE) }
    h_c35_nested, 2, "a fixed Nested encoding with any byte (thorough: 2 of them) replaced by arbitrary ones" => { some::<Nested, { b(1, 2) }>(NESTED) }
    h_c35_lists, 2, "a fixed Lists encoding with any byte (thorough: 2 of them) replaced by arbitrary ones" => { some::<Lists, { b(1, 2) }>(LISTS) }
    h_c35_mixed, 2, "a fixed encoding of enums and unions with any byte (thorough: 2 of them) replaced by arbitrary ones" => { some::<Mixed, { b(1, 2) }>(MIXED) }
    h_c35_wraps, 2, "a fixed Wraps encoding with any byte (thorough: 2 of them) replaced by arbitrary ones" => { some::<Wraps, { b(1, 2) }>(WRAPS) }
    h_c35_var, 2, "union; 0 to 4 (thorough: 6) arbitrary bytes" => { any::<Var, L>() }
    h_c35_tree, 2, "recursive struct; 0 to 5 (thorough: 6) arbitrary bytes" => { any::<Tree, { b(5, 6) }>() }
    h_c35_file, 2, "a fixed FileMetaData encoding with any byte replaced by an arbitrary one; slice and stream" => { some::<FileMetaData, 1>(META) }
    h_c35_cut, 2, "fixed encodings of 6 types cut anywhere; slice and stream" => {
        match choose(6) {
            0 => cut::<FileMetaData>(META),
            1 => cut::<Nested>(NESTED),
            2 => cut::<Lists>(LISTS),
            3 => cut::<Mixed>(MIXED),
            4 => cut::<Wraps>(WRAPS),
            _ => cut::<ColumnIndex>(INDEX),
        }
    }
    h_c35_refill, 2, "values of 7 types decoded into twice, the second time from an encoding that may be cut anywhere" => {
        match choose(7) {
            0 => refill::<Nested>(NESTED, &NESTED[..range(0, NESTED.len())]),
            1 => refill::<Lists>(LISTS, &LISTS[..range(0, LISTS.len())]),
            2 => refill::<Mixed>(MIXED, &MIXED[..range(0, MIXED.len())]),
            3 => refill::<Wraps>(WRAPS, &WRAPS[..range(0, WRAPS.len())]),
            4 => refill::<Strs>(&[0x18, 0x01, 0x61, 0x18, 0x01, 0x62, 0x18, 0x01, 0x63, 0x00], &TWICE[..range(0, 13)]),
            5 => refill::<Var>(&[0x58, 0x01, 0x61, 0x00], &[0x88, 0x02, 0x61, 0x62, 0x00][..range(0, 5)]),
            _ => refill::<Vec<String>>(&[0x38, 1, 0x61, 1, 0x62, 1, 0x63], &[0x28, 1, 0x64, 2, 0x65, 0x66][..range(0, 6)]),
        }
    }
    h_c35_index, 1, "the page index of a file with one column, of which any byte is arbitrary" => {
        let mut b = [0; 40];
        let n = INDEX.len();
        b[..n].copy_from_slice(INDEX);
        let o = [0x19, 0x1c, 0x16, 0x02, 0x15, 0x04, 0x16, 0x06, 0x00, 0x00];
        b[n..n + 10].copy_from_slice(&o);
        b[range(0, n + 9)] = nd8();
        let m = FileMetaData {
            row_groups: vec![RowGroup {
                columns: vec![ColumnChunk { offset_index_offset: Some(n as i64), offset_index_length: Some(10), column_index_offset: Some(0), column_index_length: Some(n as i32), ..Default::default() }],
                ..Default::default()
            }],
            ..Default::default()
        };
        let before = live();
        let r = read_page_index(&b[..n + 10], 0, &m);
        let ok = r.is_ok();
        drop(r);
        check!(live() == before, "memory is still allocated after the page index is gone");
        obs(ok as u64);
        reach(0);
    }
    h_c35_write, 1, "encoding values of 4 types to a writer that accepts 0 to 30 bytes" => {
        struct Full(usize);
        impl std::io::Write for Full {
            fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
                let n = d.len().min(self.0);
                self.0 -= n;
                Ok(n)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        let mut w = Full(range(0, 30));
        let before = live();
        let ok = match choose(4) {
            0 => Lists { a: vec![1, 70000], b: Some(vec![text(), String::new()]), c: vec![true], d: None, e: Some(vec![small()]), f: Some(vec![vec![nd8()]]) }.write_thrift(&mut w).is_ok(),
            1 => Strs { a: text().into(), b: text().into(), c: text().into(), d: Some(text().into()) }.write_thrift(&mut w).is_ok(),
            2 => var_of(choose(9), false).write_thrift(&mut w).is_ok(),
            _ => Tree { v: 1, next: Some(Box::new(Tree { v: 2, next: None, kids: None })), kids: Some(vec![Tree::default()]) }.write_thrift(&mut w).is_ok(),
        };
        check!(live() == before, "memory is still allocated after encoding");
        obs(ok as u64);
        reach(0);
    }
}
