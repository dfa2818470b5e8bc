use crate::{cases::*, check, entries, samples::*, vp::*};
use compact_thrift_runtime::*;
use std::borrow::Cow;

#[derive(Default)]
struct Bytes<'i>(Cow<'i, [u8]>, Cow<'i, str>);
impl<'i> CompactThriftProtocol<'i> for Bytes<'i> {
    const FIELD_TYPE: u8 = 12;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        self.0.fill_thrift(input)?;
        self.1.fill_thrift(input)
    }
    fn write_thrift<T: CompactThriftOutput>(&self, _: &mut T) -> Result<(), ThriftError> {
        Ok(())
    }
}

const L: usize = b(5, 7);
entries! {
    h_c05_scalars, 1, "Scalars; 0 to 6 (thorough: 9) arbitrary bytes" => { free::<Scalars, { b(6, 9) }>() }
    h_c05_opts, 2, "Opts; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<Opts, L>() }
    h_c05_odd, 1, "Odd (negative and large ids); 0 to 5 (thorough: 7) arbitrary bytes" => { free::<Odd, L>() }
    h_c05_nested, 1, "Nested; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<Nested, L>() }
    h_c05_lists, 2, "Lists; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<Lists, L>() }
    h_c05_var, 2, "union; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<Var, L>() }
    h_c05_mixed, 1, "enums and unions; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<Mixed, L>() }
    h_c05_wraps, 1, "Box, Rc, Arc; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<Wraps, L>() }
    h_c05_strs, 1, "Rc<str>, Arc<str>, Box<str>; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<Strs, L>() }
    h_c05_tree, 2, "recursive struct; 0 to 5 (thorough: 7) arbitrary bytes" => { free::<Tree, L>() }
    h_c05_plain, 2, "bool, i8, i16, i32, i64, f64, String, Vec<u8>, Cow; 0 to 12 arbitrary bytes (integers) or 6 (others)" => {
        match choose(9) {
            0 => free::<bool, 2>(),
            1 => free::<i8, 2>(),
            2 => free::<i16, 12>(),
            3 => free::<i32, 12>(),
            4 => free::<i64, 12>(),
            5 => free::<f64, 9>(),
            6 => free::<String, 6>(),
            7 => free::<Vec<u8>, 6>(),
            _ => {
                let mut buf = [0; 6];
                let n = range(0, 6);
                fill(&mut buf[6 - n..]);
                decode::<Bytes>(&buf[6 - n..]);
            }
        }
    }
    h_c05_vecs, 2, "lists of each element kind on their own; 0 to 6 arbitrary bytes" => {
        match choose(7) {
            0 => free::<Vec<bool>, 6>(),
            1 => free::<Vec<i8>, 6>(),
            2 => free::<Vec<i64>, 6>(),
            3 => free::<Vec<f64>, 6>(),
            4 => free::<Vec<String>, 6>(),
            5 => free::<Vec<Vec<i32>>, 6>(),
            _ => free::<Vec<Option<Inner>>, 6>(),
        }
    }
    h_c05_s_opts, 2, "Opts from a stream; 0 to 5 arbitrary bytes" => { stream::<Opts, 5>() }
    h_c05_s_lists, 2, "Lists from a stream; 0 to 5 arbitrary bytes" => { stream::<Lists, 5>() }
    h_c05_s_var, 2, "union from a stream; 0 to 5 arbitrary bytes" => { stream::<Var, 5>() }
    h_c05_s_wraps, 1, "Box, Rc, Arc from a stream; 0 to 5 arbitrary bytes" => { stream::<Wraps, 5>() }
    h_c05_w_nested, 2, "a fixed Nested encoding with any 2 (thorough: 3) consecutive bytes replaced by arbitrary ones" => { window::<Nested, { b(2, 3) }>(NESTED) }
    h_c05_w_lists, 2, "a fixed Lists encoding with any 2 (thorough: 3) consecutive bytes replaced by arbitrary ones" => { window::<Lists, { b(2, 3) }>(LISTS) }
    h_c05_w_wraps, 2, "a fixed Wraps encoding with any 2 (thorough: 3) consecutive bytes replaced by arbitrary ones" => { window::<Wraps, { b(2, 3) }>(WRAPS) }
    h_c05_w_mixed, 2, "a fixed Mixed encoding with any 2 (thorough: 3) consecutive bytes replaced by arbitrary ones" => { window::<Mixed, { b(2, 3) }>(MIXED) }
    h_c05_w_unknown, 2, "a fixed Inner encoding with unknown fields of all kinds and any 2 (thorough: 3) consecutive bytes replaced by arbitrary ones" => { window::<Inner, { b(2, 3) }>(UNKNOWN) }
    h_c05_headers, 2, "field, list and map headers; any previous id; 0 to 12 arbitrary bytes" => {
        let mut buf = [0; 12];
        let n = range(0, 12);
        fill(&mut buf[12 - n..]);
        let b = &buf[12 - n..];
        let mut inp = CompactThriftInputSlice::new(b);
        let r = match choose(3) {
            0 => {
                let mut last = nd16() as i16;
                inp.read_field_header(&mut last).map(|t| { check!(t < 16, "field type out of range"); })
            }
            1 => read_collection_len_and_type(&mut inp).map(|(n, t)| { check!(n <= 10_000_000 && t < 16, "list header out of range"); }),
            _ => read_map_len_and_types(&mut inp).map(|(n, k, v)| { check!(n <= 10_000_000 && k < 16 && v < 16, "map header out of range"); }),
        };
        check!(inp.as_slice().len() <= n, "input grew");
        reach(r.is_ok() as u32);
        obs(inp.as_slice().len() as u64);
    }
    h_c05_reads, 2, "every operation that reads or skips a number, alone or in a list of 2 to skip; 0 to 20 (thorough: 36) arbitrary bytes" => {
        const N: usize = b(20, 36);
        let mut buf = [0; N];
        let n = range(0, N);
        fill(&mut buf[N - n..]);
        let b = &buf[N - n..];
        let mut inp = CompactThriftInputSlice::new(b);
        let r = match choose(8) {
            0 => inp.read_byte().map(|_| ()),
            1 => inp.read_i16().map(|_| ()),
            2 => inp.read_i32().map(|_| ()),
            3 => inp.read_i64().map(|_| ()),
            4 => inp.read_double().map(|_| ()),
            5 => inp.skip_integer(),
            6 => inp.skip_field(7),
            _ => inp.skip_field(6).and_then(|_| inp.skip_field(6)),
        };
        let s = inp.as_slice();
        check!(s.len() <= n && (s.is_empty() || b.as_ptr() as usize + n == s.as_ptr() as usize + s.len()), "remaining input is no suffix of the input");
        reach(r.is_ok() as u32);
        obs(s.len() as u64);
    }
}
