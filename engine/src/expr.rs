//! Hash-consed bit-vector expressions with local simplification, a concrete evaluator,
//! and the translation to Z3.
use crate::z3::*;
use std::collections::HashMap;

pub type Id = u32;

/// A bit-vector value; the width is known from context. Constants wider than 64 bits are `K` nodes.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum X {
    C(u64),
    S(Id),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,
    K,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    /// width of the result
    pub w: u16,
    /// width of operand a (b has the same, except for Concat: w - aw; Ite: a is 1 bit, b and c have w)
    pub aw: u16,
    /// Extract: lowest bit
    pub lo: u16,
    pub a: X,
    pub b: X,
    pub c: X,
    pub k: u128,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u16,
    pub uninit: bool,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Id>,
    pub vars: Vec<VarInfo>,
    var_ids: HashMap<(String, u16), Id>,
    varsets: Vec<Option<std::rc::Rc<Vec<u64>>>>,
    // evaluator memo
    ev_epoch: u32,
    ev: Vec<(u32, u128)>,
    // z3
    pub z: Z3,
    asts: Vec<Ast>,
}

const Z: X = X::C(0);

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            nodes: vec![],
            map: HashMap::new(),
            vars: vec![],
            var_ids: HashMap::new(),
            varsets: vec![],
            ev_epoch: 0,
            ev: vec![],
            z: Z3::new(),
            asts: vec![],
        }
    }

    fn add(&mut self, n: Node) -> X {
        if let Some(&i) = self.map.get(&n) {
            return X::S(i);
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(n);
        self.map.insert(n, i);
        self.varsets.push(None);
        self.ev.push((0, 0));
        self.asts.push(std::ptr::null_mut());
        X::S(i)
    }

    pub fn var(&mut self, name: &str, w: u16, uninit: bool) -> X {
        if let Some(&i) = self.var_ids.get(&(name.to_string(), w)) {
            return X::S(i);
        }
        let vi = self.vars.len();
        self.vars.push(VarInfo { name: name.to_string(), w, uninit });
        let x = self.add(Node { op: Op::Var, w, aw: 0, lo: 0, a: Z, b: Z, c: Z, k: vi as u128 });
        if let X::S(i) = x {
            self.var_ids.insert((name.to_string(), w), i);
        }
        x
    }

    pub fn var_index(&self, x: X) -> usize {
        match x {
            X::S(i) => self.nodes[i as usize].k as usize,
            _ => panic!("not a var"),
        }
    }

    pub fn k(&mut self, v: u128, w: u16) -> X {
        let v = v & mask(w);
        if w <= 64 {
            X::C(v as u64)
        } else {
            self.add(Node { op: Op::K, w, aw: 0, lo: 0, a: Z, b: Z, c: Z, k: v })
        }
    }

    pub fn cst(&self, x: X) -> Option<u128> {
        match x {
            X::C(v) => Some(v as u128),
            X::S(i) => {
                let n = &self.nodes[i as usize];
                if n.op == Op::K {
                    Some(n.k)
                } else {
                    None
                }
            }
        }
    }

    pub fn node(&self, x: X) -> Option<Node> {
        match x {
            X::C(_) => None,
            X::S(i) => Some(self.nodes[i as usize]),
        }
    }

    pub fn not1(&mut self, a: X) -> X {
        match a {
            X::C(v) => X::C(1 - (v & 1)),
            _ => self.bin(Op::Xor, 1, a, X::C(1)),
        }
    }

    pub fn fold(op: Op, w: u16, a: u128, b: u128) -> Option<u128> {
        let m = mask(w);
        let sa = sext128(a, w);
        let sb = sext128(b, w);
        Some(
            match op {
                Op::Add => a.wrapping_add(b),
                Op::Sub => a.wrapping_sub(b),
                Op::Mul => a.wrapping_mul(b),
                Op::UDiv => {
                    if b == 0 {
                        m
                    } else {
                        a / b
                    }
                }
                Op::URem => {
                    if b == 0 {
                        a
                    } else {
                        a % b
                    }
                }
                Op::SDiv => {
                    if b == 0 {
                        if sa < 0 {
                            1
                        } else {
                            m
                        }
                    } else {
                        sa.wrapping_div(sb) as u128
                    }
                }
                Op::SRem => {
                    if b == 0 {
                        a
                    } else {
                        sa.wrapping_rem(sb) as u128
                    }
                }
                Op::And => a & b,
                Op::Or => a | b,
                Op::Xor => a ^ b,
                Op::Shl => {
                    if b >= w as u128 {
                        0
                    } else {
                        a << b
                    }
                }
                Op::LShr => {
                    if b >= w as u128 {
                        0
                    } else {
                        a >> b
                    }
                }
                Op::AShr => {
                    if b >= w as u128 {
                        (sa >> 127) as u128
                    } else {
                        (sa >> b) as u128
                    }
                }
                Op::Eq => return Some((a == b) as u128),
                Op::Ult => return Some((a < b) as u128),
                Op::Ule => return Some((a <= b) as u128),
                Op::Slt => return Some((sa < sb) as u128),
                Op::Sle => return Some((sa <= sb) as u128),
                _ => return None,
            } & m,
        )
    }

    /// Binary operation on operands of width `w`; comparisons return 1 bit.
    pub fn bin(&mut self, op: Op, w: u16, a: X, b: X) -> X {
        let is_cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if is_cmp { 1 } else { w };
        let ca = self.cst(a);
        let cb = self.cst(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = Self::fold(op, w, x, y).unwrap();
            return self.k(v, rw);
        }
        // commutative: constant to the right
        if ca.is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            return self.bin(op, w, b, a);
        }
        let m = mask(w);
        if let Some(y) = cb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if y == 0 => return a,
                Op::Sub => {
                    let k = self.k(0u128.wrapping_sub(y), w);
                    return self.bin(Op::Add, w, a, k);
                }
                Op::And if y == 0 => return b,
                Op::And if y == m => return a,
                Op::Or if y == m => return b,
                Op::Mul if y == 0 => return b,
                Op::Mul if y == 1 => return a,
                Op::Mul if y.is_power_of_two() => {
                    let k = self.k(y.trailing_zeros() as u128, w);
                    return self.bin(Op::Shl, w, a, k);
                }
                Op::UDiv if y == 1 => return a,
                Op::UDiv if y.is_power_of_two() => {
                    let k = self.k(y.trailing_zeros() as u128, w);
                    return self.bin(Op::LShr, w, a, k);
                }
                Op::URem if y.is_power_of_two() => {
                    let k = self.k(y - 1, w);
                    return self.bin(Op::And, w, a, k);
                }
                Op::Shl | Op::LShr if y >= w as u128 => return self.k(0, w),
                Op::Ult if y == 0 => return X::C(0),
                Op::Ule if y == m => return X::C(1),
                Op::Ult if y == 1 => return self.bin(Op::Eq, w, a, X::C(0)),
                _ => {}
            }
        }
        if let Some(x) = ca {
            match op {
                Op::Ult if x == m => return X::C(0),
                Op::Ule if x == 0 => return X::C(1),
                Op::Shl | Op::LShr if x == 0 => return a,
                Op::Ult if x == 0 => {
                    let e = self.bin(Op::Eq, w, b, a);
                    return self.not1(e);
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.k(0, w),
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return X::C(1),
                Op::Ult | Op::Slt => return X::C(0),
                _ => {}
            }
        }
        // structural rules with a constant on the right
        if let (Some(n), Some(y)) = (self.node(a), cb) {
            match (op, n.op) {
                // Shl as concat
                (Op::Shl, _) if w > 1 => {
                    let s = y as u16;
                    let hi = self.extract(a, w, 0, w - s);
                    let z = self.k(0, s);
                    return self.concat(hi, w - s, z, s);
                }
                (Op::LShr, _) if w > 1 => {
                    let s = y as u16;
                    let hi = self.extract(a, w, s, w - s);
                    return self.zext(hi, w - s, w);
                }
                (Op::Add, Op::Add) => {
                    if let Some(z) = self.cst(n.b) {
                        let k = self.k(z.wrapping_add(y), w);
                        return self.bin(Op::Add, w, n.a, k);
                    }
                }
                (Op::And, Op::And) => {
                    if let Some(z) = self.cst(n.b) {
                        let k = self.k(z & y, w);
                        return self.bin(Op::And, w, n.a, k);
                    }
                }
                (Op::Xor, Op::Xor) => {
                    if let Some(z) = self.cst(n.b) {
                        let k = self.k(z ^ y, w);
                        return self.bin(Op::Xor, w, n.a, k);
                    }
                }
                (Op::And, Op::ZExt) => {
                    let sw = n.aw;
                    let k = self.k(y & mask(sw), sw);
                    let inner = self.bin(Op::And, sw, n.a, k);
                    return self.zext(inner, sw, w);
                }
                (Op::And, Op::Concat) | (Op::Or, Op::Concat) | (Op::Xor, Op::Concat) => {
                    let lw = w - n.aw;
                    let kh = self.k(y >> lw, n.aw);
                    let kl = self.k(y & mask(lw), lw);
                    let h = self.bin(op, n.aw, n.a, kh);
                    let l = self.bin(op, lw, n.b, kl);
                    return self.concat(h, n.aw, l, lw);
                }
                (Op::And, _) if y != 0 && (y & (y + 1)) == 0 && w > 1 => {
                    // low mask
                    let bits = (y + 1).trailing_zeros() as u16;
                    if bits < w {
                        let l = self.extract(a, w, 0, bits);
                        return self.zext(l, bits, w);
                    }
                }
                (Op::Eq, Op::ZExt) => {
                    if y > mask(n.aw) {
                        return X::C(0);
                    }
                    let k = self.k(y, n.aw);
                    return self.bin(Op::Eq, n.aw, n.a, k);
                }
                (Op::Eq, Op::SExt) => {
                    let lowc = y & mask(n.aw);
                    if (sext128(lowc, n.aw) as u128 & m) != y {
                        return X::C(0);
                    }
                    let k = self.k(lowc, n.aw);
                    return self.bin(Op::Eq, n.aw, n.a, k);
                }
                (Op::Eq, Op::Add) => {
                    if let Some(z) = self.cst(n.b) {
                        let k = self.k(y.wrapping_sub(z), w);
                        return self.bin(Op::Eq, w, n.a, k);
                    }
                }
                (Op::Eq, Op::Xor) => {
                    if let Some(z) = self.cst(n.b) {
                        let k = self.k(y ^ z, w);
                        return self.bin(Op::Eq, w, n.a, k);
                    }
                }
                (Op::Eq, Op::Concat) => {
                    let lw = w - n.aw;
                    let kh = self.k(y >> lw, n.aw);
                    let kl = self.k(y & mask(lw), lw);
                    let h = self.bin(Op::Eq, n.aw, n.a, kh);
                    let l = self.bin(Op::Eq, lw, n.b, kl);
                    return self.bin(Op::And, 1, h, l);
                }
                (Op::Eq, Op::Ite) => {
                    let c1 = self.cst(n.b);
                    let c2 = self.cst(n.c);
                    if c1.is_some() || c2.is_some() {
                        let e1 = self.bin(Op::Eq, w, n.b, b);
                        let e2 = self.bin(Op::Eq, w, n.c, b);
                        return self.ite(n.a, e1, e2, 1);
                    }
                }
                (Op::Ult, Op::ZExt) => {
                    if y > mask(n.aw) {
                        return X::C(1);
                    }
                    let k = self.k(y, n.aw);
                    return self.bin(Op::Ult, n.aw, n.a, k);
                }
                (Op::Ule, Op::ZExt) => {
                    if y >= mask(n.aw) {
                        return X::C(1);
                    }
                    let k = self.k(y, n.aw);
                    return self.bin(Op::Ule, n.aw, n.a, k);
                }
                (Op::Slt, Op::ZExt) | (Op::Sle, Op::ZExt) => {
                    // a is non-negative
                    let sy = sext128(y, w);
                    if sy < 0 {
                        return X::C(0);
                    }
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, w, a, b);
                }
                (Op::Slt, _) if y == 0 && w > 1 => {
                    return self.extract(a, w, w - 1, 1);
                }
                _ => {}
            }
        }
        if let (Some(n), Some(x)) = (self.node(b), ca) {
            match (op, n.op) {
                (Op::Ult, Op::ZExt) => {
                    if x >= mask(n.aw) {
                        return X::C(0);
                    }
                    let k = self.k(x, n.aw);
                    return self.bin(Op::Ult, n.aw, k, n.a);
                }
                (Op::Ule, Op::ZExt) => {
                    if x > mask(n.aw) {
                        return X::C(0);
                    }
                    let k = self.k(x, n.aw);
                    return self.bin(Op::Ule, n.aw, k, n.a);
                }
                (Op::Slt, Op::ZExt) | (Op::Sle, Op::ZExt) => {
                    let sx = sext128(x, w);
                    if sx < 0 {
                        return X::C(1);
                    }
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, w, a, b);
                }
                (Op::Slt, _) if x == m && w > 1 => {
                    // -1 < b
                    let s = self.extract(b, w, w - 1, 1);
                    return self.not1(s);
                }
                (Op::Sub, _) => {}
                _ => {}
            }
        }
        // both symbolic
        if let (Some(na), Some(nb)) = (self.node(a), self.node(b)) {
            if na.op == Op::ZExt && nb.op == Op::ZExt && na.aw == nb.aw {
                match op {
                    Op::Eq | Op::Ult | Op::Ule => return self.bin(op, na.aw, na.a, nb.a),
                    Op::Slt => return self.bin(Op::Ult, na.aw, na.a, nb.a),
                    Op::Sle => return self.bin(Op::Ule, na.aw, na.a, nb.a),
                    Op::And | Op::Or | Op::Xor => {
                        let i = self.bin(op, na.aw, na.a, nb.a);
                        return self.zext(i, na.aw, w);
                    }
                    _ => {}
                }
            }
            // or of disjoint bit ranges: concat(h, 0) | zext(l)
            if op == Op::Or || op == Op::Xor || op == Op::Add {
                for (p, q, np, nq) in [(a, b, na, nb), (b, a, nb, na)] {
                    let _ = (p, q);
                    if np.op == Op::Concat && nq.op == Op::ZExt {
                        let lw = w - np.aw;
                        if self.cst(np.b) == Some(0) && nq.aw <= lw {
                            let l = self.zext(nq.a, nq.aw, lw);
                            return self.concat(np.a, np.aw, l, lw);
                        }
                    }
                }
            }
            if op == Op::And && w == 1 {
                // x & !x
                if na.op == Op::Xor && na.a == b || nb.op == Op::Xor && nb.a == a {
                    return X::C(0);
                }
            }
            // (x + y) - x
            if op == Op::Sub && na.op == Op::Add {
                if na.a == b {
                    return na.b;
                }
                if na.b == b {
                    return na.a;
                }
            }
        }
        let (a, b) = if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && cb.is_none() && ca.is_none() {
            match (a, b) {
                (X::S(i), X::S(j)) if i > j => (b, a),
                _ => (a, b),
            }
        } else {
            (a, b)
        };
        self.add(Node { op, w: rw, aw: w, lo: 0, a, b, c: Z, k: 0 })
    }

    pub fn ite(&mut self, c: X, a: X, b: X, w: u16) -> X {
        if let X::C(v) = c {
            return if v & 1 == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if w == 1 {
            match (a, b) {
                (X::C(1), X::C(0)) => return c,
                (X::C(0), X::C(1)) => return self.not1(c),
                (X::C(0), _) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, 1, n, b);
                }
                (X::C(1), _) => return self.bin(Op::Or, 1, c, b),
                (_, X::C(0)) => return self.bin(Op::And, 1, c, a),
                (_, X::C(1)) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, 1, n, a);
                }
                _ => {}
            }
        }
        if let Some(n) = self.node(c) {
            if n.op == Op::Xor && n.w == 1 && n.b == X::C(1) {
                return self.ite(n.a, b, a, w);
            }
        }
        self.add(Node { op: Op::Ite, w, aw: 1, lo: 0, a: c, b: a, c: b, k: 0 })
    }

    /// bits [lo, lo+n) of `a` (width w)
    pub fn extract(&mut self, a: X, w: u16, lo: u16, n: u16) -> X {
        if n == w {
            return a;
        }
        if let Some(v) = self.cst(a) {
            return self.k(v >> lo, n);
        }
        let nd = self.node(a).unwrap();
        match nd.op {
            Op::Extract => return self.extract(nd.a, nd.aw, nd.lo + lo, n),
            Op::Concat => {
                let lw = w - nd.aw;
                if lo >= lw {
                    return self.extract(nd.a, nd.aw, lo - lw, n);
                }
                if lo + n <= lw {
                    return self.extract(nd.b, lw, lo, n);
                }
                let h = self.extract(nd.a, nd.aw, 0, lo + n - lw);
                let l = self.extract(nd.b, lw, lo, lw - lo);
                return self.concat(h, lo + n - lw, l, lw - lo);
            }
            Op::ZExt => {
                if lo >= nd.aw {
                    return self.k(0, n);
                }
                if lo + n <= nd.aw {
                    return self.extract(nd.a, nd.aw, lo, n);
                }
                let l = self.extract(nd.a, nd.aw, lo, nd.aw - lo);
                return self.zext(l, nd.aw - lo, n);
            }
            Op::SExt => {
                if lo + n <= nd.aw {
                    return self.extract(nd.a, nd.aw, lo, n);
                }
                if lo == 0 && n > nd.aw {
                    return self.sext(nd.a, nd.aw, n);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(nd.a, w, lo, n);
                let y = self.extract(nd.b, w, lo, n);
                return self.bin(nd.op, n, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(nd.a, w, 0, n);
                let y = self.extract(nd.b, w, 0, n);
                return self.bin(nd.op, n, x, y);
            }
            Op::Ite => {
                if self.cst(nd.b).is_some() || self.cst(nd.c).is_some() {
                    let x = self.extract(nd.b, w, lo, n);
                    let y = self.extract(nd.c, w, lo, n);
                    return self.ite(nd.a, x, y, n);
                }
            }
            _ => {}
        }
        self.add(Node { op: Op::Extract, w: n, aw: w, lo, a, b: Z, c: Z, k: 0 })
    }

    /// a is the high part (width aw), b the low part (width bw)
    pub fn concat(&mut self, a: X, aw: u16, b: X, bw: u16) -> X {
        if aw == 0 {
            return b;
        }
        if bw == 0 {
            return a;
        }
        let w = aw + bw;
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => return self.k((x << bw) | y, w),
            (Some(0), _) => return self.zext(b, bw, w),
            _ => {}
        }
        if let (Some(na), Some(nb)) = (self.node(a), self.node(b)) {
            if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.aw == nb.aw && na.lo == nb.lo + nb.w {
                return self.extract(na.a, na.aw, nb.lo, w);
            }
            if na.op == Op::Extract && na.a == b && na.lo == bw && na.aw == bw {
                unreachable!();
            }
            // concat(zext(x), y) = zext(concat(x, y))
            if na.op == Op::ZExt {
                let i = self.concat(na.a, na.aw, b, bw);
                return self.zext(i, na.aw + bw, w);
            }
            // right-associate: concat(concat(x, y), b) = concat(x, concat(y, b))
            if na.op == Op::Concat {
                let yw = na.w - na.aw;
                let yb = self.concat(na.b, yw, b, bw);
                return self.concat(na.a, na.aw, yb, yw + bw);
            }
            // concat(extract(x), concat(extract(x), z)): merge adjacent extracts
            if na.op == Op::Extract && nb.op == Op::Concat {
                if let Some(nc) = self.node(nb.a) {
                    if nc.op == Op::Extract && nc.a == na.a && nc.aw == na.aw && na.lo == nc.lo + nc.w {
                        let h = self.extract(na.a, na.aw, nc.lo, na.w + nc.w);
                        let lw = nb.w - nb.aw;
                        return self.concat(h, na.w + nc.w, nb.b, lw);
                    }
                }
            }
        } else if let Some(na) = self.node(a) {
            if na.op == Op::ZExt {
                let i = self.concat(na.a, na.aw, b, bw);
                return self.zext(i, na.aw + bw, w);
            }
            if na.op == Op::Concat {
                let yw = na.w - na.aw;
                let yb = self.concat(na.b, yw, b, bw);
                return self.concat(na.a, na.aw, yb, yw + bw);
            }
        }
        // sext pattern is left to the solver
        self.add(Node { op: Op::Concat, w, aw, lo: 0, a, b, c: Z, k: 0 })
    }

    pub fn zext(&mut self, a: X, from: u16, to: u16) -> X {
        if from == to {
            return a;
        }
        if let Some(v) = self.cst(a) {
            return self.k(v, to);
        }
        let n = self.node(a).unwrap();
        if n.op == Op::ZExt {
            return self.zext(n.a, n.aw, to);
        }
        if n.op == Op::Ite && self.cst(n.b).is_some() && self.cst(n.c).is_some() {
            let x = self.zext(n.b, from, to);
            let y = self.zext(n.c, from, to);
            return self.ite(n.a, x, y, to);
        }
        self.add(Node { op: Op::ZExt, w: to, aw: from, lo: 0, a, b: Z, c: Z, k: 0 })
    }

    pub fn sext(&mut self, a: X, from: u16, to: u16) -> X {
        if from == to {
            return a;
        }
        if let Some(v) = self.cst(a) {
            return self.k(sext128(v, from) as u128, to);
        }
        let n = self.node(a).unwrap();
        if n.op == Op::ZExt {
            return self.zext(n.a, n.aw, to);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, n.aw, to);
        }
        self.add(Node { op: Op::SExt, w: to, aw: from, lo: 0, a, b: Z, c: Z, k: 0 })
    }

    // ---------------------------------------------------------------- variables of an expression

    pub fn varset(&mut self, x: X) -> std::rc::Rc<Vec<u64>> {
        let i = match x {
            X::C(_) => return std::rc::Rc::new(vec![]),
            X::S(i) => i as usize,
        };
        if let Some(v) = &self.varsets[i] {
            return v.clone();
        }
        let n = self.nodes[i];
        let r = match n.op {
            Op::Var => {
                let k = n.k as usize;
                let mut v = vec![0u64; k / 64 + 1];
                v[k / 64] |= 1 << (k % 64);
                std::rc::Rc::new(v)
            }
            Op::K => std::rc::Rc::new(vec![]),
            _ => {
                let mut acc = (*self.varset(n.a)).clone();
                for o in [n.b, n.c] {
                    if let X::S(_) = o {
                        let s = self.varset(o);
                        if s.len() > acc.len() {
                            acc.resize(s.len(), 0);
                        }
                        for (p, q) in acc.iter_mut().zip(s.iter()) {
                            *p |= *q;
                        }
                    }
                }
                std::rc::Rc::new(acc)
            }
        };
        self.varsets[i] = Some(r.clone());
        r
    }

    /// `x` with every uninitialised variable replaced by one named `prefix` + its name
    pub fn rename_uninit(&mut self, x: X, w: u16, prefix: &str, uninit: bool, memo: &mut HashMap<Id, X>) -> X {
        let i = match x {
            X::C(_) => return x,
            X::S(i) => i,
        };
        if let Some(&r) = memo.get(&i) {
            return r;
        }
        let n = self.nodes[i as usize];
        let r = match n.op {
            Op::Var => {
                let v = self.vars[n.k as usize].clone();
                if v.uninit {
                    self.var(&format!("{}{}", prefix, v.name), n.w, uninit)
                } else {
                    x
                }
            }
            Op::K => x,
            Op::Ite => {
                let a = self.rename_uninit(n.a, 1, prefix, uninit, memo);
                let b = self.rename_uninit(n.b, n.w, prefix, uninit, memo);
                let c = self.rename_uninit(n.c, n.w, prefix, uninit, memo);
                self.ite(a, b, c, n.w)
            }
            Op::Concat => {
                let a = self.rename_uninit(n.a, n.aw, prefix, uninit, memo);
                let b = self.rename_uninit(n.b, n.w - n.aw, prefix, uninit, memo);
                self.concat(a, n.aw, b, n.w - n.aw)
            }
            Op::Extract => {
                let a = self.rename_uninit(n.a, n.aw, prefix, uninit, memo);
                self.extract(a, n.aw, n.lo, n.w)
            }
            Op::ZExt => {
                let a = self.rename_uninit(n.a, n.aw, prefix, uninit, memo);
                self.zext(a, n.aw, n.w)
            }
            Op::SExt => {
                let a = self.rename_uninit(n.a, n.aw, prefix, uninit, memo);
                self.sext(a, n.aw, n.w)
            }
            op => {
                let a = self.rename_uninit(n.a, n.aw, prefix, uninit, memo);
                let b = self.rename_uninit(n.b, n.aw, prefix, uninit, memo);
                self.bin(op, n.aw, a, b)
            }
        };
        let _ = w;
        memo.insert(i, r);
        r
    }

    // ---------------------------------------------------------------- concrete evaluation

    pub fn new_eval(&mut self) {
        self.ev_epoch += 1;
    }

    /// Evaluate under `model` (value per variable index; missing = 0). Call `new_eval` when the model changes.
    pub fn eval(&mut self, x: X, model: &[u64]) -> u128 {
        let i = match x {
            X::C(v) => return v as u128,
            X::S(i) => i as usize,
        };
        if self.ev[i].0 == self.ev_epoch {
            return self.ev[i].1;
        }
        let n = self.nodes[i];
        let v = match n.op {
            Op::Var => model.get(n.k as usize).copied().unwrap_or(0) as u128 & mask(n.w),
            Op::K => n.k,
            Op::Ite => {
                if self.eval(n.a, model) & 1 == 1 {
                    self.eval(n.b, model)
                } else {
                    self.eval(n.c, model)
                }
            }
            Op::Concat => {
                let a = self.eval(n.a, model);
                let b = self.eval(n.b, model);
                (a << (n.w - n.aw)) | b
            }
            Op::Extract => (self.eval(n.a, model) >> n.lo) & mask(n.w),
            Op::ZExt => self.eval(n.a, model),
            Op::SExt => sext128(self.eval(n.a, model), n.aw) as u128 & mask(n.w),
            op => {
                let a = self.eval(n.a, model);
                let b = self.eval(n.b, model);
                Self::fold(op, n.aw, a, b).unwrap()
            }
        };
        self.ev[i] = (self.ev_epoch, v);
        v
    }

    // ---------------------------------------------------------------- Z3

    fn opd(&mut self, x: X, w: u16) -> Ast {
        match x {
            X::C(v) => self.z.bv(v as u128, w),
            X::S(i) => self.ast(i),
        }
    }

    pub fn ast(&mut self, i: Id) -> Ast {
        if !self.asts[i as usize].is_null() {
            return self.asts[i as usize];
        }
        let n = self.nodes[i as usize];
        let r = match n.op {
            Op::Var => {
                let name = self.vars[n.k as usize].name.clone();
                self.z.var(&name, n.w)
            }
            Op::K => self.z.bv(n.k, n.w),
            Op::Ite => {
                let c = self.opd(n.a, 1);
                let a = self.opd(n.b, n.w);
                let b = self.opd(n.c, n.w);
                self.z.ite1(c, a, b)
            }
            Op::Concat => {
                let a = self.opd(n.a, n.aw);
                let b = self.opd(n.b, n.w - n.aw);
                self.z.concat(a, b)
            }
            Op::Extract => {
                let a = self.opd(n.a, n.aw);
                self.z.extract(n.lo + n.w - 1, n.lo, a)
            }
            Op::ZExt => {
                let a = self.opd(n.a, n.aw);
                self.z.zext(n.w - n.aw, a)
            }
            Op::SExt => {
                let a = self.opd(n.a, n.aw);
                self.z.sext(n.w - n.aw, a)
            }
            op => {
                let a = self.opd(n.a, n.aw);
                let b = self.opd(n.b, n.aw);
                self.z.bin(op, a, b)
            }
        };
        self.asts[i as usize] = r;
        r
    }
}

/// Differential test of the simplifier: random terms are built both through the simplifying constructors and
/// evaluated directly; the two must agree on random inputs.
pub fn selftest(n: u64) -> i32 {
    let mut cx = Ctx::new();
    let mut seed = 0x9e3779b97f4a7c15u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let widths = [1u16, 3, 8, 9, 16, 32, 33, 64, 65, 128];
    let mut vars = vec![];
    for (k, &w) in [1u16, 8, 8, 16, 32, 64, 64].iter().enumerate() {
        vars.push((cx.var(&format!("v{}", k), w, false), w));
    }
    const NM: usize = 6;
    let mut models: Vec<Vec<u64>> = vec![];
    for m in 0..NM {
        models.push(vars.iter().map(|&(_, w)| {
            let r = match m { 0 => 0, 1 => u64::MAX, _ => { let x = rnd(); if x & 3 == 0 { x >> 58 } else { rnd() } } };
            r & mask(w) as u64
        }).collect());
    }
    // pool of (term, width, values per model)
    let mut pool: Vec<(X, u16, [u128; NM])> = vec![];
    for (k, &(x, w)) in vars.iter().enumerate() {
        let mut v = [0u128; NM];
        for m in 0..NM { v[m] = models[m][k] as u128; }
        pool.push((x, w, v));
    }
    let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
    let mut bad = 0;
    for it in 0..n {
        let (x, w, v) = pool[(rnd() % pool.len() as u64) as usize];
        let r: (X, u16, [u128; NM]) = match rnd() % 10 {
            0..=4 => {
                let op = ops[(rnd() % ops.len() as u64) as usize];
                // operand of the same width: pool element or constant
                let mut y = None;
                for _ in 0..8 {
                    let c = pool[(rnd() % pool.len() as u64) as usize];
                    if c.1 == w { y = Some((c.0, c.2)); break; }
                }
                let (y, yv) = match y {
                    Some(y) if rnd() & 1 == 0 => y,
                    _ => {
                        let r = rnd() as u128 | (rnd() as u128) << 64;
                        let k = match rnd() % 8 { 0 => 0, 1 => 1, 2 => mask(w), 3 => 1u128 << (rnd() % w as u64), 4 => (1u128 << (rnd() % w as u64)) - 1, 5 => r % (w as u128 + 2), 6 => r & 255, _ => r } & mask(w);
                        (cx.k(k, w), [k; NM])
                    }
                };
                let swap = rnd() & 1 == 1;
                let (a, b) = if swap { (y, x) } else { (x, y) };
                let t = cx.bin(op, w, a, b);
                let mut o = [0; NM];
                for m in 0..NM {
                    let (p, q) = if swap { (yv[m], v[m]) } else { (v[m], yv[m]) };
                    o[m] = Ctx::fold(op, w, p, q).unwrap();
                }
                let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
                (t, if cmp { 1 } else { w }, o)
            }
            5 => {
                let lo = (rnd() % w as u64) as u16;
                let k = 1 + (rnd() % (w - lo) as u64) as u16;
                let t = cx.extract(x, w, lo, k);
                let mut o = [0; NM];
                for m in 0..NM { o[m] = (v[m] >> lo) & mask(k); }
                (t, k, o)
            }
            6 => {
                let (y, yw, yv) = pool[(rnd() % pool.len() as u64) as usize];
                if w + yw > 128 { continue; }
                let t = cx.concat(x, w, y, yw);
                let mut o = [0; NM];
                for m in 0..NM { o[m] = (v[m] << yw) | yv[m]; }
                (t, w + yw, o)
            }
            7 | 8 => {
                let to = widths[(rnd() % widths.len() as u64) as usize];
                if to < w { continue; }
                let s = rnd() & 1 == 1;
                let t = if s { cx.sext(x, w, to) } else { cx.zext(x, w, to) };
                let mut o = [0; NM];
                for m in 0..NM { o[m] = if s { sext128(v[m], w) as u128 & mask(to) } else { v[m] }; }
                (t, to, o)
            }
            _ => {
                let mut c = None;
                let mut y = None;
                for _ in 0..16 {
                    let e = pool[(rnd() % pool.len() as u64) as usize];
                    if e.1 == 1 && c.is_none() { c = Some(e); }
                    let e = pool[(rnd() % pool.len() as u64) as usize];
                    if e.1 == w { y = Some(e); }
                }
                let (c, y) = match (c, y) { (Some(c), Some(y)) => (c, y), _ => continue };
                let t = cx.ite(c.0, x, y.0, w);
                let mut o = [0; NM];
                for m in 0..NM { o[m] = if c.2[m] == 1 { v[m] } else { y.2[m] }; }
                (t, w, o)
            }
        };
        for m in 0..NM {
            cx.new_eval();
            let e = cx.eval(r.0, &models[m]);
            if e != r.2[m] {
                eprintln!("selftest mismatch at {}: {:?} width {} model {}: {:#x} != {:#x}", it, r.0, r.1, m, e, r.2[m]);
                bad += 1;
                if bad > 5 { return 1; }
            }
        }
        if pool.len() < 300 { pool.push(r); } else {
            let k = 7 + (rnd() % 293) as usize;
            pool[k] = r;
        }
        // bound the term size
        if it % 2000 == 1999 { pool.truncate(7); }
    }
    println!("selftest: {} terms, {} mismatches", n, bad);
    (bad > 0) as i32
}
