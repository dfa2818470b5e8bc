//! Symbolic execution of LLVM IR: forking path exploration over a flat, bounds-checked memory.
use crate::expr::*;
use crate::ir::*;
use crate::z3::Res;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    I(X),
    A(Rc<Vec<Val>>),
}

const UNINIT: u32 = 256;
const SYM: u32 = 257;

#[derive(Clone)]
pub struct Obj {
    size: X,
    data: Vec<u32>,
    fill: u32,
    readonly: bool,
    heap: bool,
}

impl Obj {
    fn get(&self, o: u64) -> u32 {
        *self.data.get(o as usize).unwrap_or(&self.fill)
    }
    fn grow(&mut self, n: u64) {
        if (self.data.len() as u64) < n {
            self.data.resize(n as usize, self.fill);
        }
    }
    fn csize(&self) -> Option<u64> {
        match self.size {
            X::C(v) => Some(v),
            _ => None,
        }
    }
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    blk: u32,
    ip: usize,
    dst: Option<u32>,
    next: Option<u32>,
    allocas: Vec<u64>,
}

#[derive(Clone, Copy, Debug)]
pub enum Tape {
    V(X),
    C(u64),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: Vec<(u64, Rc<Obj>)>,
    next: u64,
    pc: Vec<X>,
    model: Rc<Vec<u64>>,
    tape: Vec<Tape>,
    nvar: usize,
    obs: Vec<X>,
    reach: Vec<u32>,
    steps: u64,
    uninit: usize,
    depth_limit: Option<usize>,
    step_limit: Option<u64>,
    alloc_limit: Option<u64>,
    alloc_cap: Option<X>,
    forks: u32,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Killed,
    Viol(String, String),
    Unsup(String),
}

type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub label: String,
    pub tape: Vec<u64>,
    pub stack: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub tape: Vec<u64>,
    pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub instrs: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub solver_ns: u128,
    pub max_query_ns: u128,
    pub max_tape: u64,
    pub max_steps: u64,
}

#[derive(Clone)]
enum Target {
    F(Rc<Func>),
    Ext,
    Panic,
}

pub struct Exec<'m> {
    pub cx: Ctx,
    m: &'m Module,
    gaddr: HashMap<Rc<str>, u64>,
    gobjs: BTreeMap<u64, Rc<Obj>>,
    gnext: u64,
    faddr: HashMap<u64, Rc<str>>,
    fnext: u64,
    targets: HashMap<Rc<str>, Target>,
    pub work: VecDeque<Box<State>>,
    cache: HashMap<Vec<Id>, Option<Vec<(usize, u64)>>>,
    uninit_mask: Vec<u64>,
    pub stats: Stats,
    pub viols: Vec<Violation>,
    pub viol_counts: BTreeMap<(String, String), u64>,
    pub samples: Vec<Sample>,
    pub reach: BTreeMap<u32, u64>,
    pub funcs: BTreeSet<Rc<str>>,
    pub error: Option<String>,
    pub seed: u64,
    cur_model: *const Vec<u64>,
    pub begun: Instant,
    pub timeout: f64,
    pub stop_file: Option<String>,
    pub entry: String,
    pub max_steps: u64,
    pub dump_dir: Option<String>,
    pub dump_left: u32,
    pub trace: bool,
}

fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsup(s.into()))
}
fn viol<T>(k: &str, s: impl Into<String>) -> R<T> {
    Err(Stop::Viol(k.to_string(), s.into()))
}

const GLOBAL_BASE: u64 = 0x1000_0000;
const FUNC_BASE: u64 = 0x10_0000;
const HEAP_BASE: u64 = 0x10_0000_0000;
const BIG: u64 = 1 << 40;

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module) -> Self {
        Exec {
            cx: Ctx::new(),
            m,
            gaddr: HashMap::new(),
            gobjs: BTreeMap::new(),
            gnext: GLOBAL_BASE,
            faddr: HashMap::new(),
            fnext: FUNC_BASE,
            targets: HashMap::new(),
            work: VecDeque::new(),
            cache: HashMap::new(),
            uninit_mask: vec![],
            stats: Stats::default(),
            viols: vec![],
            viol_counts: BTreeMap::new(),
            samples: vec![],
            reach: BTreeMap::new(),
            funcs: BTreeSet::new(),
            error: None,
            seed: 1,
            cur_model: std::ptr::null(),
            begun: Instant::now(),
            timeout: f64::INFINITY,
            stop_file: None,
            entry: String::new(),
            max_steps: 200_000_000,
            dump_dir: None,
            dump_left: 0,
            trace: false,
        }
    }

    // ------------------------------------------------------------------ globals and constants

    fn sym_addr(&mut self, name: &Rc<str>) -> R<u64> {
        if let Some(&a) = self.gaddr.get(name) {
            return Ok(a);
        }
        if self.m.funcs.contains_key(&**name) || !self.m.globals.contains_key(&**name) {
            let a = self.fnext;
            self.fnext += 16;
            self.gaddr.insert(name.clone(), a);
            self.faddr.insert(a, name.clone());
            return Ok(a);
        }
        let g = self.m.global(name).map_err(Stop::Unsup)?.unwrap();
        if let Some(k) = &g.alias {
            let a = match self.konst(k, &Ty::Ptr)? {
                Val::I(X::C(a)) => a,
                _ => return unsup("alias"),
            };
            self.gaddr.insert(name.clone(), a);
            return Ok(a);
        }
        let size = g.ty.size();
        let al = g.align.max(16);
        let a = (self.gnext + al - 1) / al * al;
        self.gnext = a + size + 256;
        self.gaddr.insert(name.clone(), a);
        if let Some(k) = &g.init {
            let mut data = vec![0u32; size as usize];
            self.init_bytes(&mut data, 0, &g.ty, k)?;
            self.gobjs.insert(a, Rc::new(Obj { size: X::C(size), data, fill: 0, readonly: g.constant, heap: false }));
        }
        Ok(a)
    }

    fn init_bytes(&mut self, d: &mut [u32], off: u64, ty: &Ty, k: &K) -> R<()> {
        match k {
            K::Zero | K::Undef => {}
            K::Bytes(b) => {
                for (i, &c) in b.iter().enumerate() {
                    d[off as usize + i] = c as u32;
                }
            }
            K::Agg(v) => {
                let mut o = off;
                for (i, (t, k)) in v.iter().enumerate() {
                    match ty {
                        Ty::St(s) => o = off + s.off[i],
                        _ => {
                            if i > 0 {
                                o += t.size()
                            }
                        }
                    }
                    self.init_bytes(d, o, t, k)?;
                }
            }
            _ => match self.konst(k, ty)? {
                Val::I(x) => {
                    let v = self.cx.cst(x).ok_or(Stop::Unsup("initialiser".into()))?;
                    for i in 0..ty.store_size() {
                        d[(off + i) as usize] = ((v >> (8 * i)) & 255) as u32;
                    }
                }
                _ => return unsup("initialiser"),
            },
        }
        Ok(())
    }

    fn konst(&mut self, k: &K, ty: &Ty) -> R<Val> {
        Ok(match k {
            K::I(v) => Val::I(self.cx.k(*v, ty.bits())),
            K::Zero | K::Undef => self.zero(ty)?,
            K::Bytes(b) => Val::A(Rc::new(b.iter().map(|&c| Val::I(X::C(c as u64))).collect())),
            K::Agg(v) => {
                let mut o = Vec::with_capacity(v.len());
                for (t, k) in v {
                    o.push(self.konst(k, t)?);
                }
                Val::A(Rc::new(o))
            }
            K::Sym(s, off) => Val::I(X::C(self.sym_addr(s)?.wrapping_add(*off as u64))),
            K::Expr(op, a, b, w) => {
                let t = if *op == "trunc" { Ty::Int(64) } else { Ty::Int(*w) };
                let x = self.konst(a, &t)?;
                let y = self.konst(b, &t)?;
                match (x, y) {
                    (Val::I(X::C(x)), Val::I(X::C(y))) => {
                        let r = match *op {
                            "sub" => x.wrapping_sub(y),
                            "add" => x.wrapping_add(y),
                            "xor" => x ^ y,
                            _ => x,
                        };
                        Val::I(self.cx.k(r as u128, *w))
                    }
                    _ => return unsup("constant expression"),
                }
            }
        })
    }

    fn zero(&mut self, ty: &Ty) -> R<Val> {
        Ok(match ty {
            Ty::Vec(n, t) => {
                let z = self.zero(t)?;
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Arr(n, t) => {
                let z = self.zero(t)?;
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::St(s) => {
                let mut v = vec![];
                for t in &s.f {
                    v.push(self.zero(t)?);
                }
                Val::A(Rc::new(v))
            }
            Ty::Void | Ty::Other => Val::I(X::C(0)),
            t => Val::I(self.cx.k(0, t.bits())),
        })
    }

    fn get(&mut self, st: &State, o: &Opn, ty: &Ty) -> R<Val> {
        match o {
            Opn::R(r) => Ok(st.frames.last().unwrap().regs[*r as usize].clone()),
            Opn::K(K::I(v)) if ty.is_scalar() && ty.bits() <= 64 => Ok(Val::I(X::C(*v as u64))),
            Opn::K(k) => self.konst(k, ty),
        }
    }
    fn geti(&mut self, st: &State, o: &Opn, ty: &Ty) -> R<X> {
        match self.get(st, o, ty)? {
            Val::I(x) => Ok(x),
            _ => unsup("scalar expected"),
        }
    }

    // ------------------------------------------------------------------ solver

    fn sync(&mut self, st: &State) {
        let p = Rc::as_ptr(&st.model);
        if p != self.cur_model {
            self.cx.new_eval();
            self.cur_model = p;
        }
    }

    fn eval(&mut self, st: &State, x: X) -> u128 {
        if let X::C(v) = x {
            return v as u128;
        }
        self.sync(st);
        let m = st.model.clone();
        self.cx.eval(x, &m)
    }

    fn has_uninit(&mut self, x: X) -> bool {
        if self.uninit_mask.is_empty() {
            return false;
        }
        let s = self.cx.varset(x);
        s.iter().zip(self.uninit_mask.iter()).any(|(a, b)| a & b != 0)
    }

    fn mark_uninit(&mut self, x: X) {
        let mut vs = (*self.cx.varset(x)).clone();
        for (k, w) in vs.iter_mut().enumerate() {
            let mut m = *w;
            while m != 0 {
                let b = m.trailing_zeros() as usize;
                m &= m - 1;
                let vi = k * 64 + b;
                if self.cx.vars[vi].uninit {
                    if self.uninit_mask.len() <= k {
                        self.uninit_mask.resize(k + 1, 0);
                    }
                    self.uninit_mask[k] |= 1 << b;
                }
            }
        }
    }

    /// A violation if, on this path, the value of `x` really depends on uninitialised bytes.
    fn check_uninit(&mut self, st: &mut State, x: X, w: u16, msg: &str) -> R<()> {
        if !self.has_uninit(x) {
            return Ok(());
        }
        let y = self.cx.rename_uninit(x, w, "r", true, &mut HashMap::new());
        self.mark_uninit(y);
        let e = self.cx.bin(Op::Eq, w, x, y);
        let d = self.cx.not1(e);
        let pc = st.pc.clone();
        if let Some(p) = self.feasible(&pc, d)? {
            self.patch(st, &p);
            return viol("uninit", msg);
        }
        Ok(())
    }

    /// Is pc && c satisfiable? Returns a model patch for the variables concerned.
    fn feasible(&mut self, pc: &[X], c: X) -> R<Option<Vec<(usize, u64)>>> {
        let c = match c {
            X::C(0) => return Ok(None),
            X::C(_) => return Ok(Some(vec![])),
            x => x,
        };
        // slice
        let mut vs: Vec<u64> = (*self.cx.varset(c)).clone();
        let sets: Vec<Rc<Vec<u64>>> = pc.iter().map(|&p| self.cx.varset(p)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if used[i] {
                    continue;
                }
                let s = &sets[i];
                if s.iter().zip(vs.iter()).any(|(a, b)| a & b != 0) {
                    used[i] = true;
                    if s.len() > vs.len() {
                        vs.resize(s.len(), 0);
                    }
                    for (k, w) in s.iter().enumerate() {
                        if vs[k] | w != vs[k] {
                            vs[k] |= w;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut key: Vec<Id> = vec![];
        for i in 0..pc.len() {
            if used[i] {
                if let X::S(n) = pc[i] {
                    key.push(n);
                }
            }
        }
        key.sort();
        key.dedup();
        if let X::S(n) = c {
            key.push(n);
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cached += 1;
            return Ok(r.clone());
        }
        let asts: Vec<_> = key.iter().map(|&i| self.cx.ast(i)).collect();
        let mut vars = vec![];
        let mut vasts = vec![];
        for (k, w) in vs.iter().enumerate() {
            let mut w = *w;
            while w != 0 {
                let b = w.trailing_zeros() as usize;
                w &= w - 1;
                let vi = k * 64 + b;
                vars.push(vi);
                let (name, wd, un) = {
                    let v = &self.cx.vars[vi];
                    (v.name.clone(), v.w, v.uninit)
                };
                let x = self.cx.var(&name, wd, un);
                if let X::S(i) = x {
                    vasts.push(self.cx.ast(i));
                }
            }
        }
        let t = Instant::now();
        let mut out = vec![];
        let mut dump = String::new();
        let want = self.dump_left > 0 && self.dump_dir.is_some() && asts.len() > 1;
        let r = self.cx.z.check(&asts, &vasts, &mut out, if want { Some(&mut dump) } else { None });
        let ns = t.elapsed().as_nanos();
        self.stats.queries += 1;
        self.stats.solver_ns += ns;
        self.stats.max_query_ns = self.stats.max_query_ns.max(ns);
        if (self.stats.queries & 0x1f == 0 || ns > 100_000_000) && self.out_of_time() {
            return unsup("time budget exhausted or stopped");
        }
        if want {
            self.dump_left -= 1;
            let f = format!("{}/q{}_{}.smt2", self.dump_dir.as_ref().unwrap(), std::process::id(), self.stats.queries);
            let body = format!("(set-logic QF_BV)\n(set-info :status {})\n{}\n(check-sat)\n", if r == Res::Sat { "sat" } else { "unsat" }, dump);
            let _ = std::fs::write(f, body);
        }
        let res = match r {
            Res::Sat => {
                self.stats.sat += 1;
                Some(vars.into_iter().zip(out).collect::<Vec<_>>())
            }
            Res::Unsat => {
                self.stats.unsat += 1;
                None
            }
            Res::Unknown => return unsup("solver answered unknown"),
        };
        self.cache.insert(key, res.clone());
        Ok(res)
    }

    fn patch(&mut self, st: &mut State, p: &[(usize, u64)]) {
        if p.is_empty() {
            return;
        }
        let mut m = (*st.model).clone();
        for &(i, v) in p {
            if m.len() <= i {
                m.resize(i + 1, 0);
            }
            m[i] = v;
        }
        st.model = Rc::new(m);
        self.cur_model = std::ptr::null();
    }

    fn add_pc(&mut self, st: &mut State, c: X) {
        if let Some(n) = self.cx.node(c) {
            if n.op == Op::And && n.w == 1 {
                self.add_pc(st, n.a);
                self.add_pc(st, n.b);
                return;
            }
            if !st.pc.contains(&c) {
                st.pc.push(c);
            }
        }
    }

    fn fork_bool(&mut self, st: &mut State, c: X) -> R<bool> {
        if let X::C(v) = c {
            return Ok(v & 1 == 1);
        }
        self.check_uninit(st, c, 1, "control flow depends on uninitialised memory")?;
        let nc = self.cx.not1(c);
        for p in st.pc.iter().rev() {
            if *p == c {
                return Ok(true);
            }
            if *p == nc {
                return Ok(false);
            }
        }
        let v = self.eval(st, c) & 1 == 1;
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        if let Some(p) = self.feasible(&st.pc, other)? {
            let mut o = Box::new(st.clone());
            o.forks += 1;
            self.add_pc(&mut o, other);
            self.patch(&mut o, &p);
            self.work.push_back(o);
            self.stats.forks += 1;
            self.add_pc(st, mine);
        }
        Ok(v)
    }

    /// Fork so that `x` has one concrete value in this state.
    fn concretise(&mut self, st: &mut State, x: X, w: u16) -> R<u64> {
        if let X::C(v) = x {
            return Ok(v);
        }
        self.check_uninit(st, x, w, "address or length depends on uninitialised memory")?;
        let v = self.eval(st, x);
        let k = self.cx.k(v, w);
        let c = self.cx.bin(Op::Eq, w, x, k);
        if self.fork_bool(st, c)? {
            Ok(v as u64)
        } else {
            unsup("concretise")
        }
    }

    // ------------------------------------------------------------------ memory

    fn find(&self, st: &State, a: u64) -> Option<(u64, Rc<Obj>, Option<usize>)> {
        let i = st.objs.partition_point(|(b, _)| *b <= a);
        let loc = if i > 0 { Some((st.objs[i - 1].0, &st.objs[i - 1].1, i - 1)) } else { None };
        if a >= HEAP_BASE {
            return loc.map(|(b, o, i)| (b, o.clone(), Some(i)));
        }
        // globals: a state-local copy shadows the initial object
        let g = self.gobjs.range(..=a).next_back();
        match (loc, g) {
            (Some((b, o, i)), Some((gb, _))) if b == *gb => Some((b, o.clone(), Some(i))),
            (_, Some((gb, go))) => Some((*gb, go.clone(), None)),
            (Some((b, o, i)), None) => Some((b, o.clone(), Some(i))),
            _ => None,
        }
    }

    /// Resolve a concrete address for an access of n bytes; checks liveness and bounds.
    fn resolve(&mut self, st: &mut State, a: u64, n: u64, write: bool) -> R<(u64, Rc<Obj>, Option<usize>)> {
        if let Some((b, o, i)) = self.find(st, a) {
            let off = a - b;
            match o.size {
                X::C(s) => {
                    if off <= s && n <= s - off {
                        if write && o.readonly {
                            return viol("memory", format!("write to read-only memory at {:#x}", a));
                        }
                        return Ok((b, o, i));
                    }
                    if off <= s.saturating_add(4096) {
                        return viol("memory", format!("access of {} bytes at offset {} of an object of {} bytes", n, off, s));
                    }
                }
                s => {
                    if off < BIG {
                        let k = self.cx.k((off + n) as u128, 64);
                        let c = self.cx.bin(Op::Ule, 64, k, s);
                        if self.fork_bool(st, c)? {
                            return Ok((b, o, i));
                        }
                        return viol("memory", format!("access of {} bytes at offset {} beyond a variable-size object", n, off));
                    }
                }
            }
        }
        viol("memory", format!("access of {} bytes at {:#x}: no live object", n, a))
    }

    fn byte_x(&mut self, st: &mut State, b: u32) -> X {
        if b < 256 {
            X::C(b as u64)
        } else if b == UNINIT {
            let n = format!("u{}", st.uninit);
            st.uninit += 1;
            let x = self.cx.var(&n, 8, true);
            let vi = self.cx.var_index(x);
            if self.uninit_mask.len() <= vi / 64 {
                self.uninit_mask.resize(vi / 64 + 1, 0);
            }
            self.uninit_mask[vi / 64] |= 1 << (vi % 64);
            x
        } else {
            X::S(b - SYM)
        }
    }

    fn x_byte(x: X) -> u32 {
        match x {
            X::C(v) => v as u32 & 255,
            X::S(i) => i + SYM,
        }
    }

    fn load_bytes(&mut self, st: &mut State, o: &Obj, off: u64, n: u64) -> X {
        // little endian
        if n <= 8 {
            let mut v = 0u64;
            let mut ok = true;
            for i in 0..n {
                let b = o.get(off + i);
                if b >= 256 {
                    ok = false;
                    break;
                }
                v |= (b as u64) << (8 * i);
            }
            if ok {
                return X::C(v);
            }
        }
        let mut acc = X::C(0);
        let mut w = 0u16;
        for i in 0..n {
            let b = self.byte_x(st, o.get(off + i));
            acc = if w == 0 { b } else { self.cx.concat(b, 8, acc, w) };
            w += 8;
        }
        acc
    }

    fn load_scalar(&mut self, st: &mut State, ty: &Ty, a: X, align: u64) -> R<X> {
        let n = ty.store_size();
        let w = ty.bits();
        let raw = match a {
            X::C(a) => {
                let (b, o, _) = self.resolve(st, a, n, false)?;
                self.load_bytes(st, &o, a - b, n)
            }
            a => {
                self.check_uninit(st, a, 64, "address depends on uninitialised memory")?;
                let ca = self.eval(st, a) as u64;
                let mut done = None;
                if let Some((b, o, _)) = self.find(st, ca) {
                    if let Some(s) = o.csize() {
                        if s <= 8192 && s >= n && ca - b <= s - n && o.data.iter().all(|&x| x < 256) {
                            let kb = X::C(b);
                            let idx = self.cx.bin(Op::Sub, 64, a, kb);
                            let lim = X::C(s - n);
                            let c = self.cx.bin(Op::Ule, 64, idx, lim);
                            if !self.fork_bool(st, c)? {
                                return unsup("table bounds");
                            }
                            let al = align.max(1);
                            let mut runs: Vec<(u64, X)> = vec![];
                            let mut off = 0;
                            while off <= s - n {
                                let v = self.load_bytes(st, &o, off, n);
                                match runs.last_mut() {
                                    Some(l) if l.1 == v => l.0 = off,
                                    _ => runs.push((off, v)),
                                }
                                off += al;
                            }
                            let mut acc = runs.pop().unwrap().1;
                            while let Some((e, v)) = runs.pop() {
                                let c = self.cx.bin(Op::Ule, 64, idx, X::C(e));
                                acc = self.cx.ite(c, v, acc, (n * 8) as u16);
                            }
                            done = Some(acc);
                        }
                    }
                }
                match done {
                    Some(x) => x,
                    None => {
                        let a = self.concretise(st, a, 64)?;
                        let (b, o, _) = self.resolve(st, a, n, false)?;
                        self.load_bytes(st, &o, a - b, n)
                    }
                }
            }
        };
        Ok(self.cx.extract(raw, (n * 8) as u16, 0, w))
    }

    fn load(&mut self, st: &mut State, ty: &Ty, a: X, align: u64) -> R<Val> {
        match ty {
            t if t.is_scalar() => Ok(Val::I(self.load_scalar(st, t, a, align)?)),
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 {
                    return unsup("bit vector load");
                }
                let a = self.concretise(st, a, 64)?;
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(Val::I(self.load_scalar(st, t, X::C(a + i * t.store_size()), 1)?));
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, t) => {
                let a = self.concretise(st, a, 64)?;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, t, X::C(a + i * t.size()), 1)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::St(s) => {
                let a = self.concretise(st, a, 64)?;
                let mut v = vec![];
                for (t, o) in s.f.iter().zip(&s.off) {
                    v.push(self.load(st, t, X::C(a + o), 1)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            t => unsup(format!("load {:?}", t)),
        }
    }

    fn obj_mut<'s>(&mut self, st: &'s mut State, b: u64, o: Rc<Obj>, i: Option<usize>) -> &'s mut Obj {
        let i = match i {
            Some(i) => {
                drop(o);
                i
            }
            None => {
                let p = st.objs.partition_point(|(x, _)| *x < b);
                st.objs.insert(p, (b, o));
                p
            }
        };
        Rc::make_mut(&mut st.objs[i].1)
    }

    fn store_scalar(&mut self, st: &mut State, w: u16, v: X, a: u64) -> R<()> {
        let n = (w as u64 + 7) / 8;
        let (b, o, i) = self.resolve(st, a, n, true)?;
        let bw = (n * 8) as u16;
        let v = self.cx.zext(v, w, bw);
        let mut bytes = [0u32; 32];
        match v {
            X::C(c) => {
                for i in 0..n.min(8) {
                    bytes[i as usize] = ((c >> (8 * i)) & 255) as u32;
                }
            }
            v => {
                for i in 0..n {
                    let e = self.cx.extract(v, bw, (8 * i) as u16, 8);
                    bytes[i as usize] = Self::x_byte(e);
                }
            }
        }
        let off = a - b;
        let ob = self.obj_mut(st, b, o, i);
        ob.grow(off + n);
        ob.data[off as usize..(off + n) as usize].copy_from_slice(&bytes[..n as usize]);
        Ok(())
    }

    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, a: u64) -> R<()> {
        match (ty, v) {
            (t, Val::I(x)) if t.is_scalar() => self.store_scalar(st, t.bits(), *x, a),
            (Ty::Vec(_, t), Val::A(l)) => {
                if t.bits() % 8 != 0 {
                    return unsup("bit vector store");
                }
                self.resolve(st, a, ty.store_size(), true)?;
                for (i, x) in l.iter().enumerate() {
                    self.store(st, t, x, a + i as u64 * t.store_size())?;
                }
                Ok(())
            }
            (Ty::Arr(_, t), Val::A(l)) => {
                for (i, x) in l.iter().enumerate() {
                    self.store(st, t, x, a + i as u64 * t.size())?;
                }
                Ok(())
            }
            (Ty::St(s), Val::A(l)) => {
                for (i, x) in l.iter().enumerate() {
                    self.store(st, &s.f[i], x, a + s.off[i])?;
                }
                Ok(())
            }
            _ => unsup(format!("store {:?}", ty)),
        }
    }

    fn new_obj(&mut self, st: &mut State, size: X, align: u64, fill: u32, heap: bool) -> R<u64> {
        let al = align.max(16);
        let a = (st.next + al - 1) / al * al;
        let r = match size {
            X::C(v) => {
                if v > BIG {
                    return unsup("huge object");
                }
                v
            }
            _ => BIG,
        };
        st.next = a + r + 4096 + 64;
        if st.next > 1 << 47 {
            return unsup("address space");
        }
        st.objs.push((a, Rc::new(Obj { size, data: vec![], fill, readonly: false, heap })));
        Ok(a)
    }

    /// malloc-like; None means a null result
    fn alloc(&mut self, st: &mut State, size: X, align: u64, fill: u32) -> R<u64> {
        if let Some(cap) = st.alloc_cap {
            let c = self.cx.bin(Op::Ule, 64, size, cap);
            let z = self.cx.bin(Op::Eq, 64, cap, X::C(0));
            let c = self.cx.bin(Op::Or, 1, c, z);
            if !self.fork_bool(st, c)? {
                let (v, c) = (self.eval(st, size), self.eval(st, cap));
                return viol("alloc", format!("allocation of {} bytes exceeds the bound of {}", v, c));
            }
        }
        let lim = st.alloc_limit.unwrap_or(BIG);
        let c = self.cx.bin(Op::Ule, 64, size, X::C(lim));
        if !self.fork_bool(st, c)? {
            return Ok(0);
        }
        self.new_obj(st, size, align, fill, true)
    }

    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let i = st.objs.partition_point(|(b, _)| *b < a);
        if i < st.objs.len() && st.objs[i].0 == a && st.objs[i].1.heap {
            st.objs.remove(i);
            return Ok(());
        }
        viol("memory", "free of an address that is not a live allocation")
    }

    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sb, so, _) = self.resolve(st, s, n, false)?;
        let (db, d_o, di) = self.resolve(st, d, n, true)?;
        let soff = s - sb;
        let doff = d - db;
        // explicit bytes of the source range
        let have = (so.data.len() as u64).saturating_sub(soff).min(n);
        let mut tmp: Vec<u32> = so.data[(soff as usize).min(so.data.len())..((soff + have) as usize).min(so.data.len())].to_vec();
        let sfill = so.fill;
        drop(so);
        let ob = self.obj_mut(st, db, d_o, di);
        let whole_tail = ob.csize() == Some(doff + n);
        if have < n {
            if whole_tail && (ob.fill == sfill || ob.data.len() as u64 <= doff + have) && ob.data.len() as u64 >= doff {
                // the rest of the destination becomes fill
                if ob.fill != sfill {
                    ob.fill = sfill;
                }
                ob.grow(doff);
                ob.data.truncate(doff as usize);
                ob.data.extend_from_slice(&tmp);
                return Ok(());
            }
            if n > 1 << 26 {
                return unsup("large copy");
            }
            tmp.resize(n as usize, sfill);
        }
        ob.grow(doff + n);
        ob.data[doff as usize..(doff + n) as usize].copy_from_slice(&tmp);
        Ok(())
    }

    fn memset(&mut self, st: &mut State, d: u64, v: X, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (b, o, i) = self.resolve(st, d, n, true)?;
        let off = d - b;
        let bv = Self::x_byte(v);
        let ob = self.obj_mut(st, b, o, i);
        if ob.csize() == Some(off + n) && n > 4096 && (off == 0 || ob.data.len() as u64 >= off) {
            ob.data.truncate(off as usize);
            ob.fill = bv;
            return Ok(());
        }
        if n > 1 << 26 {
            return unsup("large memset");
        }
        ob.grow(off + n);
        for x in &mut ob.data[off as usize..(off + n) as usize] {
            *x = bv;
        }
        Ok(())
    }

    // ------------------------------------------------------------------ instructions

    fn lanewise2(&mut self, ty: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Ctx, u16, X, X) -> X) -> R<Val> {
        match (ty, a, b) {
            (Ty::Vec(_, t), Val::A(x), Val::A(y)) => {
                let w = t.bits();
                let mut o = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    match (p, q) {
                        (Val::I(p), Val::I(q)) => o.push(Val::I(f(&mut self.cx, w, *p, *q))),
                        _ => return unsup("lane"),
                    }
                }
                Ok(Val::A(Rc::new(o)))
            }
            (t, Val::I(p), Val::I(q)) => Ok(Val::I(f(&mut self.cx, t.bits(), *p, *q))),
            _ => unsup("operand shape"),
        }
    }

    fn lanewise1(&mut self, ty: &Ty, a: &Val, f: &mut dyn FnMut(&mut Ctx, u16, X) -> X) -> R<Val> {
        match (ty, a) {
            (Ty::Vec(_, t), Val::A(x)) => {
                let w = t.bits();
                let mut o = Vec::with_capacity(x.len());
                for p in x.iter() {
                    match p {
                        Val::I(p) => o.push(Val::I(f(&mut self.cx, w, *p))),
                        _ => return unsup("lane"),
                    }
                }
                Ok(Val::A(Rc::new(o)))
            }
            (t, Val::I(p)) => Ok(Val::I(f(&mut self.cx, t.bits(), *p))),
            _ => unsup("operand shape"),
        }
    }

    fn to_bits(&mut self, ty: &Ty, v: &Val) -> R<(X, u16)> {
        match (ty, v) {
            (Ty::Vec(_, t), Val::A(x)) => {
                let w = t.bits();
                let mut acc = X::C(0);
                let mut n = 0u16;
                for e in x.iter() {
                    let e = match e {
                        Val::I(e) => *e,
                        _ => return unsup("bitcast"),
                    };
                    acc = if n == 0 { e } else { self.cx.concat(e, w, acc, n) };
                    n += w;
                }
                Ok((acc, n))
            }
            (t, Val::I(x)) => Ok((*x, t.bits())),
            _ => unsup("bitcast"),
        }
    }

    fn from_bits(&mut self, ty: &Ty, x: X, w: u16) -> R<Val> {
        match ty {
            Ty::Vec(n, t) => {
                let lw = t.bits();
                let mut v = vec![];
                for i in 0..*n as u16 {
                    v.push(Val::I(self.cx.extract(x, w, i * lw, lw)));
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Ok(Val::I(x)),
        }
    }

    fn set(st: &mut State, dst: Option<u32>, v: Val) {
        if let Some(d) = dst {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let f = st.frames.last().unwrap().f.clone();
        let from = st.frames.last().unwrap().blk;
        let blk = &f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let o = match p.inc.iter().find(|(b, _)| *b == from) {
                    Some((_, o)) => o,
                    None => return unsup("phi without edge"),
                };
                vals.push((p.dst, self.get(st, o, &p.ty)?));
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }

    fn target(&mut self, name: &Rc<str>) -> R<Target> {
        if let Some(t) = self.targets.get(name) {
            return Ok(t.clone());
        }
        let t = if is_panic(name) {
            Target::Panic
        } else if name.starts_with("llvm.") || name.starts_with("vp_") || is_libc(name) {
            Target::Ext
        } else if let Some(f) = self.m.func(name).map_err(Stop::Unsup)? {
            Target::F(Rc::new(f))
        } else {
            Target::Ext
        };
        self.targets.insert(name.clone(), t.clone());
        Ok(t)
    }

    fn enter(&mut self, st: &mut State, f: Rc<Func>, args: Vec<Val>, dst: Option<u32>, next: Option<u32>) -> R<()> {
        self.funcs.insert(f.name.clone());
        if f.params.len() != args.len() {
            return unsup(format!("arity of {}", f.name));
        }
        let mut regs = vec![Val::I(X::C(0)); f.nregs];
        for ((_, r), v) in f.params.iter().zip(args) {
            regs[*r as usize] = v;
        }
        st.frames.push(Frame { f, regs, blk: 0, ip: 0, dst, next, allocas: vec![] });
        let d = st.frames.len();
        if let Some(l) = st.depth_limit {
            if d > l {
                return viol("depth", format!("call depth exceeds {}", l));
            }
        }
        if d > 2000 {
            return unsup("call depth exceeds 2000");
        }
        Ok(())
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            let i = st.objs.partition_point(|(b, _)| b < a);
            if i < st.objs.len() && st.objs[i].0 == *a {
                st.objs.remove(i);
            }
        }
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        if let Some(v) = v {
            Self::set(st, fr.dst, v);
        }
        if let Some(n) = fr.next {
            self.jump(st, n)?;
        }
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let blk = &f.blocks[fr.blk as usize];
        let ins = &blk.insts[fr.ip];
        st.steps += 1;
        self.stats.instrs += 1;
        if self.stats.instrs & 0x3ffff == 0 && self.out_of_time() {
            return unsup("time budget exhausted or stopped");
        }
        if let Some(l) = st.step_limit {
            if st.steps > l {
                return viol("hang", format!("more than {} instructions executed", l));
            }
        }
        if st.steps > self.max_steps {
            return unsup("instruction budget exceeded");
        }
        let v = match &ins.i {
            I::Bin(op, ty, a, b) => {
                let a = self.get(st, a, ty)?;
                let b = self.get(st, b, ty)?;
                let o = match op {
                    BOp::Add => Op::Add,
                    BOp::Sub => Op::Sub,
                    BOp::Mul => Op::Mul,
                    BOp::UDiv => Op::UDiv,
                    BOp::SDiv => Op::SDiv,
                    BOp::URem => Op::URem,
                    BOp::SRem => Op::SRem,
                    BOp::And => Op::And,
                    BOp::Or => Op::Or,
                    BOp::Xor => Op::Xor,
                    BOp::Shl => Op::Shl,
                    BOp::LShr => Op::LShr,
                    BOp::AShr => Op::AShr,
                    BOp::F => return unsup("floating-point arithmetic"),
                };
                if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                    if let Val::I(d) = b {
                        let z = self.cx.k(0, ty.bits());
                        let c = self.cx.bin(Op::Eq, ty.bits(), d, z);
                        if self.fork_bool(st, c)? {
                            return viol("ub", "division by zero");
                        }
                    }
                }
                self.lanewise2(ty, &a, &b, &mut |c, w, x, y| c.bin(o, w, x, y))?
            }
            I::Cmp(p, ty, a, b) => {
                let a = self.get(st, a, ty)?;
                let b = self.get(st, b, ty)?;
                let p = *p;
                self.lanewise2(ty, &a, &b, &mut |c, w, x, y| match p {
                    Pred::Eq => c.bin(Op::Eq, w, x, y),
                    Pred::Ne => {
                        let e = c.bin(Op::Eq, w, x, y);
                        c.not1(e)
                    }
                    Pred::Ult => c.bin(Op::Ult, w, x, y),
                    Pred::Ule => c.bin(Op::Ule, w, x, y),
                    Pred::Ugt => c.bin(Op::Ult, w, y, x),
                    Pred::Uge => c.bin(Op::Ule, w, y, x),
                    Pred::Slt => c.bin(Op::Slt, w, x, y),
                    Pred::Sle => c.bin(Op::Sle, w, x, y),
                    Pred::Sgt => c.bin(Op::Slt, w, y, x),
                    Pred::Sge => c.bin(Op::Sle, w, y, x),
                })?
            }
            I::FCmp(p, ty, a, b) => {
                let a = self.get(st, a, ty)?;
                let b = self.get(st, b, ty)?;
                let p = *p;
                if !matches!(ty, Ty::F64) {
                    return unsup("fcmp of another type than double");
                }
                self.lanewise2(ty, &a, &b, &mut |c, w, x, y| {
                    let mag = |c: &mut Ctx, v| c.bin(Op::And, w, v, X::C(i64::MAX as u64));
                    let (mx, my) = (mag(c, x), mag(c, y));
                    let nx = c.bin(Op::Ult, w, X::C(0x7ff << 52), mx);
                    let ny = c.bin(Op::Ult, w, X::C(0x7ff << 52), my);
                    let uno = c.bin(Op::Or, 1, nx, ny);
                    // sign and magnitude as a number in two's complement, zeros being equal
                    let key = |c: &mut Ctx, v, m| {
                        let s = c.bin(Op::Slt, w, v, X::C(0));
                        let n = c.bin(Op::Sub, w, X::C(0), m);
                        c.ite(s, n, m, w)
                    };
                    let (kx, ky) = (key(c, x, mx), key(c, y, my));
                    let ord = c.not1(uno);
                    let mut r = if p & 8 != 0 { uno } else { X::C(0) };
                    let mut add = |c: &mut Ctx, v| {
                        let v = c.bin(Op::And, 1, v, ord);
                        r = c.bin(Op::Or, 1, r, v);
                    };
                    if p & 4 != 0 {
                        let v = c.bin(Op::Slt, w, kx, ky);
                        add(c, v);
                    }
                    if p & 2 != 0 {
                        let v = c.bin(Op::Slt, w, ky, kx);
                        add(c, v);
                    }
                    if p & 1 != 0 {
                        let v = c.bin(Op::Eq, w, kx, ky);
                        add(c, v);
                    }
                    r
                })?
            }
            I::Cast(op, from, to, a) => {
                let a = self.get(st, a, from)?;
                match op {
                    COp::Bit => {
                        let (x, w) = self.to_bits(from, &a)?;
                        self.from_bits(to, x, w)?
                    }
                    COp::F => return unsup("floating-point conversion"),
                    _ => {
                        let tw = match to {
                            Ty::Vec(_, t) => t.bits(),
                            t => t.bits(),
                        };
                        let op = *op;
                        self.lanewise1(from, &a, &mut |c, w, x| match op {
                            COp::Trunc => c.extract(x, w, 0, tw),
                            COp::ZExt => c.zext(x, w, tw),
                            _ => c.sext(x, w, tw),
                        })?
                    }
                }
            }
            I::Sel(ct, c, ty, a, b) => {
                let c = self.get(st, c, ct)?;
                let a = self.get(st, a, ty)?;
                let b = self.get(st, b, ty)?;
                match (&c, &a, &b) {
                    (Val::I(X::C(v)), _, _) => {
                        if v & 1 == 1 {
                            a
                        } else {
                            b
                        }
                    }
                    (Val::I(c), Val::I(x), Val::I(y)) => Val::I(self.cx.ite(*c, *x, *y, ty.bits())),
                    (Val::A(cs), Val::A(x), Val::A(y)) => {
                        let w = match ty {
                            Ty::Vec(_, t) => t.bits(),
                            _ => return unsup("select"),
                        };
                        let mut o = vec![];
                        for i in 0..cs.len() {
                            match (&cs[i], &x[i], &y[i]) {
                                (Val::I(c), Val::I(p), Val::I(q)) => o.push(Val::I(self.cx.ite(*c, *p, *q, w))),
                                _ => return unsup("select"),
                            }
                        }
                        Val::A(Rc::new(o))
                    }
                    (Val::I(c), _, _) => {
                        let c = *c;
                        if self.fork_bool(st, c)? {
                            a
                        } else {
                            b
                        }
                    }
                    _ => return unsup("select"),
                }
            }
            I::Load(ty, p, al) => {
                let a = self.geti(st, p, &Ty::Ptr)?;
                self.load(st, ty, a, *al)?
            }
            I::Store(ty, v, p, _) => {
                let a = self.geti(st, p, &Ty::Ptr)?;
                let v = self.get(st, v, ty)?;
                let a = self.concretise(st, a, 64)?;
                self.store(st, ty, &v, a)?;
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
            I::Gep(b, off, dynv) => {
                let mut x = self.geti(st, b, &Ty::Ptr)?;
                x = self.cx.bin(Op::Add, 64, x, X::C(*off as u64));
                for (o, w, sc) in dynv {
                    let v = self.geti(st, o, &Ty::Int(*w))?;
                    let v = if *w < 64 { self.cx.sext(v, *w, 64) } else { self.cx.extract(v, *w, 0, 64) };
                    let m = self.cx.bin(Op::Mul, 64, v, X::C(*sc as u64));
                    x = self.cx.bin(Op::Add, 64, x, m);
                }
                Val::I(x)
            }
            I::Alloca(sz, al) => {
                let a = self.new_obj(st, X::C(*sz), *al, UNINIT, false)?;
                st.frames.last_mut().unwrap().allocas.push(a);
                Val::I(X::C(a))
            }
            I::Br(l) => return self.jump(st, *l),
            I::CBr(c, a, b) => {
                let c = self.geti(st, c, &Ty::Int(1))?;
                let t = if self.fork_bool(st, c)? { *a } else { *b };
                return self.jump(st, t);
            }
            I::Switch(w, c, cases, def) => {
                let x = self.geti(st, c, &Ty::Int(*w))?;
                let t = match self.cx.cst(x) {
                    Some(v) => cases.iter().find(|(k, _)| *k == v).map(|(_, l)| *l).unwrap_or(*def),
                    None => {
                        self.check_uninit(st, x, *w, "switch on uninitialised memory")?;
                        let v = self.eval(st, x);
                        let t = cases.iter().find(|(k, _)| *k == v).map(|(_, l)| *l);
                        let tgt = t.unwrap_or(*def);
                        // condition for this target
                        let mut cond = X::C(0);
                        for (k, l) in cases {
                            let hit = if tgt == *def { *l != tgt } else { *l == tgt };
                            if hit {
                                let kk = self.cx.k(*k, *w);
                                let e = self.cx.bin(Op::Eq, *w, x, kk);
                                cond = self.cx.bin(Op::Or, 1, cond, e);
                            }
                        }
                        if tgt == *def {
                            cond = self.cx.not1(cond);
                        }
                        if !self.fork_bool(st, cond)? {
                            return unsup("switch");
                        }
                        tgt
                    }
                };
                return self.jump(st, t);
            }
            I::Ret(v) => {
                let v = match v {
                    Some((t, o)) => Some(self.get(st, o, t)?),
                    None => None,
                };
                return self.ret(st, v);
            }
            I::Unreachable => return viol("ub", "unreachable code reached"),
            I::ExtractV(ty, a, ix) => {
                let mut v = self.get(st, a, ty)?;
                for i in ix {
                    v = match v {
                        Val::A(l) => l[*i as usize].clone(),
                        _ => return unsup("extractvalue"),
                    };
                }
                v
            }
            I::InsertV(ty, a, ty2, b, ix) => {
                let v = self.get(st, a, ty)?;
                let b = self.get(st, b, ty2)?;
                fn ins(v: Val, ix: &[u32], b: Val) -> Option<Val> {
                    match v {
                        Val::A(mut l) => {
                            let m = Rc::make_mut(&mut l);
                            let e = m.get_mut(ix[0] as usize)?;
                            if ix.len() == 1 {
                                *e = b;
                            } else {
                                *e = ins(e.clone(), &ix[1..], b)?;
                            }
                            Some(Val::A(l))
                        }
                        _ => None,
                    }
                }
                match ins(v, ix, b) {
                    Some(v) => v,
                    None => return unsup("insertvalue"),
                }
            }
            I::ExtractE(ty, a, i) => {
                let v = self.get(st, a, ty)?;
                let i = self.geti(st, i, &Ty::Int(64))?;
                let i = self.concretise(st, i, 64)?;
                match v {
                    Val::A(l) => l[i as usize].clone(),
                    _ => return unsup("extractelement"),
                }
            }
            I::InsertE(ty, a, e, i) => {
                let v = self.get(st, a, ty)?;
                let et = match ty {
                    Ty::Vec(_, t) => (**t).clone(),
                    _ => return unsup("insertelement"),
                };
                let e = self.get(st, e, &et)?;
                let i = self.geti(st, i, &Ty::Int(64))?;
                let i = self.concretise(st, i, 64)?;
                match v {
                    Val::A(mut l) => {
                        Rc::make_mut(&mut l)[i as usize] = e;
                        Val::A(l)
                    }
                    _ => return unsup("insertelement"),
                }
            }
            I::Shuffle(ty, a, b, mask) => {
                let x = self.get(st, a, ty)?;
                let y = self.get(st, b, ty)?;
                match (x, y) {
                    (Val::A(x), Val::A(y)) => {
                        let n = x.len();
                        let o = mask
                            .iter()
                            .map(|m| match m {
                                Some(i) if (*i as usize) < n => x[*i as usize].clone(),
                                Some(i) => y[*i as usize - n].clone(),
                                None => Val::I(X::C(0)),
                            })
                            .collect();
                        Val::A(Rc::new(o))
                    }
                    _ => return unsup("shuffle"),
                }
            }
            I::Freeze(ty, a) => {
                let v = self.get(st, a, ty)?;
                match v {
                    Val::I(x) if self.has_uninit(x) => {
                        // the uninitialised bytes get arbitrary but fixed values
                        let n = format!("z{}", st.uninit);
                        st.uninit += 1;
                        Val::I(self.cx.rename_uninit(x, ty.bits(), &n, false, &mut HashMap::new()))
                    }
                    v => v,
                }
            }
            I::Nop => Val::I(X::C(0)),
            I::Rmw(op, ty, p, v) => {
                let a = self.geti(st, p, &Ty::Ptr)?;
                let a = self.concretise(st, a, 64)?;
                let v = self.geti(st, v, ty)?;
                let w = ty.bits();
                let old = self.load_scalar(st, ty, X::C(a), 1)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.cx.bin(Op::Add, w, old, v),
                    "sub" => self.cx.bin(Op::Sub, w, old, v),
                    "and" => self.cx.bin(Op::And, w, old, v),
                    "or" => self.cx.bin(Op::Or, w, old, v),
                    "xor" => self.cx.bin(Op::Xor, w, old, v),
                    _ => return unsup(format!("atomicrmw {}", op)),
                };
                self.store_scalar(st, w, new, a)?;
                Val::I(old)
            }
            I::CmpXchg(ty, p, c, n) => {
                let a = self.geti(st, p, &Ty::Ptr)?;
                let a = self.concretise(st, a, 64)?;
                let c = self.geti(st, c, ty)?;
                let n = self.geti(st, n, ty)?;
                let w = ty.bits();
                let old = self.load_scalar(st, ty, X::C(a), 1)?;
                let eq = self.cx.bin(Op::Eq, w, old, c);
                let ok = self.fork_bool(st, eq)?;
                if ok {
                    self.store_scalar(st, w, n, a)?;
                }
                Val::A(Rc::new(vec![Val::I(old), Val::I(X::C(ok as u64))]))
            }
            I::Unsup(s) => return unsup(format!("instruction {} in {}", s, f.name)),
            I::Call { callee, args, ret, next } => {
                let mut vals = Vec::with_capacity(args.len());
                for (t, o, byval) in args {
                    let v = self.get(st, o, t)?;
                    if *byval {
                        return unsup("byval argument");
                    }
                    vals.push(v);
                }
                let name: Rc<str> = match callee {
                    Callee::Name(n) => n.clone(),
                    Callee::Ind(o) => {
                        let a = self.geti(st, o, &Ty::Ptr)?;
                        let a = self.concretise(st, a, 64)?;
                        match self.faddr.get(&a) {
                            Some(n) => n.clone(),
                            None => return viol("memory", "call through an invalid function pointer"),
                        }
                    }
                    Callee::Asm(s) => {
                        if s.is_empty() {
                            let fr = st.frames.last_mut().unwrap();
                            if *ret != Ty::Void {
                                return unsup("inline asm result");
                            }
                            fr.ip += 1;
                            return Ok(());
                        }
                        return unsup(format!("inline asm {:?}", s));
                    }
                };
                match self.target(&name)? {
                    Target::F(fun) => {
                        if next.is_none() {
                            st.frames.last_mut().unwrap().ip += 1;
                        }
                        return self.enter(st, fun, vals, ins.dst, *next);
                    }
                    Target::Panic => {
                        let loc = self.panic_info(st, &vals);
                        return viol("panic", format!("{}{}", short(&name), loc));
                    }
                    Target::Ext => {
                        let tys: Vec<Ty> = args.iter().map(|(t, _, _)| t.clone()).collect();
                        let v = self.external(st, &name, &tys, vals, ret)?;
                        if let Some(n) = next {
                            Self::set(st, ins.dst, v);
                            return self.jump(st, *n);
                        }
                        v
                    }
                }
            }
        };
        let fr = st.frames.last_mut().unwrap();
        if let Some(d) = ins.dst {
            fr.regs[d as usize] = v;
        }
        fr.ip += 1;
        Ok(())
    }

    /// Location (and message, where it is a plain string) of a panic from the call's arguments.
    fn panic_info(&mut self, st: &mut State, args: &[Val]) -> String {
        let mut out = String::new();
        for v in args.iter() {
            if let Val::I(X::C(a)) = v {
                if let Some((b, o, _)) = self.find(st, *a) {
                    if *a == b && o.csize() == Some(24) {
                        let rd = |o: &Obj, off: u64, n: u64| (0..n).fold(0u64, |acc, i| acc | ((o.get(off + i) as u64 & 255) << (8 * i)));
                        let p = rd(&o, 0, 8);
                        let l = rd(&o, 8, 8);
                        let line = rd(&o, 16, 4);
                        if let Some((sb, so, _)) = self.find(st, p) {
                            if l < 300 && so.csize().map_or(false, |s| p - sb + l <= s) {
                                let s: String = (0..l).map(|i| (so.get(p - sb + i) & 255) as u8 as char).collect();
                                let s = s.rsplit("/library/").next().unwrap_or("").to_string();
                                let s = s.trim_start_matches("/repo/").to_string();
                                out = format!(" at {}:{}", s, line);
                            }
                        }
                    }
                }
            }
        }
        out
    }

    // ------------------------------------------------------------------ external functions

    fn external(&mut self, st: &mut State, name: &str, tys: &[Ty], a: Vec<Val>, ret: &Ty) -> R<Val> {
        let unit = Val::I(X::C(0));
        let i = |k: usize| -> R<X> {
            match a.get(k) {
                Some(Val::I(x)) => Ok(*x),
                _ => unsup(format!("argument of {}", name)),
            }
        };
        if let Some(n) = name.strip_prefix("vp_") {
            return self.harness(st, n, &a);
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, tys, &a, ret);
        }
        Ok(match name {
            "malloc" => {
                let s = i(0)?;
                Val::I(X::C(self.alloc(st, s, 16, UNINIT)?))
            }
            "calloc" => {
                let (x, y) = (i(0)?, i(1)?);
                let s = self.cx.bin(Op::Mul, 64, x, y);
                Val::I(X::C(self.alloc(st, s, 16, 0)?))
            }
            "aligned_alloc" => {
                let al = self.concretise(st, i(0)?, 64)?;
                Val::I(X::C(self.alloc(st, i(1)?, al, UNINIT)?))
            }
            "posix_memalign" => {
                let p = self.concretise(st, i(0)?, 64)?;
                let al = self.concretise(st, i(1)?, 64)?;
                let r = self.alloc(st, i(2)?, al, UNINIT)?;
                if r == 0 {
                    Val::I(X::C(12))
                } else {
                    self.store_scalar(st, 64, X::C(r), p)?;
                    Val::I(X::C(0))
                }
            }
            "free" => {
                let p = self.concretise(st, i(0)?, 64)?;
                self.free(st, p)?;
                unit
            }
            "realloc" => {
                let p = self.concretise(st, i(0)?, 64)?;
                let s = i(1)?;
                if p == 0 {
                    return Ok(Val::I(X::C(self.alloc(st, s, 16, UNINIT)?)));
                }
                let k = st.objs.partition_point(|(b, _)| *b < p);
                if k >= st.objs.len() || st.objs[k].0 != p || !st.objs[k].1.heap {
                    return viol("memory", "realloc of an address that is not a live allocation");
                }
                let r = self.alloc(st, s, 16, UNINIT)?;
                if r != 0 {
                    let old = st.objs[k].1.clone();
                    let mut d = old.data.clone();
                    if let X::C(n) = s {
                        d.truncate(n as usize);
                    } else if old.fill != UNINIT {
                        return unsup("realloc");
                    }
                    if old.fill != UNINIT {
                        let n = old.csize().unwrap_or(0).min(if let X::C(n) = s { n } else { u64::MAX });
                        if n > 1 << 24 {
                            return unsup("large realloc");
                        }
                        d.resize(n as usize, old.fill);
                    }
                    let j = st.objs.len() - 1;
                    Rc::make_mut(&mut st.objs[j].1).data = d;
                    st.objs.remove(k);
                }
                Val::I(X::C(r))
            }
            "memcpy" | "memmove" => {
                let d = self.concretise(st, i(0)?, 64)?;
                let s = self.concretise(st, i(1)?, 64)?;
                let n = self.concretise(st, i(2)?, 64)?;
                self.memcpy(st, d, s, n)?;
                Val::I(X::C(d))
            }
            "memset" => {
                let d = self.concretise(st, i(0)?, 64)?;
                let n = self.concretise(st, i(2)?, 64)?;
                let v = self.cx.extract(i(1)?, 32, 0, 8);
                self.memset(st, d, v, n)?;
                Val::I(X::C(d))
            }
            "memcmp" | "bcmp" => {
                let p = self.concretise(st, i(0)?, 64)?;
                let q = self.concretise(st, i(1)?, 64)?;
                let n = self.concretise(st, i(2)?, 64)?;
                if n == 0 {
                    return Ok(Val::I(X::C(0)));
                }
                let (pb, po, _) = self.resolve(st, p, n, false)?;
                let (qb, qo, _) = self.resolve(st, q, n, false)?;
                let mut r = X::C(0);
                for k in (0..n).rev() {
                    let x = self.byte_x(st, po.get(p - pb + k));
                    let y = self.byte_x(st, qo.get(q - qb + k));
                    let e = self.cx.bin(Op::Eq, 8, x, y);
                    let l = self.cx.bin(Op::Ult, 8, x, y);
                    let d = self.cx.ite(l, X::C(0xffff_ffff), X::C(1), 32);
                    r = self.cx.ite(e, r, d, 32);
                }
                Val::I(r)
            }
            "strlen" => {
                let p = self.concretise(st, i(0)?, 64)?;
                let mut n = 0;
                loop {
                    let x = self.load_scalar(st, &Ty::Int(8), X::C(p + n), 1)?;
                    let c = self.cx.bin(Op::Eq, 8, x, X::C(0));
                    if self.fork_bool(st, c)? {
                        break;
                    }
                    n += 1;
                }
                Val::I(X::C(n))
            }
            "abort" | "exit" | "_exit" => return viol("panic", format!("{} called", name)),
            _ => {
                if name.contains("__rust_no_alloc_shim_is_unstable") {
                    return Ok(unit);
                }
                return unsup(format!("external function {}", name));
            }
        })
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, tys: &[Ty], a: &[Val], ret: &Ty) -> R<Val> {
        let unit = Val::I(X::C(0));
        let base = n;
        let i = |k: usize| -> R<X> {
            match a.get(k) {
                Some(Val::I(x)) => Ok(*x),
                _ => unsup(format!("argument of llvm.{}", n)),
            }
        };
        for p in ["lifetime.", "experimental.noalias", "dbg.", "invariant.", "prefetch", "donothing", "sideeffect", "var.annotation", "pseudoprobe"] {
            if base.starts_with(p) {
                return Ok(unit);
            }
        }
        if base.starts_with("assume") {
            let c = i(0)?;
            if !self.fork_bool(st, c)? {
                return viol("ub", "an assumption of the compiled code is violated");
            }
            return Ok(unit);
        }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let d = self.concretise(st, i(0)?, 64)?;
            let s = self.concretise(st, i(1)?, 64)?;
            let n = self.concretise(st, i(2)?, tys[2].bits())?;
            self.memcpy(st, d, s, n)?;
            return Ok(unit);
        }
        if base.starts_with("memset") {
            let d = self.concretise(st, i(0)?, 64)?;
            let n = self.concretise(st, i(2)?, tys[2].bits())?;
            self.memset(st, d, i(1)?, n)?;
            return Ok(unit);
        }
        if base.starts_with("expect") || base.starts_with("threadlocal.address") || base.starts_with("ptr.annotation") || base.starts_with("launder") || base.starts_with("strip") {
            return Ok(a[0].clone());
        }
        if base.starts_with("is.constant") {
            return Ok(Val::I(X::C(0)));
        }
        if base.starts_with("trap") || base.starts_with("debugtrap") || base.starts_with("ubsantrap") {
            return viol("panic", "trap");
        }
        if base.starts_with("load.relative") {
            let p = i(0)?;
            let o = i(1)?;
            let o = if tys[1].bits() < 64 { self.cx.sext(o, tys[1].bits(), 64) } else { o };
            let q = self.cx.bin(Op::Add, 64, p, o);
            let v = self.load_scalar(st, &Ty::Int(32), q, 4)?;
            let v = self.cx.sext(v, 32, 64);
            return Ok(Val::I(self.cx.bin(Op::Add, 64, p, v)));
        }
        let ty = tys.first().cloned().unwrap_or(Ty::Void);
        let bin = |s: &mut Self, f: &mut dyn FnMut(&mut Ctx, u16, X, X) -> X| s.lanewise2(&ty, &a[0], &a[1], f);
        fn minmax(op: Op, min: bool) -> impl FnMut(&mut Ctx, u16, X, X) -> X {
            move |c, w, x, y| {
                let l = c.bin(op, w, x, y);
                if min {
                    c.ite(l, x, y, w)
                } else {
                    c.ite(l, y, x, w)
                }
            }
        }
        if base.starts_with("umin.") {
            return bin(self, &mut minmax(Op::Ult, true));
        }
        if base.starts_with("umax.") {
            return bin(self, &mut minmax(Op::Ult, false));
        }
        if base.starts_with("smin.") {
            return bin(self, &mut minmax(Op::Slt, true));
        }
        if base.starts_with("smax.") {
            return bin(self, &mut minmax(Op::Slt, false));
        }
        if base.starts_with("fabs.f") {
            return self.lanewise1(&ty, &a[0], &mut |c, w, x| c.bin(Op::And, w, x, X::C(mask(w) as u64 >> 1)));
        }
        if base.starts_with("copysign.f") {
            return bin(self, &mut |c, w, x, y| {
                let m = c.bin(Op::And, w, x, X::C(mask(w) as u64 >> 1));
                let s = c.bin(Op::And, w, y, X::C(1 << (w - 1)));
                c.bin(Op::Or, w, m, s)
            });
        }
        if base.starts_with("abs.") {
            return self.lanewise1(&ty, &a[0], &mut |c, w, x| {
                let z = c.k(0, w);
                let n = c.bin(Op::Sub, w, z, x);
                let l = c.bin(Op::Slt, w, x, z);
                c.ite(l, n, x, w)
            });
        }
        if base.starts_with("ucmp.") || base.starts_with("scmp.") {
            let op = if base.starts_with('u') { Op::Ult } else { Op::Slt };
            let rw = ret.bits();
            return bin(self, &mut |c, w, x, y| {
                let l = c.bin(op, w, x, y);
                let e = c.bin(Op::Eq, w, x, y);
                let m1 = c.k(mask(rw), rw);
                let z = c.k(0, rw);
                let o = c.k(1, rw);
                let r = c.ite(e, z, o, rw);
                c.ite(l, m1, r, rw)
            });
        }
        for (p, op, signed) in [
            ("uadd.with.overflow", Op::Add, false),
            ("usub.with.overflow", Op::Sub, false),
            ("umul.with.overflow", Op::Mul, false),
            ("sadd.with.overflow", Op::Add, true),
            ("ssub.with.overflow", Op::Sub, true),
            ("smul.with.overflow", Op::Mul, true),
        ] {
            if base.starts_with(p) {
                let w = ty.bits();
                let (x, y) = (i(0)?, i(1)?);
                let r = self.cx.bin(op, w, x, y);
                let ov = self.overflow(op, signed, w, x, y, r);
                return Ok(Val::A(Rc::new(vec![Val::I(r), Val::I(ov)])));
            }
        }
        for (p, op, signed) in [("uadd.sat", Op::Add, false), ("usub.sat", Op::Sub, false), ("sadd.sat", Op::Add, true), ("ssub.sat", Op::Sub, true)] {
            if base.starts_with(p) {
                let w = ty.bits();
                let (x, y) = (i(0)?, i(1)?);
                let r = self.cx.bin(op, w, x, y);
                let ov = self.overflow(op, signed, w, x, y, r);
                let s = if !signed {
                    if op == Op::Add {
                        self.cx.k(mask(w), w)
                    } else {
                        self.cx.k(0, w)
                    }
                } else {
                    let neg = self.cx.extract(x, w, w - 1, 1);
                    let lo = self.cx.k(1u128 << (w - 1), w);
                    let hi = self.cx.k(mask(w) >> 1, w);
                    self.cx.ite(neg, lo, hi, w)
                };
                return Ok(Val::I(self.cx.ite(ov, s, r, w)));
            }
        }
        if base.starts_with("ctpop.") {
            return self.lanewise1(&ty, &a[0], &mut |c, w, x| {
                let mut acc = c.k(0, w);
                for b in 0..w {
                    let e = c.extract(x, w, b, 1);
                    let e = c.zext(e, 1, w);
                    acc = c.bin(Op::Add, w, acc, e);
                }
                acc
            });
        }
        if base.starts_with("cttz.") || base.starts_with("ctlz.") {
            let tz = base.starts_with("cttz.");
            return self.lanewise1(&ty, &a[0], &mut |c, w, x| {
                if let Some(v) = c.cst(x) {
                    let r = if v == 0 {
                        w as u32
                    } else if tz {
                        v.trailing_zeros()
                    } else {
                        v.leading_zeros() - (128 - w as u32)
                    };
                    return c.k(r as u128, w);
                }
                let mut acc = c.k(w as u128, w);
                for j in 0..w {
                    // the last ite decides: iterate from the far end
                    let b = if tz { w - 1 - j } else { j };
                    let cnt = if tz { b } else { w - 1 - b };
                    let e = c.extract(x, w, b, 1);
                    let k = c.k(cnt as u128, w);
                    acc = c.ite(e, k, acc, w);
                }
                acc
            });
        }
        if base.starts_with("bswap.") {
            return self.lanewise1(&ty, &a[0], &mut |c, w, x| {
                let mut acc = c.extract(x, w, 0, 8);
                let mut n = 8;
                while n < w {
                    let b = c.extract(x, w, n, 8);
                    acc = c.concat(acc, n, b, 8);
                    n += 8;
                }
                acc
            });
        }
        if base.starts_with("bitreverse.") {
            return self.lanewise1(&ty, &a[0], &mut |c, w, x| {
                let mut acc = c.extract(x, w, 0, 1);
                for n in 1..w {
                    let b = c.extract(x, w, n, 1);
                    acc = c.concat(acc, n, b, 1);
                }
                acc
            });
        }
        if base.starts_with("fshl.") || base.starts_with("fshr.") {
            let w = ty.bits();
            let (x, y, s) = (i(0)?, i(1)?, i(2)?);
            let kw = self.cx.k(w as u128, w);
            let s = self.cx.bin(Op::URem, w, s, kw);
            let left = base.starts_with("fshl.");
            let inv = self.cx.bin(Op::Sub, w, kw, s);
            let (hi, lo) = if left { (s, inv) } else { (inv, s) };
            // shifts by >= w give 0, as needed
            let p = self.cx.bin(Op::Shl, w, x, hi);
            let q = self.cx.bin(Op::LShr, w, y, lo);
            return Ok(Val::I(self.cx.bin(Op::Or, w, p, q)));
        }
        for (p, op) in [("vector.reduce.or.", Op::Or), ("vector.reduce.and.", Op::And), ("vector.reduce.add.", Op::Add), ("vector.reduce.xor.", Op::Xor)] {
            if base.starts_with(p) {
                if let (Ty::Vec(_, t), Val::A(l)) = (&ty, &a[0]) {
                    let w = t.bits();
                    let mut acc = None;
                    for x in l.iter() {
                        if let Val::I(x) = x {
                            acc = Some(match acc {
                                None => *x,
                                Some(y) => self.cx.bin(op, w, y, *x),
                            });
                        }
                    }
                    return Ok(Val::I(acc.unwrap()));
                }
            }
        }
        unsup(format!("intrinsic llvm.{}", n))
    }

    fn overflow(&mut self, op: Op, signed: bool, w: u16, x: X, y: X, r: X) -> X {
        let cx = &mut self.cx;
        match (op, signed) {
            (Op::Add, false) => cx.bin(Op::Ult, w, r, x),
            (Op::Sub, false) => cx.bin(Op::Ult, w, x, y),
            _ => {
                if w > 64 {
                    // not needed so far; exact only up to 64 bits
                    eprintln!("irsym: wide overflow");
                    std::process::exit(3);
                }
                let ew = if op == Op::Mul { w * 2 } else { w + 1 };
                let (ex, ey, er);
                if signed {
                    ex = cx.sext(x, w, ew);
                    ey = cx.sext(y, w, ew);
                    er = cx.sext(r, w, ew);
                } else {
                    ex = cx.zext(x, w, ew);
                    ey = cx.zext(y, w, ew);
                    er = cx.zext(r, w, ew);
                }
                let full = cx.bin(op, ew, ex, ey);
                let e = cx.bin(Op::Eq, ew, full, er);
                cx.not1(e)
            }
        }
    }

    fn harness(&mut self, st: &mut State, n: &str, a: &[Val]) -> R<Val> {
        let unit = Val::I(X::C(0));
        let i = |k: usize| -> R<X> {
            match a.get(k) {
                Some(Val::I(x)) => Ok(*x),
                _ => unsup(format!("argument of vp_{}", n)),
            }
        };
        Ok(match n {
            "nd" => {
                let bits = self.concretise(st, i(0)?, 32)? as u16;
                let x = self.cx.var(&format!("n{}", st.nvar), bits, false);
                st.nvar += 1;
                st.tape.push(Tape::V(x));
                Val::I(self.cx.zext(x, bits, 64))
            }
            "nd_buf" => {
                let p = self.concretise(st, i(0)?, 64)?;
                let l = self.concretise(st, i(1)?, 64)?;
                for k in 0..l {
                    let x = self.cx.var(&format!("n{}", st.nvar), 8, false);
                    st.nvar += 1;
                    st.tape.push(Tape::V(x));
                    self.store_scalar(st, 8, x, p + k)?;
                }
                unit
            }
            "assume" => {
                let c = self.cx.extract(i(0)?, 64, 0, 1);
                match c {
                    X::C(0) => return Err(Stop::Killed),
                    X::C(_) => {}
                    c => {
                        self.check_uninit(st, c, 1, "assumption on uninitialised memory")?;
                        if self.eval(st, c) & 1 == 0 {
                            match self.feasible(&st.pc.clone(), c)? {
                                None => return Err(Stop::Killed),
                                Some(p) => self.patch(st, &p),
                            }
                        }
                        self.add_pc(st, c);
                    }
                }
                unit
            }
            "choose" => {
                let k = self.concretise(st, i(0)?, 32)? as u32;
                if k == 0 {
                    return Err(Stop::Killed);
                }
                // the other choices continue after this call
                for v in (1..k).rev() {
                    let mut o = Box::new(st.clone());
                    let fr = o.frames.last_mut().unwrap();
                    let ins = &fr.f.blocks[fr.blk as usize].insts[fr.ip];
                    if let Some(d) = ins.dst {
                        fr.regs[d as usize] = Val::I(X::C(v as u64));
                    }
                    let next = match &ins.i {
                        I::Call { next, .. } => *next,
                        _ => None,
                    };
                    if next.is_some() {
                        return unsup("vp_choose in invoke");
                    }
                    fr.ip += 1;
                    o.tape.push(Tape::C(v as u64));
                    self.work.push_back(o);
                    self.stats.forks += 1;
                }
                st.tape.push(Tape::C(0));
                Val::I(X::C(0))
            }
            "concrete" => {
                let x = i(0)?;
                Val::I(X::C(self.concretise(st, x, 64)?))
            }
            "fail" => {
                let p = self.concretise(st, i(0)?, 64)?;
                let l = self.concretise(st, i(1)?, 64)?;
                let (b, o, _) = self.resolve(st, p, l, false)?;
                let s: String = (0..l).map(|k| (o.get(p - b + k) & 255) as u8 as char).collect();
                return viol("fail", s);
            }
            "reach" => {
                let v = self.concretise(st, i(0)?, 32)? as u32;
                if !st.reach.contains(&v) {
                    st.reach.push(v);
                }
                unit
            }
            "obs" => {
                let x = i(0)?;
                st.obs.push(x);
                unit
            }
            "depth_limit" => {
                let v = self.concretise(st, i(0)?, 32)? as usize;
                st.depth_limit = if v == 0 { None } else { Some(st.frames.len() + v) };
                unit
            }
            "step_limit" => {
                let v = self.concretise(st, i(0)?, 64)?;
                st.step_limit = if v == 0 { None } else { Some(st.steps + v) };
                unit
            }
            "alloc_limit" => {
                let v = self.concretise(st, i(0)?, 64)?;
                st.alloc_limit = if v == 0 { None } else { Some(v) };
                unit
            }
            "alloc_cap" => {
                let v = i(0)?;
                st.alloc_cap = if matches!(v, X::C(0)) { None } else { Some(v) };
                unit
            }
            "live" => Val::I(X::C(st.objs.iter().filter(|(_, o)| o.heap).count() as u64)),
            _ => return unsup(format!("vp_{}", n)),
        })
    }

    // ------------------------------------------------------------------ exploration

    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let name: Rc<str> = Rc::from(entry);
        let f = self.m.func(&name)?.ok_or_else(|| format!("no function {}", entry))?;
        let f = Rc::new(f);
        let mut st = Box::new(State {
            frames: vec![],
            objs: vec![],
            next: HEAP_BASE,
            pc: vec![],
            model: Rc::new(vec![]),
            tape: vec![],
            nvar: 0,
            obs: vec![],
            reach: vec![],
            steps: 0,
            uninit: 0,
            depth_limit: None,
            step_limit: None,
            alloc_limit: None,
            alloc_cap: None,
            forks: 0,
        });
        self.enter(&mut st, f, vec![], None, None).map_err(|e| format!("{:?}", e))?;
        self.work.push_back(st);
        Ok(())
    }

    fn tape_values(&mut self, st: &State) -> Vec<u64> {
        st.tape
            .iter()
            .map(|t| match t {
                Tape::C(v) => *v,
                Tape::V(x) => self.eval(st, *x) as u64,
            })
            .collect()
    }

    /// whether the time budget is used up or the caller has asked to stop
    pub fn out_of_time(&self) -> bool {
        self.begun.elapsed().as_secs_f64() > self.timeout || self.stop_file.as_ref().map_or(false, |f| std::path::Path::new(f).exists())
    }

    /// Run one state to its end.
    pub fn run(&mut self, mut st: Box<State>) {
        let e = loop {
            if let Err(e) = self.step(&mut st) {
                break e;
            }
        };
        self.cur_model = std::ptr::null();
        match e {
            Stop::Done => {
                self.stats.paths += 1;
                self.stats.max_tape = self.stats.max_tape.max(st.tape.len() as u64);
                self.stats.max_steps = self.stats.max_steps.max(st.steps);
                for r in &st.reach {
                    *self.reach.entry(*r).or_insert(0) += 1;
                }
                // reservoir of samples
                self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let n = self.stats.paths;
                let cap = 6;
                let slot = if self.samples.len() < cap { Some(self.samples.len()) } else {
                    let k = ((self.seed >> 33) % n) as usize;
                    if k < cap { Some(k) } else { None }
                };
                if let Some(k) = slot {
                    let tape = self.tape_values(&st);
                    let obs = st.obs.clone().iter().map(|&x| self.eval(&st, x) as u64).collect();
                    let s = Sample { tape, obs };
                    if k < self.samples.len() {
                        self.samples[k] = s;
                    } else {
                        self.samples.push(s);
                    }
                }
            }
            Stop::Killed => self.stats.killed += 1,
            Stop::Viol(kind, label) => {
                self.stats.paths += 1;
                for r in &st.reach {
                    *self.reach.entry(*r).or_insert(0) += 1;
                }
                let key = (kind.clone(), label.clone());
                let c = self.viol_counts.entry(key).or_insert(0);
                *c += 1;
                if *c == 1 {
                    if let Some(f) = &self.stop_file {
                        use std::io::Write;
                        let l = format!("{}\t{}\t{}\n", self.entry, kind, label.replace(['\n', '\t'], " "));
                        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}.seen", f)) {
                            let _ = f.write_all(l.as_bytes());
                        }
                    }
                }
                if *c <= 3 {
                    let tape = self.tape_values(&st);
                    let stack = st.frames.iter().map(|f| f.f.name.to_string()).collect();
                    self.viols.push(Violation { kind, label, tape, stack });
                }
            }
            Stop::Unsup(s) => {
                if self.error.is_none() {
                    let stack: Vec<String> = st.frames.iter().map(|f| short(&f.f.name)).collect();
                    self.error = Some(format!("{} [in {}]", s, stack.join(" > ")));
                }
            }
        }
    }
}

pub fn is_panic(n: &str) -> bool {
    n.contains("4core9panicking")
        || n.contains("3std9panicking")
        || n.contains("18handle_alloc_error")
        || n.contains("8rust_oom")
        || n.contains("rust_begin_unwind")
        || n.contains("alloc_error_handler")
        || n.contains("3std7process5abort")
}

fn is_libc(n: &str) -> bool {
    matches!(n, "malloc" | "calloc" | "realloc" | "free" | "posix_memalign" | "aligned_alloc" | "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" | "abort")
}

/// Readable form of a v0-mangled symbol: its identifiers joined by `::`.
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[st..i].parse().unwrap_or(0);
            let mut s = i;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if l == 0 || s + l > b.len() {
                break;
            }
            out.push(n[s..s + l].to_string());
            i = s + l;
        } else if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s..._
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out.join("::")
}
