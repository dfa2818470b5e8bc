//! Parser for the textual LLVM IR of a module. Functions and globals are indexed up front and parsed
//! on first use.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    FOther(u16),
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    St(Rc<StructTy>),
    Other,
}

#[derive(Debug, PartialEq)]
pub struct StructTy {
    pub f: Vec<Ty>,
    pub off: Vec<u64>,
    pub size: u64,
    pub align: u64,
}

impl Ty {
    /// width in bits of a scalar
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::FOther(w) => *w,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 | Ty::FOther(_))
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(s) => s.size,
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(_) => 16,
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::St(s) => s.align,
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        let a = self.align();
        (self.store_size() + a - 1) / a * a
    }
    pub fn mk_struct(f: Vec<Ty>, packed: bool) -> Ty {
        let mut off = vec![];
        let mut o = 0;
        let mut al = 1;
        for t in &f {
            let a = if packed { 1 } else { t.align() };
            al = al.max(a);
            o = (o + a - 1) / a * a;
            off.push(o);
            o += t.size();
        }
        o = (o + al - 1) / al * al;
        Ty::St(Rc::new(StructTy { f, off, size: o, align: al }))
    }
}

/// Constants
#[derive(Clone, Debug)]
pub enum K {
    I(u128),
    Zero,
    Undef,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, K)>),
    /// global symbol plus offset
    Sym(Rc<str>, i64),
    /// arithmetic over constants: add/sub/trunc
    Expr(&'static str, Box<K>, Box<K>, u16),
}

#[derive(Clone, Debug)]
pub enum Opn {
    R(u32),
    K(K),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    F,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum COp {
    Trunc,
    ZExt,
    SExt,
    Bit,
    F,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(Rc<str>),
    Ind(Opn),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BOp, Ty, Opn, Opn),
    Cmp(Pred, Ty, Opn, Opn),
    /// which of unordered (8), less (4), greater (2), equal (1) give true
    FCmp(u8, Ty, Opn, Opn),
    Cast(COp, Ty, Ty, Opn),
    Sel(Ty, Opn, Ty, Opn, Opn),
    Load(Ty, Opn, u64),
    Store(Ty, Opn, Opn, u64),
    Gep(Opn, i64, Vec<(Opn, u16, i64)>),
    Alloca(u64, u64),
    Call { callee: Callee, args: Vec<(Ty, Opn, bool)>, ret: Ty, next: Option<u32> },
    Br(u32),
    CBr(Opn, u32, u32),
    Switch(u16, Opn, Vec<(u128, u32)>, u32),
    Ret(Option<(Ty, Opn)>),
    Unreachable,
    ExtractV(Ty, Opn, Vec<u32>),
    InsertV(Ty, Opn, Ty, Opn, Vec<u32>),
    ExtractE(Ty, Opn, Opn),
    InsertE(Ty, Opn, Opn, Opn),
    Shuffle(Ty, Opn, Opn, Vec<Option<u32>>),
    Freeze(Ty, Opn),
    Nop,
    Rmw(String, Ty, Opn, Opn),
    CmpXchg(Ty, Opn, Opn, Opn),
    Unsup(String),
}

#[derive(Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub i: I,
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Opn)>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub ninsts: usize,
}

#[derive(Debug)]
pub struct Global {
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
    pub align: u64,
    pub alias: Option<K>,
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    W(&'a str),
    L(std::borrow::Cow<'a, str>),
    G(std::borrow::Cow<'a, str>),
    N(&'a str),
    S(&'a str),
    CS(&'a str),
    P(u8),
    Lbl(std::borrow::Cow<'a, str>),
    M,
    A,
    NL,
    Eof,
}

fn unq(s: &str) -> std::borrow::Cow<'_, str> {
    if s.contains('\\') {
        std::borrow::Cow::Owned(String::from_utf8_lossy(&unesc(s)).into_owned())
    } else {
        std::borrow::Cow::Borrowed(s)
    }
}

fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 1 < b.len() && b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn lex(s: &str) -> Vec<T<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' => i += 1,
            b'\n' => {
                v.push(T::NL);
                i += 1;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let st = i + 1;
                let name;
                if b[st] == b'"' {
                    let mut e = st + 1;
                    while b[e] != b'"' {
                        e += 1;
                    }
                    name = unq(&s[st + 1..e]);
                    i = e + 1;
                } else {
                    let mut e = st;
                    while e < b.len() && idc(b[e]) {
                        e += 1;
                    }
                    name = std::borrow::Cow::Borrowed(&s[st..e]);
                    i = e;
                }
                v.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'"' => {
                let mut e = i + 1;
                while b[e] != b'"' {
                    e += 1;
                }
                if b.get(e + 1) == Some(&b':') {
                    v.push(T::Lbl(unq(&s[i + 1..e])));
                    i = e + 2;
                } else {
                    v.push(T::S(&s[i + 1..e]));
                    i = e + 1;
                }
            }
            b'!' => {
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    let mut e = i + 1;
                    while b[e] != b'"' {
                        e += 1;
                    }
                    i = e + 1;
                } else {
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                }
                v.push(T::M);
            }
            b'#' => {
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                v.push(T::A);
            }
            b'+' | b'-' if b.get(i + 1).is_some_and(|c| c.is_ascii_alphabetic()) => {
                // a floating point number: +inf, -qnan, +nan(0x1)
                let st = i;
                i += 1;
                while i < b.len() && b[i].is_ascii_alphabetic() {
                    i += 1;
                }
                if b.get(i) == Some(&b'(') {
                    while i < b.len() && b[i - 1] != b')' {
                        i += 1;
                    }
                }
                v.push(T::N(&s[st..i]));
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && (idc(b[i]) || (b[i] == b'+' && b[i - 1] == b'e')) {
                    i += 1;
                }
                if b.get(i) == Some(&b':') {
                    v.push(T::Lbl(std::borrow::Cow::Borrowed(&s[st..i])));
                    i += 1;
                } else {
                    v.push(T::N(&s[st..i]));
                }
            }
            _ if idc(c) => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                let w = &s[st..i];
                if w == "c" && b.get(i) == Some(&b'"') {
                    let mut e = i + 1;
                    while b[e] != b'"' {
                        e += 1;
                    }
                    v.push(T::CS(&s[i + 1..e]));
                    i = e + 1;
                } else if b.get(i) == Some(&b':') {
                    v.push(T::Lbl(std::borrow::Cow::Borrowed(w)));
                    i += 1;
                } else {
                    v.push(T::W(w));
                }
            }
            _ => {
                v.push(T::P(c));
                i += 1;
            }
        }
    }
    v.push(T::NL);
    v.push(T::Eof);
    v
}

struct Ps<'a, 'm> {
    t: Vec<T<'a>>,
    p: usize,
    m: &'m Module,
    regs: HashMap<String, u32>,
    blks: HashMap<String, u32>,
}

type R<X> = Result<X, String>;

impl<'a, 'm> Ps<'a, 'm> {
    fn pk(&self) -> &T<'a> {
        &self.t[self.p]
    }
    fn pk1(&self) -> &T<'a> {
        &self.t[(self.p + 1).min(self.t.len() - 1)]
    }
    fn nx(&mut self) -> T<'a> {
        let t = self.t[self.p].clone();
        if self.p + 1 < self.t.len() {
            self.p += 1;
        }
        t
    }
    fn is(&self, c: u8) -> bool {
        *self.pk() == T::P(c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.pk(), T::W(x) if *x == w)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?}", c as char, self.pk()))
        }
    }
    fn skip_line(&mut self) {
        while !matches!(self.pk(), T::NL | T::Eof) {
            self.p += 1;
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.nx() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blks.get(n) {
            return r;
        }
        let r = self.blks.len() as u32;
        self.blks.insert(n.to_string(), r);
        r
    }
    fn label(&mut self) -> R<u32> {
        if !self.eatw("label") {
            return Err(format!("expected label got {:?}", self.pk()));
        }
        match self.nx() {
            T::L(n) => Ok(self.blk(&n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn is_ty(&self) -> bool {
        match self.pk() {
            T::W(w) => {
                matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "x86_fp80" | "fp128" | "label" | "metadata" | "token")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
            T::L(_) => true,
            _ => false,
        }
    }
    /// skip attributes up to a type; reports `byval`
    fn skip_attrs(&mut self) -> bool {
        let mut byval = false;
        while !self.is_ty() {
            match self.nx() {
                T::W("align") => {
                    if self.is(b'(') {
                        self.skip_paren();
                    } else {
                        self.nx();
                    }
                }
                T::W(w) => {
                    if w == "byval" {
                        byval = true;
                    }
                    if self.is(b'(') {
                        self.skip_paren();
                    }
                }
                T::S(_) => {
                    if self.eat(b'=') {
                        self.nx();
                    }
                }
                T::Eof => return byval,
                _ => {}
            }
        }
        byval
    }
    fn ty(&mut self) -> R<Ty> {
        let mut t = match self.nx() {
            T::W("void") => Ty::Void,
            T::W("ptr") => {
                if self.isw("addrspace") {
                    self.nx();
                    self.skip_paren();
                }
                Ty::Ptr
            }
            T::W("float") => Ty::F32,
            T::W("double") => Ty::F64,
            T::W("half") | T::W("bfloat") => Ty::FOther(16),
            T::W("x86_fp80") => Ty::FOther(80),
            T::W("fp128") => Ty::FOther(128),
            T::W("label") | T::W("metadata") | T::W("token") => Ty::Other,
            T::W(w) if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
            T::P(b'{') => self.st(b'}', false)?,
            T::P(b'<') => {
                if self.eat(b'{') {
                    let t = self.st(b'}', true)?;
                    self.exp(b'>')?;
                    t
                } else {
                    let n = self.num()?;
                    if !self.eatw("x") {
                        return Err("vector".into());
                    }
                    let e = self.ty()?;
                    self.exp(b'>')?;
                    Ty::Vec(n as u32, Rc::new(e))
                }
            }
            T::P(b'[') => {
                let n = self.num()?;
                if !self.eatw("x") {
                    return Err("array".into());
                }
                let e = self.ty()?;
                self.exp(b']')?;
                Ty::Arr(n as u64, Rc::new(e))
            }
            T::L(n) => self.m.named_ty(&n)?,
            t => return Err(format!("type {:?}", t)),
        };
        // function type
        if self.is(b'(') && !matches!(t, Ty::Other) {
            let save = self.p;
            // only when followed by types (call of vararg function)
            self.skip_paren();
            if !matches!(self.pk(), T::G(_) | T::L(_)) {
                self.p = save;
            } else {
                t = t;
            }
        }
        Ok(t)
    }
    fn st(&mut self, close: u8, packed: bool) -> R<Ty> {
        let mut f = vec![];
        if !self.eat(close) {
            loop {
                f.push(self.ty()?);
                if self.eat(close) {
                    break;
                }
                self.exp(b',')?;
            }
        }
        Ok(Ty::mk_struct(f, packed))
    }
    fn num(&mut self) -> R<i128> {
        match self.nx() {
            T::N(s) => s.parse().map_err(|_| format!("number {}", s)),
            t => Err(format!("number {:?}", t)),
        }
    }
    fn val(&mut self, ty: &Ty) -> R<Opn> {
        if let T::L(n) = self.pk().clone() {
            self.p += 1;
            return Ok(Opn::R(self.reg(&n)));
        }
        Ok(Opn::K(self.konst(ty)?))
    }
    fn tval(&mut self) -> R<(Ty, Opn)> {
        self.skip_attrs();
        let t = self.ty()?;
        // attributes between the type and the value (call arguments)
        let v = self.val_attr(&t)?;
        Ok((t, v))
    }
    fn val_attr(&mut self, t: &Ty) -> R<Opn> {
        loop {
            match self.pk() {
                T::W(w) => {
                    if matches!(
                        *w,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "sub" | "add" | "none"
                            | "splat" | "bitcast" | "ptrtoaddr" | "blockaddress" | "xor"
                    ) {
                        break;
                    }
                    let al = *w == "align";
                    self.p += 1;
                    if self.is(b'(') {
                        self.skip_paren();
                    } else if al {
                        self.p += 1;
                    }
                }
                T::S(_) => {
                    self.p += 1;
                    if self.eat(b'=') {
                        self.p += 1;
                    }
                }
                _ => break,
            }
        }
        self.val(t)
    }
    fn konst(&mut self, ty: &Ty) -> R<K> {
        Ok(match self.nx() {
            T::W("true") => K::I(1),
            T::W("false") => K::I(0),
            T::W("null") => K::I(0),
            T::W("none") => K::I(0),
            T::W("undef") | T::W("poison") => K::Undef,
            T::W("zeroinitializer") => K::Zero,
            T::W("splat") => {
                self.exp(b'(')?;
                let t = self.ty()?;
                let k = self.konst(&t)?;
                self.exp(b')')?;
                match ty {
                    Ty::Vec(n, _) => K::Agg((0..*n).map(|_| (t.clone(), k.clone())).collect()),
                    _ => return Err("splat".into()),
                }
            }
            T::W("getelementptr") => {
                while !self.is(b'(') {
                    self.p += 1;
                }
                // getelementptr inbounds nuw inrange(..) (T, ptr base, idx..)
                // an `inrange(a, b)` group may come first
                loop {
                    let save = self.p;
                    self.p += 1;
                    if self.is_ty() {
                        self.p = save;
                        break;
                    }
                    self.p = save;
                    self.skip_paren();
                    while !self.is(b'(') {
                        self.p += 1;
                    }
                }
                self.exp(b'(')?;
                let t = self.ty()?;
                self.exp(b',')?;
                let bt = self.ty()?;
                let base = self.konst(&bt)?;
                let mut off = 0i64;
                let mut cur = t.clone();
                let mut first = true;
                while self.eat(b',') {
                    let it = self.ty()?;
                    let ix = match self.konst(&it)? {
                        K::I(v) => sx(v, it.bits()),
                        K::Zero => 0,
                        k => return Err(format!("gep index {:?}", k)),
                    };
                    off += gep_step(&mut cur, &mut first, ix)?;
                }
                self.exp(b')')?;
                match base {
                    K::Sym(s, o) => K::Sym(s, o + off),
                    K::I(v) => K::I((v as u64).wrapping_add(off as u64) as u128),
                    k => return Err(format!("gep base {:?}", k)),
                }
            }
            T::W(c @ ("ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr")) => {
                self.exp(b'(')?;
                let t = self.ty()?;
                let k = self.konst(&t)?;
                if !self.eatw("to") {
                    return Err("cast".into());
                }
                let to = self.ty()?;
                self.exp(b')')?;
                if c == "trunc" || (to.bits() < 64 && c == "ptrtoint") {
                    K::Expr("trunc", Box::new(k), Box::new(K::Zero), to.bits())
                } else {
                    k
                }
            }
            T::W(c @ ("sub" | "add" | "xor")) => {
                while !self.is(b'(') {
                    self.p += 1;
                }
                self.exp(b'(')?;
                let t = self.ty()?;
                let a = self.konst(&t)?;
                self.exp(b',')?;
                let t2 = self.ty()?;
                let b = self.konst(&t2)?;
                self.exp(b')')?;
                let s = match c {
                    "sub" => "sub",
                    "add" => "add",
                    _ => "xor",
                };
                K::Expr(s, Box::new(a), Box::new(b), t.bits())
            }
            T::W(w) => return Err(format!("constant {}", w)),
            T::N(s) => match ty {
                Ty::F64 | Ty::F32 if s.starts_with(['+', '-']) && s.as_bytes()[1].is_ascii_alphabetic() => {
                    let (m, e) = if *ty == Ty::F64 { (52, 0x7ff_u64) } else { (23, 0xff) };
                    let (name, load) = match s[1..].split_once('(') {
                        Some((n, l)) => (n, u64::from_str_radix(l.trim_end_matches(')').trim_start_matches("0x"), 16).map_err(|_| format!("float {}", s))?),
                        None => (&s[1..], 0),
                    };
                    let q = match name {
                        "inf" | "snan" => 0,
                        "qnan" | "nan" => 1 << (m - 1),
                        _ => return Err(format!("float {}", s)),
                    };
                    let v = e << m | q | load;
                    K::I((if s.starts_with('-') { v | 1 << (ty.bits() - 1) } else { v }) as u128)
                }
                Ty::F64 | Ty::F32 => {
                    let v: f64 = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| format!("float {}", s))?)
                    } else {
                        s.parse().map_err(|_| format!("float {}", s))?
                    };
                    if *ty == Ty::F64 {
                        K::I(v.to_bits() as u128)
                    } else {
                        K::I((v as f32).to_bits() as u128)
                    }
                }
                Ty::Int(w) => {
                    let v: i128 = if let Ok(v) = s.parse::<i128>() {
                        v
                    } else if let Ok(v) = s.parse::<u128>() {
                        v as i128
                    } else {
                        return Err(format!("number {}", s));
                    };
                    K::I(v as u128 & crate::expr::mask(*w))
                }
                _ => return Err(format!("number {} of type {:?}", s, ty)),
            },
            T::CS(s) => K::Bytes(unesc(s)),
            T::G(n) => K::Sym(Rc::from(&*n), 0),
            T::P(b'[') => self.agg(b']')?,
            T::P(b'{') => self.agg(b'}')?,
            T::P(b'<') => {
                if self.eat(b'{') {
                    let k = self.agg(b'}')?;
                    self.exp(b'>')?;
                    k
                } else {
                    self.agg(b'>')?
                }
            }
            t => return Err(format!("constant {:?}", t)),
        })
    }
    fn agg(&mut self, close: u8) -> R<K> {
        let mut v = vec![];
        if !self.eat(close) {
            loop {
                let t = self.ty()?;
                let k = self.konst(&t)?;
                v.push((t, k));
                if self.eat(close) {
                    break;
                }
                self.exp(b',')?;
            }
        }
        Ok(K::Agg(v))
    }
    fn flags(&mut self) {
        while let T::W(w) = self.pk() {
            if matches!(
                *w,
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
            ) {
                self.p += 1;
            } else {
                break;
            }
        }
    }
    fn align_suffix(&mut self) -> u64 {
        // , align N somewhere up to the end of the line
        while !matches!(self.pk(), T::NL | T::Eof) {
            if self.isw("align") {
                self.p += 1;
                return self.num().unwrap_or(1) as u64;
            }
            self.p += 1;
        }
        1
    }

    fn inst(&mut self, phi: &mut Option<(Ty, Vec<(u32, Opn)>)>) -> R<(Option<u32>, I)> {
        let mut dst = None;
        if let T::L(n) = self.pk().clone() {
            if *self.pk1() == T::P(b'=') {
                self.p += 2;
                dst = Some(self.reg(&n));
            }
        }
        let w = match self.nx() {
            T::W(w) => w,
            t => return Err(format!("instruction {:?}", t)),
        };
        let i = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let b = self.val(&t)?;
                let op = match w {
                    "add" => BOp::Add,
                    "sub" => BOp::Sub,
                    "mul" => BOp::Mul,
                    "udiv" => BOp::UDiv,
                    "sdiv" => BOp::SDiv,
                    "urem" => BOp::URem,
                    "srem" => BOp::SRem,
                    "and" => BOp::And,
                    "or" => BOp::Or,
                    "xor" => BOp::Xor,
                    "shl" => BOp::Shl,
                    "lshr" => BOp::LShr,
                    "ashr" => BOp::AShr,
                    _ => BOp::F,
                };
                I::Bin(op, t, a, b)
            }
            "fneg" => {
                self.flags();
                let t = self.ty()?;
                let a = self.val(&t)?;
                match t {
                    Ty::F32 | Ty::F64 => {
                        let sign = K::I(1 << (t.bits() - 1));
                        I::Bin(BOp::Xor, t, a, Opn::K(sign))
                    }
                    _ => I::Unsup("fneg of a vector".into()),
                }
            }
            "icmp" => {
                self.flags();
                let p = match self.nx() {
                    T::W(p) => match p {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err(format!("predicate {}", p)),
                    },
                    t => return Err(format!("predicate {:?}", t)),
                };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let b = self.val(&t)?;
                I::Cmp(p, t, a, b)
            }
            "fcmp" => {
                self.flags();
                let p = match self.nx() {
                    T::W(p) => match p {
                        "false" => 0,
                        "oeq" => 1,
                        "ogt" => 2,
                        "oge" => 3,
                        "olt" => 4,
                        "ole" => 5,
                        "one" => 6,
                        "ord" => 7,
                        "uno" => 8,
                        "ueq" => 9,
                        "ugt" => 10,
                        "uge" => 11,
                        "ult" => 12,
                        "ule" => 13,
                        "une" => 14,
                        "true" => 15,
                        _ => return Err(format!("predicate {}", p)),
                    },
                    t => return Err(format!("predicate {:?}", t)),
                };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let b = self.val(&t)?;
                I::FCmp(p, t, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
                self.flags();
                let t = self.ty()?;
                let a = self.val(&t)?;
                if !self.eatw("to") {
                    return Err("cast".into());
                }
                let to = self.ty()?;
                let op = match w {
                    "trunc" => COp::Trunc,
                    "zext" => COp::ZExt,
                    "sext" => COp::SExt,
                    "bitcast" => COp::Bit,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let (f, o) = (t.bits(), to.bits());
                        if f == o {
                            COp::Bit
                        } else if f > o {
                            COp::Trunc
                        } else {
                            COp::ZExt
                        }
                    }
                    _ => COp::F,
                };
                I::Cast(op, t, to, a)
            }
            "select" => {
                self.flags();
                let ct = self.ty()?;
                let c = self.val(&ct)?;
                self.exp(b',')?;
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let t2 = self.ty()?;
                let b = self.val(&t2)?;
                I::Sel(ct, c, t, a, b)
            }
            "load" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let t = self.ty()?;
                self.exp(b',')?;
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                let al = self.align_suffix();
                I::Load(t, p, al)
            }
            "store" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.exp(b',')?;
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                let al = self.align_suffix();
                I::Store(t, v, p, al)
            }
            "getelementptr" => {
                self.flags();
                let t = self.ty()?;
                self.exp(b',')?;
                let bt = self.ty()?;
                if bt != Ty::Ptr {
                    self.skip_line();
                    I::Unsup("vector gep".into())
                } else {
                    let base = self.val(&bt)?;
                    let mut off = 0i64;
                    let mut dynv = vec![];
                    let mut cur = t;
                    let mut first = true;
                    while self.is(b',') && !matches!(self.pk1(), T::M) {
                        self.p += 1;
                        let it = self.ty()?;
                        if !matches!(it, Ty::Int(_)) {
                            return Err("gep index type".into());
                        }
                        match self.val(&it)? {
                            Opn::K(K::I(v)) => off = off.wrapping_add(gep_step(&mut cur, &mut first, sx(v, it.bits()))?),
                            Opn::K(K::Zero) => off = off.wrapping_add(gep_step(&mut cur, &mut first, 0)?),
                            o => {
                                let sc = if first {
                                    first = false;
                                    cur.size()
                                } else {
                                    match cur.clone() {
                                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                            cur = (*e).clone();
                                            cur.size()
                                        }
                                        t => return Err(format!("gep into {:?}", t)),
                                    }
                                };
                                dynv.push((o, it.bits(), sc as i64));
                            }
                        }
                    }
                    I::Gep(base, off, dynv)
                }
            }
            "alloca" => {
                self.eatw("inalloca");
                let t = self.ty()?;
                let mut n = 1u64;
                let mut bad = false;
                if self.is(b',') && !matches!(self.pk1(), T::W("align") | T::M) {
                    self.p += 1;
                    let it = self.ty()?;
                    match self.val(&it)? {
                        Opn::K(K::I(v)) => n = v as u64,
                        _ => bad = true,
                    }
                }
                let al = self.align_suffix();
                if bad {
                    I::Unsup("dynamic alloca".into())
                } else {
                    I::Alloca(t.size() * n, al)
                }
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if matches!(w, "tail" | "musttail" | "notail") && !self.eatw("call") {
                    return Err("tail".into());
                }
                self.skip_attrs();
                let ret = self.ty()?;
                let callee = match self.nx() {
                    T::G(n) => Callee::Name(Rc::from(&*n)),
                    T::L(n) => {
                        let r = self.reg(&n);
                        Callee::Ind(Opn::R(r))
                    }
                    T::W("asm") => {
                        while !matches!(self.pk(), T::S(_)) {
                            self.p += 1;
                        }
                        let s = match self.nx() {
                            T::S(s) => s.to_string(),
                            _ => String::new(),
                        };
                        while !self.is(b'(') {
                            self.p += 1;
                        }
                        Callee::Asm(s)
                    }
                    T::W("inttoptr") => {
                        self.p -= 1;
                        let k = self.konst(&Ty::Ptr)?;
                        Callee::Ind(Opn::K(k))
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                self.exp(b'(')?;
                let mut args = vec![];
                if !self.eat(b')') {
                    loop {
                        let bv = self.skip_attrs();
                        let t = self.ty()?;
                        if t == Ty::Other {
                            // metadata argument
                            let mut d = 0;
                            loop {
                                match self.pk() {
                                    T::P(b'(') => d += 1,
                                    T::P(b')') if d == 0 => break,
                                    T::P(b')') => d -= 1,
                                    T::P(b',') if d == 0 => break,
                                    _ => {}
                                }
                                self.p += 1;
                            }
                            args.push((Ty::Int(1), Opn::K(K::Zero), false));
                        } else {
                            // byval may come after the type too
                            let mut bv2 = bv;
                            let mut q = self.p;
                            while let T::W(x) = &self.t[q] {
                                if *x == "byval" {
                                    bv2 = true;
                                }
                                q += 1;
                            }
                            let v = self.val_attr(&t)?;
                            args.push((t, v, bv2));
                        }
                        if self.eat(b')') {
                            break;
                        }
                        self.exp(b',')?;
                    }
                }
                let mut next = None;
                if w == "invoke" {
                    while !self.isw("to") {
                        self.p += 1;
                    }
                    self.p += 1;
                    next = Some(self.label()?);
                    while !self.isw("unwind") {
                        self.p += 1;
                    }
                }
                self.skip_line();
                I::Call { callee, args, ret, next }
            }
            "br" => {
                if self.isw("label") {
                    I::Br(self.label()?)
                } else {
                    let t = self.ty()?;
                    let c = self.val(&t)?;
                    self.exp(b',')?;
                    let a = self.label()?;
                    self.exp(b',')?;
                    let b = self.label()?;
                    I::CBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ty()?;
                let c = self.val(&t)?;
                self.exp(b',')?;
                let d = self.label()?;
                self.exp(b'[')?;
                let mut cs = vec![];
                loop {
                    while *self.pk() == T::NL {
                        self.p += 1;
                    }
                    if self.eat(b']') {
                        break;
                    }
                    let ct = self.ty()?;
                    let k = match self.konst(&ct)? {
                        K::I(v) => v,
                        K::Zero => 0,
                        k => return Err(format!("switch case {:?}", k)),
                    };
                    self.exp(b',')?;
                    let l = self.label()?;
                    cs.push((k, l));
                }
                I::Switch(t.bits(), c, cs, d)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let v = self.val(&t)?;
                    I::Ret(Some((t, v)))
                }
            }
            "unreachable" => I::Unreachable,
            "extractvalue" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                let mut ix = vec![];
                while self.is(b',') && matches!(self.pk1(), T::N(_)) {
                    self.p += 1;
                    ix.push(self.num()? as u32);
                }
                I::ExtractV(t, a, ix)
            }
            "insertvalue" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let t2 = self.ty()?;
                let b = self.val(&t2)?;
                let mut ix = vec![];
                while self.is(b',') && matches!(self.pk1(), T::N(_)) {
                    self.p += 1;
                    ix.push(self.num()? as u32);
                }
                I::InsertV(t, a, t2, b, ix)
            }
            "extractelement" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let (_, b) = self.tval()?;
                I::ExtractE(t, a, b)
            }
            "insertelement" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let (_, e) = self.tval()?;
                self.exp(b',')?;
                let (_, ix) = self.tval()?;
                I::InsertE(t, a, e, ix)
            }
            "shufflevector" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let (_, b) = self.tval()?;
                self.exp(b',')?;
                let mt = self.ty()?;
                let m = self.konst(&mt)?;
                let n = match mt {
                    Ty::Vec(n, _) => n,
                    _ => return Err("shuffle mask".into()),
                };
                let mask = match m {
                    K::Zero => vec![Some(0); n as usize],
                    K::Undef => vec![None; n as usize],
                    K::Agg(v) => v
                        .into_iter()
                        .map(|(_, k)| match k {
                            K::I(v) => Some(v as u32),
                            _ => None,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                I::Shuffle(t, a, b, mask)
            }
            "freeze" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                I::Freeze(t, a)
            }
            "fence" => {
                self.skip_line();
                I::Nop
            }
            "atomicrmw" => {
                self.eatw("volatile");
                let op = match self.nx() {
                    T::W(w) => w.to_string(),
                    _ => return Err("rmw".into()),
                };
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                self.exp(b',')?;
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.skip_line();
                I::Rmw(op, t, p, v)
            }
            "cmpxchg" => {
                self.eatw("weak");
                self.eatw("volatile");
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                self.exp(b',')?;
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let t2 = self.ty()?;
                let b = self.val(&t2)?;
                self.skip_line();
                I::CmpXchg(t, p, a, b)
            }
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.exp(b'[')?;
                    let k = self.val(&t)?;
                    self.exp(b',')?;
                    let l = match self.nx() {
                        T::L(n) => self.blk(&n),
                        t => return Err(format!("phi label {:?}", t)),
                    };
                    self.exp(b']')?;
                    v.push((l, k));
                    if !(self.is(b',') && *self.pk1() == T::P(b'[')) {
                        break;
                    }
                    self.p += 1;
                }
                *phi = Some((t, v));
                I::Nop
            }
            "landingpad" => {
                self.skip_line();
                loop {
                    let save = self.p;
                    while *self.pk() == T::NL {
                        self.p += 1;
                    }
                    if self.isw("cleanup") || self.isw("catch") || self.isw("filter") {
                        self.skip_line();
                    } else {
                        self.p = save;
                        break;
                    }
                }
                I::Unsup("landingpad".into())
            }
            w => {
                let s = w.to_string();
                self.skip_line();
                I::Unsup(s)
            }
        };
        self.skip_line();
        Ok((dst, i))
    }
}

fn sx(v: u128, w: u16) -> i64 {
    crate::expr::sext128(v, w) as i64
}

fn gep_step(cur: &mut Ty, first: &mut bool, ix: i64) -> R<i64> {
    if *first {
        *first = false;
        return Ok(ix.wrapping_mul(cur.size() as i64));
    }
    match cur.clone() {
        Ty::Arr(_, e) | Ty::Vec(_, e) => {
            *cur = (*e).clone();
            Ok(ix.wrapping_mul(cur.size() as i64))
        }
        Ty::St(s) => {
            let o = s.off[ix as usize] as i64;
            *cur = s.f[ix as usize].clone();
            Ok(o)
        }
        t => Err(format!("gep into {:?}", t)),
    }
}

pub struct Module {
    text: String,
    /// name -> (start of define line, end of body)
    pub funcs: HashMap<String, (usize, usize)>,
    pub globals: HashMap<String, (usize, usize)>,
    types: HashMap<String, (usize, usize)>,
    pub hash: u64,
}

fn gname(s: &str) -> Option<String> {
    // first @name in s
    let i = s.find('@')?;
    let r = &s[i + 1..];
    if let Some(q) = r.strip_prefix('"') {
        let e = q.find('"')?;
        Some(unq(&q[..e]).into_owned())
    } else {
        let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(r.len());
        Some(r[..e].to_string())
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut m = Module { text: String::new(), funcs: HashMap::new(), globals: HashMap::new(), types: HashMap::new(), hash: 0 };
        let mut pos = 0;
        let b = text.as_bytes();
        let mut h = 0xcbf29ce484222325u64;
        for &c in b {
            h = (h ^ c as u64).wrapping_mul(0x100000001b3);
        }
        m.hash = h;
        while pos < b.len() {
            let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &text[pos..e];
            if line.starts_with("define ") {
                let name = gname(line).ok_or("define without name")?;
                let end = text[e..].find("\n}").map(|x| e + x + 1).ok_or("unterminated function")?;
                m.funcs.insert(name, (pos, end));
                pos = end + 2;
                continue;
            } else if line.starts_with('@') {
                if let Some(n) = gname(line) {
                    m.globals.insert(n, (pos, e));
                }
            } else if line.starts_with('%') && line.contains(" = type ") {
                if let Some(T::L(n)) = lex(line).first() {
                    m.types.insert(n.to_string(), (pos, e));
                }
            }
            pos = e + 1;
        }
        m.text = text;
        Ok(m)
    }

    fn ps<'a>(&self, t: Vec<T<'a>>) -> Ps<'a, '_> {
        Ps { t, p: 0, m: self, regs: HashMap::new(), blks: HashMap::new() }
    }

    fn named_ty(&self, n: &str) -> R<Ty> {
        let &(s, e) = self.types.get(n).ok_or_else(|| format!("unknown type %{}", n))?;
        let mut p = self.ps(lex(&self.text[s..e]));
        p.p = 3;
        if p.isw("opaque") {
            return Ok(Ty::Other);
        }
        p.ty()
    }

    pub fn global(&self, name: &str) -> R<Option<Global>> {
        let (s, e) = match self.globals.get(name) {
            Some(&x) => x,
            None => return Ok(None),
        };
        let mut p = self.ps(lex(&self.text[s..e]));
        p.p = 2;
        let mut ext = false;
        let mut constant = false;
        loop {
            match p.nx() {
                T::W("external") | T::W("extern_weak") => ext = true,
                T::W("constant") => {
                    constant = true;
                    break;
                }
                T::W("global") => break,
                T::W("alias") => {
                    let _t = p.ty()?;
                    p.exp(b',')?;
                    let t = p.ty()?;
                    let k = p.konst(&t)?;
                    return Ok(Some(Global { ty: Ty::Ptr, init: None, constant: true, align: 1, alias: Some(k) }));
                }
                T::W(_) => {
                    if p.is(b'(') {
                        p.skip_paren();
                    }
                }
                T::Eof => return Err(format!("global {}", name)),
                _ => {}
            }
        }
        let ty = p.ty()?;
        let init = if ext { None } else { Some(p.konst(&ty)?) };
        let align = p.align_suffix();
        Ok(Some(Global { ty, init, constant, align, alias: None }))
    }

    pub fn func(&self, name: &str) -> R<Option<Func>> {
        let (s, e) = match self.funcs.get(name) {
            Some(&x) => x,
            None => return Ok(None),
        };
        self.func_text(name, &self.text[s..e]).map(Some).map_err(|m| format!("parse {}: {}", name, m))
    }

    fn func_text(&self, name: &str, text: &str) -> R<Func> {
        let mut p = self.ps(lex(text));
        // header
        p.p = 1;
        p.skip_attrs();
        // skip_attrs may stop at a type inside attributes only if the attribute has no parens; fine
        let ret = p.ty()?;
        match p.nx() {
            T::G(_) => {}
            t => return Err(format!("function name {:?}", t)),
        }
        p.exp(b'(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        if !p.eat(b')') {
            loop {
                if p.is(b'.') || matches!(p.pk(), T::W("...")) {
                    p.p += 1;
                    if !p.eat(b')') {
                        return Err("vararg".into());
                    }
                    break;
                }
                p.skip_attrs();
                let t = p.ty()?;
                // attributes then name
                let mut nm = None;
                loop {
                    match p.pk().clone() {
                        T::L(n) => {
                            p.p += 1;
                            nm = Some(n.to_string());
                            break;
                        }
                        T::P(b',') | T::P(b')') => break,
                        T::P(b'(') => p.skip_paren(),
                        _ => p.p += 1,
                    }
                }
                let n = nm.unwrap_or_else(|| {
                    let s = unnamed.to_string();
                    unnamed += 1;
                    s
                });
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed = n.parse::<u32>().unwrap_or(0) + 1;
                }
                let r = p.reg(&n);
                params.push((t, r));
                if p.eat(b')') {
                    break;
                }
                p.exp(b',')?;
            }
        }
        // to the end of the header line
        p.skip_line();
        while *p.pk() == T::NL {
            p.p += 1;
        }
        // entry label
        let mut order: Vec<u32> = vec![];
        let mut body: HashMap<u32, Block> = HashMap::new();
        let entry = match p.pk().clone() {
            T::Lbl(n) => {
                p.p += 1;
                n.to_string()
            }
            _ => unnamed.to_string(),
        };
        let mut cur = p.blk(&entry);
        order.push(cur);
        body.insert(cur, Block { phis: vec![], insts: vec![] });
        let mut n = 0;
        loop {
            match p.pk().clone() {
                T::NL => p.p += 1,
                T::Eof => break,
                T::Lbl(l) => {
                    p.p += 1;
                    cur = p.blk(&l);
                    order.push(cur);
                    body.insert(cur, Block { phis: vec![], insts: vec![] });
                }
                _ => {
                    let mut phi = None;
                    let (dst, i) = p.inst(&mut phi)?;
                    n += 1;
                    let b = body.get_mut(&cur).unwrap();
                    if let Some((ty, inc)) = phi {
                        b.phis.push(Phi { dst: dst.unwrap(), ty, inc });
                    } else if !matches!(i, I::Nop) {
                        b.insts.push(Inst { dst, i });
                    }
                }
            }
        }
        // blocks are numbered in order of first mention; entry is 0
        let nb = p.blks.len();
        let mut blocks = Vec::with_capacity(nb);
        for i in 0..nb as u32 {
            blocks.push(body.remove(&i).ok_or_else(|| format!("missing block {}", i))?);
        }
        Ok(Func { name: Rc::from(name), params, ret, blocks, nregs: p.regs.len(), ninsts: n })
    }
}
