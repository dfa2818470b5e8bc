//! Minimal bindings to libz3 (C API).
use crate::expr::Op;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

pub type Ast = *mut c_void;
type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> Ast;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> Ast;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> Ast;
    fn Z3_mk_eq(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: P, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: Ast);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: Ast, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_get_error_code(c: P) -> c_int;
}

pub struct Z3 {
    c: P,
    s: P,
    one: Ast,
    zero: Ast,
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), 120_000);
            Z3_solver_set_params(c, s, p);
            let b1 = Z3_mk_bv_sort(c, 1);
            let one = Z3_mk_unsigned_int64(c, 1, b1);
            let zero = Z3_mk_unsigned_int64(c, 0, b1);
            Z3 { c, s, one, zero }
        }
    }
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn bv(&self, v: u128, w: u16) -> Ast {
        unsafe {
            let so = Z3_mk_bv_sort(self.c, w as c_uint);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, so)
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), so)
            }
        }
    }
    pub fn var(&self, name: &str, w: u16) -> Ast {
        unsafe {
            let s = CString::new(name).unwrap();
            Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), Z3_mk_bv_sort(self.c, w as c_uint))
        }
    }
    fn b2v(&self, b: Ast) -> Ast {
        unsafe { Z3_mk_ite(self.c, b, self.one, self.zero) }
    }
    pub fn v2b(&self, v: Ast) -> Ast {
        unsafe { Z3_mk_eq(self.c, v, self.one) }
    }
    pub fn ite1(&self, c: Ast, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_ite(self.c, self.v2b(c), a, b) }
    }
    pub fn concat(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_concat(self.c, a, b) }
    }
    pub fn extract(&self, hi: u16, lo: u16, a: Ast) -> Ast {
        unsafe { Z3_mk_extract(self.c, hi as c_uint, lo as c_uint, a) }
    }
    pub fn zext(&self, n: u16, a: Ast) -> Ast {
        unsafe { Z3_mk_zero_ext(self.c, n as c_uint, a) }
    }
    pub fn sext(&self, n: u16, a: Ast) -> Ast {
        unsafe { Z3_mk_sign_ext(self.c, n as c_uint, a) }
    }
    pub fn bin(&self, op: Op, a: Ast, b: Ast) -> Ast {
        let c = self.c;
        unsafe {
            match op {
                Op::Add => Z3_mk_bvadd(c, a, b),
                Op::Sub => Z3_mk_bvsub(c, a, b),
                Op::Mul => Z3_mk_bvmul(c, a, b),
                Op::UDiv => Z3_mk_bvudiv(c, a, b),
                Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                Op::URem => Z3_mk_bvurem(c, a, b),
                Op::SRem => Z3_mk_bvsrem(c, a, b),
                Op::And => Z3_mk_bvand(c, a, b),
                Op::Or => Z3_mk_bvor(c, a, b),
                Op::Xor => Z3_mk_bvxor(c, a, b),
                Op::Shl => Z3_mk_bvshl(c, a, b),
                Op::LShr => Z3_mk_bvlshr(c, a, b),
                Op::AShr => Z3_mk_bvashr(c, a, b),
                Op::Eq => self.b2v(Z3_mk_eq(c, a, b)),
                Op::Ult => self.b2v(Z3_mk_bvult(c, a, b)),
                Op::Ule => self.b2v(Z3_mk_bvule(c, a, b)),
                Op::Slt => self.b2v(Z3_mk_bvslt(c, a, b)),
                Op::Sle => self.b2v(Z3_mk_bvsle(c, a, b)),
                _ => unreachable!(),
            }
        }
    }
    /// Check the conjunction of 1-bit values; on Sat, evaluate `vars`.
    pub fn check(&self, conj: &[Ast], vars: &[Ast], out: &mut Vec<u64>, dump: Option<&mut String>) -> Res {
        unsafe {
            Z3_solver_push(self.c, self.s);
            for &a in conj {
                Z3_solver_assert(self.c, self.s, self.v2b(a));
            }
            if let Some(d) = dump {
                *d = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
            }
            let r = Z3_solver_check(self.c, self.s);
            let res = match r {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if Z3_get_error_code(self.c) != 0 {
                eprintln!("irsym: z3 error {}", Z3_get_error_code(self.c));
                std::process::exit(3);
            }
            if res == Res::Sat {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                out.clear();
                for &v in vars {
                    let mut r: Ast = std::ptr::null_mut();
                    let mut u = 0u64;
                    if !Z3_model_eval(self.c, m, v, true, &mut r) || !Z3_get_numeral_uint64(self.c, r, &mut u) {
                        eprintln!("irsym: cannot evaluate model");
                        std::process::exit(3);
                    }
                    out.push(u);
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
            res
        }
    }
}
