//! z3 (C API) back end.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint};
use std::time::Instant;

type P0 = *mut std::ffi::c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P0;
    fn Z3_del_config(c: P0);
    fn Z3_mk_context(c: P0) -> P0;
    fn Z3_mk_string_symbol(c: P0, s: *const c_char) -> P0;
    fn Z3_mk_bv_sort(c: P0, n: c_uint) -> P0;
    fn Z3_mk_const(c: P0, s: P0, t: P0) -> P0;
    fn Z3_mk_numeral(c: P0, s: *const c_char, t: P0) -> P0;
    fn Z3_mk_unsigned_int64(c: P0, v: u64, t: P0) -> P0;
    fn Z3_mk_eq(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_not(c: P0, a: P0) -> P0;
    fn Z3_mk_ite(c: P0, a: P0, b: P0, d: P0) -> P0;
    fn Z3_mk_and(c: P0, n: c_uint, a: *const P0) -> P0;
    fn Z3_mk_or(c: P0, n: c_uint, a: *const P0) -> P0;
    fn Z3_mk_bvadd(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvsub(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvmul(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvudiv(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvsdiv(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvurem(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvsrem(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvand(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvor(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvxor(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvshl(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvlshr(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvashr(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvult(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvule(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvslt(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_bvsle(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_zero_ext(c: P0, n: c_uint, a: P0) -> P0;
    fn Z3_mk_sign_ext(c: P0, n: c_uint, a: P0) -> P0;
    fn Z3_mk_extract(c: P0, h: c_uint, l: c_uint, a: P0) -> P0;
    fn Z3_mk_concat(c: P0, a: P0, b: P0) -> P0;
    fn Z3_mk_simple_solver(c: P0) -> P0;
    fn Z3_solver_inc_ref(c: P0, s: P0);
    fn Z3_solver_push(c: P0, s: P0);
    fn Z3_solver_pop(c: P0, s: P0, n: c_uint);
    fn Z3_solver_assert(c: P0, s: P0, a: P0);
    fn Z3_solver_check(c: P0, s: P0) -> c_int;
    fn Z3_solver_get_model(c: P0, s: P0) -> P0;
    fn Z3_model_inc_ref(c: P0, m: P0);
    fn Z3_model_dec_ref(c: P0, m: P0);
    fn Z3_model_eval(c: P0, m: P0, t: P0, completion: bool, v: *mut P0) -> bool;
    fn Z3_get_numeral_uint64(c: P0, v: P0, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P0) -> P0;
    fn Z3_params_inc_ref(c: P0, p: P0);
    fn Z3_params_set_uint(c: P0, p: P0, k: P0, v: c_uint);
    fn Z3_solver_set_params(c: P0, s: P0, p: P0);
    fn Z3_get_error_code(c: P0) -> c_int;
    fn Z3_set_error_handler(c: P0, h: Option<extern "C" fn(P0, c_int)>);
}
extern "C" fn on_err(_c: P0, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::abort();
}

pub enum Ans {
    Sat(Vec<(u16, u8)>),
    Unsat,
    Unknown,
}

pub struct Smt {
    c: P0,
    s: P0,
    memo: HashMap<X, P0>,
    domemo: HashMap<(u16, Dom), P0>,
    sorts: HashMap<u32, P0>,
    n_since: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
}

impl Smt {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut r = Smt {
                c,
                s: std::ptr::null_mut(),
                memo: HashMap::new(),
                domemo: HashMap::new(),
                sorts: HashMap::new(),
                n_since: 0,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
            };
            r.new_solver();
            r
        }
    }
    fn new_solver(&mut self) {
        unsafe {
            let s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), 30_000);
            Z3_solver_set_params(self.c, s, p);
            self.s = s;
        }
    }
    fn sort(&mut self, w: u32) -> P0 {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn num(&mut self, v: u128, w: u32) -> P0 {
        let s = self.sort(w);
        unsafe {
            if v >> 64 == 0 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn var(&mut self, v: u16) -> P0 {
        let s = self.sort(8);
        let n = CString::new(format!("v{}", v)).unwrap();
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), s) }
    }
    fn b2v(&mut self, b: P0) -> P0 {
        let (one, zero) = (self.num(1, 1), self.num(0, 1));
        unsafe { Z3_mk_ite(self.c, b, one, zero) }
    }
    /// bit-vector term
    pub fn tr(&mut self, a: &Arena, x: X) -> P0 {
        if let Some(&p) = self.memo.get(&x) {
            return p;
        }
        let w = a.w(x);
        let c = self.c;
        let r = unsafe {
            match a.n(x).clone() {
                N::Const(v) => self.num(v, w),
                N::Var(v) => self.var(v),
                N::Bin(op, p, q) => {
                    let (p, q) = (self.tr(a, p), self.tr(a, q));
                    match op {
                        B::Add => Z3_mk_bvadd(c, p, q),
                        B::Sub => Z3_mk_bvsub(c, p, q),
                        B::Mul => Z3_mk_bvmul(c, p, q),
                        B::UDiv => Z3_mk_bvudiv(c, p, q),
                        B::SDiv => Z3_mk_bvsdiv(c, p, q),
                        B::URem => Z3_mk_bvurem(c, p, q),
                        B::SRem => Z3_mk_bvsrem(c, p, q),
                        B::And => Z3_mk_bvand(c, p, q),
                        B::Or => Z3_mk_bvor(c, p, q),
                        B::Xor => Z3_mk_bvxor(c, p, q),
                        B::Shl => Z3_mk_bvshl(c, p, q),
                        B::LShr => Z3_mk_bvlshr(c, p, q),
                        B::AShr => Z3_mk_bvashr(c, p, q),
                    }
                }
                N::Cmp(p, l, r) => {
                    let (l, r) = (self.tr(a, l), self.tr(a, r));
                    let b = match p {
                        P::Eq => Z3_mk_eq(c, l, r),
                        P::Ult => Z3_mk_bvult(c, l, r),
                        P::Ule => Z3_mk_bvule(c, l, r),
                        P::Slt => Z3_mk_bvslt(c, l, r),
                        P::Sle => Z3_mk_bvsle(c, l, r),
                    };
                    self.b2v(b)
                }
                N::Ite(k, p, q) => {
                    let (k, p, q) = (self.tr(a, k), self.tr(a, p), self.tr(a, q));
                    let one = self.num(1, 1);
                    Z3_mk_ite(c, Z3_mk_eq(c, k, one), p, q)
                }
                N::Zext(p) => {
                    let n = w - a.w(p);
                    let p = self.tr(a, p);
                    Z3_mk_zero_ext(c, n, p)
                }
                N::Sext(p) => {
                    let n = w - a.w(p);
                    let p = self.tr(a, p);
                    Z3_mk_sign_ext(c, n, p)
                }
                N::Ext(p, lo) => {
                    let p = self.tr(a, p);
                    Z3_mk_extract(c, lo + w - 1, lo, p)
                }
                N::Cat(h, l) => {
                    let (h, l) = (self.tr(a, h), self.tr(a, l));
                    Z3_mk_concat(c, h, l)
                }
                N::Tab(v, t) => {
                    let vv = self.var(v);
                    // group equal consecutive values
                    let mut r = self.num(t[255] as u128, w);
                    let mut i = 255usize;
                    while i > 0 {
                        i -= 1;
                        if t[i] != t[i + 1] {
                            let b = self.num(i as u128, 8);
                            let val = self.num(t[i] as u128, w);
                            r = Z3_mk_ite(c, Z3_mk_bvule(c, vv, b), val, r);
                        }
                    }
                    r
                }
            }
        };
        self.memo.insert(x, r);
        r
    }
    fn tr_bool(&mut self, a: &Arena, x: X) -> P0 {
        let p = self.tr(a, x);
        let one = self.num(1, 1);
        unsafe { Z3_mk_eq(self.c, p, one) }
    }
    fn dom_term(&mut self, v: u16, d: &Dom) -> P0 {
        if let Some(&p) = self.domemo.get(&(v, *d)) {
            return p;
        }
        let vv = self.var(v);
        let mut alts: Vec<P0> = Vec::new();
        let mut i = 0usize;
        while i < 256 {
            if dom_has(d, i as u8) {
                let st = i;
                while i + 1 < 256 && dom_has(d, (i + 1) as u8) {
                    i += 1;
                }
                unsafe {
                    let (lo, hi) = (self.num(st as u128, 8), self.num(i as u128, 8));
                    if st == i {
                        alts.push(Z3_mk_eq(self.c, vv, lo));
                    } else {
                        let both = [Z3_mk_bvule(self.c, lo, vv), Z3_mk_bvule(self.c, vv, hi)];
                        alts.push(Z3_mk_and(self.c, 2, both.as_ptr()));
                    }
                }
            }
            i += 1;
        }
        let r = unsafe { Z3_mk_or(self.c, alts.len() as c_uint, alts.as_ptr()) };
        self.domemo.insert((v, *d), r);
        r
    }
    pub fn fresh(&mut self) {
        self.n_since = 1 << 40;
        self.recycle();
    }
    fn recycle(&mut self) {
        self.n_since += 1;
        if self.n_since > 20_000 {
            // a fresh context keeps z3's memory bounded
            let (q, s, u, k, t, m) = (self.queries, self.sat, self.unsat, self.unknown, self.time, self.max_time);
            extern "C" {
                fn Z3_del_context(c: P0);
            }
            unsafe { Z3_del_context(self.c) };
            let n = Smt::new();
            *self = n;
            self.queries = q;
            self.sat = s;
            self.unsat = u;
            self.unknown = k;
            self.time = t;
            self.max_time = m;
        }
    }
    /// is  /\ doms /\ cons  satisfiable?
    pub fn check(&mut self, a: &Arena, doms: &[(u16, Dom)], cons: &[X], want_model: bool) -> Ans {
        self.recycle();
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, d) in doms {
                if *d != FULL {
                    let t = self.dom_term(*v, d);
                    Z3_solver_assert(self.c, self.s, t);
                }
            }
            for x in cons {
                let t = self.tr_bool(a, *x);
                Z3_solver_assert(self.c, self.s, t);
            }
            let r = Z3_solver_check(self.c, self.s);
            let ans = match r {
                1 => {
                    let mut out = vec![];
                    if want_model {
                        let m = Z3_solver_get_model(self.c, self.s);
                        Z3_model_inc_ref(self.c, m);
                        for (v, _) in doms {
                            let t = self.var(*v);
                            let mut o: P0 = std::ptr::null_mut();
                            Z3_model_eval(self.c, m, t, true, &mut o);
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(self.c, o, &mut u);
                            out.push((*v, u as u8));
                        }
                        Z3_model_dec_ref(self.c, m);
                    }
                    self.sat += 1;
                    Ans::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Ans::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Ans::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            let _ = Z3_get_error_code(self.c);
            let _ = Z3_mk_not;
            ans
        };
        self.queries += 1;
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        r
    }
    /// prove that the truth set computed by table evaluation is exactly the expression's:
    /// unsat( cond(v) xor v in set )
    pub fn validate_bset(&mut self, a: &Arena, v: u16, x: X, d: &Dom) -> bool {
        self.recycle();
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            let t = self.tr_bool(a, x);
            let e = if dom_empty(d) {
                // false
                let (one, zero) = (self.num(1, 1), self.num(0, 1));
                Z3_mk_eq(self.c, one, zero)
            } else {
                self.dom_term(v, d)
            };
            let iff = Z3_mk_eq(self.c, t, e);
            Z3_solver_assert(self.c, self.s, Z3_mk_not(self.c, iff));
            let r = Z3_solver_check(self.c, self.s);
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.queries += 1;
        if r == -1 {
            self.unsat += 1
        } else if r == 1 {
            self.sat += 1
        } else {
            self.unknown += 1
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        r == -1
    }
}
