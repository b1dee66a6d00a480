//! Z3 back end (C API) with constraint slicing and result caching.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;
use std::time::Instant;

type Ptr = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> Ptr;
    fn Z3_mk_context(c: Ptr) -> Ptr;
    fn Z3_set_error_handler(c: Ptr, h: Option<extern "C" fn(Ptr, c_int)>);
    fn Z3_mk_bv_sort(c: Ptr, w: c_uint) -> Ptr;
    fn Z3_mk_bool_sort(c: Ptr) -> Ptr;
    fn Z3_mk_string_symbol(c: Ptr, s: *const c_char) -> Ptr;
    fn Z3_mk_int_symbol(c: Ptr, i: c_int) -> Ptr;
    fn Z3_mk_const(c: Ptr, s: Ptr, t: Ptr) -> Ptr;
    fn Z3_mk_numeral(c: Ptr, s: *const c_char, t: Ptr) -> Ptr;
    fn Z3_mk_unsigned_int64(c: Ptr, v: u64, t: Ptr) -> Ptr;
    fn Z3_mk_true(c: Ptr) -> Ptr;
    fn Z3_mk_false(c: Ptr) -> Ptr;
    fn Z3_mk_not(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_and(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_or(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_xor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_eq(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_ite(c: Ptr, a: Ptr, b: Ptr, d: Ptr) -> Ptr;
    fn Z3_mk_bvadd(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsub(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvneg(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_bvmul(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvudiv(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvurem(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsdiv(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsrem(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvshl(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvlshr(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvashr(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvand(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvxor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvnot(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_bvult(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvslt(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_concat(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_extract(c: Ptr, hi: c_uint, lo: c_uint, a: Ptr) -> Ptr;
    fn Z3_mk_sign_ext(c: Ptr, n: c_uint, a: Ptr) -> Ptr;
    fn Z3_mk_zero_ext(c: Ptr, n: c_uint, a: Ptr) -> Ptr;
    fn Z3_mk_int_sort(c: Ptr) -> Ptr;
    fn Z3_mk_add(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_sub(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_mul(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_div(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_mod(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_lt(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_le(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_func_decl(c: Ptr, s: Ptr, n: c_uint, d: *const Ptr, r: Ptr) -> Ptr;
    fn Z3_mk_app(c: Ptr, d: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_implies(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_tactic(c: Ptr, n: *const c_char) -> Ptr;
    fn Z3_tactic_inc_ref(c: Ptr, t: Ptr);
    fn Z3_tactic_and_then(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_solver_from_tactic(c: Ptr, t: Ptr) -> Ptr;
    fn Z3_mk_simple_solver(c: Ptr) -> Ptr;
    fn Z3_solver_inc_ref(c: Ptr, s: Ptr);
    fn Z3_solver_reset(c: Ptr, s: Ptr);
    fn Z3_solver_assert(c: Ptr, s: Ptr, a: Ptr);
    fn Z3_solver_check(c: Ptr, s: Ptr) -> c_int;
    fn Z3_solver_get_model(c: Ptr, s: Ptr) -> Ptr;
    fn Z3_solver_to_string(c: Ptr, s: Ptr) -> *const c_char;
    fn Z3_solver_get_reason_unknown(c: Ptr, s: Ptr) -> *const c_char;
    fn Z3_solver_set_params(c: Ptr, s: Ptr, p: Ptr);
    fn Z3_mk_params(c: Ptr) -> Ptr;
    fn Z3_params_inc_ref(c: Ptr, p: Ptr);
    fn Z3_params_set_uint(c: Ptr, p: Ptr, k: Ptr, v: c_uint);
    fn Z3_model_inc_ref(c: Ptr, m: Ptr);
    fn Z3_model_dec_ref(c: Ptr, m: Ptr);
    fn Z3_model_eval(c: Ptr, m: Ptr, a: Ptr, comp: bool, out: *mut Ptr) -> bool;
    fn Z3_get_numeral_string(c: Ptr, a: Ptr) -> *const c_char;
    fn Z3_get_bool_value(c: Ptr, a: Ptr) -> c_int;
}
extern "C" fn on_err(_c: Ptr, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::exit(3);
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub time_us: u64,
    pub max_us: u64,
}

#[derive(Default)]
struct IntTerms {
    iast: FxMap<E, Option<Ptr>>,
    side: FxMap<E, Vec<Ptr>>,
    prods: FxMap<E, (Ptr, Ptr, Ptr)>,
    quots: FxMap<E, (Ptr, Ptr, Ptr, Ptr)>,
}

pub struct Solver {
    c: Ptr,
    s: Ptr,
    quick: Ptr,
    /// the same constraints over the integers, for multiplications and divisions
    arith: Ptr,
    int_terms: [IntTerms; 2],
    /// 0: products of unknowns are opaque, related by lemmas; 1: they are multiplied
    exact: usize,
    ast: Vec<Ptr>,
    pub st: Stats,
    cache: FxMap<Vec<E>, Option<Option<Rc<FxMap<u32, u128>>>>>,
    recent: Vec<Rc<FxMap<u32, u128>>>,
    pub rlimit: u32,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut t: Ptr = std::ptr::null_mut();
            for n in ["simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat"] {
                let s = CString::new(n).unwrap();
                let x = Z3_mk_tactic(c, s.as_ptr());
                Z3_tactic_inc_ref(c, x);
                t = if t.is_null() {
                    x
                } else {
                    let y = Z3_tactic_and_then(c, t, x);
                    Z3_tactic_inc_ref(c, y);
                    y
                };
            }
            let s = Z3_mk_solver_from_tactic(c, t);
            Z3_solver_inc_ref(c, s);
            let quick = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, quick);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            let p2 = Z3_mk_params(c);
            Z3_params_inc_ref(c, p2);
            Z3_params_set_uint(c, p2, Z3_mk_string_symbol(c, k.as_ptr()), 3_000_000.min(rlimit));
            Z3_solver_set_params(c, quick, p2);
            let arith_slow = Z3_mk_params(c);
            Z3_params_inc_ref(c, arith_slow);
            let kt = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, arith_slow, Z3_mk_string_symbol(c, kt.as_ptr()), 60_000);
            Z3_params_set_uint(c, arith_slow, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, arith_slow);
            let arith = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, arith);
            Solver { c, s, quick, arith, int_terms: Default::default(), exact: 0, ast: vec![], st: Default::default(), cache: Default::default(), recent: vec![], rlimit }
        }
    }

    fn num(&self, k: u128, w: u32) -> Ptr {
        unsafe {
            let srt = Z3_mk_bv_sort(self.c, w);
            if k <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, k as u64, srt)
            } else {
                let s = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), srt)
            }
        }
    }
    fn as_bv(&mut self, e: E) -> Ptr {
        let a = self.tr(e);
        if width(e) == 1 {
            unsafe { Z3_mk_ite(self.c, a, self.num(1, 1), self.num(0, 1)) }
        } else {
            a
        }
    }
    fn tr(&mut self, e: E) -> Ptr {
        if self.ast.len() <= e as usize {
            self.ast.resize(cx().n.len(), std::ptr::null_mut());
        }
        if !self.ast[e as usize].is_null() {
            return self.ast[e as usize];
        }
        let n = node(e);
        let c = self.c;
        let b = n.w == 1;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if b {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(n.k, n.w)
                    }
                }
                Op::Var => {
                    let s = Z3_mk_int_symbol(c, n.a as c_int);
                    let srt = if b { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, n.w) };
                    Z3_mk_const(c, s, srt)
                }
                Op::Not => {
                    let a = self.tr(n.a);
                    if b {
                        Z3_mk_not(c, a)
                    } else {
                        Z3_mk_bvnot(c, a)
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    let (x, y) = (self.tr(n.a), self.tr(n.b));
                    match (n.op, b) {
                        (Op::And, true) => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        (Op::Or, true) => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        (Op::Xor, true) => Z3_mk_xor(c, x, y),
                        (Op::And, false) => Z3_mk_bvand(c, x, y),
                        (Op::Or, false) => Z3_mk_bvor(c, x, y),
                        _ => Z3_mk_bvxor(c, x, y),
                    }
                }
                Op::Eq => {
                    let (x, y) = (self.tr(n.a), self.tr(n.b));
                    Z3_mk_eq(c, x, y)
                }
                Op::Ult => {
                    let (x, y) = (self.as_bv(n.a), self.as_bv(n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.as_bv(n.a), self.as_bv(n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                Op::Ite => {
                    let (p, x, y) = (self.tr(n.a), self.tr(n.b), self.tr(n.c));
                    Z3_mk_ite(c, p, x, y)
                }
                Op::Concat => {
                    let (x, y) = (self.as_bv(n.a), self.as_bv(n.b));
                    if as_const(n.a) == Some(0) {
                        Z3_mk_zero_ext(c, width(n.a), y)
                    } else {
                        Z3_mk_concat(c, x, y)
                    }
                }
                Op::Extract => {
                    let x = self.as_bv(n.a);
                    let y = Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, x);
                    if b {
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, y, one)
                    } else {
                        y
                    }
                }
                Op::SExt => {
                    let x = self.as_bv(n.a);
                    Z3_mk_sign_ext(c, n.w - width(n.a), x)
                }
                Op::Add => {
                    let nb = node(n.b);
                    if let (Op::Mul, Some(k)) = (nb.op, if nb.op == Op::Mul { as_const(nb.b) } else { None }) {
                        if k == m(u128::MAX, n.w) {
                            let (x, y) = (self.tr(n.a), self.tr(nb.a));
                            let r = Z3_mk_bvsub(c, x, y);
                            self.ast[e as usize] = r;
                            return r;
                        }
                    }
                    let (x, y) = (self.tr(n.a), self.tr(n.b));
                    Z3_mk_bvadd(c, x, y)
                }
                Op::Mul => {
                    if as_const(n.b) == Some(m(u128::MAX, n.w)) {
                        let x = self.tr(n.a);
                        Z3_mk_bvneg(c, x)
                    } else {
                        let (x, y) = (self.tr(n.a), self.tr(n.b));
                        Z3_mk_bvmul(c, x, y)
                    }
                }
                _ => {
                    let (x, y) = (self.as_bv(n.a), self.as_bv(n.b));
                    match n.op {
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        if self.ast.len() <= e as usize {
            self.ast.resize(cx().n.len(), std::ptr::null_mut());
        }
        self.ast[e as usize] = r;
        r
    }

    fn inum(&self, k: u128) -> Ptr {
        unsafe {
            let s = CString::new(k.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_int_sort(self.c))
        }
    }
    /// 2^w as an integer term
    fn pow(&self, w: u32) -> Ptr {
        unsafe {
            if w < 128 {
                return self.inum(1u128 << w);
            }
            let h = self.inum(1u128 << 127);
            let mut r = self.inum(1);
            let mut w = w;
            while w >= 127 {
                r = Z3_mk_mul(self.c, 2, [r, h].as_ptr());
                w -= 127;
            }
            Z3_mk_mul(self.c, 2, [r, self.inum(1u128 << w)].as_ptr())
        }
    }
    fn imod(&self, x: Ptr, w: u32) -> Ptr {
        unsafe { Z3_mk_mod(self.c, x, self.pow(w)) }
    }
    /// Integer reading of a term (booleans stay booleans); None if an operation has none.
    fn int(&mut self, e: E) -> Option<Ptr> {
        if let Some(r) = self.int_terms[self.exact].iast.get(&e) {
            return *r;
        }
        let r = self.int0(e);
        self.int_terms[self.exact].iast.insert(e, r);
        r
    }
    fn int_of(&mut self, e: E) -> Option<Ptr> {
        let a = self.int(e)?;
        if width(e) == 1 {
            unsafe { Some(Z3_mk_ite(self.c, a, self.inum(1), self.inum(0))) }
        } else {
            Some(a)
        }
    }
    fn signed(&mut self, e: E) -> Option<Ptr> {
        let w = width(e);
        let x = self.int_of(e)?;
        unsafe {
            let p = self.pow(w);
            Some(Z3_mk_ite(self.c, Z3_mk_lt(self.c, x, self.inum(1u128 << (w - 1))), x, Z3_mk_sub(self.c, 2, [x, p].as_ptr())))
        }
    }
    fn int0(&mut self, e: E) -> Option<Ptr> {
        let n = node(e);
        let c = self.c;
        let b = n.w == 1;
        unsafe {
            Some(match n.op {
                Op::Const if !b => self.inum(n.k),
                Op::Var if !b => {
                    let x = Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_int_sort(c));
                    let ax = vec![Z3_mk_le(c, self.inum(0), x), Z3_mk_lt(c, x, self.pow(n.w))];
                    self.int_terms[self.exact].side.insert(e, ax);
                    x
                }
                Op::Const | Op::Var => self.tr(e),
                Op::Not if b => Z3_mk_not(c, self.int(n.a)?),
                Op::Not => Z3_mk_sub(c, 2, [self.inum(m(u128::MAX, n.w)), self.int(n.a)?].as_ptr()),
                Op::And | Op::Or | Op::Xor if b => {
                    let (x, y) = (self.int(n.a)?, self.int(n.b)?);
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        _ => Z3_mk_xor(c, x, y),
                    }
                }
                Op::Eq => Z3_mk_eq(c, self.int(n.a)?, self.int(n.b)?),
                Op::Ult => Z3_mk_lt(c, self.int_of(n.a)?, self.int_of(n.b)?),
                Op::Slt => Z3_mk_lt(c, self.signed(n.a)?, self.signed(n.b)?),
                Op::Ite => Z3_mk_ite(c, self.int(n.a)?, self.int(n.b)?, self.int(n.c)?),
                Op::Concat => {
                    let (h, l) = (self.int_of(n.a)?, self.int_of(n.b)?);
                    if as_const(n.a) == Some(0) {
                        l
                    } else {
                        Z3_mk_add(c, 2, [Z3_mk_mul(c, 2, [h, self.pow(width(n.b))].as_ptr()), l].as_ptr())
                    }
                }
                Op::Extract => {
                    let wa = width(n.a);
                    let mut x = self.int_of(n.a)?;
                    if n.k > 0 {
                        x = Z3_mk_div(c, x, self.pow(n.k as u32));
                    }
                    if n.k as u32 + n.w < wa {
                        x = self.imod(x, n.w);
                    }
                    if b {
                        Z3_mk_eq(c, x, self.inum(1))
                    } else {
                        x
                    }
                }
                Op::SExt => {
                    let x = self.signed(n.a)?;
                    Z3_mk_ite(c, Z3_mk_lt(c, x, self.inum(0)), Z3_mk_add(c, 2, [x, self.pow(n.w)].as_ptr()), x)
                }
                Op::Add => {
                    let nb = node(n.b);
                    if nb.op == Op::Mul && as_const(nb.b) == Some(m(u128::MAX, n.w)) {
                        let (x, y) = (self.int(n.a)?, self.int(nb.a)?);
                        let d = Z3_mk_sub(c, 2, [x, y].as_ptr());
                        return Some(Z3_mk_ite(c, Z3_mk_le(c, y, x), d, Z3_mk_add(c, 2, [d, self.pow(n.w)].as_ptr())));
                    }
                    let (x, y) = (self.int(n.a)?, self.int(n.b)?);
                    let d = Z3_mk_add(c, 2, [x, y].as_ptr());
                    if lead_zero(n.a) > 0 && lead_zero(n.b) > 0 {
                        d
                    } else {
                        let p = self.pow(n.w);
                        Z3_mk_ite(c, Z3_mk_lt(c, d, p), d, Z3_mk_sub(c, 2, [d, p].as_ptr()))
                    }
                }
                Op::Mul => {
                    let (x, y) = (self.int(n.a)?, self.int(n.b)?);
                    if as_const(n.b) == Some(m(u128::MAX, n.w)) {
                        return Some(Z3_mk_ite(c, Z3_mk_eq(c, x, self.inum(0)), x, Z3_mk_sub(c, 2, [self.pow(n.w), x].as_ptr())));
                    }
                    let d = if as_const(n.b).is_none() && self.exact == 0 {
                        let srt = Z3_mk_int_sort(c);
                        let s = CString::new("times").unwrap();
                        let f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, s.as_ptr()), 2, [srt, srt].as_ptr(), srt);
                        let d = Z3_mk_app(c, f, 2, [x.min(y), x.max(y)].as_ptr());
                        let zero = self.inum(0);
                        let ax = vec![
                            Z3_mk_le(c, zero, d),
                            Z3_mk_implies(c, Z3_mk_eq(c, x, zero), Z3_mk_eq(c, d, zero)),
                            Z3_mk_implies(c, Z3_mk_eq(c, y, zero), Z3_mk_eq(c, d, zero)),
                            Z3_mk_implies(c, Z3_mk_eq(c, y, self.inum(1)), Z3_mk_eq(c, d, x)),
                            Z3_mk_implies(c, Z3_mk_eq(c, x, self.inum(1)), Z3_mk_eq(c, d, y)),
                            Z3_mk_implies(c, Z3_mk_lt(c, zero, y), Z3_mk_le(c, x, d)),
                            Z3_mk_implies(c, Z3_mk_lt(c, zero, x), Z3_mk_le(c, y, d)),
                            Z3_mk_le(c, d, Z3_mk_mul(c, 2, [x, self.inum(m(u128::MAX, width(n.b) - lead_zero(n.b)))].as_ptr())),
                            Z3_mk_le(c, d, Z3_mk_mul(c, 2, [y, self.inum(m(u128::MAX, width(n.a) - lead_zero(n.a)))].as_ptr())),
                        ];
                        self.int_terms[self.exact].side.insert(e, ax);
                        d
                    } else {
                        Z3_mk_mul(c, 2, [x, y].as_ptr())
                    };
                    if as_const(n.b).is_none() {
                        self.int_terms[self.exact].prods.insert(e, (x, y, d));
                    }
                    if lead_zero(n.a) + lead_zero(n.b) >= n.w {
                        d
                    } else {
                        self.imod(d, n.w)
                    }
                }
                Op::UDiv | Op::URem => {
                    let (x, y) = (self.int_of(n.a)?, self.int_of(n.b)?);
                    let srt = Z3_mk_int_sort(c);
                    let f = |nm: &str| {
                        let s = CString::new(nm).unwrap();
                        let d = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, s.as_ptr()), 2, [srt, srt].as_ptr(), srt);
                        Z3_mk_app(c, d, 2, [x, y].as_ptr())
                    };
                    let (q, r) = (f("quot"), f("rest"));
                    let zero = self.inum(0);
                    // meaning of quotient and rest where the divisor is not zero; callers never divide by zero
                    let nz = Z3_mk_lt(c, zero, y);
                    let sum = Z3_mk_eq(c, x, Z3_mk_add(c, 2, [Z3_mk_mul(c, 2, [q, y].as_ptr()), r].as_ptr()));
                    self.int_terms[self.exact].quots.insert(e, (x, y, q, r));
                    let one = Z3_mk_lt(c, self.inum(1), y);
                    let half = Z3_mk_le(c, Z3_mk_add(c, 2, [q, q].as_ptr()), x);
                    let ex = if self.exact == 1 || as_const(n.b).is_some() { sum } else { Z3_mk_true(c) };
                    let unit = Z3_mk_implies(c, Z3_mk_eq(c, y, self.inum(1)), Z3_mk_eq(c, q, x));
                    let small = Z3_mk_implies(c, Z3_mk_lt(c, x, y), Z3_mk_eq(c, r, x));
                    let big = Z3_mk_implies(c, Z3_mk_and(c, 2, [nz, Z3_mk_le(c, y, x)].as_ptr()), Z3_mk_le(c, self.inum(1), q));
                    let ax = vec![unit, small, big, Z3_mk_implies(c, one, half), Z3_mk_implies(c, nz, ex), Z3_mk_implies(c, nz, Z3_mk_lt(c, r, y)), Z3_mk_le(c, zero, r), Z3_mk_le(c, zero, q), Z3_mk_implies(c, nz, Z3_mk_le(c, q, x))];
                    self.int_terms[self.exact].side.insert(e, ax);
                    if n.op == Op::UDiv {
                        Z3_mk_ite(c, nz, q, self.inum(m(u128::MAX, n.w)))
                    } else {
                        Z3_mk_ite(c, nz, r, x)
                    }
                }
                Op::And => {
                    let k = as_const(n.b)?;
                    if k & (k + 1) != 0 {
                        return None;
                    }
                    let x = self.int(n.a)?;
                    self.imod(x, 128 - k.leading_zeros())
                }
                _ => return None,
            })
        }
    }
    fn side_of(&self, e: E, out: &mut Vec<Ptr>, seen: &mut FxSet<E>) {
        if !seen.insert(e) {
            return;
        }
        if let Some(v) = self.int_terms[self.exact].side.get(&e) {
            out.extend(v);
        }
        let n = node(e);
        match n.op {
            Op::Const | Op::Var => {}
            Op::Not | Op::Extract | Op::SExt => self.side_of(n.a, out, seen),
            Op::Ite => {
                self.side_of(n.a, out, seen);
                self.side_of(n.b, out, seen);
                self.side_of(n.c, out, seen);
            }
            _ => {
                self.side_of(n.a, out, seen);
                self.side_of(n.b, out, seen);
            }
        }
    }
    fn solve_int(&mut self, q: &[E]) -> Option<Option<Rc<FxMap<u32, u128>>>> {
        self.exact = 0;
        let r = self.solve_int_in(q);
        if r.is_some() {
            return r;
        }
        self.exact = 1;
        self.solve_int_in(q)
    }
    fn solve_int_in(&mut self, q: &[E]) -> Option<Option<Rc<FxMap<u32, u128>>>> {
        let limit = if self.exact == 0 { 4_000 } else { 20_000 };
        unsafe {
            let p3 = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p3);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.c, p3, Z3_mk_string_symbol(self.c, k.as_ptr()), 12_000_000.min(self.rlimit));
            // rlimit does not stop every nonlinear procedure
            let k3 = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p3, Z3_mk_string_symbol(self.c, k3.as_ptr()), limit);
            Z3_solver_set_params(self.c, self.arith, p3);
        }
        let mut asts = vec![];
        for e in q {
            asts.push(self.int(*e)?);
        }
        let mut seen = Default::default();
        for e in q {
            self.side_of(*e, &mut asts, &mut seen);
        }
        let mut pr: Vec<(Ptr, Ptr, Ptr)> = seen.iter().filter_map(|e| self.int_terms[self.exact].prods.get(e).copied()).collect();
        pr.sort();
        pr.dedup();
        let mut qs: Vec<(Ptr, Ptr, Ptr, Ptr)> = seen.iter().filter_map(|e| self.int_terms[self.exact].quots.get(e).copied()).collect();
        qs.sort();
        qs.dedup();
        unsafe {
            let c = self.c;
            // multiplication and division are monotone
            for i in 0..pr.len().min(8) {
                for j in 0..pr.len().min(8) {
                    for (a, b) in [(pr[j].0, pr[j].1), (pr[j].1, pr[j].0)] {
                        if i != j && pr[i].0 == a {
                            asts.push(Z3_mk_implies(c, Z3_mk_le(c, pr[i].1, b), Z3_mk_le(c, pr[i].2, pr[j].2)));
                        } else if i != j && pr[i].1 == a {
                            asts.push(Z3_mk_implies(c, Z3_mk_le(c, pr[i].0, b), Z3_mk_le(c, pr[i].2, pr[j].2)));
                        }
                    }
                }
            }
            for i in 0..qs.len().min(8) {
                for j in 0..qs.len().min(8) {
                    if i != j && qs[i].1 == qs[j].1 {
                        let (a, b) = (qs[i], qs[j]);
                        let same = Z3_mk_and(c, 2, [Z3_mk_eq(c, a.2, b.2), Z3_mk_le(c, a.3, b.3)].as_ptr());
                        let rt = Z3_mk_or(c, 2, [Z3_mk_lt(c, a.2, b.2), same].as_ptr());
                        let pos = Z3_mk_and(c, 2, [Z3_mk_lt(c, self.inum(0), a.1), Z3_mk_le(c, a.0, b.0)].as_ptr());
                        asts.push(Z3_mk_implies(c, pos, rt));
                        // how far quotients by the same divisor are apart
                        let nz = Z3_mk_lt(c, self.inum(0), a.1);
                        let dx = Z3_mk_sub(c, 2, [a.0, b.0].as_ptr());
                        let dr = Z3_mk_sub(c, 2, [a.3, b.3].as_ptr());
                        let b1 = Z3_mk_add(c, 2, [b.2, self.inum(1)].as_ptr());
                        let one = Z3_mk_and(c, 2, [nz, Z3_mk_eq(c, a.2, b1)].as_ptr());
                        asts.push(Z3_mk_implies(c, one, Z3_mk_eq(c, dx, Z3_mk_add(c, 2, [a.1, dr].as_ptr()))));
                        let none = Z3_mk_and(c, 2, [nz, Z3_mk_eq(c, a.2, b.2)].as_ptr());
                        asts.push(Z3_mk_implies(c, none, Z3_mk_eq(c, dx, dr)));
                        let more = Z3_mk_and(c, 2, [nz, Z3_mk_lt(c, b1, a.2)].as_ptr());
                        asts.push(Z3_mk_implies(c, more, Z3_mk_lt(c, a.1, dx)));
                    }
                }
            }
        }
        unsafe {
            let s = self.arith;
            Z3_solver_reset(self.c, s);
            for a in &asts {
                Z3_solver_assert(self.c, s, *a);
            }
            let r = Z3_solver_check(self.c, s);
            if r == -1 {
                return Some(None);
            }
            if r == 0 {
                return None;
            }
            let md = Z3_solver_get_model(self.c, s);
            Z3_model_inc_ref(self.c, md);
            let mut vals: FxMap<u32, u128> = Default::default();
            let mut vars: FxMap<u32, u32> = Default::default();
            for e in q {
                collect_vars(*e, &mut vars, &mut Default::default());
            }
            for (v, w) in vars {
                let a = self.int(var(v, w))?;
                let mut out: Ptr = std::ptr::null_mut();
                if !Z3_model_eval(self.c, md, a, true, &mut out) {
                    panic!("model eval");
                }
                let val = if w == 1 {
                    (Z3_get_bool_value(self.c, out) == 1) as u128
                } else {
                    let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, out));
                    s.to_str().unwrap().parse::<u128>().unwrap_or(0)
                };
                vals.insert(v, m(val, w));
            }
            Z3_model_dec_ref(self.c, md);
            let mm = Model::new(vals.clone());
            if q.iter().all(|c| mm.holds(*c)) {
                Some(Some(Rc::new(vals)))
            } else {
                None
            }
        }
    }

    /// Constraints of `pc` that share variables (transitively) with `cond`.
    fn slice(pc: &[E], cond: &[E]) -> Vec<E> {
        let mut vars: FxSet<u32> = Default::default();
        for c in cond {
            vars.extend(varset(*c).iter().copied());
        }
        let sets: Vec<Rc<Vec<u32>>> = pc.iter().map(|c| varset(*c)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for i in 0..pc.len() {
                if !used[i] && sets[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    changed = true;
                    vars.extend(sets[i].iter().copied());
                }
            }
            if !changed {
                break;
            }
        }
        let mut r: Vec<E> = (0..pc.len()).filter(|i| used[*i]).map(|i| pc[i]).collect();
        r.extend_from_slice(cond);
        r.sort_unstable();
        r.dedup();
        r
    }

    /// Is pc /\ cond satisfiable? `base` is a model of pc: values of variables outside the slice are
    /// taken from it, so a returned model satisfies all of pc /\ cond.
    pub fn check(&mut self, pc: &[E], cond: &[E], base: &Model) -> Res {
        if cond.iter().any(|c| as_const(*c) == Some(0)) {
            return Res::Unsat;
        }
        if cond.iter().all(|c| base.holds(*c)) {
            self.st.model_hits += 1;
            return Res::Sat(Rc::new(Model::new(base.clone_vals())));
        }
        let q = Self::slice(pc, cond);
        let hit = self.cache.get(&q).cloned();
        let res = match hit {
            Some(r) => {
                self.st.cache_hits += 1;
                r
            }
            None => {
                // recent models
                let mut found = None;
                for mdl in self.recent.iter().rev().take(6) {
                    let mm = Model::new((**mdl).clone());
                    if q.iter().all(|c| mm.holds(*c)) {
                        found = Some(mdl.clone());
                        break;
                    }
                }
                let r = if let Some(mdl) = found {
                    self.st.model_hits += 1;
                    Some(Some(mdl))
                } else {
                    self.solve(&q)
                };
                self.cache.insert(q.clone(), r.clone());
                r
            }
        };
        match res {
            None => Res::Unknown,
            Some(None) => Res::Unsat,
            Some(Some(mv)) => {
                let mut vals = base.clone_vals();
                for c in &q {
                    for v in varset(*c).iter() {
                        vals.insert(*v, mv.get(v).copied().unwrap_or(0));
                    }
                }
                Res::Sat(Rc::new(Model::new(vals)))
            }
        }
    }

    /// None = unknown, Some(None) = unsat
    fn solve(&mut self, q: &[E]) -> Option<Option<Rc<FxMap<u32, u128>>>> {
        let t0 = Instant::now();
        self.st.queries += 1;
        let mut seen = Default::default();
        let early = if q.iter().any(|e| arithmetic(*e, &mut seen)) { self.solve_int(q) } else { None };
        if std::env::var("SYMEX_STAGE").is_ok() {
            eprintln!("int stage: {:?} {} us", early.as_ref().map(|x| x.is_some()), t0.elapsed().as_micros());
            if early.is_none() {
                for e in q {
                    eprintln!("   {}", show(*e, 12));
                }
            }
        }
        let asts: Vec<Ptr> = if early.is_some() { vec![] } else { q.iter().map(|e| self.tr(*e)).collect() };
        let r = if let Some(r) = early {
            if r.is_some() {
                self.st.sat += 1
            } else {
                self.st.unsat += 1
            }
            Some(r)
        } else { unsafe {
            let mut s = self.quick;
            Z3_solver_reset(self.c, s);
            for a in &asts {
                Z3_solver_assert(self.c, s, *a);
            }
            let mut r = Z3_solver_check(self.c, s);
            if r == 0 {
                s = self.s;
                Z3_solver_reset(self.c, s);
                for a in &asts {
                    Z3_solver_assert(self.c, s, *a);
                }
                r = Z3_solver_check(self.c, s);
            }
            if r == 1 {
                self.st.sat += 1;
                let md = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, md);
                let mut vals: FxMap<u32, u128> = Default::default();
                let mut vars: FxMap<u32, u32> = Default::default();
                for e in q {
                    collect_vars(*e, &mut vars, &mut Default::default());
                }
                for (v, w) in vars {
                    let ve = var(v, w);
                    let a = self.tr(ve);
                    let mut out: Ptr = std::ptr::null_mut();
                    if !Z3_model_eval(self.c, md, a, true, &mut out) {
                        panic!("model eval");
                    }
                    let val = if w == 1 {
                        (Z3_get_bool_value(self.c, out) == 1) as u128
                    } else {
                        let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, out));
                        s.to_str().unwrap().parse::<u128>().unwrap()
                    };
                    vals.insert(v, val);
                }
                Z3_model_dec_ref(self.c, md);
                Some(Some(Rc::new(vals)))
            } else if r == -1 {
                self.st.unsat += 1;
                Some(None)
            } else {
                self.st.unknown += 1;
                if std::env::var("SYMEX_DUMP").is_ok() {
                    let st = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s));
                    eprintln!("UNKNOWN query: {}", st.to_string_lossy());
                    let st = std::ffi::CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, s));
                    eprintln!("reason: {}", st.to_string_lossy());
                }
                None
            }
        } };
        let us = t0.elapsed().as_micros() as u64;
        self.st.time_us += us;
        self.st.max_us = self.st.max_us.max(us);
        if let Some(Some(mv)) = &r {
            // the solver's word is checked against our own evaluator
            let mm = Model::new((**mv).clone());
            for c in q {
                assert!(mm.holds(*c), "z3 model does not satisfy {}", show(*c, 6));
            }
            self.recent.push(mv.clone());
            if self.recent.len() > 32 {
                self.recent.remove(0);
            }
        }
        if us > 200_000 && std::env::var("SYMEX_SLOW").is_ok() || std::env::var("SYMEX_QUERIES").is_ok() {
            eprintln!("slow query {} us, {} constraints, last {}", us, q.len(), show(*q.last().unwrap(), 8));
            if std::env::var("SYMEX_BT").is_ok() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
        }
        r
    }
}

fn collect_vars(e: E, out: &mut FxMap<u32, u32>, seen: &mut FxSet<E>) {
    if !seen.insert(e) {
        return;
    }
    let n = node(e);
    match n.op {
        Op::Const => {}
        Op::Var => {
            out.insert(n.a, n.w);
        }
        Op::Not | Op::Extract | Op::SExt => collect_vars(n.a, out, seen),
        Op::Ite => {
            collect_vars(n.a, out, seen);
            collect_vars(n.b, out, seen);
            collect_vars(n.c, out, seen);
        }
        _ => {
            collect_vars(n.a, out, seen);
            collect_vars(n.b, out, seen);
        }
    }
}

/// does the term multiply two unknowns or divide by something other than a power of two?
fn arithmetic(e: E, seen: &mut FxSet<E>) -> bool {
    if !seen.insert(e) {
        return false;
    }
    let n = node(e);
    match n.op {
        Op::Const | Op::Var => false,
        Op::Mul if n.w >= 16 && as_const(n.b).map_or(true, |k| k.count_ones() > 1 && k != m(u128::MAX, n.w)) => true,
        Op::UDiv | Op::URem if n.w >= 16 => true,
        Op::Not | Op::Extract | Op::SExt => arithmetic(n.a, seen),
        Op::Ite => arithmetic(n.a, seen) || arithmetic(n.b, seen) || arithmetic(n.c, seen),
        _ => arithmetic(n.a, seen) || arithmetic(n.b, seen),
    }
}
