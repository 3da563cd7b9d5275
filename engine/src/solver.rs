//! Z3 (C API) back end: decides satisfiability of a constraint slice.
use crate::expr::{cx, mask, Op, E};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type Z = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, id: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: Z) -> Z;
    fn Z3_inc_ref(c: Z, a: Z);
    fn Z3_mk_bv_sort(c: Z, sz: c_uint) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_const(c: Z, s: Z, ty: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, ty: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, ty: Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_dec_ref(c: Z, s: Z);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, completion: bool, v: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, v: Z, u: *mut u64) -> bool;
    fn Z3_get_error_code(c: Z) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}

pub enum Res {
    Unsat,
    Sat(Vec<(u32, u64)>),
    Unknown,
}

pub struct Solver {
    c: Z,
    fast: Z,
    tmo_fast: u32,
    tmo_slow: u32,
    cache: HashMap<E, Z>,
    sorts: HashMap<u32, Z>,
    qcache: HashMap<Vec<E>, Option<Vec<(u32, u64)>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub slow: u64,
    pub unknown: u64,
    pub time_ns: u64,
    pub max_ns: u64,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(tmo_slow: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            let fast = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, fast);
            let s = Solver {
                c,
                fast,
                tmo_fast: 4_000_000,
                tmo_slow,
                cache: HashMap::new(),
                sorts: HashMap::new(),
                qcache: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                cached: 0,
                slow: 0,
                unknown: 0,
                time_ns: 0,
                max_ns: 0,
            };
            s.set_tmo(fast, s.tmo_fast);
            s
        }
    }
    fn set_tmo(&self, s: Z, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            // a resource limit, not a timer: timers need threads, which do not survive fork()
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn sort(&mut self, w: u32) -> Z {
        if let Some(s) = self.sorts.get(&w) {
            return *s;
        }
        let s = unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            Z3_inc_ref(self.c, s);
            s
        };
        self.sorts.insert(w, s);
        s
    }
    fn bv(&mut self, e: E) -> Z {
        let z = self.tr(e);
        if cx().w(e) == 1 {
            unsafe {
                let s = self.sort(1);
                let one = Z3_mk_unsigned_int64(self.c, 1, s);
                Z3_inc_ref(self.c, one);
                let zero = Z3_mk_unsigned_int64(self.c, 0, s);
                Z3_inc_ref(self.c, zero);
                let r = Z3_mk_ite(self.c, z, one, zero);
                Z3_inc_ref(self.c, r);
                return r;
            }
        }
        z
    }
    fn to_bool(&mut self, z: Z) -> Z {
        unsafe {
            let s = self.sort(1);
            let one = Z3_mk_unsigned_int64(self.c, 1, s);
            Z3_inc_ref(self.c, one);
            let r = Z3_mk_eq(self.c, z, one);
            r
        }
    }
    /// width 1 expressions become Bool terms, all others bit-vectors
    fn tr(&mut self, e: E) -> Z {
        if let Some(z) = self.cache.get(&e) {
            return *z;
        }
        let n = cx().n(e);
        let c = self.c;
        let z = unsafe {
            match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                    } else {
                        let s = self.sort(n.w);
                        if n.w <= 64 {
                            Z3_mk_unsigned_int64(c, n.k as u64, s)
                        } else {
                            let t = CString::new(n.k.to_string()).unwrap();
                            Z3_mk_numeral(c, t.as_ptr(), s)
                        }
                    }
                }
                Op::Var => {
                    let t = CString::new(format!("v{}_{}", n.a, n.w)).unwrap();
                    let s = self.sort(n.w);
                    let z = Z3_mk_const(c, Z3_mk_string_symbol(c, t.as_ptr()), s);
                    if n.w == 1 {
                        Z3_inc_ref(c, z);
                        self.to_bool(z)
                    } else {
                        z
                    }
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let a = self.bv(n.a);
                    let b = self.bv(n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        _ => Z3_mk_bvslt(c, a, b),
                    }
                }
                Op::Ite => {
                    let a = self.tr(n.a);
                    let b = self.tr(n.b);
                    let d = self.tr(n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Concat => {
                    let a = self.bv(n.a);
                    let b = self.bv(n.b);
                    Z3_mk_concat(c, a, b)
                }
                Op::Extract => {
                    let a = self.bv(n.a);
                    let z = Z3_mk_extract(c, n.b + n.w - 1, n.b, a);
                    if n.w == 1 {
                        Z3_inc_ref(c, z);
                        self.to_bool(z)
                    } else {
                        z
                    }
                }
                Op::ZExt => {
                    let a = self.bv(n.a);
                    Z3_mk_zero_ext(c, n.w - cx().w(n.a), a)
                }
                Op::SExt => {
                    let a = self.bv(n.a);
                    Z3_mk_sign_ext(c, n.w - cx().w(n.a), a)
                }
                _ if n.w == 1 => {
                    let a = self.tr(n.a);
                    let b = self.tr(n.b);
                    match n.op {
                        Op::And | Op::Mul => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        Op::Xor | Op::Add | Op::Sub => {
                            if cx().kval(n.b) == Some(1) {
                                Z3_mk_not(c, a)
                            } else {
                                Z3_mk_xor(c, a, b)
                            }
                        }
                        _ => panic!("1-bit {:?}", n.op),
                    }
                }
                _ => {
                    let a = self.tr(n.a);
                    let b = self.tr(n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        unsafe {
            let err = Z3_get_error_code(c);
            if err != 0 || z.is_null() {
                panic!("z3 error {} on {:?}", err, n);
            }
            Z3_inc_ref(c, z);
        }
        self.cache.insert(e, z);
        z
    }

    fn model(&mut self, s: Z, vars: &[(u32, u32)]) -> Vec<(u32, u64)> {
        unsafe {
            let m = Z3_solver_get_model(self.c, s);
            Z3_model_inc_ref(self.c, m);
            let mut r = vec![];
            for (v, w) in vars {
                let ve = cx().var(*v, *w);
                let z = self.bv(ve);
                let mut out: Z = std::ptr::null_mut();
                let mut u = 0u64;
                if Z3_model_eval(self.c, m, z, true, &mut out) {
                    Z3_inc_ref(self.c, out);
                    if !Z3_get_numeral_uint64(self.c, out, &mut u) {
                        panic!("z3: model value of v{}", v);
                    }
                }
                r.push((*v, u));
            }
            Z3_model_dec_ref(self.c, m);
            r
        }
    }

    /// Is the conjunction satisfiable? `vars` are the (index, width) pairs occurring in it.
    pub fn check(&mut self, cs: &[E], vars: &[(u32, u32)]) -> Res {
        let mut key = cs.to_vec();
        key.sort();
        if let Some(r) = self.qcache.get(&key) {
            self.cached += 1;
            return match r {
                None => Res::Unsat,
                Some(m) => Res::Sat(m.clone()),
            };
        }
        let t0 = Instant::now();
        self.queries += 1;
        let zs: Vec<Z> = cs.iter().map(|e| self.tr(*e)).collect();
        let mut res;
        let mut model = None;
        unsafe {
            let s = self.fast;
            Z3_solver_push(self.c, s);
            for z in &zs {
                Z3_solver_assert(self.c, s, *z);
            }
            res = Z3_solver_check(self.c, s);
            if res == 1 {
                model = Some(self.model(s, vars));
            }
            Z3_solver_pop(self.c, s, 1);
            if res == 0 {
                self.slow += 1;
                let l = CString::new("QF_BV").unwrap();
                let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
                Z3_solver_inc_ref(self.c, s);
                self.set_tmo(s, self.tmo_slow);
                for z in &zs {
                    Z3_solver_assert(self.c, s, *z);
                }
                res = Z3_solver_check(self.c, s);
                if res == 1 {
                    model = Some(self.model(s, vars));
                }
                Z3_solver_dec_ref(self.c, s);
            }
            let err = Z3_get_error_code(self.c);
            if err != 0 {
                panic!("z3 error {}", err);
            }
        }
        let dt = t0.elapsed().as_nanos() as u64;
        self.time_ns += dt;
        self.max_ns = self.max_ns.max(dt);
        match res {
            1 => {
                self.sat += 1;
                let m = model.unwrap();
                if self.qcache.len() > 400_000 {
                    self.qcache.clear();
                }
                self.qcache.insert(key, Some(m.clone()));
                Res::Sat(m)
            }
            -1 => {
                self.unsat += 1;
                self.qcache.insert(key, None);
                Res::Unsat
            }
            _ => {
                self.unknown += 1;
                Res::Unknown
            }
        }
    }
}

pub fn _mask(w: u32) -> u128 {
    mask(w)
}
