//! Thin binding to libz3's C API (dlopen) and translation of expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
unsafe extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
}

macro_rules! api {
    ($($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $($name: unsafe extern "C" fn($($t),*) -> $r),* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                unsafe { Api { $($name: { let s = CString::new(stringify!($name)).unwrap(); let p = dlsym(h, s.as_ptr()); assert!(!p.is_null(), "libz3 lacks {}", stringify!($name)); std::mem::transmute::<P, unsafe extern "C" fn($($t),*) -> $r>(p) }),* } }
            }
        }
    };
}
api! {
    Z3_mk_config() -> P;
    Z3_set_param_value(c: P, k: *const c_char, v: *const c_char) -> ();
    Z3_mk_context(c: P) -> P;
    Z3_del_context(c: P) -> ();
    Z3_del_config(c: P) -> ();
    Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    Z3_mk_fpa_sort_32(c: P) -> P;
    Z3_mk_fpa_sort_64(c: P) -> P;
    Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    Z3_mk_const(c: P, s: P, t: P) -> P;
    Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    Z3_mk_true(c: P) -> P;
    Z3_mk_false(c: P) -> P;
    Z3_mk_not(c: P, a: P) -> P;
    Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    Z3_mk_xor(c: P, a: P, b: P) -> P;
    Z3_mk_eq(c: P, a: P, b: P) -> P;
    Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    Z3_mk_bvand(c: P, a: P, b: P) -> P;
    Z3_mk_bvor(c: P, a: P, b: P) -> P;
    Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    Z3_mk_bvnot(c: P, a: P) -> P;
    Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    Z3_mk_bvult(c: P, a: P, b: P) -> P;
    Z3_mk_bvule(c: P, a: P, b: P) -> P;
    Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    Z3_mk_concat(c: P, a: P, b: P) -> P;
    Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, s: bool) -> P;
    Z3_mk_bvmul_no_underflow(c: P, a: P, b: P) -> P;
    Z3_mk_fpa_rne(c: P) -> P;
    Z3_mk_fpa_rtz(c: P) -> P;
    Z3_mk_fpa_rtn(c: P) -> P;
    Z3_mk_fpa_rtp(c: P) -> P;
    Z3_mk_fpa_rna(c: P) -> P;
    Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P;
    Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    Z3_mk_simple_solver(c: P) -> P;
    Z3_mk_solver_for_logic(c: P, l: P) -> P;
    Z3_solver_inc_ref(c: P, s: P) -> ();
    Z3_solver_dec_ref(c: P, s: P) -> ();
    Z3_solver_set_params(c: P, s: P, p: P) -> ();
    Z3_solver_assert(c: P, s: P, a: P) -> ();
    Z3_solver_check(c: P, s: P) -> c_int;
    Z3_solver_get_model(c: P, s: P) -> P;
    Z3_model_inc_ref(c: P, m: P) -> ();
    Z3_model_dec_ref(c: P, m: P) -> ();
    Z3_model_eval(c: P, m: P, a: P, compl: bool, r: *mut P) -> bool;
    Z3_get_numeral_uint64(c: P, a: P, r: *mut u64) -> bool;
    Z3_mk_params(c: P) -> P;
    Z3_params_inc_ref(c: P, p: P) -> ();
    Z3_params_set_uint(c: P, p: P, k: P, v: c_uint) -> ();
    Z3_set_error_handler(c: P, h: P) -> ();
    Z3_get_full_version() -> *const c_char;
}

pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown }

pub struct Z3 {
    api: Api,
    c: P,
    params: P,
    bvm: HashMap<E, P>,
    bom: HashMap<E, P>,
    logic: P,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub timeout_ms: u32,
    since_reset: u64,
    pub version: String,
}

unsafe extern "C" fn on_error(_c: P, e: c_int) { eprintln!("symx: z3 error code {e}"); std::process::exit(3); }

impl Z3 {
    pub fn new(path: &str, timeout_ms: u32) -> Z3 {
        unsafe {
            let p = CString::new(path).unwrap();
            let mut h = dlopen(p.as_ptr(), 2);
            if h.is_null() { let q = CString::new("libz3.so.4").unwrap(); h = dlopen(q.as_ptr(), 2); }
            assert!(!h.is_null(), "libz3 not found");
            let api = Api::load(h);
            let version = std::ffi::CStr::from_ptr((api.Z3_get_full_version)()).to_string_lossy().into_owned();
            let mut z = Z3 { api, c: std::ptr::null_mut(), params: std::ptr::null_mut(), bvm: HashMap::new(), bom: HashMap::new(), logic: std::ptr::null_mut(), queries: 0, sat: 0, unsat: 0, unknown: 0, secs: 0.0, timeout_ms, since_reset: 0, version };
            z.reset();
            z
        }
    }
    fn reset(&mut self) {
        unsafe {
            let a = &self.api;
            if !self.c.is_null() { (a.Z3_del_context)(self.c); }
            let cfg = (a.Z3_mk_config)();
            self.c = (a.Z3_mk_context)(cfg);
            (a.Z3_del_config)(cfg);
            (a.Z3_set_error_handler)(self.c, on_error as *mut c_void);
            self.params = (a.Z3_mk_params)(self.c);
            (a.Z3_params_inc_ref)(self.c, self.params);
            let k = CString::new("timeout").unwrap();
            let s = (a.Z3_mk_string_symbol)(self.c, k.as_ptr());
            (a.Z3_params_set_uint)(self.c, self.params, s, self.timeout_ms);
            let k = CString::new("random_seed").unwrap();
            let s = (a.Z3_mk_string_symbol)(self.c, k.as_ptr());
            (a.Z3_params_set_uint)(self.c, self.params, s, 1);
            let k = CString::new("QF_BV").unwrap();
            self.logic = (a.Z3_mk_string_symbol)(self.c, k.as_ptr());
            self.bvm.clear();
            self.bom.clear();
            self.since_reset = 0;
        }
    }
    fn kbv(&self, w: u16, v: u128) -> P {
        unsafe {
            let s = (self.api.Z3_mk_bv_sort)(self.c, w as c_uint);
            if w <= 64 { (self.api.Z3_mk_unsigned_int64)(self.c, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); (self.api.Z3_mk_numeral)(self.c, t.as_ptr(), s) }
        }
    }
    fn boolean(&mut self, cx: &Ctx, e: E, fp: &mut bool) -> P {
        if let Some(&p) = self.bom.get(&e) { return p; }
        let n = cx.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if n.k == 1 { (self.api.Z3_mk_true)(c) } else { (self.api.Z3_mk_false)(c) },
                Op::Eq => if cx.w(n.a) == 1 { let a = self.boolean(cx, n.a, fp); let b = self.boolean(cx, n.b, fp); (self.api.Z3_mk_eq)(c, a, b) } else { let a = self.bv(cx, n.a, fp); let b = self.bv(cx, n.b, fp); (self.api.Z3_mk_eq)(c, a, b) },
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.bv(cx, n.a, fp); let b = self.bv(cx, n.b, fp);
                    match n.op { Op::Ult => (self.api.Z3_mk_bvult)(c, a, b), Op::Ule => (self.api.Z3_mk_bvule)(c, a, b), Op::Slt => (self.api.Z3_mk_bvslt)(c, a, b), _ => (self.api.Z3_mk_bvsle)(c, a, b) }
                }
                Op::Not => { let a = self.boolean(cx, n.a, fp); (self.api.Z3_mk_not)(c, a) }
                Op::And | Op::Or => { let v = [self.boolean(cx, n.a, fp), self.boolean(cx, n.b, fp)]; if n.op == Op::And { (self.api.Z3_mk_and)(c, 2, v.as_ptr()) } else { (self.api.Z3_mk_or)(c, 2, v.as_ptr()) } }
                Op::Xor => { let a = self.boolean(cx, n.a, fp); let b = self.boolean(cx, n.b, fp); (self.api.Z3_mk_xor)(c, a, b) }
                Op::Ite => { let a = self.boolean(cx, n.a, fp); let b = self.boolean(cx, n.b, fp); let d = self.boolean(cx, n.c, fp); (self.api.Z3_mk_ite)(c, a, b, d) }
                Op::UMulOvf => { let a = self.bv(cx, n.a, fp); let b = self.bv(cx, n.b, fp); let t = (self.api.Z3_mk_bvmul_no_overflow)(c, a, b, false); (self.api.Z3_mk_not)(c, t) }
                Op::SMulOvf => {
                    let a = self.bv(cx, n.a, fp); let b = self.bv(cx, n.b, fp);
                    let v = [(self.api.Z3_mk_bvmul_no_overflow)(c, a, b, true), (self.api.Z3_mk_bvmul_no_underflow)(c, a, b)];
                    let t = (self.api.Z3_mk_and)(c, 2, v.as_ptr());
                    (self.api.Z3_mk_not)(c, t)
                }
                Op::FEq | Op::FLt | Op::FLe => {
                    let a = self.fp(cx, n.a, fp); let b = self.fp(cx, n.b, fp);
                    match n.op { Op::FEq => (self.api.Z3_mk_fpa_eq)(c, a, b), Op::FLt => (self.api.Z3_mk_fpa_lt)(c, a, b), _ => (self.api.Z3_mk_fpa_leq)(c, a, b) }
                }
                Op::FIsNan => { let a = self.fp(cx, n.a, fp); (self.api.Z3_mk_fpa_is_nan)(c, a) }
                _ => { let a = self.bv(cx, e, fp); let one = self.kbv(1, 1); (self.api.Z3_mk_eq)(c, a, one) }
            }
        };
        self.bom.insert(e, r);
        r
    }
    fn fp(&mut self, cx: &Ctx, e: E, fp: &mut bool) -> P {
        *fp = true;
        let c = self.c;
        let n = cx.n(e);
        unsafe {
            let s = |z: &Self, w: u16| if w == 32 { (z.api.Z3_mk_fpa_sort_32)(c) } else { (z.api.Z3_mk_fpa_sort_64)(c) };
            let rne = (self.api.Z3_mk_fpa_rne)(c);
            match n.op {
                Op::FAdd => { let a = self.fp(cx, n.a, fp); let b = self.fp(cx, n.b, fp); (self.api.Z3_mk_fpa_add)(c, rne, a, b) }
                Op::FSub => { let a = self.fp(cx, n.a, fp); let b = self.fp(cx, n.b, fp); (self.api.Z3_mk_fpa_sub)(c, rne, a, b) }
                Op::FMul => { let a = self.fp(cx, n.a, fp); let b = self.fp(cx, n.b, fp); (self.api.Z3_mk_fpa_mul)(c, rne, a, b) }
                Op::FDiv => { let a = self.fp(cx, n.a, fp); let b = self.fp(cx, n.b, fp); (self.api.Z3_mk_fpa_div)(c, rne, a, b) }
                Op::FSqrt => { let a = self.fp(cx, n.a, fp); (self.api.Z3_mk_fpa_sqrt)(c, rne, a) }
                Op::FRound => {
                    let a = self.fp(cx, n.a, fp);
                    let r = match n.k { 0 => rne, 1 => (self.api.Z3_mk_fpa_rtn)(c), 2 => (self.api.Z3_mk_fpa_rtp)(c), 3 => (self.api.Z3_mk_fpa_rtz)(c), _ => (self.api.Z3_mk_fpa_rna)(c) };
                    (self.api.Z3_mk_fpa_round_to_integral)(c, r, a)
                }
                Op::FToF => { let a = self.fp(cx, n.a, fp); let t = s(self, n.w); (self.api.Z3_mk_fpa_to_fp_float)(c, rne, a, t) }
                Op::SiToF => { let a = self.bv(cx, n.a, fp); let t = s(self, n.w); (self.api.Z3_mk_fpa_to_fp_signed)(c, rne, a, t) }
                Op::UiToF => { let a = self.bv(cx, n.a, fp); let t = s(self, n.w); (self.api.Z3_mk_fpa_to_fp_unsigned)(c, rne, a, t) }
                _ => { let a = self.bv(cx, e, fp); let t = s(self, n.w); (self.api.Z3_mk_fpa_to_fp_bv)(c, a, t) }
            }
        }
    }
    fn bv(&mut self, cx: &Ctx, e: E, fp: &mut bool) -> P {
        if let Some(&p) = self.bvm.get(&e) { return p; }
        let n = cx.n(e);
        let c = self.c;
        macro_rules! b2 { ($f:ident) => {{ let a = self.bv(cx, n.a, fp); let b = self.bv(cx, n.b, fp); (self.api.$f)(c, a, b) }}; }
        let r = unsafe {
            match n.op {
                Op::Const => self.kbv(n.w, n.k),
                Op::Var => { let s = (self.api.Z3_mk_bv_sort)(c, n.w as c_uint); let nm = CString::new(format!("v{}", n.k)).unwrap(); let y = (self.api.Z3_mk_string_symbol)(c, nm.as_ptr()); (self.api.Z3_mk_const)(c, y, s) }
                Op::Add => b2!(Z3_mk_bvadd), Op::Sub => b2!(Z3_mk_bvsub), Op::Mul => b2!(Z3_mk_bvmul),
                Op::UDiv => b2!(Z3_mk_bvudiv), Op::SDiv => b2!(Z3_mk_bvsdiv), Op::URem => b2!(Z3_mk_bvurem), Op::SRem => b2!(Z3_mk_bvsrem),
                Op::And => b2!(Z3_mk_bvand), Op::Or => b2!(Z3_mk_bvor), Op::Xor => b2!(Z3_mk_bvxor),
                Op::Shl => b2!(Z3_mk_bvshl), Op::LShr => b2!(Z3_mk_bvlshr), Op::AShr => b2!(Z3_mk_bvashr),
                Op::Concat => b2!(Z3_mk_concat),
                Op::Not => { let a = self.bv(cx, n.a, fp); (self.api.Z3_mk_bvnot)(c, a) }
                Op::Extract => { let a = self.bv(cx, n.a, fp); (self.api.Z3_mk_extract)(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a) }
                Op::ZExt => { let i = (n.w - cx.w(n.a)) as c_uint; let a = self.bv(cx, n.a, fp); (self.api.Z3_mk_zero_ext)(c, i, a) }
                Op::SExt => { let i = (n.w - cx.w(n.a)) as c_uint; let a = self.bv(cx, n.a, fp); (self.api.Z3_mk_sign_ext)(c, i, a) }
                Op::Ite => { let a = self.boolean(cx, n.a, fp); let b = self.bv(cx, n.b, fp); let d = self.bv(cx, n.c, fp); (self.api.Z3_mk_ite)(c, a, b, d) }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FRound | Op::FToF | Op::SiToF | Op::UiToF => { let a = self.fp(cx, e, fp); (self.api.Z3_mk_fpa_to_ieee_bv)(c, a) }
                Op::FToSiSat | Op::FToUiSat => {
                    // saturating: NaN -> 0, clamp below/above
                    let aw = cx.w(n.a);
                    let a = self.fp(cx, n.a, fp);
                    let rtz = (self.api.Z3_mk_fpa_rtz)(c);
                    let (lo, hi, lov, hiv) = if n.op == Op::FToSiSat { (-(2f64.powi(n.w as i32 - 1)), 2f64.powi(n.w as i32 - 1), 1u128 << (n.w - 1), mask(n.w - 1)) } else { (0.0, 2f64.powi(n.w as i32), 0, mask(n.w)) };
                    let kf = |z: &Self, v: f64| { let bits = if aw == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }; let b = z.kbv(aw, bits); let s = if aw == 32 { (z.api.Z3_mk_fpa_sort_32)(c) } else { (z.api.Z3_mk_fpa_sort_64)(c) }; (z.api.Z3_mk_fpa_to_fp_bv)(c, b, s) };
                    let (flo, fhi) = (kf(self, lo), kf(self, hi));
                    let nan = (self.api.Z3_mk_fpa_is_nan)(c, a);
                    let below = (self.api.Z3_mk_fpa_leq)(c, a, flo);
                    let above = (self.api.Z3_mk_fpa_leq)(c, fhi, a);
                    let conv = if n.op == Op::FToSiSat { (self.api.Z3_mk_fpa_to_sbv)(c, rtz, a, n.w as c_uint) } else { (self.api.Z3_mk_fpa_to_ubv)(c, rtz, a, n.w as c_uint) };
                    let (kl, kh, kz) = (self.kbv(n.w, lov), self.kbv(n.w, hiv), self.kbv(n.w, 0));
                    let t = (self.api.Z3_mk_ite)(c, above, kh, conv);
                    let t = (self.api.Z3_mk_ite)(c, below, kl, t);
                    (self.api.Z3_mk_ite)(c, nan, kz, t)
                }
                Op::FRem => { eprintln!("symx: symbolic floating-point remainder is not encodable"); std::process::exit(3) }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::UMulOvf | Op::SMulOvf | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan => {
                    let b = self.boolean(cx, e, fp);
                    let (o, z) = (self.kbv(1, 1), self.kbv(1, 0));
                    (self.api.Z3_mk_ite)(c, b, o, z)
                }
            }
        };
        self.bvm.insert(e, r);
        r
    }
    /// Satisfiability of a conjunction of width-1 expressions.
    pub fn check(&mut self, cx: &mut Ctx, cs: &[E]) -> Res {
        let t0 = std::time::Instant::now();
        if self.since_reset > 20000 { self.reset(); }
        self.since_reset += 1;
        self.queries += 1;
        let mut fp = false;
        let asts: Vec<P> = cs.iter().map(|&e| { self.boolean(cx, e, &mut fp) }).collect();
        // fp may be cached in sub-terms; recompute from the variables' operators
        let fp = fp || cs.iter().any(|&e| cx.has_fp(e));
        let mut vars: Vec<u32> = vec![];
        for &e in cs { vars.extend(cx.vars_of(e).iter()); }
        vars.sort_unstable(); vars.dedup();
        let res = unsafe {
            let a = &self.api;
            let s = if fp { (a.Z3_mk_simple_solver)(self.c) } else { (a.Z3_mk_solver_for_logic)(self.c, self.logic) };
            (a.Z3_solver_inc_ref)(self.c, s);
            (a.Z3_solver_set_params)(self.c, s, self.params);
            for &x in &asts { (a.Z3_solver_assert)(self.c, s, x); }
            let r = (a.Z3_solver_check)(self.c, s);
            let out = match r {
                1 => {
                    let m = (a.Z3_solver_get_model)(self.c, s);
                    (a.Z3_model_inc_ref)(self.c, m);
                    let mut out = vec![];
                    for v in vars {
                        let ve = cx.vars[v as usize].e;
                        let p = self.bv(cx, ve, &mut false);
                        let mut r: P = std::ptr::null_mut();
                        let a = &self.api;
                        let ok = (a.Z3_model_eval)(self.c, m, p, true, &mut r);
                        let mut x: u64 = 0;
                        let ok2 = ok && (a.Z3_get_numeral_uint64)(self.c, r, &mut x);
                        assert!(ok2, "model value");
                        out.push((v, x as u128));
                    }
                    (self.api.Z3_model_dec_ref)(self.c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            (self.api.Z3_solver_dec_ref)(self.c, s);
            out
        };
        match res { Res::Sat(_) => self.sat += 1, Res::Unsat => self.unsat += 1, Res::Unknown => self.unknown += 1 }
        self.secs += t0.elapsed().as_secs_f64();
        res
    }
}
