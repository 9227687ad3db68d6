//! z3 back end (C API, hand-declared) with constraint slicing and a query cache.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

pub type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    pub fn Z3_mk_config() -> P;
    pub fn Z3_mk_context_rc(c: P) -> P;
    pub fn Z3_inc_ref(c: P, a: P);
    pub fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    pub fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    pub fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    pub fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    pub fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    pub fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_not(c: P, a: P) -> P;
    pub fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    pub fn Z3_mk_true(c: P) -> P;
    pub fn Z3_mk_false(c: P) -> P;
    pub fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    pub fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    pub fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    pub fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    pub fn Z3_mk_simple_solver(c: P) -> P;
    pub fn Z3_solver_inc_ref(c: P, s: P);
    pub fn Z3_solver_dec_ref(c: P, s: P);
    pub fn Z3_solver_push(c: P, s: P);
    pub fn Z3_solver_pop(c: P, s: P, n: c_uint);
    pub fn Z3_solver_reset(c: P, s: P);
    pub fn Z3_solver_assert(c: P, s: P, a: P);
    pub fn Z3_solver_to_string(c: P, s: P) -> *const i8;
    pub fn Z3_solver_check(c: P, s: P) -> c_int;
    pub fn Z3_solver_get_model(c: P, s: P) -> P;
    pub fn Z3_solver_set_params(c: P, s: P, p: P);
    pub fn Z3_model_inc_ref(c: P, m: P);
    pub fn Z3_model_dec_ref(c: P, m: P);
    pub fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    pub fn Z3_get_numeral_uint(c: P, v: P, u: *mut c_uint) -> bool;
    pub fn Z3_mk_params(c: P) -> P;
    pub fn Z3_params_inc_ref(c: P, p: P);
    pub fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    pub fn Z3_get_full_version() -> *const c_char;
    pub fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    pub fn Z3_dec_ref(c: P, a: P);
    pub fn Z3_mk_int_sort(c: P) -> P;
    pub fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_div(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    pub fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    pub fn Z3_mk_le(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_lt(c: P, a: P, b: P) -> P;
}

static CMP: std::sync::LazyLock<bool> = std::sync::LazyLock::new(|| std::env::var("VF_CMP").is_ok());
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64, // discharged by z3
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub domain: u64,    // decided by the complete single-byte truth table
    pub hard: u64,      // of these, given up by the incremental solver and decided by a fresh one
    pub ints: u64,      // decided over the integers
    pub by_model: u64,  // one side witnessed by the state's own model
    pub time_us: u64,
    pub max_us: u64,
    pub assert_queries: u64,
}

pub struct Solver {
    c: P,
    s: P,
    arith: Vec<u8>,            // per term: 1 no, 2 products or quotients in it
    memo: FxMap<E, (P, bool)>, // (ast, is_bool_sort)
    cache: FxMap<Vec<E>, Option<Vec<(u16, u8)>>>,
    pub stats: Stats,
    pub rlimit: u32,
    one: P,
    zero: P,
}
pub enum Ans {
    Unsat,
    Sat(Vec<(u16, u8)>),
    Unknown,
}

impl Solver {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let k = CString::new("smt.random_seed").unwrap();
            let v = CString::new("1").unwrap();
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            let s = if std::env::var("IRSYM_QFBV").is_ok() {
                let l = CString::new("QF_BV").unwrap();
                let l = Z3_mk_string_symbol(c, l.as_ptr());
                Z3_mk_solver_for_logic(c, l)
            } else {
                Z3_mk_simple_solver(c)
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            let k = Z3_mk_string_symbol(c, k.as_ptr());
            Z3_params_set_uint(c, p, k, rlimit);
            Z3_solver_set_params(c, s, p);
            let so = Z3_mk_bv_sort(c, 1);
            Z3_inc_ref(c, so);
            let one = Z3_mk_unsigned_int64(c, 1, so);
            Z3_inc_ref(c, one);
            let zero = Z3_mk_unsigned_int64(c, 0, so);
            Z3_inc_ref(c, zero);
            Solver {
                one,
                zero,
                c,
                s,
                arith: vec![],
                memo: Default::default(),
                cache: Default::default(),
                stats: Default::default(),
                rlimit,
            }
        }
    }
    // Booleans are kept as z3 Bool; wider as BV.
    fn tr(&mut self, e: E) -> P {
        // iterative
        let mut st = vec![e];
        while let Some(&t) = st.last() {
            if self.memo.contains_key(&t) {
                st.pop();
                continue;
            }
            let n = cx().n(t);
            let mut kids: Vec<E> = vec![];
            match n.op {
                Op::Const | Op::Var => {}
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => kids.push(n.a),
                Op::Ite => kids.extend([n.a, n.b, n.c]),
                _ => kids.extend([n.a, n.b]),
            }
            let mut pend = false;
            for k in kids {
                if !self.memo.contains_key(&k) {
                    st.push(k);
                    pend = true;
                }
            }
            if pend {
                continue;
            }
            let r = unsafe { self.tr_node(t, &n) };
            unsafe { Z3_inc_ref(self.c, r) };
            self.memo.insert(t, (r, n.w == 1));
            st.pop();
        }
        self.memo[&e].0
    }
    fn g(&self, e: E) -> P {
        self.memo[&e].0
    }
    // as bit-vector (1-bit bools converted)
    #[inline]
    unsafe fn k(&self, p: P) -> P {
        Z3_inc_ref(self.c, p);
        p
    }
    unsafe fn gb(&self, e: E) -> P {
        let (p, b) = self.memo[&e];
        if b {
            self.k(Z3_mk_ite(self.c, p, self.one, self.zero))
        } else {
            p
        }
    }
    unsafe fn tr_node(&mut self, e: E, n: &Node) -> P {
        let c = self.c;
        let w = n.w as u32;
        match n.op {
            Op::Const => {
                let v = cx().is_const(e).unwrap();
                if w == 1 {
                    return if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) };
                }
                let s = self.k(Z3_mk_bv_sort(c, w));
                if v <= u64::MAX as u128 {
                    Z3_mk_unsigned_int64(c, v as u64, s)
                } else {
                    let t = CString::new(v.to_string()).unwrap();
                    Z3_mk_numeral(c, t.as_ptr(), s)
                }
            }
            Op::Var => {
                let t = CString::new(format!("v{}", n.a)).unwrap();
                let sy = Z3_mk_string_symbol(c, t.as_ptr());
                let so = self.k(Z3_mk_bv_sort(c, 8));
                Z3_mk_const(c, sy, so)
            }
            Op::Not => Z3_mk_not(c, self.g(n.a)),
            Op::And | Op::Or | Op::Xor if w == 1 => {
                let a = [self.g(n.a), self.g(n.b)];
                match n.op {
                    Op::And => Z3_mk_and(c, 2, a.as_ptr()),
                    Op::Or => Z3_mk_or(c, 2, a.as_ptr()),
                    _ => Z3_mk_xor(c, a[0], a[1]),
                }
            }
            Op::Eq => Z3_mk_eq(c, self.g(n.a), self.g(n.b)),
            Op::Ult => Z3_mk_bvult(c, self.gb(n.a), self.gb(n.b)),
            Op::Slt => Z3_mk_bvslt(c, self.gb(n.a), self.gb(n.b)),
            Op::Ite => Z3_mk_ite(c, self.g(n.a), self.g(n.b), self.g(n.c)),
            Op::Concat => Z3_mk_concat(c, self.gb(n.a), self.gb(n.b)),
            Op::Extract => {
                let x = Z3_mk_extract(c, n.b + w - 1, n.b, self.gb(n.a));
                if w == 1 {
                    let x = self.k(x);
                    Z3_mk_eq(c, x, self.one)
                } else {
                    x
                }
            }
            Op::ZExt => Z3_mk_zero_ext(c, w - cx().w(n.a), self.gb(n.a)),
            Op::SExt => Z3_mk_sign_ext(c, w - cx().w(n.a), self.gb(n.a)),
            _ => {
                let (a, b) = (self.gb(n.a), self.gb(n.b));
                let r = match n.op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    Op::AShr => Z3_mk_bvashr(c, a, b),
                    _ => unreachable!(),
                };
                if w == 1 {
                    let r = self.k(r);
                    Z3_mk_eq(c, r, self.one)
                } else {
                    r
                }
            }
        }
    }
    pub fn arith(&mut self, e: E) -> bool {
        self.arith.resize(cx().vars.len().max(self.arith.len()), 0);
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.arith[x as usize] != 0 {
                st.pop();
                continue;
            }
            let n = cx().n(x);
            let kids: Vec<E> = match n.op {
                Op::Const | Op::Var => vec![],
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => vec![n.a],
                Op::Ite => vec![n.a, n.b, n.c],
                _ => vec![n.a, n.b],
            };
            let mut v = match n.op {
                Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem if n.w >= 16 => 2,
                _ => 1,
            };
            let mut pend = false;
            for k in kids {
                match self.arith[k as usize] {
                    0 => {
                        st.push(k);
                        pend = true
                    }
                    2 => v = 2,
                    _ => {}
                }
            }
            if pend && v == 1 {
                continue;
            }
            self.arith[x as usize] = v;
            st.pop();
        }
        self.arith[e as usize] == 2
    }
    /// Satisfiability of the conjunction; a model over the variables it mentions.
    pub fn check(&mut self, mut cs: Vec<E>, lemmas: &[E], force: bool) -> Ans {
        cs.sort_unstable();
        cs.dedup();
        if !force {
            if let Some(r) = self.cache.get(&cs) {
                self.stats.cache_hits += 1;
                return match r {
                    None => Ans::Unsat,
                    Some(m) => Ans::Sat(m.clone()),
                };
            }
        }
        let t0 = std::time::Instant::now();
        let mut vars = [0u64; 4];
        let asts: Vec<P> = cs.iter().map(|e| self.tr(*e)).collect();
        for e in &cs {
            vars = vs_or(&vars, &cx().vars[*e as usize]);
        }
        let ans = unsafe {
            Z3_solver_push(self.c, self.s);
            for a in &asts {
                Z3_solver_assert(self.c, self.s, *a);
            }
            let (mut r, mut s, mut over_ints) = (0, self.s, None);
            // products and quotients over the integers at once; the rest there only when it is too hard for the incremental solver
            let lemmas: Vec<E> = lemmas.iter().copied().filter(|e| vs_or(&vars, &cx().vars[*e as usize]) == vars).collect();
            let arith = cs.iter().any(|e| self.arith(*e));
            for stage in if arith { [1, 0, 2] } else { [0, 2, 9] } {
                if r != 0 || over_ints.is_some() {
                    break;
                }
                match stage {
                    0 => r = Z3_solver_check(self.c, self.s),
                    9 => {}
                    n => match self.over_ints(&cs, &lemmas, if n == 1 { 500 } else { 4000 }) {
                        Ans::Unsat => {
                            self.stats.ints += 1;
                            r = -1
                        }
                        Ans::Sat(m) => {
                            self.stats.ints += 1;
                            over_ints = Some(m)
                        }
                        Ans::Unknown => {}
                    },
                }
            }
            if *CMP && r != 0 {
                let x = match self.over_ints(&cs, &lemmas, 4000) {
                    Ans::Unsat => -1,
                    Ans::Sat(_) => 1,
                    _ => 0,
                };
                let y = Z3_solver_check(self.c, self.s);
                if x * y == -1 {
                    eprintln!("DISAGREE ints {x} bits {y}");
                    eprintln!("{}", std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy());
                } else {
                    eprintln!("AGREE {x} {y}");
                }
            }
            if r == 0 && over_ints.is_none() {
                // then one made for this query alone, with preprocessing and bit-blasting
                let l = CString::new("QF_BV").unwrap();
                let l = Z3_mk_string_symbol(self.c, l.as_ptr());
                s = Z3_mk_solver_for_logic(self.c, l);
                Z3_solver_inc_ref(self.c, s);
                let p = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, p);
                let k = CString::new("rlimit").unwrap();
                let k = Z3_mk_string_symbol(self.c, k.as_ptr());
                Z3_params_set_uint(self.c, p, k, self.rlimit.saturating_mul(40));
                Z3_solver_set_params(self.c, s, p);
                for a in &asts {
                    Z3_solver_assert(self.c, s, *a);
                }
                r = Z3_solver_check(self.c, s);
                self.stats.hard += 1;
            }
            if r == 0 && std::env::var("VF_DUMP").is_ok() {
                eprintln!("{}", std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy());
            }
            let out = match r {
                _ if over_ints.is_some() => Ans::Sat(over_ints.unwrap()),
                -1 => Ans::Unsat,
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut res = vec![];
                    for v in vs_iter(&vars) {
                        let ve = cx().var(v as u32);
                        let a = self.tr(ve);
                        let mut out: P = std::ptr::null_mut();
                        let mut u: c_uint = 0;
                        if Z3_model_eval(self.c, m, a, true, &mut out)
                            && Z3_get_numeral_uint(self.c, out, &mut u)
                        {
                            res.push((v as u16, u as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Ans::Sat(res)
                }
                _ => Ans::Unknown,
            };
            if s != self.s {
                Z3_solver_dec_ref(self.c, s);
            }
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        self.stats.queries += 1;
        match &ans {
            Ans::Unsat => {
                self.stats.unsat += 1;
                self.cache.insert(cs, None);
            }
            Ans::Sat(m) => {
                self.stats.sat += 1;
                self.cache.insert(cs, Some(m.clone()));
            }
            _ => {}
        }
        ans
    }
    unsafe fn limited(&mut self, logic: &str, rlimit: u32, ms: u32) -> P {
        let l = CString::new(logic).unwrap();
        let l = Z3_mk_string_symbol(self.c, l.as_ptr());
        let s = if logic.is_empty() { Z3_mk_simple_solver(self.c) } else { Z3_mk_solver_for_logic(self.c, l) };
        Z3_solver_inc_ref(self.c, s);
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("rlimit").unwrap();
        let k = Z3_mk_string_symbol(self.c, k.as_ptr());
        Z3_params_set_uint(self.c, p, k, rlimit);
        if ms > 0 {
            let k = CString::new("timeout").unwrap();
            let k = Z3_mk_string_symbol(self.c, k.as_ptr());
            Z3_params_set_uint(self.c, p, k, ms);
        }
        Z3_solver_set_params(self.c, s, p);
        s
    }
    unsafe fn over_ints(&mut self, cs: &[E], lemmas: &[E], ms: u32) -> Ans {
        let t0 = std::time::Instant::now();
        let mut z = crate::lia::Lia::new(self.c);
        let r = match z.all(cs, lemmas) {
            None => Ans::Unknown,
            Some(asts) => {
                let s = self.limited(&std::env::var("VF_LOGIC").unwrap_or_default(), self.rlimit.saturating_mul(10), ms);
                for a in &asts {
                    Z3_solver_assert(self.c, s, *a);
                }
                let r = match Z3_solver_check(self.c, s) {
                    -1 => Ans::Unsat,
                    1 => {
                        let m = Z3_solver_get_model(self.c, s);
                        Z3_model_inc_ref(self.c, m);
                        let mut res = vec![];
                        let mut full = vec![0u8; 256];
                        for (p, vs) in z.vars() {
                            let mut out: P = std::ptr::null_mut();
                            let mut u: u64 = 0;
                            if Z3_model_eval(self.c, m, p, true, &mut out) && Z3_get_numeral_uint64(self.c, out, &mut u) {
                                for (i, v) in vs.iter().enumerate() {
                                    let b = (u >> (8 * i)) as u8;
                                    res.push((*v as u16, b));
                                    full[*v as usize] = b;
                                }
                            }
                        }
                        Z3_model_dec_ref(self.c, m);
                        // a model counts only when the bit-vectors agree
                        cx().new_eval();
                        let ok = cs.iter().all(|e| cx().eval(*e, &full) == 1);
                        cx().new_eval();
                        if ok {
                            Ans::Sat(res)
                        } else {
                            if std::env::var("VF_LIA").is_ok() {
                                eprintln!("LIA WRONG MODEL");
                            }
                            Ans::Unknown
                        }
                    }
                    _ => Ans::Unknown,
                };
                if std::env::var("VF_DUMPL").is_ok() && matches!(r, Ans::Unknown) {
                    eprintln!("{}", std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy());
                }
                Z3_solver_dec_ref(self.c, s);
                r
            }
        };
        if std::env::var("VF_LIA").is_ok() {
            eprintln!("LIA {} {} ms", match &r { Ans::Unsat => "unsat", Ans::Sat(_) => "sat", _ => "unknown" }, t0.elapsed().as_millis());
        }
        z.free();
        r
    }
    #[allow(dead_code)]
    pub fn reset(&mut self) {
        unsafe { Z3_solver_reset(self.c, self.s) }
    }
}
