//! Z3 back end: translation of expressions, independence slicing, caching.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::{Duration, Instant};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {}", m.to_string_lossy());
    std::process::exit(3);
}

pub type Model = HashMap<u32, u128>;

#[derive(Clone)]
pub enum Answer {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    memo: HashMap<E, P>,
    memo_b: HashMap<E, P>,
    cache: HashMap<Vec<E>, Answer>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub max_query: Duration,
    pub dump: Option<std::fs::File>,
    pub dumped: u64,
}

impl Solver {
    pub fn new(timeout_ms: u64) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new(timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_error);
            Solver {
                c,
                memo: HashMap::new(),
                memo_b: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: Duration::ZERO,
                max_query: Duration::ZERO,
                dump: None,
                dumped: 0,
            }
        }
    }
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }

    fn keep(&mut self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }

    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            let r = Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w));
            self.keep(r)
        }
    }

    fn to_bool(&mut self, p: &Pool, e: E) -> P {
        if let Some(a) = self.memo_b.get(&e) {
            return *a;
        }
        let c = self.c;
        let r = unsafe {
            match p.node(e) {
                Node::Const(0) => Z3_mk_false(c),
                Node::Const(_) => Z3_mk_true(c),
                Node::Bin(op, a, b) => match op {
                    Op::Eq if p.w(a) == 1 => {
                        let (x, y) = (self.to_bool(p, a), self.to_bool(p, b));
                        Z3_mk_eq(c, x, y)
                    }
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        let (x, y) = (self.to_bv(p, a), self.to_bv(p, b));
                        match op {
                            Op::Eq => Z3_mk_eq(c, x, y),
                            Op::Ult => Z3_mk_bvult(c, x, y),
                            Op::Ule => Z3_mk_bvule(c, x, y),
                            Op::Slt => Z3_mk_bvslt(c, x, y),
                            _ => Z3_mk_bvsle(c, x, y),
                        }
                    }
                    Op::And | Op::Or | Op::Xor => {
                        let (x, y) = (self.to_bool(p, a), self.to_bool(p, b));
                        let v = [x, y];
                        match op {
                            Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                            _ => {
                                if p.is_const(b) == Some(1) {
                                    Z3_mk_not(c, x)
                                } else {
                                    Z3_mk_xor(c, x, y)
                                }
                            }
                        }
                    }
                    Op::FEq | Op::FLt | Op::FLe => {
                        let (x, y) = (self.to_fp(p, a), self.to_fp(p, b));
                        match op {
                            Op::FEq => Z3_mk_fpa_eq(c, x, y),
                            Op::FLt => Z3_mk_fpa_lt(c, x, y),
                            _ => Z3_mk_fpa_leq(c, x, y),
                        }
                    }
                    _ => {
                        let x = self.to_bv(p, e);
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, x, one)
                    }
                },
                Node::Ite(k, a, b) => {
                    let (k, x, y) = (self.to_bool(p, k), self.to_bool(p, a), self.to_bool(p, b));
                    Z3_mk_ite(c, k, x, y)
                }
                Node::Un(Un::FIsNan, a) => {
                    let x = self.to_fp(p, a);
                    Z3_mk_fpa_is_nan(c, x)
                }
                _ => {
                    let x = self.to_bv(p, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        let r = self.keep(r);
        self.memo_b.insert(e, r);
        r
    }

    fn to_fp(&mut self, p: &Pool, e: E) -> P {
        let x = self.to_bv(p, e);
        unsafe {
            let s = if p.w(e) == 64 {
                Z3_mk_fpa_sort_64(self.c)
            } else {
                Z3_mk_fpa_sort_32(self.c)
            };
            let s = self.keep(s);
            let r = Z3_mk_fpa_to_fp_bv(self.c, x, s);
            self.keep(r)
        }
    }

    fn to_bv(&mut self, p: &Pool, e: E) -> P {
        if let Some(a) = self.memo.get(&e) {
            return *a;
        }
        // avoid deep recursion: translate children first, iteratively
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let mut ready = true;
            for k in p.kids(x).iter().flatten() {
                if !self.memo.contains_key(k) {
                    stack.push(*k);
                    ready = false;
                }
            }
            if ready {
                stack.pop();
                let r = self.bv_node(p, x);
                let r = self.keep(r);
                self.memo.insert(x, r);
            }
        }
        self.memo[&e]
    }

    fn bv_node(&mut self, p: &Pool, e: E) -> P {
        let c = self.c;
        let w = p.w(e);
        unsafe {
            match p.node(e) {
                Node::Const(v) => self.num(v, w),
                Node::Sym(i) => {
                    let s = CString::new(format!("s{}", i)).unwrap();
                    let y = Z3_mk_string_symbol(c, s.as_ptr());
                    Z3_mk_const(c, y, Z3_mk_bv_sort(c, w))
                }
                Node::Bin(op, a, b) => match op {
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe => {
                        let x = self.to_bool(p, e);
                        let one = self.num(1, 1);
                        let z = self.num(0, 1);
                        Z3_mk_ite(c, x, one, z)
                    }
                    Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                        let (x, y) = (self.to_fp(p, a), self.to_fp(p, b));
                        let rm = self.keep(Z3_mk_fpa_rne(c));
                        let r = match op {
                            Op::FAdd => Z3_mk_fpa_add(c, rm, x, y),
                            Op::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                            Op::FMul => Z3_mk_fpa_mul(c, rm, x, y),
                            Op::FDiv => Z3_mk_fpa_div(c, rm, x, y),
                            _ => panic!("symbolic frem"),
                        };
                        let r = self.keep(r);
                        Z3_mk_fpa_to_ieee_bv(c, r)
                    }
                    _ => {
                        let (x, y) = (self.to_bv(p, a), self.to_bv(p, b));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::Concat => Z3_mk_concat(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                },
                Node::Ite(k, a, b) => {
                    let k = self.to_bool(p, k);
                    let (x, y) = (self.to_bv(p, a), self.to_bv(p, b));
                    Z3_mk_ite(c, k, x, y)
                }
                Node::Extract(a, lo) => {
                    let x = self.to_bv(p, a);
                    Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x)
                }
                Node::ZExt(a) => {
                    let x = self.to_bv(p, a);
                    Z3_mk_zero_ext(c, w - p.w(a), x)
                }
                Node::SExt(a) => {
                    let x = self.to_bv(p, a);
                    Z3_mk_sign_ext(c, w - p.w(a), x)
                }
                Node::Un(op, a) => {
                    let fs = if w == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
                    let fs = self.keep(fs);
                    let rne = self.keep(Z3_mk_fpa_rne(c));
                    let rtz = self.keep(Z3_mk_fpa_rtz(c));
                    match op {
                        Un::FIsNan => {
                            let x = self.to_bool(p, e);
                            let one = self.num(1, 1);
                            let z = self.num(0, 1);
                            Z3_mk_ite(c, x, one, z)
                        }
                        Un::SiToFp => {
                            let x = self.to_bv(p, a);
                            Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne, x, fs))
                        }
                        Un::UiToFp => {
                            let x = self.to_bv(p, a);
                            Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne, x, fs))
                        }
                        Un::FpToSi => {
                            let x = self.to_fp(p, a);
                            Z3_mk_fpa_to_sbv(c, rtz, x, w)
                        }
                        Un::FpToUi => {
                            let x = self.to_fp(p, a);
                            Z3_mk_fpa_to_ubv(c, rtz, x, w)
                        }
                        Un::FpConv => {
                            let x = self.to_fp(p, a);
                            Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne, x, fs))
                        }
                    }
                }
            }
        }
    }

    /// Is the conjunction of the constraints in `pc` that are (transitively)
    /// related to `cond`, together with `cond`, satisfiable?
    pub fn check(&mut self, p: &mut Pool, pc: &[E], cond: E) -> Answer {
        if let Some(v) = p.is_const(cond) {
            return if v == 0 { Answer::Unsat } else { Answer::Sat(Rc::new(Model::new())) };
        }
        // slice
        let mut want: HashSet<u32> = p.syms_of(cond).iter().copied().collect();
        let mut picked: Vec<E> = vec![];
        let mut rest: Vec<E> = pc.to_vec();
        loop {
            let before = rest.len();
            rest.retain(|&e| {
                let s = p.syms_of(e);
                if s.iter().any(|x| want.contains(x)) {
                    want.extend(s.iter().copied());
                    picked.push(e);
                    false
                } else {
                    true
                }
            });
            if rest.len() == before {
                break;
            }
        }
        picked.sort_unstable();
        picked.dedup();
        picked.push(cond);
        if let Some(a) = self.cache.get(&picked) {
            self.cache_hits += 1;
            return a.clone();
        }
        let t = Instant::now();
        let ans = unsafe {
            let fp = false;
            let s = if fp { Z3_mk_solver(self.c) } else { Z3_mk_simple_solver(self.c) };
            Z3_solver_inc_ref(self.c, s);
            for &e in &picked {
                let b = self.to_bool(p, e);
                Z3_solver_assert(self.c, s, b);
            }
            self.queries += 1;
            let r = Z3_solver_check(self.c, s);
            if let Some(f) = self.dump.as_mut() {
                if self.dumped < 4000 {
                    use std::io::Write;
                    self.dumped += 1;
                    let t = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy();
                    let _ = write!(f, "; expect {}\n{}(check-sat)\n(reset)\n", ["unsat", "unknown", "sat"][(r + 1) as usize], t);
                }
            }
            let a = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = Model::new();
                    for &id in &want {
                        let w = p.sym_bits[id as usize];
                        let e = p.sym(id, w);
                        let a = self.to_bv(p, e);
                        let mut v: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, a, true, &mut v) {
                            Z3_inc_ref(self.c, v);
                            let t = CStr::from_ptr(Z3_get_numeral_string(self.c, v));
                            out.insert(id, t.to_str().unwrap().parse::<u128>().unwrap());
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Answer::Sat(Rc::new(out))
                }
                -1 => {
                    self.unsat += 1;
                    Answer::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Answer::Unknown
                }
            };
            Z3_solver_dec_ref(self.c, s);
            a
        };
        let d = t.elapsed();
        self.time += d;
        self.max_query = self.max_query.max(d);
        self.cache.insert(picked, ans.clone());
        ans
    }

    /// Whether `a` and `b` are equal whatever the values of their symbols.
    fn equal(&mut self, p: &Pool, a: E, b: E) -> i32 {
        unsafe {
            let e = if p.w(a) == 1 {
                let (x, y) = (self.to_bool(p, a), self.to_bool(p, b));
                Z3_mk_eq(self.c, x, y)
            } else {
                let (x, y) = (self.to_bv(p, a), self.to_bv(p, b));
                Z3_mk_eq(self.c, x, y)
            };
            let e = self.keep(e);
            let n = Z3_mk_not(self.c, e);
            let n = self.keep(n);
            let s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_assert(self.c, s, n);
            let r = Z3_solver_check(self.c, s);
            Z3_solver_dec_ref(self.c, s);
            r
        }
    }

    /// Check the rewrites of the pool.
    pub fn audit(&mut self, p: &mut Pool, budget: Duration) -> Audit {
        let t = Instant::now();
        let mut a = Audit::default();
        let all = p.rewrites();
        a.rewrites = all.len() as u64;
        let mut done: HashMap<(E, E), bool> = HashMap::new();
        for (x, y) in all {
            let mut ok = None;
            for depth in [1, 2, 4, 8, 64, u32::MAX] {
                if (depth == 1) != p.is_fsub(x) {
                    continue;
                }
                let (u, v) = p.abstracted(x, y, depth);
                if let Some(&b) = done.get(&(u, v)) {
                    if b {
                        ok = Some(true);
                        break;
                    }
                    continue;
                }
                if t.elapsed() > budget {
                    break;
                }
                a.queries += 1;
                let r = self.equal(p, u, v);
                done.insert((u, v), r == -1);
                if r == -1 {
                    ok = Some(true);
                    break;
                }
                if r == 1 && depth == u32::MAX {
                    ok = Some(false);
                }
            }
            match ok {
                Some(true) => a.valid += 1,
                Some(false) => a.wrong.push((x, y)),
                None => a.open += 1,
            }
        }
        a.time = t.elapsed();
        a
    }
}

#[derive(Default)]
pub struct Audit {
    pub rewrites: u64,
    pub valid: u64,
    pub open: u64,
    pub queries: u64,
    pub wrong: Vec<(E, E)>,
    pub time: Duration,
}
