//! Path-forking symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    X(E),
    Agg(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per-byte symbolic expression (0 = concrete)
    pub sym: Option<Vec<E>>,
    pub writable: bool,
    pub stack: bool,
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    bb: u32,
    ip: usize,
    regs: Vec<V>,
    allocas: Vec<u64>,
    dst: Option<u32>,
    next: Option<u32>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked,
    Joining,
    Done,
}

#[derive(Clone)]
struct Thread {
    frames: Vec<Frame>,
    status: Status,
    yielded: bool,
}

#[derive(Clone)]
pub struct State {
    threads: Vec<Thread>,
    cur: usize,
    mem: BTreeMap<u64, Rc<Obj>>,
    pc: Vec<E>,
    known: Rc<HashMap<u32, u128>>,
    model: Rc<Model>,
    inputs: Vec<(E, u32)>,
    notes: Vec<V>,
    sched: Vec<u8>,
    next: u64,
    preempt: u32,
    steps: u64,
    flags: BTreeMap<u64, u64>,
}

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub at: String,
    pub inputs: Vec<(u32, u128)>,
    pub sched: Vec<u8>,
    pub notes: Vec<u128>,
}

pub struct Sample {
    pub inputs: Vec<(u32, u128)>,
    pub sched: Vec<u8>,
    pub notes: Vec<u128>,
}

pub struct Limits {
    pub time: Duration,
    pub paths: u64,
    pub steps_per_path: u64,
    pub preempt: u32,
    pub atomic_yield: bool,
    pub samples: usize,
    pub max_violations: usize,
    pub deep: bool,
}

enum Stop {
    Done,
    Infeasible,
    Violated,
    Error(String),
}
type Res<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> Res<T> {
    Err(Stop::Error(s.into()))
}

pub struct Exec {
    pub m: Module,
    pub pool: Pool,
    pub solver: Solver,
    pub lim: Limits,
    funcs: HashMap<Rc<str>, Rc<Func>>,
    kvals: Vec<Option<V>>,
    gaddr: HashMap<Rc<str>, u64>,
    ro: BTreeMap<u64, Obj>,
    ro_index: Vec<(u64, u64)>,
    faddr: HashMap<Rc<str>, u64>,
    fname: HashMap<u64, Rc<str>>,
    weak: HashSet<Rc<str>>,
    sym_ids: HashMap<(usize, u32), u32>,
    work: Vec<State>,
    pub violations: Vec<Violation>,
    vio_count: HashMap<String, usize>,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub covers: BTreeMap<String, u64>,
    pub entered: HashMap<Rc<str>, HashSet<u32>>,
    pub max_pc: usize,
    pub switches: u64,
    pub deadline: Instant,
    init_mem: BTreeMap<u64, Rc<Obj>>,
    pub bounds: BTreeMap<String, u64>,
}

const FBASE: u64 = 0x1000_0000;
const GBASE: u64 = 0x4000_0000;
const HBASE: u64 = 0x10_0000_0000;

impl Exec {
    pub fn new(m: Module, solver: Solver, lim: Limits) -> Result<Exec, String> {
        let mut x = Exec {
            m,
            pool: Pool::new(),
            solver,
            funcs: HashMap::new(),
            kvals: vec![],
            gaddr: HashMap::new(),
            ro: BTreeMap::new(),
            ro_index: vec![],
            faddr: HashMap::new(),
            fname: HashMap::new(),
            weak: HashSet::new(),
            sym_ids: HashMap::new(),
            work: vec![],
            violations: vec![],
            vio_count: HashMap::new(),
            errors: BTreeMap::new(),
            samples: vec![],
            paths: 0,
            infeasible: 0,
            forks: 0,
            steps: 0,
            asserts: 0,
            assert_queries: 0,
            covers: BTreeMap::new(),
            entered: HashMap::new(),
            max_pc: 0,
            switches: 0,
            deadline: Instant::now() + lim.time,
            lim,
            init_mem: BTreeMap::new(),
            bounds: BTreeMap::new(),
        };
        // addresses
        let mut a = FBASE;
        let mut names: Vec<Rc<str>> = x.m.fdefs.keys().cloned().collect();
        names.extend(x.m.fdecls.iter().cloned());
        names.sort();
        for n in names {
            x.faddr.insert(n.clone(), a);
            x.fname.insert(a, n);
            a += 16;
        }
        let mut g = GBASE;
        for (n, d) in &x.m.globals {
            let al = d.align.max(16) as u64;
            g = (g + al - 1) / al * al;
            x.gaddr.insert(n.clone(), g);
            g += d.ty.size() as u64 + 32;
        }
        let globals = std::mem::take(&mut x.m.globals);
        for (n, d) in &globals {
            let addr = x.gaddr[n];
            let mut data = vec![0u8; d.ty.size()];
            if let Some(c) = &d.init {
                x.init_bytes(c, &d.ty, &mut data)?;
            }
            let o = Obj { data, sym: None, writable: !d.constant, stack: false };
            if d.constant {
                x.ro.insert(addr, o);
            } else {
                x.init_mem.insert(addr, Rc::new(o));
            }
        }
        x.ro_index = x.ro.iter().map(|(a, o)| (*a, o.data.len() as u64)).collect();
        Ok(x)
    }

    pub fn set_weak(&mut self, n: &str) {
        self.weak.insert(Rc::from(n));
    }

    fn sym_addr(&self, n: &str) -> Result<u64, String> {
        if self.weak.contains(n) {
            return Ok(0);
        }
        if let Some(a) = self.faddr.get(n) {
            return Ok(*a);
        }
        if let Some(a) = self.gaddr.get(n) {
            return Ok(*a);
        }
        Err(format!("unknown symbol {}", n))
    }

    fn cv_int(&self, c: &Cv) -> Result<u128, String> {
        Ok(match c {
            Cv::Int(v, _) => *v,
            Cv::Null => 0,
            Cv::Zero(_) | Cv::Undef(_) => 0,
            Cv::Global(n) => self.sym_addr(n)? as u128,
            Cv::Gep(t, b, idx) => {
                let mut a = self.cv_int(b)? as i64;
                let mut ty = t.clone();
                for (k, (it, v)) in idx.iter().enumerate() {
                    let i = sext_to_i128(self.cv_int(v)?, it.bits()) as i64;
                    if k == 0 {
                        a += i * ty.size() as i64;
                    } else {
                        match &ty {
                            Ty::Struct(f, _) => {
                                a += ty.field_offset(i as usize) as i64;
                                let t = f[i as usize].clone();
                                ty = t;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                a += i * t.size() as i64;
                                let t = (**t).clone();
                                ty = t;
                            }
                            _ => return Err("const gep".into()),
                        }
                    }
                }
                a as u64 as u128
            }
            Cv::Cast(op, from, v, to) => {
                let x = self.cv_int(v)?;
                match *op {
                    "sext" => (sext_to_i128(x, from.bits()) as u128) & mask(to.bits()),
                    _ => x & mask(to.bits()),
                }
            }
            Cv::Bin(op, t, a, b) => {
                let (x, y) = (self.cv_int(a)?, self.cv_int(b)?);
                let w = t.bits();
                let o = match *op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    _ => Op::LShr,
                };
                fold(o, x, y, w).unwrap_or(0)
            }
            _ => return Err(format!("constant {:?}", c)),
        })
    }

    fn init_bytes(&self, c: &Cv, ty: &Ty, out: &mut [u8]) -> Result<(), String> {
        match c {
            Cv::Zero(_) | Cv::Undef(_) => {}
            Cv::Bytes(b) => out[..b.len()].copy_from_slice(b),
            Cv::Agg(_, vs) => {
                for (i, v) in vs.iter().enumerate() {
                    let (t, o) = match ty {
                        Ty::Struct(f, _) => (f[i].clone(), ty.field_offset(i)),
                        Ty::Arr(_, t) | Ty::Vec(_, t) => ((**t).clone(), i * t.size()),
                        _ => return Err("init agg".into()),
                    };
                    let n = t.size();
                    self.init_bytes(v, &t, &mut out[o..o + n])?;
                }
            }
            _ => {
                let v = self.cv_int(c)?;
                let n = (ty.bits() as usize + 7) / 8;
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
        Ok(())
    }

    fn cv_val(&self, c: &Cv) -> Result<V, String> {
        Ok(match c {
            Cv::Zero(t) | Cv::Undef(t) => zero(t),
            Cv::Agg(_, v) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.cv_val(x)?);
                }
                V::Agg(Rc::new(o))
            }
            Cv::Bytes(b) => V::Agg(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            _ => V::C(self.cv_int(c)?),
        })
    }

    fn func(&mut self, n: &str) -> Res<Option<Rc<Func>>> {
        if let Some(f) = self.funcs.get(n) {
            return Ok(Some(f.clone()));
        }
        let f = match self.m.function(n) {
            Ok(Some(f)) => Rc::new(f),
            Ok(None) => return Ok(None),
            Err(e) => return err(e),
        };
        self.kvals.resize(self.m.consts.len(), None);
        self.funcs.insert(f.name.clone(), f.clone());
        Ok(Some(f))
    }

    fn kval(&mut self, k: u32) -> Res<V> {
        if let Some(v) = &self.kvals[k as usize] {
            return Ok(v.clone());
        }
        let c = self.m.consts[k as usize].clone();
        match self.cv_val(&c) {
            Ok(v) => {
                self.kvals[k as usize] = Some(v.clone());
                Ok(v)
            }
            Err(e) => err(e),
        }
    }

    #[inline]
    fn op(&mut self, fr: &Frame, o: &Opnd) -> Res<V> {
        match o {
            Opnd::Reg(r) => Ok(fr.regs[*r as usize].clone()),
            Opnd::K(k) => self.kval(*k),
            Opnd::Const(c) => match self.cv_val(c) {
                Ok(v) => Ok(v),
                Err(e) => err(e),
            },
        }
    }

    pub fn ex(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.pool.konst(*c, w),
            V::X(e) => *e,
            V::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn wrap(&self, e: E) -> V {
        match self.pool.is_const(e) {
            Some(v) => V::C(v),
            None => V::X(e),
        }
    }

    fn eval(&self, e: E, m: &Model) -> u128 {
        let mut memo = HashMap::new();
        self.pool.eval(e, &|i| m.get(&i).copied().unwrap_or(0), &mut memo)
    }

    fn with_model(old: &Rc<Model>, new: &Rc<Model>) -> Rc<Model> {
        let mut m = (**old).clone();
        for (k, v) in new.iter() {
            m.insert(*k, *v);
        }
        Rc::new(m)
    }

    /// Add `c`, which `st.model` satisfies, to the path condition. Symbols that
    /// it fixes are replaced by their values from here on.
    fn learn(&mut self, st: &mut State, c: E) {
        let mut todo = vec![c];
        while let Some(c) = todo.pop() {
            let c = self.pool.subst(c, &st.known);
            if self.pool.is_const(c).is_some() || st.pc.contains(&c) {
                continue;
            }
            if let Node::Bin(Op::And, a, b) = self.pool.node(c) {
                if self.pool.w(c) == 1 {
                    todo.push(a);
                    todo.push(b);
                    continue;
                }
            }
            let mut f = vec![];
            if self.pool.fixes(c, &mut f) && f.iter().all(|(i, v)| st.model.get(i).copied().unwrap_or(0) == *v) {
                self.pool.fixed.push((c, f.clone()));
                let k = Rc::make_mut(&mut st.known);
                for (i, v) in &f {
                    k.insert(*i, *v);
                }
                let mut i = 0;
                while i < st.pc.len() {
                    let s = self.pool.syms_of(st.pc[i]);
                    if s.iter().any(|x| f.iter().any(|y| y.0 == *x)) {
                        todo.push(st.pc.swap_remove(i));
                    } else {
                        i += 1;
                    }
                }
            } else {
                st.pc.push(c);
            }
        }
    }

    /// The value of a condition as far as the path condition has it, or a
    /// bound of the term it looks at, literally.
    fn decided(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = self.pool.is_const(c) {
            return Some(v != 0);
        }
        if st.pc.contains(&c) {
            return Some(true);
        }
        let n = self.pool.not(c);
        if st.pc.contains(&n) {
            return Some(false);
        }
        match self.pool.node(c) {
            Node::Bin(Op::Xor, a, k) if self.pool.is_const(k) == Some(1) => self.decided(st, a).map(|x| !x),
            Node::Bin(Op::And, a, b) => match (self.decided(st, a), self.decided(st, b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Node::Bin(Op::Or, a, b) => match (self.decided(st, a), self.decided(st, b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Node::Bin(Op::Eq, a, b) => {
                let (x, k) = match (self.pool.is_const(a), self.pool.is_const(b)) {
                    (None, Some(k)) => (a, k),
                    (Some(k), None) => (b, k),
                    _ => return None,
                };
                for &p in &st.pc {
                    if let Node::Bin(o @ (Op::Ult | Op::Ule), l, r) = self.pool.node(p) {
                        let out = match (self.pool.is_const(l), self.pool.is_const(r)) {
                            (None, Some(m)) if l == x => k > m || k == m && o == Op::Ult,
                            (Some(m), None) if r == x => k < m || k == m && o == Op::Ult,
                            _ => false,
                        };
                        if out {
                            return Some(false);
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }

    /// Feasibility of `c` in `st`; returns a model of pc ∧ c.
    fn feasible(&mut self, st: &State, c: E) -> Option<Rc<Model>> {
        let c = self.pool.subst(c, &st.known);
        if let Some(v) = self.pool.is_const(c) {
            return if v != 0 { Some(st.model.clone()) } else { None };
        }
        if self.eval(c, &st.model) != 0 {
            return Some(st.model.clone());
        }
        let n = self.pool.not(c);
        if st.pc.contains(&n) {
            return None;
        }
        match self.solver.check(&mut self.pool, &st.pc, c) {
            Answer::Sat(m) => {
                let m = Self::with_model(&st.model, &m);
                if self.eval(c, &m) == 0 || st.pc.iter().any(|&p| self.eval(p, &m) == 0) {
                    // a solver model that does not evaluate to true (NaN payloads):
                    // the value semantics of the two sides differ, refuse to guess
                    *self.errors.entry("solver model not confirmed by evaluation".into()).or_default() += 1;
                    return None;
                }
                Some(m)
            }
            Answer::Unsat => None,
            Answer::Unknown => {
                *self.errors.entry("solver timeout".into()).or_default() += 1;
                None
            }
        }
    }

    /// Decide a branch condition, forking the state when both sides are
    /// feasible (the sibling re-executes the current instruction).
    fn branch(&mut self, st: &mut State, c: E) -> Res<bool> {
        let c = self.pool.subst(c, &st.known);
        if let Some(v) = self.decided(st, c) {
            return Ok(v);
        }
        let n = self.pool.not(c);
        let here = self.eval(c, &st.model) != 0;
        let (mine, other) = if here { (c, n) } else { (n, c) };
        if let Some(m) = self.feasible(st, other) {
            let mut s2 = st.clone();
            s2.model = m;
            self.learn(&mut s2, other);
            self.forks += 1;
            self.work.push(s2);
            self.learn(st, mine);
        }
        Ok(here)
    }

    fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> Res<u128> {
        let e = match v {
            V::C(c) => return Ok(*c),
            V::X(e) => *e,
            V::Agg(_) => return err("concretize aggregate"),
        };
        let e = self.pool.subst(e, &st.known);
        if let Some(c) = self.pool.is_const(e) {
            return Ok(c);
        }
        let val = self.eval(e, &st.model);
        let k = self.pool.konst(val, w);
        let c = self.pool.eq(e, k);
        let n = self.pool.not(c);
        if let Some(m) = self.feasible(st, n) {
            let mut s2 = st.clone();
            s2.model = m;
            self.learn(&mut s2, n);
            self.forks += 1;
            self.work.push(s2);
        }
        self.learn(st, c);
        Ok(val)
    }

    fn violation(&mut self, st: &State, m: &Rc<Model>, kind: &str, msg: &str) {
        let at = self.backtrace(st);
        let key = format!("{}|{}", kind, msg);
        let n = self.vio_count.entry(key).or_default();
        *n += 1;
        if *n > 3 {
            return;
        }
        let inputs = st.inputs.iter().map(|(e, w)| (*w, self.eval(*e, m))).collect();
        let notes = st
            .notes
            .iter()
            .map(|v| match v {
                V::C(c) => *c,
                V::X(e) => self.eval(*e, m),
                _ => 0,
            })
            .collect();
        self.violations.push(Violation {
            kind: kind.into(),
            msg: msg.into(),
            at,
            inputs,
            sched: st.sched.clone(),
            notes,
        });
    }

    fn backtrace(&self, st: &State) -> String {
        let t = &st.threads[st.cur];
        let mut v = vec![];
        for f in t.frames.iter().rev().take(12) {
            v.push(crate::demangle(&f.f.name));
        }
        v.join(" < ")
    }

    // ---- memory -------------------------------------------------------

    fn find<'a>(&'a self, st: &'a State, a: u64, n: u64) -> Option<(u64, &'a Obj)> {
        if a < HBASE {
            // read-only globals
            let i = self.ro_index.partition_point(|x| x.0 <= a);
            if i > 0 {
                let (b, len) = self.ro_index[i - 1];
                if a + n <= b + len {
                    return Some((b, &self.ro[&b]));
                }
            }
        }
        let (b, o) = st.mem.range(..=a).next_back()?;
        if a + n <= *b + o.data.len() as u64 {
            Some((*b, o))
        } else {
            None
        }
    }

    fn bad_access(&mut self, st: &State, what: &str, a: u64, n: u64) -> Stop {
        let m = st.model.clone();
        self.violation(st, &m, "memory", &format!("invalid {} of {} byte(s) at {:#x}", what, n, a));
        Stop::Violated
    }

    fn read_bytes(&mut self, st: &State, a: u64, n: usize) -> Res<(Vec<u8>, Option<Vec<E>>)> {
        match self.find(st, a, n as u64) {
            Some((b, o)) => {
                let i = (a - b) as usize;
                Ok((o.data[i..i + n].to_vec(), o.sym.as_ref().map(|s| s[i..i + n].to_vec())))
            }
            None => Err(self.bad_access(st, "read", a, n as u64)),
        }
    }

    fn load_int(&mut self, st: &State, a: u64, bits: u32) -> Res<V> {
        let n = (bits as usize + 7) / 8;
        let (b, o) = match self.find(st, a, n as u64) {
            Some(x) => x,
            None => return Err(self.bad_access(st, "read", a, n as u64)),
        };
        let i = (a - b) as usize;
        let bytes = &o.data[i..i + n];
        let symbolic = o.sym.as_ref().map_or(false, |s| s[i..i + n].iter().any(|x| *x != 0));
        if !symbolic {
            let mut buf = [0u8; 16];
            buf[..n].copy_from_slice(bytes);
            return Ok(V::C(u128::from_le_bytes(buf) & mask(bits)));
        }
        let bytes = bytes.to_vec();
        let syms = o.sym.as_ref().unwrap()[i..i + n].to_vec();
        let mut e = None;
        for k in 0..n {
            let x = if syms[k] != 0 { syms[k] } else { self.pool.konst(bytes[k] as u128, 8) };
            e = Some(match e {
                None => x,
                Some(l) => self.pool.concat(x, l),
            });
        }
        let mut e = e.unwrap();
        if bits as usize != n * 8 {
            e = self.pool.extract(e, 0, bits);
        }
        Ok(self.wrap(e))
    }

    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> Res<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.load_int(st, a, ty.bits()),
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() {
                    v.push(self.load(st, a + ty.field_offset(i) as u64, t)?);
                }
                Ok(V::Agg(Rc::new(v)))
            }
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let x = self.load_int(st, a, (*n as u32) * t.bits())?;
                let e = self.ex(&x, (*n as u32) * t.bits());
                let b = t.bits();
                let mut v = vec![];
                for i in 0..*n {
                    let y = self.pool.extract(e, i as u32 * b, b);
                    v.push(self.wrap(y));
                }
                Ok(V::Agg(Rc::new(v)))
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let mut v = vec![];
                let s = t.size() as u64;
                for i in 0..*n {
                    v.push(self.load(st, a + i as u64 * s, t)?);
                }
                Ok(V::Agg(Rc::new(v)))
            }
            _ => err("load type"),
        }
    }

    fn obj_mut<'a>(&mut self, st: &'a mut State, a: u64, n: u64) -> Res<(u64, &'a mut Obj)> {
        let ok = match st.mem.range(..=a).next_back() {
            Some((b, o)) if a + n <= *b + o.data.len() as u64 && o.writable => Some(*b),
            _ => None,
        };
        match ok {
            Some(b) => Ok((b, Rc::make_mut(st.mem.get_mut(&b).unwrap()))),
            None => Err(self.bad_access(st, "write", a, n)),
        }
    }

    fn store_int(&mut self, st: &mut State, a: u64, v: &V, bits: u32) -> Res<()> {
        let n = (bits as usize + 7) / 8;
        match v {
            V::C(c) => {
                let (b, o) = self.obj_mut(st, a, n as u64)?;
                let i = (a - b) as usize;
                o.data[i..i + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    s[i..i + n].fill(0);
                }
            }
            V::X(e) => {
                let e = if bits as usize != n * 8 { self.pool.zext(*e, n as u32 * 8) } else { *e };
                let parts: Vec<E> = (0..n).map(|k| self.pool.extract(e, k as u32 * 8, 8)).collect();
                let consts: Vec<Option<u128>> = parts.iter().map(|&p| self.pool.is_const(p)).collect();
                let (b, o) = self.obj_mut(st, a, n as u64)?;
                let i = (a - b) as usize;
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                for k in 0..n {
                    match consts[k] {
                        Some(c) => {
                            o.data[i + k] = c as u8;
                            s[i + k] = 0;
                        }
                        None => s[i + k] = parts[k],
                    }
                }
            }
            V::Agg(_) => return err("store aggregate as int"),
        }
        Ok(())
    }

    fn store(&mut self, st: &mut State, a: u64, v: &V, ty: &Ty) -> Res<()> {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, _) => self.store_int(st, a, v, ty.bits()),
            (Ty::Struct(f, _), V::Agg(vs)) => {
                for (i, t) in f.iter().enumerate() {
                    self.store(st, a + ty.field_offset(i) as u64, &vs[i], t)?;
                }
                Ok(())
            }
            (Ty::Vec(n, t), V::Agg(vs)) if t.bits() % 8 != 0 => {
                let x = self.pack(vs, t.bits());
                self.store_int(st, a, &x, *n as u32 * t.bits())
            }
            (Ty::Arr(_, t) | Ty::Vec(_, t), V::Agg(vs)) => {
                let s = t.size() as u64;
                for (i, x) in vs.iter().enumerate() {
                    self.store(st, a + i as u64 * s, x, t)?;
                }
                Ok(())
            }
            _ => err("store type"),
        }
    }

    fn pack(&mut self, vs: &[V], bits: u32) -> V {
        let mut e: Option<E> = None;
        for v in vs {
            let x = self.ex(v, bits);
            e = Some(match e {
                None => x,
                Some(l) => self.pool.concat(x, l),
            });
        }
        self.wrap(e.unwrap())
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> Res<()> {
        if n == 0 {
            return Ok(());
        }
        let (data, sym) = self.read_bytes(st, s, n)?;
        let (b, o) = self.obj_mut(st, d, n as u64)?;
        let i = (d - b) as usize;
        o.data[i..i + n].copy_from_slice(&data);
        match sym {
            Some(x) if x.iter().any(|e| *e != 0) => {
                let len = o.data.len();
                let t = o.sym.get_or_insert_with(|| vec![0; len]);
                t[i..i + n].copy_from_slice(&x);
            }
            _ => {
                if let Some(t) = &mut o.sym {
                    t[i..i + n].fill(0);
                }
            }
        }
        Ok(())
    }

    fn alloc(&mut self, st: &mut State, n: usize, align: usize, stack: bool) -> u64 {
        let al = align.max(16) as u64;
        let a = (st.next + al - 1) / al * al;
        st.next = a + n as u64 + 32;
        st.mem.insert(a, Rc::new(Obj { data: vec![0; n], sym: None, writable: true, stack }));
        a
    }

    /// Load through a symbolic address: read a small table without forking
    /// when the whole range lies in one object, else enumerate the addresses.
    fn load_sym(&mut self, st: &mut State, e: E, ty: &Ty) -> Res<V> {
        if let Ty::Int(bits) = *ty {
            let a = self.eval(e, &st.model) as u64;
            let n = (bits as u64 + 7) / 8;
            let got = self.find(st, a, n).map(|(b, o)| (b, o.data.len() as u64));
            if let Some((b, len)) = got {
                if len <= 1024 {
                    let lo = self.pool.konst(b as u128, 64);
                    let off = self.pool.bin(Op::Sub, e, lo);
                    let lim = self.pool.konst((len - n) as u128, 64);
                    let inside = self.pool.bin(Op::Ule, off, lim);
                    let outside = self.pool.not(inside);
                    let aligned = if n > 1 {
                        // stride check on the residue
                        let r = self.pool.extract(off, 0, n.trailing_zeros());
                        let k = self.pool.konst(((a - b) % n) as u128, n.trailing_zeros());
                        let c = self.pool.eq(r, k);
                        let nc = self.pool.not(c);
                        self.feasible(st, nc).is_none()
                    } else {
                        true
                    };
                    if aligned && self.feasible(st, outside).is_none() {
                        let first = (a - b) % n;
                        let mut vals = vec![];
                        let mut o = first;
                        while o + n <= len {
                            vals.push((o, self.load_int(st, b + o, bits)?));
                            o += n;
                        }
                        // runs of equal values
                        let mut r: Option<E> = None;
                        let mut k = vals.len();
                        while k > 0 {
                            let ve = self.ex(&vals[k - 1].1, bits);
                            let mut j = k - 1;
                            while j > 0 && self.ex(&vals[j - 1].1, bits) == ve {
                                j -= 1;
                            }
                            r = Some(match r {
                                None => ve,
                                Some(x) => {
                                    let lim = self.pool.konst(vals[k].0 as u128, 64);
                                    let c = self.pool.bin(Op::Ult, off, lim);
                                    self.pool.ite(c, ve, x)
                                }
                            });
                            k = j;
                        }
                        return Ok(self.wrap(r.unwrap()));
                    }
                }
            }
        }
        let a = self.concretize(st, &V::X(e), 64)? as u64;
        self.load(st, a, ty)
    }

    // ---- driver ---------------------------------------------------------

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let f = match self.func(entry) {
            Ok(Some(f)) => f,
            Ok(None) => return Err(format!("no such harness {}", entry)),
            Err(Stop::Error(e)) => return Err(e),
            Err(_) => return Err("entry".into()),
        };
        let fr = new_frame(f);
        let st = State {
            threads: vec![Thread { frames: vec![fr], status: Status::Ready, yielded: false }],
            cur: 0,
            mem: self.init_mem.clone(),
            pc: vec![],
            known: Rc::new(HashMap::new()),
            model: Rc::new(Model::new()),
            inputs: vec![],
            notes: vec![],
            sched: vec![],
            next: HBASE,
            preempt: 0,
            steps: 0,
            flags: if self.lim.deep { [(100, 1)].into() } else { BTreeMap::new() },
        };
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if Instant::now() > self.deadline {
                let k = format!("time limit reached with {} open path(s)", self.work.len() + 1);
                *self.errors.entry(k).or_default() += 1;
                break;
            }
            if self.paths >= self.lim.paths {
                let k = format!("path limit reached with {} open path(s)", self.work.len() + 1);
                *self.errors.entry(k).or_default() += 1;
                break;
            }
            if self.violations.len() >= self.lim.max_violations {
                break;
            }
            self.run_state(st);
        }
        Ok(())
    }

    fn run_state(&mut self, mut st: State) {
        loop {
            let r = self.step(&mut st);
            match r {
                Ok(()) => {
                    st.steps += 1;
                    self.steps += 1;
                    if st.steps > self.lim.steps_per_path {
                        let m = st.model.clone();
                        self.violation(&st, &m, "hang", "the call returns");
                        return;
                    }
                    if self.steps & 0xffff == 0 && Instant::now() > self.deadline {
                        *self.errors.entry("time limit".into()).or_default() += 1;
                        return;
                    }
                }
                Err(Stop::Done) => {
                    self.paths += 1;
                    self.max_pc = self.max_pc.max(st.pc.len());
                    let n = self.samples.len();
                    if n < self.lim.samples && (n < self.lim.samples / 2 || self.paths % 17 == 0) {
                        let m = st.model.clone();
                        let inputs = st.inputs.iter().map(|(e, w)| (*w, self.eval(*e, &m))).collect();
                        let notes = st
                            .notes
                            .iter()
                            .map(|v| match v {
                                V::C(c) => *c,
                                V::X(e) => self.eval(*e, &m),
                                _ => 0,
                            })
                            .collect();
                        self.samples.push(Sample { inputs, sched: st.sched.clone(), notes });
                    }
                    return;
                }
                Err(Stop::Infeasible) => {
                    self.infeasible += 1;
                    return;
                }
                Err(Stop::Violated) => return,
                Err(Stop::Error(e)) => {
                    let bt = self.backtrace(&st);
                    *self.errors.entry(format!("{} [{}]", e, bt)).or_default() += 1;
                    return;
                }
            }
        }
    }

    fn set(&self, st: &mut State, d: u32, v: V) {
        let t = &mut st.threads[st.cur];
        let f = t.frames.last_mut().unwrap();
        f.regs[d as usize] = v;
    }
    fn adv(&self, st: &mut State) {
        st.threads[st.cur].frames.last_mut().unwrap().ip += 1;
    }

    fn jump(&mut self, st: &mut State, to: u32) -> Res<()> {
        let cur = st.cur;
        let (f, from) = {
            let fr = st.threads[cur].frames.last().unwrap();
            (fr.f.clone(), fr.bb)
        };
        let b = &f.blocks[to as usize];
        let mut vals = vec![];
        {
            let t = std::mem::take(&mut st.threads[cur].frames);
            let fr = t.last().unwrap();
            let mut e = Ok(());
            for (d, _, inc) in &b.phis {
                match inc.iter().find(|(l, _)| *l == from) {
                    Some((_, o)) => match self.op(fr, o) {
                        Ok(v) => vals.push((*d, v)),
                        Err(x) => e = Err(x),
                    },
                    None => e = err("phi without edge"),
                }
            }
            st.threads[cur].frames = t;
            e?;
        }
        let fr = st.threads[cur].frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.bb = to;
        fr.ip = 0;
        if let Some(s) = self.entered.get_mut(&f.name) {
            s.insert(to);
        }
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> Res<()> {
        let cur = st.cur;
        let f = st.threads[cur].frames.last().unwrap().f.clone();
        let (bb, ip) = {
            let fr = st.threads[cur].frames.last().unwrap();
            (fr.bb, fr.ip)
        };
        let ins = &f.blocks[bb as usize].ins[ip];
        macro_rules! o {
            ($x:expr) => {{
                // SAFETY of borrow: the frame is not modified while evaluating
                match $x {
                    Opnd::Reg(r) => st.threads[cur].frames.last().unwrap().regs[*r as usize].clone(),
                    Opnd::K(k) => self.kval(*k)?,
                    Opnd::Const(c) => match self.cv_val(c) {
                        Ok(v) => v,
                        Err(e) => return err(e),
                    },
                }
            }};
        }
        match ins {
            I::Bin { dst, op, ty, a, b } => {
                let (a, b) = (o!(a), o!(b));
                let r = self.binop(*op, ty, &a, &b)?;
                self.set(st, *dst, r);
                self.adv(st);
            }
            I::Load { dst, ty, p, atomic } => {
                if *atomic && self.lim.atomic_yield && !self.sched_point(st)? {
                    return Ok(());
                }
                let p = o!(p);
                let v = match p {
                    V::C(a) => self.load(st, a as u64, ty)?,
                    V::X(e) => self.load_sym(st, e, ty)?,
                    _ => return err("load pointer"),
                };
                self.set(st, *dst, v);
                self.adv(st);
            }
            I::Store { ty, v, p, atomic } => {
                if *atomic && self.lim.atomic_yield && !self.sched_point(st)? {
                    return Ok(());
                }
                let (v, p) = (o!(v), o!(p));
                let a = self.concretize(st, &p, 64)? as u64;
                self.store(st, a, &v, ty)?;
                self.adv(st);
            }
            I::Gep { dst, base, off, terms } => {
                let b = o!(base);
                let mut all = matches!(b, V::C(_));
                let mut tv = vec![];
                for (t, w, s) in terms {
                    let v = o!(t);
                    all &= matches!(v, V::C(_));
                    tv.push((v, *w, *s));
                }
                let r = if all {
                    let mut a = match b {
                        V::C(a) => a as u64,
                        _ => 0,
                    };
                    a = a.wrapping_add(*off as u64);
                    for (v, w, s) in tv {
                        if let V::C(i) = v {
                            let i = sext_to_i128(i, w) as i64;
                            a = a.wrapping_add(i.wrapping_mul(s) as u64);
                        }
                    }
                    V::C(a as u128)
                } else {
                    let mut e = self.ex(&b, 64);
                    let k = self.pool.konst(*off as u64 as u128, 64);
                    e = self.pool.bin(Op::Add, e, k);
                    for (v, w, s) in tv {
                        let i = self.ex(&v, w);
                        let i = if w < 64 {
                            self.pool.sext(i, 64)
                        } else if w > 64 {
                            self.pool.extract(i, 0, 64)
                        } else {
                            i
                        };
                        let k = self.pool.konst(s as u64 as u128, 64);
                        let t = self.pool.bin(Op::Mul, i, k);
                        e = self.pool.bin(Op::Add, e, t);
                    }
                    self.wrap(e)
                };
                self.set(st, *dst, r);
                self.adv(st);
            }
            I::Icmp { dst, p, ty, a, b } => {
                let (a, b) = (o!(a), o!(b));
                let r = self.icmp(*p, ty, &a, &b)?;
                self.set(st, *dst, r);
                self.adv(st);
            }
            I::CondBr(c, x, y) => {
                let c = o!(c);
                let t = match c {
                    V::C(v) => v != 0,
                    V::X(e) => self.branch(st, e)?,
                    _ => return err("br"),
                };
                self.jump(st, if t { *x } else { *y })?;
            }
            I::Br(l) => self.jump(st, *l)?,
            I::Switch { ty, v, default, cases } => {
                let v = match o!(v) {
                    V::X(e) => {
                        let e = self.pool.subst(e, &st.known);
                        self.wrap(e)
                    }
                    v => v,
                };
                match v {
                    V::C(c) => {
                        let l = cases.iter().find(|(k, _)| *k == c).map(|x| x.1).unwrap_or(*default);
                        self.jump(st, l)?;
                    }
                    V::X(e) => {
                        let w = ty.bits();
                        // group the cases by target
                        let mut targets: Vec<(u32, E)> = vec![];
                        let mut none = self.pool.tt();
                        for (k, l) in cases {
                            let kc = self.pool.konst(*k, w);
                            let c = self.pool.eq(e, kc);
                            let nc = self.pool.not(c);
                            none = self.pool.bin(Op::And, none, nc);
                            match targets.iter_mut().find(|t| t.0 == *l) {
                                Some(t) => t.1 = self.pool.bin(Op::Or, t.1, c),
                                None => targets.push((*l, c)),
                            }
                        }
                        match targets.iter_mut().find(|t| t.0 == *default) {
                            Some(t) => t.1 = self.pool.bin(Op::Or, t.1, none),
                            None => targets.push((*default, none)),
                        }
                        let mut mine = None;
                        let mut others = vec![];
                        for (l, c) in targets {
                            if mine.is_none() && self.eval(c, &st.model) != 0 {
                                mine = Some((l, c));
                            } else if let Some(m) = self.feasible(st, c) {
                                others.push((c, m));
                            }
                        }
                        for (c, m) in others {
                            let mut s2 = st.clone();
                            s2.model = m;
                            self.learn(&mut s2, c);
                            self.forks += 1;
                            self.work.push(s2);
                        }
                        let (l, c) = mine.unwrap();
                        self.learn(st, c);
                        self.jump(st, l)?;
                    }
                    _ => return err("switch"),
                }
            }
            I::Select { dst, cty, c, ty, a, b } => {
                let (mut c, a, b) = (o!(c), o!(a), o!(b));
                if let V::X(e) = c {
                    // decided by a branch taken before
                    let e = self.pool.subst(e, &st.known);
                    if let Some(v) = self.decided(st, e) {
                        c = V::C(v as u128);
                    }
                }
                let r = match (&c, cty) {
                    (V::Agg(cs), _) => {
                        let (va, vb) = match (&a, &b) {
                            (V::Agg(x), V::Agg(y)) => (x.clone(), y.clone()),
                            _ => return err("select vec"),
                        };
                        let et = elem(ty);
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            out.push(self.select(&cs[i], &va[i], &vb[i], &et));
                        }
                        V::Agg(Rc::new(out))
                    }
                    _ => self.select(&c, &a, &b, ty),
                };
                self.set(st, *dst, r);
                self.adv(st);
            }
            I::Cast { dst, op, from, a, to } => {
                let a = o!(a);
                let r = self.cast(*op, from, &a, to)?;
                self.set(st, *dst, r);
                self.adv(st);
            }
            I::Call { dst, callee, args, ret, next } => {
                let name: Rc<str> = match callee {
                    Callee::Name(n) => n.clone(),
                    Callee::Asm => {
                        if let Some(d) = dst {
                            self.set(st, *d, zero(ret));
                        }
                        return self.after_call(st, *next);
                    }
                    Callee::Val(v) => {
                        let v = o!(v);
                        let a = self.concretize(st, &v, 64)? as u64;
                        match self.fname.get(&a) {
                            Some(n) => n.clone(),
                            None => return err(format!("call of non-function {:#x}", a)),
                        }
                    }
                };
                let mut av = vec![];
                for (_, a) in args {
                    av.push(o!(a));
                }
                self.call(st, &name, av, args, *dst, ret, *next)?;
            }
            I::Ret(v) => {
                let v = match v {
                    Some(v) => Some(o!(v)),
                    None => None,
                };
                return self.ret(st, v);
            }
            I::Alloca { dst, size, align, n } => {
                let n = o!(n);
                let n = self.concretize(st, &n, 64)? as usize;
                let a = self.alloc(st, size * n, *align, true);
                st.threads[cur].frames.last_mut().unwrap().allocas.push(a);
                self.set(st, *dst, V::C(a as u128));
                self.adv(st);
            }
            I::ExtractValue { dst, a, idx, .. } => {
                let mut v = o!(a);
                for i in idx {
                    v = match v {
                        V::Agg(x) => x[*i].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                self.set(st, *dst, v);
                self.adv(st);
            }
            I::InsertValue { dst, a, v, idx, .. } => {
                let (a, v) = (o!(a), o!(v));
                let r = insert(&a, &v, idx);
                self.set(st, *dst, r);
                self.adv(st);
            }
            I::ExtractElem { dst, a, i, .. } => {
                let (a, i) = (o!(a), o!(i));
                let i = self.concretize(st, &i, 64)? as usize;
                let v = match a {
                    V::Agg(x) => x[i].clone(),
                    _ => return err("extractelement"),
                };
                self.set(st, *dst, v);
                self.adv(st);
            }
            I::InsertElem { dst, a, v, i, .. } => {
                let (a, v, i) = (o!(a), o!(v), o!(i));
                let i = self.concretize(st, &i, 64)? as usize;
                let r = insert(&a, &v, &[i]);
                self.set(st, *dst, r);
                self.adv(st);
            }
            I::Shuffle { dst, a, b, mask, .. } => {
                let (a, b) = (o!(a), o!(b));
                let r = match (a, b) {
                    (V::Agg(x), V::Agg(y)) => {
                        let n = x.len();
                        V::Agg(Rc::new(
                            mask.iter()
                                .map(|m| match m {
                                    None => V::C(0),
                                    Some(i) if *i < n => x[*i].clone(),
                                    Some(i) => y[*i - n].clone(),
                                })
                                .collect(),
                        ))
                    }
                    _ => return err("shuffle"),
                };
                self.set(st, *dst, r);
                self.adv(st);
            }
            I::Freeze { dst, a } => {
                let v = o!(a);
                self.set(st, *dst, v);
                self.adv(st);
            }
            I::FNeg { dst, ty, a } => {
                let v = o!(a);
                let w = ty.bits();
                let e = self.ex(&v, w);
                let k = self.pool.konst(1u128 << (w - 1), w);
                let r = self.pool.bin(Op::Xor, e, k);
                let r = self.wrap(r);
                self.set(st, *dst, r);
                self.adv(st);
            }
            I::Fcmp { dst, p, ty, a, b } => {
                let (a, b) = (o!(a), o!(b));
                let w = ty.bits();
                let (x, y) = (self.ex(&a, w), self.ex(&b, w));
                let mut r = self.pool.ff();
                if p & 7 == 7 {
                    let nx = self.pool.un(Un::FIsNan, x, 1);
                    let ny = self.pool.un(Un::FIsNan, y, 1);
                    let n = self.pool.bin(Op::Or, nx, ny);
                    r = self.pool.not(n);
                } else {
                    if p & 1 != 0 {
                        let c = self.pool.bin(Op::FEq, x, y);
                        r = self.pool.bin(Op::Or, r, c);
                    }
                    if p & 2 != 0 {
                        let c = self.pool.bin(Op::FLt, x, y);
                        r = self.pool.bin(Op::Or, r, c);
                    }
                    if p & 4 != 0 {
                        let c = self.pool.bin(Op::FLt, y, x);
                        r = self.pool.bin(Op::Or, r, c);
                    }
                }
                if p & 8 != 0 {
                    let nx = self.pool.un(Un::FIsNan, x, 1);
                    let ny = self.pool.un(Un::FIsNan, y, 1);
                    let n = self.pool.bin(Op::Or, nx, ny);
                    r = self.pool.bin(Op::Or, r, n);
                }
                let r = self.wrap(r);
                self.set(st, *dst, r);
                self.adv(st);
            }
            I::Rmw { dst, op, ty, p, v, relaxed } => {
                if !*relaxed && self.lim.atomic_yield && !self.sched_point(st)? {
                    return Ok(());
                }
                let (p, v) = (o!(p), o!(v));
                let a = self.concretize(st, &p, 64)? as u64;
                let old = self.load(st, a, ty)?;
                let w = ty.bits();
                let (x, y) = (self.ex(&old, w), self.ex(&v, w));
                let r = match op {
                    Rop::Xchg => y,
                    Rop::Add => self.pool.bin(Op::Add, x, y),
                    Rop::Sub => self.pool.bin(Op::Sub, x, y),
                    Rop::And => self.pool.bin(Op::And, x, y),
                    Rop::Or => self.pool.bin(Op::Or, x, y),
                    Rop::Xor => self.pool.bin(Op::Xor, x, y),
                    Rop::Nand => {
                        let t = self.pool.bin(Op::And, x, y);
                        self.pool.not(t)
                    }
                    Rop::UMax | Rop::UMin | Rop::Max | Rop::Min => {
                        let c = match op {
                            Rop::UMax | Rop::UMin => self.pool.bin(Op::Ult, x, y),
                            _ => self.pool.bin(Op::Slt, x, y),
                        };
                        match op {
                            Rop::UMax | Rop::Max => self.pool.ite(c, y, x),
                            _ => self.pool.ite(c, x, y),
                        }
                    }
                };
                let r = self.wrap(r);
                self.store(st, a, &r, ty)?;
                self.set(st, *dst, old);
                self.adv(st);
            }
            I::CmpXchg { dst, ty, p, c, n } => {
                if self.lim.atomic_yield && !self.sched_point(st)? {
                    return Ok(());
                }
                let (p, c, n) = (o!(p), o!(c), o!(n));
                let a = self.concretize(st, &p, 64)? as u64;
                let old = self.load(st, a, ty)?;
                let w = ty.bits();
                let (x, y) = (self.ex(&old, w), self.ex(&c, w));
                let e = self.pool.eq(x, y);
                let ok = self.branch(st, e)?;
                if ok {
                    self.store(st, a, &n, ty)?;
                }
                self.set(st, *dst, V::Agg(Rc::new(vec![old, V::C(ok as u128)])));
                self.adv(st);
            }
            I::Fence => self.adv(st),
            I::Unreachable => {
                let m = st.model.clone();
                self.violation(st, &m, "unreachable", "unreachable code executed");
                return Err(Stop::Violated);
            }
            I::LandingPad { .. } | I::Resume => return err("unwinding"),
            I::Unsupported(e) => return err(e.to_string()),
        }
        Ok(())
    }

    fn after_call(&mut self, st: &mut State, next: Option<u32>) -> Res<()> {
        match next {
            Some(l) => self.jump(st, l),
            None => {
                self.adv(st);
                Ok(())
            }
        }
    }

    fn ret(&mut self, st: &mut State, v: Option<V>) -> Res<()> {
        let cur = st.cur;
        let fr = st.threads[cur].frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.remove(a);
        }
        if st.threads[cur].frames.is_empty() {
            if cur == 0 {
                return Err(Stop::Done);
            }
            st.threads[cur].status = Status::Done;
            return self.switch_away(st);
        }
        if let (Some(d), Some(v)) = (fr.dst, v) {
            self.set(st, d, v);
        }
        self.after_call(st, fr.next)
    }

    // ---- threads --------------------------------------------------------

    fn runnable(&self, st: &State) -> Vec<usize> {
        let others_done = |i: usize| {
            st.threads.iter().enumerate().all(|(j, t)| j == i || t.status == Status::Done)
        };
        st.threads
            .iter()
            .enumerate()
            .filter(|(i, t)| t.status == Status::Ready || (t.status == Status::Joining && others_done(*i)))
            .map(|x| x.0)
            .collect()
    }

    /// The current thread cannot continue: hand over to any runnable thread.
    fn switch_away(&mut self, st: &mut State) -> Res<()> {
        let r = self.runnable(st);
        if r.is_empty() {
            let m = st.model.clone();
            // make the backtrace meaningful
            if let Some(i) = st.threads.iter().position(|t| t.status == Status::Blocked) {
                st.cur = i;
            }
            self.violation(st, &m, "deadlock", "deadlock: no thread can make progress");
            return Err(Stop::Violated);
        }
        for &t in r.iter().skip(1) {
            let mut s2 = st.clone();
            s2.cur = t;
            s2.sched.push(t as u8);
            if s2.threads[t].status == Status::Joining {
                s2.threads[t].status = Status::Ready;
            }
            self.switches += 1;
            self.work.push(s2);
        }
        st.cur = r[0];
        st.sched.push(r[0] as u8);
        if st.threads[r[0]].status == Status::Joining {
            st.threads[r[0]].status = Status::Ready;
        }
        Ok(())
    }

    /// A scheduling point placed before the current instruction (which will be
    /// re-executed). Returns true when the instruction may run now.
    fn sched_point(&mut self, st: &mut State) -> Res<bool> {
        if st.threads.len() < 2 {
            return Ok(true);
        }
        let cur = st.cur;
        if st.threads[cur].yielded {
            st.threads[cur].yielded = false;
            return Ok(true);
        }
        st.threads[cur].yielded = true;
        self.preempt(st, 0x80);
        Ok(false)
    }

    fn preempt(&mut self, st: &mut State, tag: u8) {
        let cur = st.cur;
        if st.preempt < self.lim.preempt {
            for t in self.runnable(st) {
                if t == cur {
                    continue;
                }
                let mut s2 = st.clone();
                s2.cur = t;
                s2.preempt += 1;
                s2.sched.push(t as u8 | tag);
                if s2.threads[t].status == Status::Joining {
                    s2.threads[t].status = Status::Ready;
                }
                self.switches += 1;
                self.work.push(s2);
            }
        }
        st.sched.push(cur as u8 | tag);
    }

    // ---- operators -------------------------------------------------------

    fn binop(&mut self, op: Bop, ty: &Ty, a: &V, b: &V) -> Res<V> {
        if let (V::Agg(x), V::Agg(y)) = (a, b) {
            let et = elem(ty);
            let mut out = vec![];
            for i in 0..x.len() {
                out.push(self.binop(op, &et, &x[i], &y[i])?);
            }
            return Ok(V::Agg(Rc::new(out)));
        }
        let w = ty.bits();
        let o = match op {
            Bop::Add => Op::Add,
            Bop::Sub => Op::Sub,
            Bop::Mul => Op::Mul,
            Bop::UDiv => Op::UDiv,
            Bop::SDiv => Op::SDiv,
            Bop::URem => Op::URem,
            Bop::SRem => Op::SRem,
            Bop::And => Op::And,
            Bop::Or => Op::Or,
            Bop::Xor => Op::Xor,
            Bop::Shl => Op::Shl,
            Bop::LShr => Op::LShr,
            Bop::AShr => Op::AShr,
            Bop::FAdd => Op::FAdd,
            Bop::FSub => Op::FSub,
            Bop::FMul => Op::FMul,
            Bop::FDiv => Op::FDiv,
            Bop::FRem => Op::FRem,
        };
        if let (V::C(x), V::C(y)) = (a, b) {
            return match fold(o, *x, *y, w) {
                Some(v) => Ok(V::C(v)),
                None => err("division by zero"),
            };
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.pool.bin(o, x, y);
        Ok(self.wrap(r))
    }

    fn icmp(&mut self, p: Pred, ty: &Ty, a: &V, b: &V) -> Res<V> {
        if let (V::Agg(x), V::Agg(y)) = (a, b) {
            let et = elem(ty);
            let mut out = vec![];
            for i in 0..x.len() {
                out.push(self.icmp(p, &et, &x[i], &y[i])?);
            }
            return Ok(V::Agg(Rc::new(out)));
        }
        let w = ty.bits();
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext_to_i128(x, w), sext_to_i128(y, w));
            return Ok(V::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            } as u128));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p {
            Pred::Eq => self.pool.eq(x, y),
            Pred::Ne => {
                let e = self.pool.eq(x, y);
                self.pool.not(e)
            }
            Pred::Ult => self.pool.bin(Op::Ult, x, y),
            Pred::Ule => self.pool.bin(Op::Ule, x, y),
            Pred::Ugt => self.pool.bin(Op::Ult, y, x),
            Pred::Uge => self.pool.bin(Op::Ule, y, x),
            Pred::Slt => self.pool.bin(Op::Slt, x, y),
            Pred::Sle => self.pool.bin(Op::Sle, x, y),
            Pred::Sgt => self.pool.bin(Op::Slt, y, x),
            Pred::Sge => self.pool.bin(Op::Sle, y, x),
        };
        Ok(self.wrap(r))
    }

    fn select(&mut self, c: &V, a: &V, b: &V, ty: &Ty) -> V {
        match c {
            V::C(0) => b.clone(),
            V::C(_) => a.clone(),
            V::X(e) => match (a, b) {
                (V::Agg(x), V::Agg(y)) => {
                    let out = (0..x.len())
                        .map(|i| {
                            let t = match ty {
                                Ty::Struct(f, _) => f[i].clone(),
                                Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                                _ => ty.clone(),
                            };
                            self.select(c, &x[i], &y[i], &t)
                        })
                        .collect();
                    V::Agg(Rc::new(out))
                }
                _ => {
                    let w = ty.bits();
                    let (x, y) = (self.ex(a, w), self.ex(b, w));
                    let r = self.pool.ite(*e, x, y);
                    self.wrap(r)
                }
            },
            V::Agg(_) => panic!("vector select"),
        }
    }

    fn cast(&mut self, op: Cop, from: &Ty, a: &V, to: &Ty) -> Res<V> {
        if op == Cop::Bits {
            return Ok(match (from, to, a) {
                (Ty::Vec(_, t), Ty::Vec(n2, t2), V::Agg(x)) => {
                    let v = self.pack(x, t.bits());
                    let w = t.bits() * x.len() as u32;
                    let e = self.ex(&v, w);
                    let b = t2.bits();
                    let mut out = vec![];
                    for i in 0..*n2 {
                        let p = self.pool.extract(e, i as u32 * b, b);
                        out.push(self.wrap(p));
                    }
                    V::Agg(Rc::new(out))
                }
                (Ty::Vec(_, t), _, V::Agg(x)) => self.pack(x, t.bits()),
                (_, Ty::Vec(n, t), _) => {
                    let e = self.ex(a, from.bits());
                    let b = t.bits();
                    let mut out = vec![];
                    for i in 0..*n {
                        let p = self.pool.extract(e, i as u32 * b, b);
                        out.push(self.wrap(p));
                    }
                    V::Agg(Rc::new(out))
                }
                _ => {
                    let (wf, wt) = (from.bits(), to.bits());
                    if wf == wt {
                        a.clone()
                    } else {
                        let e = self.ex(a, wf);
                        let r = if wf < wt { self.pool.zext(e, wt) } else { self.pool.extract(e, 0, wt) };
                        self.wrap(r)
                    }
                }
            });
        }
        if let V::Agg(x) = a {
            let (f, t) = (elem(from), elem(to));
            let mut out = vec![];
            for v in x.iter() {
                out.push(self.cast(op, &f, v, &t)?);
            }
            return Ok(V::Agg(Rc::new(out)));
        }
        let (wf, wt) = (from.bits(), to.bits());
        if let V::C(c) = a {
            match op {
                Cop::Trunc => return Ok(V::C(c & mask(wt))),
                Cop::ZExt => return Ok(V::C(*c)),
                Cop::SExt => return Ok(V::C(sext_to_i128(*c, wf) as u128 & mask(wt))),
                _ => {}
            }
        }
        let e = self.ex(a, wf);
        let r = match op {
            Cop::Trunc => self.pool.extract(e, 0, wt),
            Cop::ZExt => self.pool.zext(e, wt),
            Cop::SExt => self.pool.sext(e, wt),
            Cop::FpTrunc | Cop::FpExt => self.pool.un(Un::FpConv, e, wt),
            Cop::FpToSi => self.pool.un(Un::FpToSi, e, wt),
            Cop::FpToUi => self.pool.un(Un::FpToUi, e, wt),
            Cop::SiToFp => self.pool.un(Un::SiToFp, e, wt),
            Cop::UiToFp => self.pool.un(Un::UiToFp, e, wt),
            Cop::Bits => unreachable!(),
        };
        Ok(self.wrap(r))
    }

    // ---- calls -------------------------------------------------------------

    #[allow(clippy::too_many_arguments)]
    fn call(
        &mut self,
        st: &mut State,
        name: &Rc<str>,
        args: Vec<V>,
        at: &[(Ty, Opnd)],
        dst: Option<u32>,
        ret: &Ty,
        next: Option<u32>,
    ) -> Res<()> {
        if let Some(v) = self.builtin(st, name, &args, at, ret)? {
            match v {
                B::Val(v) => {
                    if let Some(d) = dst {
                        self.set(st, d, v);
                    }
                    return self.after_call(st, next);
                }
                B::Void => return self.after_call(st, next),
                B::Handled => return Ok(()),
            }
        }
        let f = match self.func(name)? {
            Some(f) => f,
            None => return err(format!("unmodelled external function {}", name)),
        };
        if !self.entered.contains_key(&f.name) {
            self.entered.insert(f.name.clone(), HashSet::new());
        }
        self.entered.get_mut(&f.name).unwrap().insert(0);
        let mut fr = new_frame(f.clone());
        for (i, p) in f.params.iter().enumerate() {
            if i < args.len() {
                fr.regs[*p as usize] = args[i].clone();
            }
        }
        fr.dst = dst;
        fr.next = next;
        if st.threads[st.cur].frames.len() > 400 {
            return err("call depth");
        }
        st.threads[st.cur].frames.push(fr);
        Ok(())
    }

    fn str_at(&mut self, st: &State, p: u64, n: usize) -> String {
        if n > 4096 {
            return String::new();
        }
        match self.find(st, p, n as u64) {
            Some((b, o)) => {
                let i = (p - b) as usize;
                String::from_utf8_lossy(&o.data[i..i + n]).into_owned()
            }
            None => String::new(),
        }
    }

    fn location(&mut self, st: &State, v: &V) -> String {
        if let V::C(p) = v {
            let p = *p as u64;
            if self.find(st, p, 24).is_some() {
                let g = |s: &mut Self, a, w| match s.load_int(st, a, w) {
                    Ok(V::C(x)) => x as u64,
                    _ => 0,
                };
                let (f, n, l) = (g(self, p, 64), g(self, p + 8, 64), g(self, p + 16, 32));
                if n > 0 && n < 300 && f != 0 {
                    return format!("{}:{}", self.str_at(st, f, n as usize), l);
                }
            }
        }
        String::new()
    }

    fn builtin(&mut self, st: &mut State, name: &str, a: &[V], at: &[(Ty, Opnd)], ret: &Ty) -> Res<Option<B>> {
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, a, at, ret).map(Some);
        }
        if let Some(n) = name.strip_prefix("hs_") {
            if !self.m.fdefs.contains_key(name) {
                return self.api(st, n, a).map(Some);
            }
        }
        macro_rules! c {
            ($i:expr) => {
                self.concretize(st, &a[$i], 64)? as u64
            };
        }
        if name.starts_with("_R") {
            // `panic!("..")` of the 2018 edition starts here
            let literal = name.contains("3std9panicking11begin_panicRe") && (name.starts_with("_RINv") || name.starts_with("_RNSINv"));
            if literal
                || name.contains("4core9panicking")
                || name.ends_with("rust_begin_unwind")
                || (name.contains("3std9panicking") && name.contains("panic_with_hook"))
            {
                let short = crate::demangle(name);
                let mut msg = short.rsplit("::").next().unwrap_or("").to_string();
                let loc = a.last().cloned().unwrap_or(V::C(0));
                let loc = self.location(st, &loc);
                if (literal || name.ends_with("9panicking5panic")) && a.len() >= 2 {
                    if let (V::C(p), V::C(n)) = (&a[0], &a[1]) {
                        msg = self.str_at(st, *p as u64, *n as usize);
                    }
                } else if name.ends_with("9panic_fmt") && a.len() >= 2 {
                    if let (V::C(p), V::C(n)) = (&a[0], &a[1]) {
                        if n & 1 == 1 {
                            msg = self.str_at(st, *p as u64, (*n >> 1) as usize);
                        }
                    }
                }
                if msg.is_empty() || msg == "panic_fmt" {
                    if let Some(f) = st.threads[st.cur].frames.last() {
                        msg = format!("panic in {}", crate::demangle(&f.f.name));
                    }
                }
                if msg.contains("model:") && msg.contains("capacity") {
                    return err(msg);
                }
                let m = st.model.clone();
                self.violation(st, &m, "panic", &format!("{} @ {}", msg, loc));
                return Err(Stop::Violated);
            }
            if name.ends_with("12___rust_alloc") || name.ends_with("19___rust_alloc_zeroed") {
                let (n, al) = (c!(0), c!(1));
                return Ok(Some(B::Val(self.malloc(st, n, al)?)));
            }
            if name.ends_with("14___rust_dealloc") {
                let p = c!(0);
                self.free(st, p)?;
                return Ok(Some(B::Void));
            }
            if name.ends_with("14___rust_realloc") {
                let (p, al, n) = (c!(0), c!(2), c!(3));
                return Ok(Some(B::Val(self.realloc(st, p, n, al)?)));
            }
            if name.ends_with("___rust_no_alloc_shim_is_unstable_v2") {
                return Ok(Some(B::Void));
            }
            if name.contains("5alloc5alloc18handle_alloc_error") {
                return err("allocation failure path");
            }
            return Ok(None);
        }
        Ok(Some(match name {
            "malloc" => {
                let n = c!(0);
                B::Val(self.malloc(st, n, 16)?)
            }
            "calloc" => {
                let n = c!(0) * c!(1);
                B::Val(self.malloc(st, n, 16)?)
            }
            "realloc" => {
                let (p, n) = (c!(0), c!(1));
                B::Val(self.realloc(st, p, n, 16)?)
            }
            "free" => {
                let p = c!(0);
                if p != 0 {
                    self.free(st, p)?;
                }
                B::Void
            }
            "memcpy" | "memmove" => {
                let (d, s, n) = (c!(0), c!(1), c!(2));
                self.copy(st, d, s, n as usize)?;
                B::Val(a[0].clone())
            }
            "memset" => {
                let (d, n) = (c!(0), c!(2));
                self.memset(st, d, &a[1], 32, n)?;
                B::Val(a[0].clone())
            }
            "memcmp" | "bcmp" => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                B::Val(self.memcmp(st, p, q, n as usize, name == "bcmp")?)
            }
            "strlen" => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    match self.load_int(st, p + n, 8)? {
                        V::C(0) => break,
                        V::C(_) => n += 1,
                        V::X(e) => {
                            let z = self.pool.konst(0, 8);
                            let e = self.pool.eq(e, z);
                            if self.branch(st, e)? {
                                break;
                            }
                            n += 1
                        }
                        V::Agg(_) => return err("strlen of an aggregate"),
                    }
                }
                B::Val(V::C(n as u128))
            }
            "abort" => {
                let m = st.model.clone();
                self.violation(st, &m, "abort", "process abort");
                return Err(Stop::Violated);
            }
            "getenv" if !self.m.fdefs.contains_key(name) => B::Val(V::C(0)),
            "sched_yield" | "pthread_mutex_lock" | "pthread_mutex_unlock" => B::Val(V::C(0)),
            _ => return Ok(None),
        }))
    }

    fn malloc(&mut self, st: &mut State, n: u64, al: u64) -> Res<V> {
        if n > 1 << 24 {
            return err(format!("allocation of {} bytes", n));
        }
        let a = self.alloc(st, n as usize, al as usize, false);
        Ok(V::C(a as u128))
    }
    fn free(&mut self, st: &mut State, p: u64) -> Res<()> {
        match st.mem.get(&p) {
            Some(o) if !o.stack && p >= HBASE => {
                st.mem.remove(&p);
                Ok(())
            }
            _ => Err(self.bad_access(st, "free", p, 0)),
        }
    }
    fn realloc(&mut self, st: &mut State, p: u64, n: u64, al: u64) -> Res<V> {
        if n > 1 << 24 {
            return err(format!("allocation of {} bytes", n));
        }
        let old = match st.mem.get(&p) {
            Some(o) => o.data.len(),
            None if p == 0 => 0,
            None => return Err(self.bad_access(st, "realloc", p, n)),
        };
        let a = self.alloc(st, n as usize, al as usize, false);
        if old > 0 {
            self.copy(st, a, p, old.min(n as usize))?;
        }
        if p != 0 {
            self.free(st, p)?;
        }
        Ok(V::C(a as u128))
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &V, w: u32, n: u64) -> Res<()> {
        if n == 0 {
            return Ok(());
        }
        match v {
            V::C(c) => {
                let (b, o) = self.obj_mut(st, d, n)?;
                let i = (d - b) as usize;
                o.data[i..i + n as usize].fill(*c as u8);
                if let Some(s) = &mut o.sym {
                    s[i..i + n as usize].fill(0);
                }
            }
            V::X(e) => {
                let e = if w > 8 { self.pool.extract(*e, 0, 8) } else { *e };
                let v = self.wrap(e);
                for k in 0..n {
                    self.store_int(st, d + k, &v, 8)?;
                }
            }
            _ => return err("memset"),
        }
        Ok(())
    }
    fn memcmp(&mut self, st: &mut State, p: u64, q: u64, n: usize, eq_only: bool) -> Res<V> {
        if n == 0 {
            return Ok(V::C(0));
        }
        let (x, xs) = self.read_bytes(st, p, n)?;
        let (y, ys) = self.read_bytes(st, q, n)?;
        let sy = |s: &Option<Vec<E>>, i: usize| s.as_ref().map_or(0, |v| v[i]);
        if (0..n).all(|i| sy(&xs, i) == 0 && sy(&ys, i) == 0) {
            return Ok(V::C(match x.cmp(&y) {
                std::cmp::Ordering::Less => mask(32),
                std::cmp::Ordering::Equal => 0,
                std::cmp::Ordering::Greater => 1,
            }));
        }
        let zero = self.pool.konst(0, 32);
        let one = self.pool.konst(1, 32);
        let neg = self.pool.konst(mask(32), 32);
        let mut r = zero;
        let mut eq = self.pool.tt();
        for i in (0..n).rev() {
            let a = if sy(&xs, i) != 0 { sy(&xs, i) } else { self.pool.konst(x[i] as u128, 8) };
            let b = if sy(&ys, i) != 0 { sy(&ys, i) } else { self.pool.konst(y[i] as u128, 8) };
            let e = self.pool.eq(a, b);
            if eq_only {
                eq = self.pool.bin(Op::And, e, eq);
            } else {
                let lt = self.pool.bin(Op::Ult, a, b);
                let d = self.pool.ite(lt, neg, one);
                r = self.pool.ite(e, r, d);
            }
        }
        if eq_only {
            r = self.pool.ite(eq, zero, one);
        }
        Ok(self.wrap(r))
    }

    /// Harness interface.
    fn api(&mut self, st: &mut State, n: &str, a: &[V]) -> Res<B> {
        Ok(match n {
            "sym" => {
                let w = self.concretize(st, &a[0], 32)? as u32;
                let k = self.sym_ids.len() as u32;
                let id = *self.sym_ids.entry((st.inputs.len(), w)).or_insert(k);
                let e = self.pool.sym(id, w);
                st.inputs.push((e, w));
                let z = self.pool.zext(e, 64);
                B::Val(V::X(z))
            }
            // symbolic value below `n`, split into its concrete cases
            "choice" => {
                let n = self.concretize(st, &a[0], 64)?;
                let k = self.sym_ids.len() as u32;
                let id = *self.sym_ids.entry((st.inputs.len(), 16)).or_insert(k);
                let e = self.pool.sym(id, 16);
                st.inputs.push((e, 16));
                // case split: the sibling states re-enter with the choice made
                let cur = st.cur;
                let fr = st.threads[cur].frames.last().unwrap().clone();
                let (bb, ip) = (fr.bb as usize, fr.ip);
                let dst = match &fr.f.blocks[bb].ins[ip] {
                    I::Call { dst, next, .. } => (*dst, *next),
                    _ => return err("choice"),
                };
                for v in (0..n).rev() {
                    let kc = self.pool.konst(v, 16);
                    let c = self.pool.eq(e, kc);
                    let mut s2 = st.clone();
                    let mut m = (*st.model).clone();
                    m.insert(id, v);
                    s2.model = Rc::new(m);
                    self.learn(&mut s2, c);
                    if let Some(d) = dst.0 {
                        self.set(&mut s2, d, V::C(v));
                    }
                    self.after_call(&mut s2, dst.1)?;
                    if v == 0 {
                        *st = s2;
                    } else {
                        self.forks += 1;
                        self.work.push(s2);
                    }
                }
                if n == 0 {
                    return Err(Stop::Infeasible);
                }
                B::Handled
            }
            "assume" => {
                let c = self.ex(&a[0], 1);
                if self.pool.is_const(c) == Some(1) {
                    return Ok(B::Void);
                }
                match self.feasible(st, c) {
                    Some(m) => {
                        st.model = m;
                        self.learn(st, c);
                    }
                    None => return Err(Stop::Infeasible),
                }
                B::Void
            }
            "assert" => {
                self.asserts += 1;
                let c = self.ex(&a[0], 1);
                let c = self.pool.subst(c, &st.known);
                if self.decided(st, c) == Some(true) {
                    return Ok(B::Void);
                }
                let (p, l) = (self.concretize(st, &a[1], 64)?, self.concretize(st, &a[2], 64)?);
                let msg = self.str_at(st, p as u64, l as usize);
                let nc = self.pool.not(c);
                self.assert_queries += 1;
                if std::env::var_os("HS_DUMP").is_some() {
                    eprintln!("assert {}: {}", msg, self.pool.show(c, 12));
                }
                if let Some(m) = self.feasible(st, nc) {
                    self.violation(st, &m, "assert", &msg);
                    match self.feasible(st, c) {
                        Some(m) => {
                            st.model = m;
                            self.learn(st, c);
                        }
                        None => return Err(Stop::Violated),
                    }
                }
                B::Void
            }
            "cover" => {
                let (p, l) = (self.concretize(st, &a[0], 64)?, self.concretize(st, &a[1], 64)?);
                let msg = self.str_at(st, p as u64, l as usize);
                *self.covers.entry(msg).or_default() += 1;
                B::Void
            }
            "bound" => {
                let (p, l) = (self.concretize(st, &a[0], 64)?, self.concretize(st, &a[1], 64)?);
                let v = self.concretize(st, &a[2], 64)? as u64;
                let msg = self.str_at(st, p as u64, l as usize);
                self.bounds.insert(msg, v);
                B::Void
            }
            "note" => {
                st.notes.push(a[0].clone());
                B::Void
            }
            "concretize" => {
                let v = self.concretize(st, &a[0], 64)?;
                B::Val(V::C(v))
            }
            "is_symbolic" => B::Val(V::C(1)),
            // a condition that is true without asking the solver
            "known" => B::Val(V::C(matches!(a[0], V::C(1)) as u128)),
            "spawn" => {
                let f = self.concretize(st, &a[0], 64)? as u64;
                let name = match self.fname.get(&f) {
                    Some(n) => n.clone(),
                    None => return err("spawn"),
                };
                let f = match self.func(&name)? {
                    Some(f) => f,
                    None => return err("spawn"),
                };
                self.entered.entry(f.name.clone()).or_default();
                let mut fr = new_frame(f.clone());
                fr.regs[f.params[0] as usize] = a[1].clone();
                st.threads.push(Thread { frames: vec![fr], status: Status::Ready, yielded: false });
                B::Void
            }
            "yield" => {
                self.adv_call(st)?;
                if st.threads.len() > 1 && st.threads.iter().filter(|t| t.status != Status::Done).count() > 1 {
                    self.preempt(st, 0);
                }
                B::Handled
            }
            "block" => {
                self.adv_call(st)?;
                let cur = st.cur;
                st.threads[cur].status = Status::Blocked;
                self.switch_away(st)?;
                B::Handled
            }
            "wake" => {
                for t in st.threads.iter_mut() {
                    if t.status == Status::Blocked {
                        t.status = Status::Ready;
                    }
                }
                B::Void
            }
            "join" => {
                self.adv_call(st)?;
                let cur = st.cur;
                if st.threads.iter().enumerate().any(|(i, t)| i != cur && t.status != Status::Done) {
                    st.threads[cur].status = Status::Joining;
                    self.switch_away(st)?;
                }
                B::Handled
            }
            "set_flag" => {
                let (k, v) = (self.concretize(st, &a[0], 64)? as u64, self.concretize(st, &a[1], 64)? as u64);
                st.flags.insert(k, v);
                B::Void
            }
            "flag" => {
                let k = self.concretize(st, &a[0], 64)? as u64;
                B::Val(V::C(st.flags.get(&k).copied().unwrap_or(0) as u128))
            }
            "thread" => B::Val(V::C(st.cur as u128)),
            _ => return err(format!("unknown harness call hs_{}", n)),
        })
    }

    fn adv_call(&mut self, st: &mut State) -> Res<()> {
        let fr = st.threads[st.cur].frames.last().unwrap();
        let next = match &fr.f.blocks[fr.bb as usize].ins[fr.ip] {
            I::Call { next, .. } => *next,
            _ => None,
        };
        self.after_call(st, next)
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[V], at: &[(Ty, Opnd)], ret: &Ty) -> Res<B> {
        let base = n.split('.').next().unwrap_or("");
        macro_rules! c {
            ($i:expr) => {
                self.concretize(st, &a[$i], 64)? as u64
            };
        }
        // element-wise on vectors
        if let (Ty::Vec(k, t), true) = (ret, !a.is_empty() && a.iter().any(|v| matches!(v, V::Agg(_)))) {
            if matches!(base, "umax" | "umin" | "smax" | "smin" | "bswap" | "ctpop" | "cttz" | "ctlz" | "abs" | "usub" | "uadd" | "fshl" | "fshr") {
                let mut out = vec![];
                for i in 0..*k {
                    let ai: Vec<V> = a
                        .iter()
                        .map(|v| match v {
                            V::Agg(x) => x[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    let ati: Vec<(Ty, Opnd)> = at
                        .iter()
                        .map(|(ty, o)| match ty {
                            Ty::Vec(_, t) => ((**t).clone(), o.clone()),
                            t => (t.clone(), o.clone()),
                        })
                        .collect();
                    match self.intrinsic(st, n, &ai, &ati, t)? {
                        B::Val(v) => out.push(v),
                        _ => return err("vector intrinsic"),
                    }
                }
                return Ok(B::Val(V::Agg(Rc::new(out))));
            }
        }
        Ok(match base {
            "lifetime" | "dbg" | "assume" | "prefetch" | "invariant" | "sideeffect" => {
                if n.starts_with("invariant.start") {
                    B::Val(V::C(0))
                } else {
                    B::Void
                }
            }
            "experimental" if n.contains("noalias") => B::Void,
            "donothing" => B::Void,
            "memcpy" | "memmove" => {
                let (d, s, k) = (c!(0), c!(1), c!(2));
                self.copy(st, d, s, k as usize)?;
                B::Void
            }
            "memset" => {
                let (d, k) = (c!(0), c!(2));
                self.memset(st, d, &a[1], 8, k)?;
                B::Void
            }
            "trap" => {
                let m = st.model.clone();
                self.violation(st, &m, "abort", "trap");
                return Err(Stop::Violated);
            }
            "threadlocal" => B::Val(a[0].clone()),
            "expect" => B::Val(a[0].clone()),
            "is" if n.starts_with("is.constant") => B::Val(V::C(0)),
            "x86" if n.contains("pause") => B::Void,
            "x86" if n.contains("pmovmskb") => {
                let v = match &a[0] {
                    V::Agg(x) => x.clone(),
                    _ => return err("pmovmskb"),
                };
                let mut bits = vec![];
                for x in v.iter() {
                    let e = self.ex(x, 8);
                    let b = self.pool.extract(e, 7, 1);
                    bits.push(self.wrap(b));
                }
                let p = self.pack(&bits, 1);
                let e = self.ex(&p, v.len() as u32);
                let r = self.pool.zext(e, ret.bits());
                B::Val(self.wrap(r))
            }
            "umax" | "umin" | "smax" | "smin" => {
                let w = ret.bits();
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let op = if base.starts_with('u') { Op::Ult } else { Op::Slt };
                let c = self.pool.bin(op, x, y);
                let r = if base.ends_with("max") { self.pool.ite(c, y, x) } else { self.pool.ite(c, x, y) };
                B::Val(self.wrap(r))
            }
            "abs" => {
                let w = ret.bits();
                let x = self.ex(&a[0], w);
                let z = self.pool.konst(0, w);
                let c = self.pool.bin(Op::Slt, x, z);
                let nx = self.pool.bin(Op::Sub, z, x);
                let r = self.pool.ite(c, nx, x);
                B::Val(self.wrap(r))
            }
            "fabs" => {
                let w = ret.bits();
                let x = self.ex(&a[0], w);
                let k = self.pool.konst(mask(w - 1), w);
                let r = self.pool.bin(Op::And, x, k);
                B::Val(self.wrap(r))
            }
            "bswap" => {
                let w = ret.bits();
                let x = self.ex(&a[0], w);
                let mut r: Option<E> = None;
                for i in 0..w / 8 {
                    // byte i (from low) becomes the next more significant position from the top
                    let b = self.pool.extract(x, i * 8, 8);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.pool.concat(h, b),
                    });
                }
                B::Val(self.wrap(r.unwrap()))
            }
            "bitreverse" => {
                let w = ret.bits();
                let x = self.ex(&a[0], w);
                let mut r: Option<E> = None;
                for i in 0..w {
                    let b = self.pool.extract(x, i, 1);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.pool.concat(h, b),
                    });
                }
                B::Val(self.wrap(r.unwrap()))
            }
            "ctpop" => {
                let w = ret.bits();
                if let V::C(c) = a[0] {
                    return Ok(B::Val(V::C(c.count_ones() as u128)));
                }
                let x = self.ex(&a[0], w);
                let mut r = self.pool.konst(0, w);
                for i in 0..w {
                    let b = self.pool.extract(x, i, 1);
                    let b = self.pool.zext(b, w);
                    r = self.pool.bin(Op::Add, r, b);
                }
                B::Val(self.wrap(r))
            }
            "cttz" | "ctlz" => {
                let w = ret.bits();
                if let V::C(c) = a[0] {
                    let v = if c == 0 {
                        w
                    } else if base == "cttz" {
                        c.trailing_zeros()
                    } else {
                        c.leading_zeros() - (128 - w)
                    };
                    return Ok(B::Val(V::C(v as u128)));
                }
                let x = self.ex(&a[0], w);
                let mut r = self.pool.konst(w as u128, w);
                for i in 0..w {
                    // from least to most important position
                    let pos = if base == "cttz" { w - 1 - i } else { i };
                    let b = self.pool.extract(x, pos, 1);
                    let v = if base == "cttz" { pos } else { w - 1 - pos };
                    let k = self.pool.konst(v as u128, w);
                    r = self.pool.ite(b, k, r);
                }
                B::Val(self.wrap(r))
            }
            "fshl" | "fshr" => {
                let w = ret.bits();
                let (x, y, s) = (self.ex(&a[0], w), self.ex(&a[1], w), self.ex(&a[2], w));
                let k = self.pool.konst(w as u128, w);
                let s = self.pool.bin(Op::URem, s, k);
                let inv = self.pool.bin(Op::Sub, k, s);
                let (hi, lo) = if base == "fshl" {
                    (self.pool.bin(Op::Shl, x, s), self.pool.bin(Op::LShr, y, inv))
                } else {
                    (self.pool.bin(Op::Shl, x, inv), self.pool.bin(Op::LShr, y, s))
                };
                let r = self.pool.bin(Op::Or, hi, lo);
                B::Val(self.wrap(r))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let w = at[0].0.bits();
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let op = match &base[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let signed = base.starts_with('s');
                let r = self.pool.bin(op, x, y);
                let ov = match (op, signed) {
                    (Op::Add, false) => self.pool.bin(Op::Ult, r, x),
                    (Op::Sub, false) => self.pool.bin(Op::Ult, x, y),
                    _ => {
                        let ww = if op == Op::Mul { (2 * w).min(128) } else { w + 1 };
                        let (xx, yy) = if signed {
                            (self.pool.sext(x, ww), self.pool.sext(y, ww))
                        } else {
                            (self.pool.zext(x, ww), self.pool.zext(y, ww))
                        };
                        let wide = self.pool.bin(op, xx, yy);
                        let back = if signed { self.pool.sext(r, ww) } else { self.pool.zext(r, ww) };
                        let e = self.pool.eq(wide, back);
                        self.pool.not(e)
                    }
                };
                if n.contains(".with.overflow") {
                    let (r, ov) = (self.wrap(r), self.wrap(ov));
                    B::Val(V::Agg(Rc::new(vec![r, ov])))
                } else if n.contains(".sat") {
                    let lim = if signed {
                        let neg = self.pool.extract(x, w - 1, 1);
                        let lo = self.pool.konst(1u128 << (w - 1), w);
                        let hi = self.pool.konst(mask(w - 1), w);
                        self.pool.ite(neg, lo, hi)
                    } else if op == Op::Sub {
                        self.pool.konst(0, w)
                    } else {
                        self.pool.konst(mask(w), w)
                    };
                    let r = self.pool.ite(ov, lim, r);
                    B::Val(self.wrap(r))
                } else {
                    return err(format!("intrinsic {}", n));
                }
            }
            "ucmp" | "scmp" => {
                let w = at[0].0.bits();
                let rw = ret.bits();
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let lt = self.pool.bin(if base == "ucmp" { Op::Ult } else { Op::Slt }, x, y);
                let eq = self.pool.eq(x, y);
                let (m1, z, p1) = (self.pool.konst(mask(rw), rw), self.pool.konst(0, rw), self.pool.konst(1, rw));
                let t = self.pool.ite(eq, z, p1);
                let r = self.pool.ite(lt, m1, t);
                B::Val(self.wrap(r))
            }
            "fptosi" | "fptoui" => {
                let w = ret.bits();
                let x = self.ex(&a[0], at[0].0.bits());
                let u = if base == "fptosi" { Un::FpToSi } else { Un::FpToUi };
                if self.pool.is_const(x).is_none() {
                    return err("symbolic saturating float conversion");
                }
                let r = self.pool.un(u, x, w);
                B::Val(self.wrap(r))
            }
            "vector" if n.starts_with("vector.reduce.") => {
                let v = match &a[0] {
                    V::Agg(x) => x.clone(),
                    _ => return err("reduce"),
                };
                let w = ret.bits();
                let mut r = self.ex(&v[0], w);
                for x in v.iter().skip(1) {
                    let y = self.ex(x, w);
                    let k = n.split('.').nth(2).unwrap_or("");
                    r = match k {
                        "add" => self.pool.bin(Op::Add, r, y),
                        "or" => self.pool.bin(Op::Or, r, y),
                        "and" => self.pool.bin(Op::And, r, y),
                        "xor" => self.pool.bin(Op::Xor, r, y),
                        "mul" => self.pool.bin(Op::Mul, r, y),
                        _ => return err(format!("intrinsic {}", n)),
                    };
                }
                B::Val(self.wrap(r))
            }
            "floor" | "ceil" | "trunc" | "rint" | "sqrt" | "round" | "fma" | "fmuladd" => {
                if let (V::C(c), Ty::F64) = (&a[0], ret) {
                    let f = f64::from_bits(*c as u64);
                    let r = match base {
                        "floor" => f.floor(),
                        "ceil" => f.ceil(),
                        "trunc" => f.trunc(),
                        "sqrt" => f.sqrt(),
                        "round" => f.round(),
                        _ => return err(format!("intrinsic {}", n)),
                    };
                    return Ok(B::Val(V::C(r.to_bits() as u128)));
                }
                return err(format!("intrinsic {}", n));
            }
            _ => return err(format!("intrinsic {}", n)),
        })
    }

    pub fn functions(&self) -> Vec<(String, usize, usize)> {
        let mut v: BTreeSet<(String, usize, usize)> = BTreeSet::new();
        for (n, b) in &self.entered {
            if let Some(f) = self.funcs.get(n) {
                v.insert((crate::demangle(n), b.len(), f.blocks.len()));
            }
        }
        v.into_iter().collect()
    }
}

pub enum B {
    Val(V),
    Void,
    Handled,
}

fn new_frame(f: Rc<Func>) -> Frame {
    Frame {
        regs: vec![V::C(0); f.nregs],
        f,
        bb: 0,
        ip: 0,
        allocas: vec![],
        dst: None,
        next: None,
    }
}

fn elem(t: &Ty) -> Ty {
    match t {
        Ty::Vec(_, t) | Ty::Arr(_, t) => (**t).clone(),
        t => t.clone(),
    }
}

pub fn zero(t: &Ty) -> V {
    match t {
        Ty::Struct(f, _) => V::Agg(Rc::new(f.iter().map(zero).collect())),
        Ty::Arr(n, t) | Ty::Vec(n, t) => V::Agg(Rc::new(vec![zero(t); *n])),
        _ => V::C(0),
    }
}

fn insert(a: &V, v: &V, idx: &[usize]) -> V {
    if idx.is_empty() {
        return v.clone();
    }
    match a {
        V::Agg(x) => {
            let mut y = (**x).clone();
            y[idx[0]] = insert(&y[idx[0]], v, &idx[1..]);
            V::Agg(Rc::new(y))
        }
        _ => panic!("insertvalue"),
    }
}
