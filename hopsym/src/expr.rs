//! Hash-consed bit-vector expressions with light simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
    // floating point on IEEE bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FEq, // ordered equal
    FLt, // ordered less
    FLe, // ordered less or equal
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Un {
    FIsNan,
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FpConv, // float <-> double by result width
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const(u128),
    Sym(u32),
    Bin(Op, E, E),
    Ite(E, E, E),
    Extract(E, u16), // low bit; width is the node's width
    ZExt(E),
    SExt(E),
    Un(Un, E),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext_to_i128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub struct Pool {
    pub nodes: Vec<Node>,
    pub width: Vec<u16>,
    map: HashMap<(Node, u16), E>,
    syms: Vec<Option<Rc<[u32]>>>,
    pub sym_bits: Vec<u32>,
    memo: HashMap<(Node, u16), E>,
    /// constraints replaced by the values they fix
    pub fixed: Vec<(E, Vec<(u32, u128)>)>,
}
fn commutes(o: Op) -> bool {
    use Op::*;
    matches!(o, Add | Mul | And | Or | Xor | Eq | FAdd | FMul | FEq)
}

pub fn fold(op: Op, a: u128, b: u128, w: u32) -> Option<u128> {
    let m = mask(w);
    let sa = sext_to_i128(a, w);
    let sb = sext_to_i128(b, w);
    let f64s = || (f64::from_bits(a as u64), f64::from_bits(b as u64));
    let f32s = || (f32::from_bits(a as u32), f32::from_bits(b as u32));
    macro_rules! fl {
        ($f:expr, $g:expr) => {
            if w == 64 {
                let (x, y) = f64s();
                let f: fn(f64, f64) -> f64 = $f;
                f(x, y).to_bits() as u128
            } else {
                let (x, y) = f32s();
                let f: fn(f32, f32) -> f32 = $g;
                f(x, y).to_bits() as u128
            }
        };
    }
    macro_rules! fc {
        ($f:expr, $g:expr) => {
            if w == 64 {
                let (x, y) = f64s();
                let f: fn(&f64, &f64) -> bool = $f;
                f(&x, &y) as u128
            } else {
                let (x, y) = f32s();
                let f: fn(&f32, &f32) -> bool = $g;
                f(&x, &y) as u128
            }
        };
    }
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => a.checked_div(b)?,
        Op::URem => a.checked_rem(b)?,
        Op::SDiv => (sa.checked_div(sb)? as u128) & m,
        Op::SRem => (sa.checked_rem(sb)? as u128) & m,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sa >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sa < sb) as u128,
        Op::Sle => (sa <= sb) as u128,
        Op::Concat => return None,
        Op::FAdd => fl!(|x, y| x + y, |x, y| x + y),
        Op::FSub => fl!(|x, y| x - y, |x, y| x - y),
        Op::FMul => fl!(|x, y| x * y, |x, y| x * y),
        Op::FDiv => fl!(|x, y| x / y, |x, y| x / y),
        Op::FRem => fl!(|x, y| x % y, |x, y| x % y),
        Op::FEq => fc!(|x, y| x == y, |x, y| x == y),
        Op::FLt => fc!(|x, y| x < y, |x, y| x < y),
        Op::FLe => fc!(|x, y| x <= y, |x, y| x <= y),
    })
}

pub fn fold_un(op: Un, a: u128, wa: u32, w: u32) -> u128 {
    let f = || {
        if wa == 64 {
            f64::from_bits(a as u64)
        } else {
            f32::from_bits(a as u32) as f64
        }
    };
    let out = |x: f64| {
        if w == 64 {
            x.to_bits() as u128
        } else {
            (x as f32).to_bits() as u128
        }
    };
    match op {
        Un::FIsNan => f().is_nan() as u128,
        Un::SiToFp => {
            let v = sext_to_i128(a, wa);
            if w == 64 {
                (v as f64).to_bits() as u128
            } else {
                (v as f32).to_bits() as u128
            }
        }
        Un::UiToFp => {
            if w == 64 {
                (a as f64).to_bits() as u128
            } else {
                (a as f32).to_bits() as u128
            }
        }
        Un::FpToSi => {
            // saturating; plain fptosi is poison out of range
            let hi = (mask(w) >> 1) as i128;
            let v = f();
            let r = if v.is_nan() {
                0
            } else {
                (v as i128).clamp(-hi - 1, hi)
            };
            (r as u128) & mask(w)
        }
        Un::FpToUi => {
            let v = f();
            let r = if v.is_nan() { 0 } else { v as u128 };
            r.min(mask(w))
        }
        Un::FpConv => out(f()),
    }
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            nodes: vec![],
            width: vec![],
            map: HashMap::new(),
            syms: vec![],
            sym_bits: vec![],
            memo: HashMap::new(),
            fixed: vec![],
        };
        // id 0 is reserved (means "concrete" in memory shadow)
        p.mk(Node::Const(0), 1);
        p
    }
    pub fn w(&self, e: E) -> u32 {
        self.width[e as usize] as u32
    }
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    fn mk(&mut self, n: Node, w: u32) -> E {
        if let Some(&e) = self.map.get(&(n, w as u16)) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.width.push(w as u16);
        self.syms.push(None);
        self.map.insert((n, w as u16), e);
        e
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        let n = Node::Const(v);
        if v == 0 && w == 1 {
            // id 0 is reserved: use a second node for false
            let key = (Node::Extract(u32::MAX, 0), 1u16);
            if let Some(&e) = self.map.get(&key) {
                return e;
            }
            let e = self.nodes.len() as E;
            self.nodes.push(n);
            self.width.push(1);
            self.syms.push(None);
            self.map.insert(key, e);
            return e;
        }
        self.mk(n, w)
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize] {
            Node::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn sym(&mut self, id: u32, w: u32) -> E {
        if self.sym_bits.len() <= id as usize {
            self.sym_bits.resize(id as usize + 1, 0);
        }
        self.sym_bits[id as usize] = w;
        self.mk(Node::Sym(id), w)
    }

    /// Sorted list of symbols occurring in `e`.
    pub fn syms_of(&mut self, e: E) -> Rc<[u32]> {
        if let Some(s) = &self.syms[e as usize] {
            return s.clone();
        }
        // iterative post-order
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.syms[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let kids = self.kids(x);
            let mut ready = true;
            for k in kids.iter().flatten() {
                if self.syms[*k as usize].is_none() {
                    stack.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let r: Rc<[u32]> = match self.nodes[x as usize] {
                Node::Const(_) => Rc::from(vec![]),
                Node::Sym(i) => Rc::from(vec![i]),
                _ => {
                    let mut v: Vec<u32> = vec![];
                    for k in kids.iter().flatten() {
                        v.extend_from_slice(self.syms[*k as usize].as_ref().unwrap());
                    }
                    v.sort_unstable();
                    v.dedup();
                    Rc::from(v)
                }
            };
            self.syms[x as usize] = Some(r);
        }
        self.syms[e as usize].clone().unwrap()
    }
    pub fn kids(&self, e: E) -> [Option<E>; 3] {
        match self.nodes[e as usize] {
            Node::Const(_) | Node::Sym(_) => [None; 3],
            Node::Bin(_, a, b) => [Some(a), Some(b), None],
            Node::Ite(a, b, c) => [Some(a), Some(b), Some(c)],
            Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) | Node::Un(_, a) => {
                [Some(a), None, None]
            }
        }
    }

    /// `e` with the symbols in `known` replaced by their values.
    pub fn subst(&mut self, e: E, known: &HashMap<u32, u128>) -> E {
        if known.is_empty() || self.is_const(e).is_some() {
            return e;
        }
        let mut memo = HashMap::new();
        self.subst_in(e, known, &mut memo)
    }
    fn subst_in(&mut self, e: E, known: &HashMap<u32, u128>, memo: &mut HashMap<E, E>) -> E {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let s = self.syms_of(x);
            if !s.iter().any(|i| known.contains_key(i)) {
                memo.insert(x, x);
                stack.pop();
                continue;
            }
            let mut ready = true;
            for k in self.kids(x).iter().flatten() {
                if !memo.contains_key(k) {
                    stack.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let w = self.w(x);
            let r = match self.nodes[x as usize] {
                Node::Const(_) => x,
                Node::Sym(i) => self.konst(known[&i], w),
                Node::Bin(op, a, b) => self.bin(op, memo[&a], memo[&b]),
                Node::Ite(a, b, c) => self.ite(memo[&a], memo[&b], memo[&c]),
                Node::Extract(a, lo) => self.extract(memo[&a], lo as u32, w),
                Node::ZExt(a) => self.zext(memo[&a], w),
                Node::SExt(a) => self.sext(memo[&a], w),
                Node::Un(u, a) => self.un(u, memo[&a], w),
            };
            memo.insert(x, r);
        }
        memo[&e]
    }

    /// The symbol values that `c` fixes, if it is an equation with a constant.
    pub fn fixes(&self, c: E, out: &mut Vec<(u32, u128)>) -> bool {
        let (e, v) = match self.nodes[c as usize] {
            Node::Sym(_) if self.w(c) == 1 => (c, 1),
            Node::Bin(Op::Xor, a, b) if self.w(c) == 1 && self.is_const(b) == Some(1) => (a, 0),
            Node::Bin(Op::Eq, a, b) => match (self.is_const(a), self.is_const(b)) {
                (_, Some(v)) => (a, v),
                (Some(v), _) => (b, v),
                _ => return false,
            },
            _ => return false,
        };
        self.fix_in(e, v, out)
    }
    fn fix_in(&self, e: E, v: u128, out: &mut Vec<(u32, u128)>) -> bool {
        match self.nodes[e as usize] {
            Node::Sym(i) => {
                out.push((i, v));
                true
            }
            Node::Const(k) => k == v,
            Node::ZExt(a) => v <= mask(self.w(a)) && self.fix_in(a, v, out),
            Node::Bin(Op::Concat, h, l) => {
                let wl = self.w(l);
                self.fix_in(h, v >> wl, out) && self.fix_in(l, v & mask(wl), out)
            }
            _ => false,
        }
    }

    fn umax(&self, e: E) -> u128 {
        match self.nodes[e as usize] {
            Node::Const(v) => v,
            Node::ZExt(a) => self.umax(a),
            Node::Bin(Op::And, a, b) => {
                let mut m = mask(self.w(e));
                if let Some(v) = self.is_const(a) {
                    m = m.min(v)
                }
                if let Some(v) = self.is_const(b) {
                    m = m.min(v)
                }
                m
            }
            Node::Ite(_, a, b) => self.umax(a).max(self.umax(b)),
            Node::Bin(Op::Concat, a, b) => {
                let wb = self.w(b);
                if let Some(v) = self.is_const(a) {
                    (v << wb) | mask(wb)
                } else {
                    mask(self.w(e))
                }
            }
            _ => mask(self.w(e)),
        }
    }

    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        let m = self.konst(mask(w), w);
        self.bin(Op::Xor, e, m)
    }
    pub fn tt(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn ff(&mut self) -> E {
        self.konst(0, 1)
    }

    fn zext0(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        debug_assert!(we < w);
        match self.node(e) {
            Node::Const(v) => self.konst(v, w),
            Node::ZExt(a) => self.zext(a, w),
            _ => self.mk(Node::ZExt(e), w),
        }
    }
    fn sext0(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        match self.node(e) {
            Node::Const(v) => self.konst(sext_to_i128(v, we) as u128, w),
            Node::ZExt(a) => self.zext(a, w),
            Node::SExt(a) => self.sext(a, w),
            _ => self.mk(Node::SExt(e), w),
        }
    }
    fn extract0(&mut self, e: E, lo: u32, w: u32) -> E {
        let we = self.w(e);
        debug_assert!(lo + w <= we);
        if lo == 0 && w == we {
            return e;
        }
        match self.node(e) {
            Node::Const(v) => self.konst(v >> lo, w),
            Node::Extract(a, l2) => self.extract(a, l2 as u32 + lo, w),
            Node::ZExt(a) => {
                let wa = self.w(a);
                if lo >= wa {
                    self.konst(0, w)
                } else if lo + w <= wa {
                    self.extract(a, lo, w)
                } else {
                    let x = self.extract(a, lo, wa - lo);
                    self.zext(x, w)
                }
            }
            Node::SExt(a) if lo + w <= self.w(a) => self.extract(a, lo, w),
            Node::Bin(Op::Concat, h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    self.extract(h, lo - wl, w)
                } else if lo + w <= wl {
                    self.extract(l, lo, w)
                } else {
                    let a = self.extract(h, 0, lo + w - wl);
                    let b = self.extract(l, lo, wl - lo);
                    self.concat(a, b)
                }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let a = self.extract(a, lo, w);
                let b = self.extract(b, lo, w);
                self.bin(op, a, b)
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => {
                let a = self.extract(a, lo, w);
                let b = self.extract(b, lo, w);
                self.bin(op, a, b)
            }
            Node::Ite(c, a, b) if self.is_const(a).is_some() || self.is_const(b).is_some() => {
                let a = self.extract(a, lo, w);
                let b = self.extract(b, lo, w);
                self.ite(c, a, b)
            }
            _ => self.mk(Node::Extract(e, lo as u16), w),
        }
    }
    /// Sums of three and more terms, in one order.
    fn sum(&mut self, op: Op, a: E, b: E, w: u32) -> Option<E> {
        let nested = |t: Node| match t {
            Node::Bin(Op::Sub, ..) => true,
            Node::Bin(Op::Add, _, y) => self.is_const(y).is_none(),
            _ => false,
        };
        if !nested(self.node(a)) && !nested(self.node(b)) {
            return None;
        }
        let mut todo = vec![(a, false), (b, op == Op::Sub)];
        let (mut pos, mut neg, mut k) = (vec![], vec![], 0u128);
        while let Some((t, n)) = todo.pop() {
            if pos.len() + neg.len() + todo.len() > 12 {
                return None;
            }
            match self.node(t) {
                Node::Const(c) => k = if n { k.wrapping_sub(c) } else { k.wrapping_add(c) },
                Node::Bin(Op::Add, x, y) => {
                    todo.push((x, n));
                    todo.push((y, n));
                }
                Node::Bin(Op::Sub, x, y) => {
                    todo.push((x, n));
                    todo.push((y, !n));
                }
                _ if n => neg.push(t),
                _ => pos.push(t),
            }
        }
        pos.sort();
        neg.sort();
        let mut i = 0;
        while i < pos.len() {
            match neg.iter().position(|n| *n == pos[i]) {
                Some(j) => {
                    neg.remove(j);
                    pos.remove(i);
                }
                None => i += 1,
            }
        }
        let m = mask(w);
        let mut it = pos.into_iter();
        let mut t = it.next();
        for p in it {
            // commutative operands are ordered
            let (x, y) = if t.unwrap() > p { (p, t.unwrap()) } else { (t.unwrap(), p) };
            t = Some(self.mk(Node::Bin(Op::Add, x, y), w));
        }
        for n in neg {
            let x = match t {
                Some(x) => x,
                None => self.konst(0, w),
            };
            t = Some(self.mk(Node::Bin(Op::Sub, x, n), w));
        }
        let c = self.konst(k & m, w);
        Some(match t {
            None => c,
            Some(x) if k & m == 0 => x,
            Some(x) => self.mk(Node::Bin(Op::Add, x, c), w),
        })
    }
    fn concat0(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        // adjacent parts of one term, however the lower part was simplified
        if let Node::Extract(a, la) = self.node(h) {
            let la = la as u32;
            let part = |n: Node| matches!(n, Node::Bin(Op::Add | Op::Sub | Op::Mul, ..));
            if la >= wl && part(self.node(a)) && part(self.node(l)) && self.extract(a, la - wl, wl) == l {
                return self.extract(a, la - wl, w);
            }
        }
        match (self.node(h), self.node(l)) {
            (Node::Const(a), Node::Const(b)) => return self.konst((a << wl) | b, w),
            (Node::Ite(c, x, y), Node::Ite(d, v, z)) if c == d => {
                let (p, q) = (self.concat(x, v), self.concat(y, z));
                return self.ite(c, p, q);
            }
            (Node::Const(0), _) => return self.zext(l, w),
            (Node::Extract(a, la), Node::Extract(b, lb)) if a == b && la as u32 == lb as u32 + wl => {
                return self.extract(a, lb as u32, w)
            }
            (Node::ZExt(a), Node::Extract(b, lb)) => {
                // concat(zext(extract(x, k)), extract(x, ..)) -> zext(concat(..))
                if let Node::Extract(x, la) = self.node(a) {
                    if x == b && la as u32 == lb as u32 + wl {
                        let c = self.concat(a, l);
                        return self.zext(c, w);
                    }
                }
            }
            (Node::Const(x), Node::Bin(Op::Concat, m, r)) => {
                if let Node::Const(y) = self.node(m) {
                    let wm = self.w(m);
                    let c = self.konst((x << wm) | y, wh + wm);
                    return self.concat(c, r);
                }
            }
            (Node::Extract(a, la), Node::Bin(Op::Concat, m, r)) => {
                if let Node::Extract(b, lb) = self.node(m) {
                    if a == b && la as u32 == lb as u32 + self.w(m) {
                        let c = self.concat(h, m);
                        return self.concat(c, r);
                    }
                }
            }
            _ => {}
        }
        // the whole of x: extract(x, lo..) ++ x-lo where l covers low part exactly
        if let Node::Extract(a, la) = self.node(h) {
            if a == l && la as u32 == wl {
                return self.mk(Node::Bin(Op::Concat, h, l), w);
            }
        }
        if let Node::Bin(Op::Concat, hh, hl) = self.node(h) {
            // right-assoc, merging constants / adjacent extracts
            let t = self.concat(hl, l);
            return self.concat(hh, t);
        }
        self.mk(Node::Bin(Op::Concat, h, l), w)
    }
    fn ite0(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.node(c) {
            Node::Const(0) => return b,
            Node::Const(_) => return a,
            Node::Bin(Op::Xor, x, k) if self.is_const(k) == Some(1) => return self.ite(x, b, a),
            _ => {}
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        if let Node::Ite(c2, _, y) = self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        if let Node::Ite(c2, x, _) = self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    pub fn un(&mut self, op: Un, a: E, w: u32) -> E {
        if let Some(v) = self.is_const(a) {
            let r = fold_un(op, v, self.w(a), w);
            return self.konst(r, w);
        }
        self.mk(Node::Un(op, a), w)
    }

    // Every term is made here; the memo records each rewrite, and `audit`
    // has the solver check them.
    fn rewrite(&mut self, n: Node, w: u32, f: impl FnOnce(&mut Pool) -> E) -> E {
        if let Some(&r) = self.memo.get(&(n, w as u16)) {
            return r;
        }
        let r = f(self);
        debug_assert_eq!(self.w(r), w);
        self.memo.insert((n, w as u16), r);
        r
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        if w == self.w(e) {
            return e;
        }
        self.rewrite(Node::ZExt(e), w, |p| p.zext0(e, w))
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        if w == self.w(e) {
            return e;
        }
        self.rewrite(Node::SExt(e), w, |p| p.sext0(e, w))
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        if w == self.w(e) {
            return e;
        }
        self.rewrite(Node::Extract(e, lo as u16), w, |p| p.extract0(e, lo, w))
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let w = self.w(h) + self.w(l);
        self.rewrite(Node::Bin(Op::Concat, h, l), w, |p| p.concat0(h, l))
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        let w = self.w(a);
        self.rewrite(Node::Ite(c, a, b), w, |p| p.ite0(c, a, b))
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        use Op::*;
        let w = match op {
            Eq | Ult | Ule | Slt | Sle | FEq | FLt | FLe => 1,
            Concat => return self.concat(a, b),
            _ => self.w(a),
        };
        self.rewrite(Node::Bin(op, a, b), w, |p| p.bin0(op, a, b))
    }

    fn key_kids(n: &Node) -> [Option<E>; 3] {
        match *n {
            Node::Const(_) | Node::Sym(_) => [None; 3],
            Node::Bin(_, a, b) => [Some(a), Some(b), None],
            Node::Ite(a, b, c) => [Some(a), Some(b), Some(c)],
            Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) | Node::Un(_, a) => [Some(a), None, None],
        }
    }
    /// The rewrites made so far: pairs of a term as it was asked for and the
    /// term it became (leaving out plain evaluation of constants).
    pub fn rewrites(&mut self) -> Vec<(E, E)> {
        let all: Vec<_> = self.memo.iter().map(|(k, r)| (*k, *r)).collect();
        let mut v = vec![];
        for ((n, w), r) in all {
            if Self::key_kids(&n).iter().flatten().all(|k| self.is_const(*k).is_some()) {
                continue;
            }
            if let Node::Bin(Op::FSub, a, b) = n {
                // in two steps; the second ones are in the memo
                let w = w as u32;
                let k = self.konst(1u128 << (w - 1), w);
                let nb = self.mk(Node::Bin(Op::Xor, b, k), w);
                let y = self.mk(Node::Bin(Op::FAdd, a, nb), w);
                let x = self.mk(n, w);
                v.push((x, y));
                continue;
            }
            let same = match (n, self.node(r)) {
                (Node::Bin(o, a, b), Node::Bin(o2, c, d)) => o == o2 && ((a, b) == (c, d) || (a, b) == (d, c) && o != Op::Concat && commutes(o)),
                (a, b) => a == b,
            };
            if !same {
                let e = self.mk(n, w as u32);
                v.push((e, r));
            }
        }
        for (c, k) in std::mem::take(&mut self.fixed) {
            let mut r = self.tt();
            for (i, v) in k {
                let w = self.sym_bits[i as usize];
                let s = self.sym(i, w);
                let x = self.konst(v, w);
                let q = self.mk(Node::Bin(Op::Eq, s, x), 1);
                r = self.mk(Node::Bin(Op::And, r, q), 1);
            }
            v.push((c, r));
        }
        v.sort_unstable();
        v
    }
    pub fn is_fsub(&self, e: E) -> bool {
        matches!(self.node(e), Node::Bin(Op::FSub, ..))
    }
    /// The pair with the subterms below `depth` replaced by variables. What
    /// holds for that pair holds for the given one.
    pub fn abstracted(&mut self, a: E, b: E, depth: u32) -> (E, E) {
        let mut cut = std::collections::HashSet::new();
        let mut level = vec![a];
        for _ in 0..depth {
            let mut next = vec![];
            for e in level {
                next.extend(self.kids(e).iter().flatten());
            }
            next.sort_unstable();
            next.dedup();
            level = next;
            if level.is_empty() {
                break;
            }
        }
        for e in level {
            if self.is_const(e).is_none() {
                cut.insert(e);
            }
        }
        let mut m = HashMap::new();
        let mut n = 0;
        // no rewrite looks into float arithmetic
        for e in [a, b] {
            let mut todo: Vec<E> = self.kids(e).iter().flatten().copied().collect();
            let mut seen = std::collections::HashSet::new();
            while let Some(e) = todo.pop() {
                if !seen.insert(e) || cut.contains(&e) {
                    continue;
                }
                if matches!(self.node(e), Node::Bin(Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem, ..) | Node::Un(..)) {
                    cut.insert(e);
                } else {
                    todo.extend(self.kids(e).iter().flatten());
                }
            }
        }
        let x = self.rename(a, &cut, &mut m, &mut n);
        let y = self.rename(b, &cut, &mut m, &mut n);
        (x, y)
    }
    fn rename(&mut self, e: E, cut: &std::collections::HashSet<E>, m: &mut HashMap<E, E>, n: &mut u32) -> E {
        if let Some(&r) = m.get(&e) {
            return r;
        }
        let w = self.w(e);
        let node = self.node(e);
        let leaf = matches!(node, Node::Sym(_)) || cut.contains(&e);
        let r = if leaf {
            *n += 1;
            self.mk(Node::Sym(0x4000_0000 + *n), w)
        } else {
            let mut go = |p: &mut Pool, x: E| p.rename(x, cut, m, n);
            let k = match node {
                Node::Const(_) | Node::Sym(_) => node,
                Node::Bin(o, a, b) => {
                    let a = go(self, a);
                    Node::Bin(o, a, go(self, b))
                }
                Node::Ite(c, a, b) => {
                    let c = go(self, c);
                    let a = go(self, a);
                    Node::Ite(c, a, go(self, b))
                }
                Node::Extract(a, l) => Node::Extract(go(self, a), l),
                Node::ZExt(a) => Node::ZExt(go(self, a)),
                Node::SExt(a) => Node::SExt(go(self, a)),
                Node::Un(o, a) => Node::Un(o, go(self, a)),
            };
            if matches!(k, Node::Const(_)) {
                e
            } else {
                self.mk(k, w)
            }
        };
        m.insert(e, r);
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let k: Vec<String> = self.kids(e).iter().flatten().map(|x| if depth == 0 { "..".into() } else { self.show(*x, depth - 1) }).collect();
        let n = match self.node(e) {
            Node::Const(v) => format!("{:#x}", v),
            Node::Sym(i) => format!("s{}", i),
            Node::Bin(o, ..) => format!("{:?}", o),
            Node::Extract(_, l) => format!("Extract@{}", l),
            Node::Un(o, _) => format!("{:?}", o),
            Node::Ite(..) => "Ite".into(),
            Node::ZExt(_) => "ZExt".into(),
            Node::SExt(_) => "SExt".into(),
        };
        format!("{}:{}{}", n, self.w(e), if k.is_empty() { String::new() } else { format!("({})", k.join(",")) })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }

    fn bin0(&mut self, op: Op, a: E, b: E) -> E {
        use Op::*;
        if op == Concat {
            return self.concat(a, b);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op {
            Eq | Ult | Ule | Slt | Sle | FEq | FLt | FLe => 1,
            _ => w,
        };
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = fold(op, x, y, w) {
                return self.konst(v, rw);
            }
        }
        let m = mask(w);
        // canonical order for commutative operators: constant on the right
        let comm = matches!(op, Add | Mul | And | Or | Xor | Eq | FAdd | FMul | FEq);
        let (a, b, ca, cb) = if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            (b, a, cb, ca)
        } else {
            (a, b, ca, cb)
        };
        if matches!(op, Add | Sub) && w > 8 {
            if let Some(t) = self.sum(op, a, b, w) {
                return t;
            }
        }
        match op {
            // x - y is x + (-y), up to the bits of a NaN (all NaNs are one)
            FSub => {
                let k = self.konst(1u128 << (w - 1), w);
                let n = self.bin(Xor, b, k);
                return self.bin(FAdd, a, n);
            }
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(y), Node::Bin(Add, x, k)) = (cb, self.node(a)) {
                    if let Some(k) = self.is_const(k) {
                        let c = self.konst(k.wrapping_add(y), w);
                        return self.bin(Add, x, c);
                    }
                }
                // (x + c) + y -> (x + y) + c
                if cb.is_none() {
                    if let Node::Bin(Add, x, k) = self.node(a) {
                        if self.is_const(k).is_some() {
                            let t = self.bin(Add, x, b);
                            return self.bin(Add, t, k);
                        }
                    }
                    if let Node::Bin(Add, x, k) = self.node(b) {
                        if self.is_const(k).is_some() {
                            let t = self.bin(Add, a, x);
                            return self.bin(Add, t, k);
                        }
                    }
                }
            }
            Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = cb {
                    let c = self.konst(y.wrapping_neg(), w);
                    return self.bin(Add, a, c);
                }
                if let Node::Bin(Add, x, k) = self.node(a) {
                    if x == b {
                        return k;
                    }
                    if self.is_const(k).is_some() {
                        let t = self.bin(Sub, x, b);
                        return self.bin(Add, t, k);
                    }
                }
            }
            Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Shl, a, s);
                    }
                }
            }
            UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(LShr, a, s);
                    }
                }
            }
            URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.konst(y - 1, w);
                        return self.bin(And, a, s);
                    }
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    // contiguous mask
                    let lo = y.trailing_zeros();
                    let n = (y >> lo).trailing_ones();
                    if (y >> lo) == mask(n) {
                        let x = self.extract(a, lo, n);
                        let x = if lo > 0 {
                            let z = self.konst(0, lo);
                            self.concat(x, z)
                        } else {
                            x
                        };
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    // x & !x
                    let nb = self.not(b);
                    if nb == a {
                        return self.konst(0, 1);
                    }
                }
            }
            Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if let Some(e) = self.try_disjoint_or(a, b) {
                    return e;
                }
                if let Some(e) = self.try_disjoint_or(b, a) {
                    return e;
                }
                if w == 1 {
                    let nb = self.not(b);
                    if nb == a {
                        return self.konst(1, 1);
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if let (Some(y), Node::Bin(Xor, x, k)) = (cb, self.node(a)) {
                    if let Some(k) = self.is_const(k) {
                        let c = self.konst(k ^ y, w);
                        return self.bin(Xor, x, c);
                    }
                }
                // one form for partial negations: the runs of bits apart
                if let Some(y) = cb {
                    let n = if y & 1 == 0 { y.trailing_zeros() } else { y.trailing_ones() };
                    let n = if y == m {
                        match self.node(a) {
                            Node::Bin(Concat, _, l) => self.w(l),
                            _ => w,
                        }
                    } else {
                        n
                    };
                    if n < w {
                        let (h, l) = (self.extract(a, n, w - n), self.extract(a, 0, n));
                        let (kh, kl) = (self.konst(y >> n, w - n), self.konst(y & mask(n), n));
                        let h = self.bin(Xor, h, kh);
                        let l = self.bin(Xor, l, kl);
                        return self.concat(h, l);
                    }
                }
                if w == 1 && cb == Some(1) {
                    // push negation into comparisons
                    match self.node(a) {
                        Node::Bin(Ult, x, y) => return self.bin(Ule, y, x),
                        Node::Bin(Ule, x, y) => return self.bin(Ult, y, x),
                        Node::Bin(Slt, x, y) => return self.bin(Sle, y, x),
                        Node::Bin(Sle, x, y) => return self.bin(Slt, y, x),
                        _ => {}
                    }
                }
            }
            Shl => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.konst(0, w);
                    }
                    let s = s as u32;
                    let x = self.extract(a, 0, w - s);
                    let z = self.konst(0, s);
                    return self.concat(x, z);
                }
            }
            LShr => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.konst(0, w);
                    }
                    let s = s as u32;
                    let x = self.extract(a, s, w - s);
                    return self.zext(x, w);
                }
            }
            AShr => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if s < w as u128 {
                        let s = s as u32;
                        let x = self.extract(a, s, w - s);
                        return self.sext(x, w);
                    }
                }
            }
            Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(y) = cb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    if y > self.umax(a) {
                        return self.konst(0, 1);
                    }
                    match self.node(a) {
                        Node::ZExt(x) => {
                            let wx = self.w(x);
                            let k = self.konst(y, wx);
                            return self.bin(Eq, x, k);
                        }
                        Node::SExt(x) => {
                            let wx = self.w(x);
                            let k = self.konst(y, wx);
                            let back = sext_to_i128(y & mask(wx), wx) as u128 & m;
                            if back != y {
                                return self.konst(0, 1);
                            }
                            return self.bin(Eq, x, k);
                        }
                        Node::Bin(Add, x, k) => {
                            if let Some(k) = self.is_const(k) {
                                let c = self.konst(y.wrapping_sub(k), w);
                                return self.bin(Eq, x, c);
                            }
                        }
                        Node::Bin(Xor, x, k) => {
                            if let Some(k) = self.is_const(k) {
                                let c = self.konst(y ^ k, w);
                                return self.bin(Eq, x, c);
                            }
                        }
                        Node::Bin(Concat, h, l) => {
                            let (wh, wl) = (self.w(h), self.w(l));
                            let kh = self.konst(y >> wl, wh);
                            let kl = self.konst(y, wl);
                            let eh = self.bin(Eq, h, kh);
                            let el = self.bin(Eq, l, kl);
                            return self.bin(And, eh, el);
                        }
                        Node::Ite(c, t, f) => {
                            let (ct, cf) = (self.is_const(t), self.is_const(f));
                            if ct.is_some() || cf.is_some() {
                                let et = self.bin(Eq, t, b);
                                let ef = self.bin(Eq, f, b);
                                return self.ite(c, et, ef);
                            }
                        }
                        _ => {}
                    }
                } else {
                    match (self.node(a), self.node(b)) {
                        (Node::Bin(Concat, h1, l1), Node::Bin(Concat, h2, l2))
                            if self.w(l1) == self.w(l2) =>
                        {
                            let eh = self.bin(Eq, h1, h2);
                            let el = self.bin(Eq, l1, l2);
                            return self.bin(And, eh, el);
                        }
                        (Node::ZExt(x), Node::ZExt(y)) => {
                            let (wx, wy) = (self.w(x), self.w(y));
                            let n = wx.max(wy);
                            let x = self.zext(x, n);
                            let y = self.zext(y, n);
                            if n < w {
                                return self.bin(Eq, x, y);
                            }
                        }
                        _ => {}
                    }
                }
            }
            Ult => {
                if a == b || cb == Some(0) {
                    return self.konst(0, 1);
                }
                if let Some(y) = cb {
                    if self.umax(a) < y {
                        return self.konst(1, 1);
                    }
                    if y == 1 {
                        let z = self.konst(0, w);
                        return self.bin(Eq, a, z);
                    }
                    if let Node::ZExt(x) = self.node(a) {
                        let wx = self.w(x);
                        let k = self.konst(y, wx);
                        return self.bin(Ult, x, k);
                    }
                }
                if let Some(x) = ca {
                    if x >= self.umax(b) {
                        return self.konst(0, 1);
                    }
                    if let Node::ZExt(y) = self.node(b) {
                        let wy = self.w(y);
                        let k = self.konst(x, wy);
                        return self.bin(Ult, k, y);
                    }
                }
            }
            Ule => {
                if a == b || ca == Some(0) {
                    return self.konst(1, 1);
                }
                if let Some(y) = cb {
                    if self.umax(a) <= y {
                        return self.konst(1, 1);
                    }
                    if y == 0 {
                        return self.bin(Eq, a, b);
                    }
                    if let Node::ZExt(x) = self.node(a) {
                        let wx = self.w(x);
                        let k = self.konst(y, wx);
                        return self.bin(Ule, x, k);
                    }
                }
                if let Some(x) = ca {
                    if x > self.umax(b) {
                        return self.konst(0, 1);
                    }
                    if let Node::ZExt(y) = self.node(b) {
                        let wy = self.w(y);
                        let k = self.konst(x, wy);
                        return self.bin(Ule, k, y);
                    }
                }
            }
            Slt => {
                if a == b {
                    return self.konst(0, 1);
                }
                // both non-negative by construction
                if self.umax(a) <= m >> 1 && self.umax(b) <= m >> 1 {
                    return self.bin(Ult, a, b);
                }
            }
            Sle => {
                if a == b {
                    return self.konst(1, 1);
                }
                if self.umax(a) <= m >> 1 && self.umax(b) <= m >> 1 {
                    return self.bin(Ule, a, b);
                }
            }
            _ => {}
        }
        self.mk(Node::Bin(op, a, b), rw)
    }

    /// `hi | lo` where `hi` has its low bits zero and `lo` fits in them.
    fn try_disjoint_or(&mut self, hi: E, lo: E) -> Option<E> {
        let w = self.w(hi);
        let (h, wz, wh) = match self.node(hi) {
            Node::Bin(Op::Concat, h, z) if self.is_const(z) == Some(0) => {
                (h, self.w(z), self.w(h))
            }
            Node::ZExt(x) => match self.node(x) {
                Node::Bin(Op::Concat, h, z) if self.is_const(z) == Some(0) => {
                    (h, self.w(z), self.w(h))
                }
                _ => return None,
            },
            _ => return None,
        };
        if self.umax(lo) <= mask(wz) {
            let l = self.extract(lo, 0, wz);
            let c = self.concat(h, l);
            debug_assert!(wh + wz <= w);
            return Some(self.zext(c, w));
        }
        None
    }

    /// Evaluate under an assignment of symbols (missing symbols are 0).
    pub fn eval(&self, e: E, model: &dyn Fn(u32) -> u128, memo: &mut HashMap<E, u128>) -> u128 {
        match self.nodes[e as usize] {
            Node::Const(v) => return v,
            Node::Sym(i) => return model(i) & mask(self.w(e)),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let w = self.w(e);
        let r = match self.nodes[e as usize] {
            Node::Const(_) | Node::Sym(_) => unreachable!(),
            Node::Bin(Op::Concat, a, b) => {
                let x = self.eval(a, model, memo);
                let y = self.eval(b, model, memo);
                (x << self.w(b)) | y
            }
            Node::Bin(op, a, b) => {
                let x = self.eval(a, model, memo);
                let y = self.eval(b, model, memo);
                let wa = self.w(a);
                match fold(op, x, y, wa) {
                    Some(v) => v,
                    // SMT-LIB division by zero
                    None => match op {
                        Op::UDiv => mask(w),
                        Op::URem | Op::SRem => x,
                        Op::SDiv => {
                            if sext_to_i128(x, wa) < 0 {
                                1
                            } else {
                                mask(w)
                            }
                        }
                        _ => 0,
                    },
                }
            }
            Node::Ite(c, a, b) => {
                if self.eval(c, model, memo) != 0 {
                    self.eval(a, model, memo)
                } else {
                    self.eval(b, model, memo)
                }
            }
            Node::Extract(a, lo) => (self.eval(a, model, memo) >> lo) & mask(w),
            Node::ZExt(a) => self.eval(a, model, memo),
            Node::SExt(a) => {
                let v = self.eval(a, model, memo);
                (sext_to_i128(v, self.w(a)) as u128) & mask(w)
            }
            Node::Un(op, a) => {
                let v = self.eval(a, model, memo);
                fold_un(op, v, self.w(a), w)
            }
        };
        memo.insert(e, r);
        r
    }
}
