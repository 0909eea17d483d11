//! Parser for the textual LLVM IR emitted by rustc (lazy: function bodies are
//! parsed on first use).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(usize, Rc<Ty>),
    Vec(usize, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
}

impl Ty {
    pub fn align(&self) -> usize {
        match self {
            Ty::Void | Ty::Meta => 1,
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    /// Allocation size.
    pub fn size(&self) -> usize {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = (*w as usize + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(w) = **t {
                    (n * w as usize + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn field_offset(&self, i: usize) -> usize {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            _ => panic!("field of scalar"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
}

/// Constant initialisers and operands.
#[derive(Clone, Debug)]
pub enum Cv {
    Int(u128, u32),
    Null,
    Zero(Ty),
    Undef(Ty),
    Global(String),
    Bytes(Vec<u8>),
    Agg(Ty, Vec<Cv>),
    Gep(Ty, Box<Cv>, Vec<(Ty, Cv)>),
    Cast(&'static str, Ty, Box<Cv>, Ty),
    Bin(&'static str, Ty, Box<Cv>, Box<Cv>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Const(Rc<Cv>),
    /// resolved lazily by the executor: index into the constant table
    K(u32),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(Rc<str>),
    Val(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { dst: u32, size: usize, align: usize, n: Opnd },
    Load { dst: u32, ty: Ty, p: Opnd, atomic: bool },
    Store { ty: Ty, v: Opnd, p: Opnd, atomic: bool },
    Gep { dst: u32, base: Opnd, off: i64, terms: Vec<(Opnd, u32, i64)> },
    Bin { dst: u32, op: Bop, ty: Ty, a: Opnd, b: Opnd },
    FNeg { dst: u32, ty: Ty, a: Opnd },
    Icmp { dst: u32, p: Pred, ty: Ty, a: Opnd, b: Opnd },
    Fcmp { dst: u32, p: u8, ty: Ty, a: Opnd, b: Opnd },
    Select { dst: u32, cty: Ty, c: Opnd, ty: Ty, a: Opnd, b: Opnd },
    Cast { dst: u32, op: Cop, from: Ty, a: Opnd, to: Ty },
    ExtractValue { dst: u32, a: Opnd, ty: Ty, idx: Vec<usize> },
    InsertValue { dst: u32, a: Opnd, aty: Ty, v: Opnd, idx: Vec<usize> },
    ExtractElem { dst: u32, ty: Ty, a: Opnd, i: Opnd },
    InsertElem { dst: u32, ty: Ty, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { dst: u32, ty: Ty, a: Opnd, b: Opnd, mask: Vec<Option<usize>> },
    Freeze { dst: u32, a: Opnd },
    Call { dst: Option<u32>, callee: Callee, args: Vec<(Ty, Opnd)>, ret: Ty, next: Option<u32> },
    Rmw { dst: u32, op: Rop, ty: Ty, p: Opnd, v: Opnd, relaxed: bool },
    CmpXchg { dst: u32, ty: Ty, p: Opnd, c: Opnd, n: Opnd },
    Fence,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { ty: Ty, v: Opnd, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    LandingPad { dst: u32 },
    Resume,
    Unsupported(Rc<str>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cop {
    Trunc,
    ZExt,
    SExt,
    Bits, // bitcast / ptrtoint / inttoptr
    FpTrunc,
    FpExt,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rop {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    UMax,
    UMin,
    Max,
    Min,
    Nand,
}

pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Opnd)>)>,
    pub ins: Vec<I>,
}
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct GlobalDef {
    pub ty: Ty,
    pub init: Option<Cv>,
    pub constant: bool,
    pub align: usize,
}

pub struct Module {
    text: Rc<str>,
    /// function name -> (byte range of header+body)
    pub fdefs: HashMap<Rc<str>, (usize, usize)>,
    pub fdecls: Vec<Rc<str>>,
    pub globals: Vec<(Rc<str>, GlobalDef)>,
    types: HashMap<String, Ty>,
    pub consts: Vec<Rc<Cv>>,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    types: &'a HashMap<String, Ty>,
}

type R<T> = Result<T, String>;

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            // keyword boundary
            let last = *t.as_bytes().last().unwrap();
            if is_id(last) {
                if let Some(&c) = self.s.get(self.i + t.len()) {
                    if is_id(c) {
                        return false;
                    }
                }
            }
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", t, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i..self.s.len().min(self.i + 80)]).into_owned()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    /// after % or @
    fn name(&mut self) -> String {
        if self.s.get(self.i) == Some(&b'"') {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn uint(&mut self) -> R<u128> {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i])
            .unwrap()
            .parse()
            .map_err(|_| format!("number at {:?}", self.rest()))
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())
            }
            _ => matches!(self.peek_word(), "void" | "ptr" | "float" | "double" | "metadata" | "half" | "label"),
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        Ok(match c {
            b'[' => {
                self.i += 1;
                let n = self.uint()? as usize;
                self.need("x")?;
                let t = self.ty()?;
                self.need("]")?;
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.ty()?;
                    self.need(">")?;
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => return Err("packed".into()),
                    }
                } else {
                    let n = self.uint()? as usize;
                    self.need("x")?;
                    let t = self.ty()?;
                    self.need(">")?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'{' => {
                self.i += 1;
                let mut f = vec![];
                if self.peek() == b'}' {
                    self.i += 1;
                } else {
                    loop {
                        f.push(self.ty()?);
                        if self.eat(",") {
                            continue;
                        }
                        self.need("}")?;
                        break;
                    }
                }
                Ty::Struct(Rc::new(f), false)
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.types.get(&n).cloned().ok_or(format!("type {}", n))?
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" => Ty::Meta,
                    _ if w.starts_with('i') && w.len() > 1 => {
                        Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?)
                    }
                    _ => return Err(format!("type {:?} {}", w, self.rest())),
                }
            }
        })
    }
    /// Skip parameter/return attributes before a type or value.
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if !c.is_ascii_alphabetic() {
                return;
            }
            let w = self.peek_word();
            match w {
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly" | "signext"
                | "zeroext" | "inreg" | "returned" | "immarg" | "nest" | "allocalign" | "allocptr" | "writable"
                | "noext" | "nocapture" | "swiftself" | "dead_on_unwind" => {
                    self.word();
                }
                "align" | "alignstack" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.balanced();
                    } else {
                        let _ = self.uint();
                    }
                }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "captures" | "range" | "nofpclass"
                | "initializes" | "elementtype" | "dead_on_return" | "byref" | "inalloca" | "preallocated" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.balanced();
                    }
                }
                _ => return,
            }
        }
    }

    fn cv(&mut self, ty: &Ty) -> R<Cv> {
        let c = self.peek();
        if c == b'@' {
            self.i += 1;
            return Ok(Cv::Global(self.name()));
        }
        if self.s[self.i..].starts_with(b"f0x") {
            self.i += 3;
            let h = self.word();
            let v = u128::from_str_radix(h, 16).map_err(|_| format!("hex {}", h))?;
            return Ok(Cv::Int(v, ty.bits()));
        }
        if c == b'-' || c == b'+' || c.is_ascii_digit() {
            let neg = c == b'-';
            if neg || c == b'+' {
                self.i += 1;
            }
            if self.s[self.i..].starts_with(b"0x") {
                self.i += 2;
                let h = self.word();
                let v = u128::from_str_radix(h, 16).map_err(|_| format!("hex {}", h))?;
                return match ty {
                    Ty::F32 => Ok(Cv::Int((f64::from_bits(v as u64) as f32).to_bits() as u128, 32)),
                    _ => Ok(Cv::Int(v, ty.bits())),
                };
            }
            if matches!(ty, Ty::F32 | Ty::F64) {
                let st = self.i;
                while self.i < self.s.len()
                    && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-'))
                {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                let f: f64 = match t {
                    "qnan" => f64::from_bits(0x7ff8 << 48),
                    _ => t.parse().map_err(|_| format!("float {}", t))?,
                };
                let f = if neg { -f } else { f };
                return Ok(match ty {
                    Ty::F32 => Cv::Int((f as f32).to_bits() as u128, 32),
                    _ => Cv::Int(f.to_bits() as u128, 64),
                });
            }
            let v = self.uint()?;
            let w = ty.bits();
            let v = if neg { v.wrapping_neg() } else { v };
            return Ok(Cv::Int(v & crate::expr::mask(w), w));
        }
        if c == b'c' && self.s.get(self.i + 1) == Some(&b'"') {
            self.i += 2;
            let mut out = vec![];
            while self.s[self.i] != b'"' {
                if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                } else if self.s[self.i] == b'\\' {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).map_err(|_| "string escape")?);
                    self.i += 3;
                } else {
                    out.push(self.s[self.i]);
                    self.i += 1;
                }
            }
            self.i += 1;
            return Ok(Cv::Bytes(out));
        }
        if matches!(c, b'[' | b'{' | b'<') {
            let packed = c == b'<' && self.s.get(self.i + 1) == Some(&b'{');
            self.i += if packed { 2 } else { 1 };
            let mut out = vec![];
            if !matches!(self.peek(), b']' | b'}' | b'>') {
                loop {
                    let t = self.ty()?;
                    out.push(self.cv(&t)?);
                    if !self.eat(",") {
                        break;
                    }
                }
            }
            self.ws();
            self.i += if packed { 2 } else { 1 };
            return Ok(Cv::Agg(ty.clone(), out));
        }
        let w = self.word();
        Ok(match w {
            "true" => Cv::Int(1, 1),
            "false" => Cv::Int(0, 1),
            "null" => Cv::Null,
            "none" => Cv::Undef(ty.clone()),
            "zeroinitializer" => Cv::Zero(ty.clone()),
            "undef" | "poison" => Cv::Undef(ty.clone()),
            "splat" => {
                self.need("(")?;
                let t = self.ty()?;
                let v = self.cv(&t)?;
                self.need(")")?;
                let n = match ty {
                    Ty::Vec(n, _) | Ty::Arr(n, _) => *n,
                    _ => return Err("splat".into()),
                };
                Cv::Agg(ty.clone(), vec![v; n])
            }
            "getelementptr" => {
                while self.peek() != b'(' {
                    self.word();
                    if self.peek() == b'(' && self.s[self.i + 1..].starts_with(b"i64") {
                        break;
                    }
                }
                // inrange(...) annotation
                if self.s[..self.i].ends_with(b"inrange") {
                    self.balanced();
                }
                self.need("(")?;
                let t = self.ty()?;
                self.need(",")?;
                let bt = self.ty()?;
                let base = self.cv(&bt)?;
                let mut idx = vec![];
                while self.eat(",") {
                    let it = self.ty()?;
                    let v = self.cv(&it)?;
                    idx.push((it, v));
                }
                self.need(")")?;
                Cv::Gep(t, Box::new(base), idx)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" => {
                let op = match w {
                    "trunc" => "trunc",
                    "zext" => "zext",
                    "sext" => "sext",
                    _ => "bits",
                };
                self.need("(")?;
                let t = self.ty()?;
                let v = self.cv(&t)?;
                self.need("to")?;
                let to = self.ty()?;
                self.need(")")?;
                Cv::Cast(op, t, Box::new(v), to)
            }
            "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr" => {
                let op = match w {
                    "add" => "add",
                    "sub" => "sub",
                    "mul" => "mul",
                    "and" => "and",
                    "or" => "or",
                    "xor" => "xor",
                    "shl" => "shl",
                    _ => "lshr",
                };
                while self.peek() != b'(' {
                    self.word();
                }
                self.need("(")?;
                let t = self.ty()?;
                let a = self.cv(&t)?;
                self.need(",")?;
                let t2 = self.ty()?;
                let b = self.cv(&t2)?;
                self.need(")")?;
                Cv::Bin(op, t, Box::new(a), Box::new(b))
            }
            _ => return Err(format!("constant {:?} {}", w, self.rest())),
        })
    }
}

struct FP<'a, 'b> {
    p: P<'a>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    consts: &'b mut Vec<Rc<Cv>>,
}

impl<'a, 'b> FP<'a, 'b> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self) -> R<u32> {
        self.p.eat("label");
        self.p.need("%")?;
        let n = self.p.name();
        self.labels.get(&n).copied().ok_or(format!("label {}", n))
    }
    fn val(&mut self, ty: &Ty) -> R<Opnd> {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            return Ok(Opnd::Reg(self.reg(n)));
        }
        let c = self.p.cv(ty)?;
        self.consts.push(Rc::new(retag(c, ty)));
        Ok(Opnd::K(self.consts.len() as u32 - 1))
    }
    fn tyval(&mut self) -> R<(Ty, Opnd)> {
        self.p.attrs();
        let t = self.p.ty()?;
        self.p.attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn flags(&mut self) {
        loop {
            match self.p.peek_word() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan"
                | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" => {
                    self.p.word();
                }
                "inrange" => {
                    self.p.word();
                    self.p.peek();
                    self.p.balanced();
                }
                _ => return,
            }
        }
    }

    fn instr(&mut self, line: &'a str) -> R<I> {
        self.p.s = line.as_bytes();
        self.p.i = 0;
        let mut dst = None;
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            self.p.need("=")?;
            dst = Some(self.reg(n));
        }
        let w = self.p.word();
        let d = dst.unwrap_or(u32::MAX);
        let bop = match w {
            "add" => Some(Bop::Add),
            "sub" => Some(Bop::Sub),
            "mul" => Some(Bop::Mul),
            "udiv" => Some(Bop::UDiv),
            "sdiv" => Some(Bop::SDiv),
            "urem" => Some(Bop::URem),
            "srem" => Some(Bop::SRem),
            "and" => Some(Bop::And),
            "or" => Some(Bop::Or),
            "xor" => Some(Bop::Xor),
            "shl" => Some(Bop::Shl),
            "lshr" => Some(Bop::LShr),
            "ashr" => Some(Bop::AShr),
            "fadd" => Some(Bop::FAdd),
            "fsub" => Some(Bop::FSub),
            "fmul" => Some(Bop::FMul),
            "fdiv" => Some(Bop::FDiv),
            "frem" => Some(Bop::FRem),
            _ => None,
        };
        if let Some(op) = bop {
            self.flags();
            let (ty, a) = self.tyval()?;
            self.p.need(",")?;
            let b = self.val(&ty)?;
            return Ok(I::Bin { dst: d, op, ty, a, b });
        }
        let cop = match w {
            "trunc" => Some(Cop::Trunc),
            "zext" => Some(Cop::ZExt),
            "sext" => Some(Cop::SExt),
            "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => Some(Cop::Bits),
            "fptrunc" => Some(Cop::FpTrunc),
            "fpext" => Some(Cop::FpExt),
            "fptosi" => Some(Cop::FpToSi),
            "fptoui" => Some(Cop::FpToUi),
            "sitofp" => Some(Cop::SiToFp),
            "uitofp" => Some(Cop::UiToFp),
            _ => None,
        };
        if let Some(op) = cop {
            self.flags();
            let (from, a) = self.tyval()?;
            self.p.need("to")?;
            let to = self.p.ty()?;
            return Ok(I::Cast { dst: d, op, from, a, to });
        }
        match w {
            "fneg" => {
                self.flags();
                let (ty, a) = self.tyval()?;
                Ok(I::FNeg { dst: d, ty, a })
            }
            "alloca" => {
                self.p.eat("inalloca");
                let ty = self.p.ty()?;
                let mut n = None;
                let mut align = ty.align();
                while self.p.eat(",") {
                    if self.p.eat("align") {
                        align = self.p.uint()? as usize;
                    } else if self.p.peek() == b'!' || self.p.peek_word() == "addrspace" {
                        break;
                    } else {
                        let (_, v) = self.tyval()?;
                        n = Some(v);
                    }
                }
                let n = match n {
                    Some(v) => v,
                    None => {
                        self.consts.push(Rc::new(Cv::Int(1, 64)));
                        Opnd::K(self.consts.len() as u32 - 1)
                    }
                };
                Ok(I::Alloca { dst: d, size: ty.size(), align, n })
            }
            "load" => {
                let atomic = self.p.eat("atomic");
                self.flags();
                let ty = self.p.ty()?;
                self.p.need(",")?;
                let (_, p) = self.tyval()?;
                Ok(I::Load { dst: d, ty, p, atomic })
            }
            "store" => {
                let atomic = self.p.eat("atomic");
                self.flags();
                let (ty, v) = self.tyval()?;
                self.p.need(",")?;
                let (_, p) = self.tyval()?;
                Ok(I::Store { ty, v, p, atomic })
            }
            "getelementptr" => {
                self.flags();
                let mut ty = self.p.ty()?;
                self.p.need(",")?;
                let (_, base) = self.tyval()?;
                let mut off = 0i64;
                let mut terms = vec![];
                let mut first = true;
                while self.p.eat(",") {
                    if self.p.peek() == b'!' {
                        break;
                    }
                    let (it, v) = self.tyval()?;
                    let k = match &v {
                        Opnd::K(k) => match &*self.consts[*k as usize] {
                            Cv::Int(x, w) => Some(crate::expr::sext_to_i128(*x, *w) as i64),
                            _ => None,
                        },
                        _ => None,
                    };
                    if first {
                        let sz = ty.size() as i64;
                        match k {
                            Some(k) => off += k * sz,
                            None => terms.push((v, it.bits(), sz)),
                        }
                        first = false;
                    } else {
                        match &ty {
                            Ty::Struct(f, _) => {
                                let k = k.ok_or("gep struct index")? as usize;
                                off += ty.field_offset(k) as i64;
                                let t = f[k].clone();
                                ty = t;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                let sz = t.size() as i64;
                                match k {
                                    Some(k) => off += k * sz,
                                    None => terms.push((v, it.bits(), sz)),
                                }
                                let t = (**t).clone();
                                ty = t;
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                }
                Ok(I::Gep { dst: d, base, off, terms })
            }
            "icmp" => {
                self.flags();
                let p = match self.p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("icmp {}", x)),
                };
                let (ty, a) = self.tyval()?;
                self.p.need(",")?;
                let b = self.val(&ty)?;
                Ok(I::Icmp { dst: d, p, ty, a, b })
            }
            "fcmp" => {
                self.flags();
                // bit 0: eq, bit 1: lt, bit 2: gt, bit 3: unordered
                let p = match self.p.word() {
                    "false" => 0,
                    "oeq" => 1,
                    "olt" => 2,
                    "ole" => 3,
                    "ogt" => 4,
                    "oge" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ult" => 10,
                    "ule" => 11,
                    "ugt" => 12,
                    "uge" => 13,
                    "une" => 14,
                    "true" => 15,
                    x => return Err(format!("fcmp {}", x)),
                };
                let (ty, a) = self.tyval()?;
                self.p.need(",")?;
                let b = self.val(&ty)?;
                Ok(I::Fcmp { dst: d, p, ty, a, b })
            }
            "select" => {
                self.flags();
                let (cty, c) = self.tyval()?;
                self.p.need(",")?;
                let (ty, a) = self.tyval()?;
                self.p.need(",")?;
                let (_, b) = self.tyval()?;
                Ok(I::Select { dst: d, cty, c, ty, a, b })
            }
            "extractvalue" => {
                let (ty, a) = self.tyval()?;
                let mut idx = vec![];
                while self.p.eat(",") {
                    if self.p.peek() == b'!' {
                        break;
                    }
                    idx.push(self.p.uint()? as usize);
                }
                Ok(I::ExtractValue { dst: d, a, ty, idx })
            }
            "insertvalue" => {
                let (aty, a) = self.tyval()?;
                self.p.need(",")?;
                let (_, v) = self.tyval()?;
                let mut idx = vec![];
                while self.p.eat(",") {
                    if self.p.peek() == b'!' {
                        break;
                    }
                    idx.push(self.p.uint()? as usize);
                }
                Ok(I::InsertValue { dst: d, a, aty, v, idx })
            }
            "extractelement" => {
                let (ty, a) = self.tyval()?;
                self.p.need(",")?;
                let (_, i) = self.tyval()?;
                Ok(I::ExtractElem { dst: d, ty, a, i })
            }
            "insertelement" => {
                let (ty, a) = self.tyval()?;
                self.p.need(",")?;
                let (_, v) = self.tyval()?;
                self.p.need(",")?;
                let (_, i) = self.tyval()?;
                Ok(I::InsertElem { dst: d, ty, a, v, i })
            }
            "shufflevector" => {
                let (ty, a) = self.tyval()?;
                self.p.need(",")?;
                let (_, b) = self.tyval()?;
                self.p.need(",")?;
                let mt = self.p.ty()?;
                let n = match &mt {
                    Ty::Vec(n, _) => *n,
                    _ => return Err("shuffle mask".into()),
                };
                let m = self.p.cv(&mt)?;
                let mask = match m {
                    Cv::Zero(_) => vec![Some(0); n],
                    Cv::Undef(_) => vec![None; n],
                    Cv::Agg(_, v) => v
                        .iter()
                        .map(|c| match c {
                            Cv::Int(k, _) => Some(*k as usize),
                            _ => None,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Ok(I::Shuffle { dst: d, ty, a, b, mask })
            }
            "freeze" => {
                let (_, a) = self.tyval()?;
                Ok(I::Freeze { dst: d, a })
            }
            "tail" | "musttail" | "notail" => {
                self.p.need("call")?;
                self.call(dst, false)
            }
            "call" => self.call(dst, false),
            "invoke" => self.call(dst, true),
            "atomicrmw" => {
                self.flags();
                let op = match self.p.word() {
                    "xchg" => Rop::Xchg,
                    "add" => Rop::Add,
                    "sub" => Rop::Sub,
                    "and" => Rop::And,
                    "or" => Rop::Or,
                    "xor" => Rop::Xor,
                    "umax" => Rop::UMax,
                    "umin" => Rop::UMin,
                    "max" => Rop::Max,
                    "min" => Rop::Min,
                    "nand" => Rop::Nand,
                    x => return Err(format!("atomicrmw {}", x)),
                };
                let (_, p) = self.tyval()?;
                self.p.need(",")?;
                let (ty, v) = self.tyval()?;
                let relaxed = !self.p.rest().contains("seq_cst");
                Ok(I::Rmw { dst: d, op, ty, p, v, relaxed })
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tyval()?;
                self.p.need(",")?;
                let (ty, c) = self.tyval()?;
                self.p.need(",")?;
                let (_, n) = self.tyval()?;
                Ok(I::CmpXchg { dst: d, ty, p, c, n })
            }
            "fence" => Ok(I::Fence),
            "br" => {
                if self.p.eat("label") {
                    let l = self.label()?;
                    return Ok(I::Br(l));
                }
                let (_, c) = self.tyval()?;
                self.p.need(",")?;
                let a = self.label()?;
                self.p.need(",")?;
                let b = self.label()?;
                Ok(I::CondBr(c, a, b))
            }
            "switch" => {
                let (ty, v) = self.tyval()?;
                self.p.need(",")?;
                let default = self.label()?;
                self.p.need("[")?;
                let mut cases = vec![];
                while self.p.peek() != b']' {
                    let t = self.p.ty()?;
                    let k = match self.p.cv(&t)? {
                        Cv::Int(k, _) => k,
                        _ => return Err("case".into()),
                    };
                    self.p.need(",")?;
                    let l = self.label()?;
                    cases.push((k, l));
                }
                Ok(I::Switch { ty, v, default, cases })
            }
            "ret" => {
                if self.p.eat("void") {
                    Ok(I::Ret(None))
                } else {
                    let (_, v) = self.tyval()?;
                    Ok(I::Ret(Some(v)))
                }
            }
            "unreachable" => Ok(I::Unreachable),
            "landingpad" => Ok(I::LandingPad { dst: d }),
            "resume" => Ok(I::Resume),
            _ => Err(format!("instruction {}", w)),
        }
    }

    fn call(&mut self, dst: Option<u32>, invoke: bool) -> R<I> {
        // skip calling convention / return attributes
        while !self.p.at_type() {
            let w = self.p.word();
            if w.is_empty() {
                return Err(format!("call at {:?}", self.p.rest()));
            }
            if self.p.peek() == b'(' {
                self.p.balanced();
            } else if w == "align" || w == "cc" {
                self.p.uint()?;
            }
        }
        let ret = self.p.ty()?;
        if self.p.peek() == b'(' {
            self.p.balanced(); // function type of a vararg call
        }
        self.p.attrs();
        let callee = match self.p.peek() {
            b'@' => {
                self.p.i += 1;
                Callee::Name(Rc::from(self.p.name()))
            }
            b'%' => Callee::Val(self.val(&Ty::Ptr)?),
            _ => {
                if self.p.peek_word() == "asm" {
                    Callee::Asm
                } else {
                    Callee::Val(self.val(&Ty::Ptr)?)
                }
            }
        };
        let mut args = vec![];
        if let Callee::Asm = callee {
            return Ok(I::Call { dst, callee, args, ret, next: None });
        }
        self.p.need("(")?;
        if self.p.peek() != b')' {
            loop {
                self.p.attrs();
                let t = self.p.ty()?;
                if t == Ty::Meta {
                    // metadata argument: skip to the next comma or close paren at depth 0
                    let mut d = 0;
                    while self.p.i < self.p.s.len() {
                        match self.p.s[self.p.i] {
                            b'(' | b'{' => d += 1,
                            b')' | b'}' if d > 0 => d -= 1,
                            b',' | b')' if d == 0 => break,
                            _ => {}
                        }
                        self.p.i += 1;
                    }
                } else {
                    self.p.attrs();
                    let v = self.val(&t)?;
                    args.push((t, v));
                }
                if !self.p.eat(",") {
                    break;
                }
            }
        }
        self.p.need(")")?;
        let mut next = None;
        if invoke {
            // attributes up to "to label"
            let rest = std::str::from_utf8(&self.p.s[self.p.i..]).unwrap();
            let k = rest.find("to label ").ok_or("invoke")?;
            self.p.i += k + 3;
            next = Some(self.label()?);
        }
        Ok(I::Call { dst, callee, args, ret, next })
    }
}

/// Give scalar constants the width of their type.
fn retag(c: Cv, ty: &Ty) -> Cv {
    match (&c, ty) {
        (Cv::Zero(_), Ty::Int(w)) => Cv::Int(0, *w),
        (Cv::Zero(_), Ty::F64) => Cv::Int(0, 64),
        (Cv::Zero(_), Ty::F32) => Cv::Int(0, 32),
        _ => c,
    }
}

fn label_of(line: &str) -> Option<String> {
    let b = line.as_bytes();
    if b.is_empty() || b[0] == b' ' || b[0] == b';' || b[0] == b'}' {
        return None;
    }
    if b[0] == b'"' {
        let e = line[1..].find('"')? + 1;
        return if line[e + 1..].starts_with(':') { Some(line[1..e].to_string()) } else { None };
    }
    let e = line.find(':')?;
    if line[..e].bytes().all(is_id) {
        Some(line[..e].to_string())
    } else {
        None
    }
}

impl Module {
    pub fn parse(text: String) -> R<Module> {
        let text: Rc<str> = Rc::from(text);
        let mut m = Module {
            text: text.clone(),
            fdefs: HashMap::new(),
            fdecls: vec![],
            globals: vec![],
            types: HashMap::new(),
            consts: vec![],
        };
        let t = &*text;
        let mut pos = 0;
        let mut globals: Vec<(usize, usize)> = vec![];
        while pos < t.len() {
            let e = t[pos..].find('\n').map_or(t.len(), |k| pos + k);
            let line = &t[pos..e];
            if line.starts_with("define ") {
                let end = t[pos..].find("\n}\n").map(|k| pos + k + 2).unwrap_or(t.len());
                let name = func_name(line).ok_or_else(|| format!("define: {}", line))?;
                m.fdefs.insert(Rc::from(name), (pos, end));
                pos = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                if let Some(n) = func_name(line) {
                    m.fdecls.push(Rc::from(n));
                }
            } else if line.starts_with('@') {
                globals.push((pos, e));
            } else if line.starts_with('%') {
                let types = std::mem::take(&mut m.types);
                let mut p = P { s: line.as_bytes(), i: 1, types: &types };
                let n = p.name();
                p.need("=")?;
                p.need("type")?;
                let ty = if p.eat("opaque") { Ok(Ty::Void) } else { p.ty() };
                m.types = types;
                m.types.insert(n, ty?);
            }
            pos = e + 1;
        }
        for (a, b) in globals {
            let line = &t[a..b];
            let mut p = P { s: line.as_bytes(), i: 1, types: &m.types };
            let n = p.name();
            p.need("=")?;
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                let w = p.peek_word();
                match w {
                    "constant" => {
                        constant = true;
                        p.word();
                        break;
                    }
                    "global" => {
                        p.word();
                        break;
                    }
                    "alias" => {
                        alias = true;
                        p.word();
                        break;
                    }
                    "external" | "extern_weak" => {
                        external = true;
                        p.word();
                    }
                    "" => return Err(format!("global {}", line)),
                    _ => {
                        p.word();
                        if p.peek() == b'(' {
                            p.balanced();
                        }
                    }
                }
            }
            let ty = p.ty()?;
            if alias {
                continue;
            }
            let init = if external { None } else { Some(retag(p.cv(&ty).map_err(|e| format!("{} in {}", e, &line[..line.len().min(200)]))?, &ty)) };
            let mut align = ty.align();
            let rest = p.rest();
            if let Some(k) = rest.find(", align ") {
                let d: String = rest[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                align = d.parse().unwrap_or(align);
            }
            m.globals.push((Rc::from(n), GlobalDef { ty, init, constant, align }));
        }
        Ok(m)
    }

    pub fn function(&mut self, name: &str) -> R<Option<Func>> {
        let (a, b) = match self.fdefs.get(name) {
            Some(x) => *x,
            None => return Ok(None),
        };
        let text = self.text.clone();
        let body = &text[a..b];
        let mut lines = body.lines();
        let head = lines.next().unwrap();
        let types = std::mem::take(&mut self.types);
        let consts = &mut self.consts;
        let mut f = FP {
            p: P { s: b"", i: 0, types: &types },
            regs: HashMap::new(),
            labels: HashMap::new(),
            consts,
        };
        let r = Self::body(&mut f, name, head, body);
        self.types = types;
        r.map(Some).map_err(|e| format!("{} (in {})", e, name))
    }

    fn body<'a>(f: &mut FP<'a, '_>, name: &str, head: &'a str, body: &'a str) -> R<Func> {
        // parameters
        let at = head.find('@').ok_or("define")?;
        f.p.s = head.as_bytes();
        f.p.i = at + 1;
        f.p.name();
        f.p.need("(")?;
        let mut params = vec![];
        if f.p.peek() != b')' {
            loop {
                if f.p.eat("...") {
                    break;
                }
                f.p.attrs();
                f.p.ty()?;
                f.p.attrs();
                if f.p.peek() == b'%' {
                    f.p.i += 1;
                    let n = f.p.name();
                    params.push(f.reg(n));
                } else {
                    let n = format!("{}", params.len());
                    params.push(f.reg(n));
                }
                if !f.p.eat(",") {
                    break;
                }
            }
        }
        // labels
        let mut order = vec![];
        let mut seen_first = false;
        for l in body.lines().skip(1) {
            if let Some(n) = label_of(l) {
                f.labels.insert(n.clone(), order.len() as u32);
                order.push(n);
                seen_first = true;
            } else if !seen_first && l.starts_with("  ") {
                // unnamed entry block gets the next number
                let n = format!("{}", params.len());
                f.labels.insert(n.clone(), 0);
                order.push(n);
                seen_first = true;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<Block> = None;
        // logical lines
        let mut off = body.find('\n').unwrap() + 1;
        while off < body.len() {
            let e = body[off..].find('\n').map_or(body.len(), |k| off + k);
            let mut line = &body[off..e];
            let mut next = e + 1;
            if line.is_empty() || line.starts_with(';') || line.starts_with('}') {
                off = next;
                continue;
            }
            if label_of(line).is_some() {
                if let Some(b) = cur.take() {
                    blocks.push(b);
                }
                cur = Some(Block { phis: vec![], ins: vec![] });
                off = next;
                continue;
            }
            if line.starts_with("  #dbg") || line.trim_start().starts_with(';') {
                off = next;
                continue;
            }
            if cur.is_none() {
                cur = Some(Block { phis: vec![], ins: vec![] });
            }
            let t = line.trim_start();
            if t.starts_with("switch ") && !line.contains(']') {
                let k = body[off..].find("\n  ]").ok_or("switch end")?;
                line = &body[off..off + k + 4];
                next = off + k + 4;
                next += body[next..].find('\n').map_or(0, |k| k + 1);
            } else if t.starts_with("invoke ") || t.contains(" = invoke ") {
                let e2 = body[e + 1..].find('\n').map_or(body.len(), |k| e + 1 + k);
                line = &body[off..e2];
                next = e2 + 1;
            } else if t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                off = next;
                continue;
            }
            let b = cur.as_mut().unwrap();
            if t.contains(" = phi ") {
                f.p.s = line.as_bytes();
                f.p.i = 0;
                f.p.need("%")?;
                let n = f.p.name();
                let d = f.reg(n);
                f.p.need("=")?;
                f.p.need("phi")?;
                f.flags();
                let ty = f.p.ty()?;
                let mut inc = vec![];
                loop {
                    f.p.need("[")?;
                    let v = f.val(&ty)?;
                    f.p.need(",")?;
                    let l = f.label()?;
                    f.p.need("]")?;
                    inc.push((l, v));
                    if !f.p.eat(",") || f.p.peek() != b'[' {
                        break;
                    }
                }
                b.phis.push((d, ty, inc));
            } else {
                let i = match f.instr(line) {
                    Ok(i) => i,
                    Err(e) => I::Unsupported(Rc::from(format!("{} in `{}`", e, line.trim()))),
                };
                b.ins.push(i);
            }
            off = next;
        }
        if let Some(b) = cur.take() {
            blocks.push(b);
        }
        Ok(Func { name: Rc::from(name), params, nregs: f.regs.len(), blocks })
    }
}

fn func_name(line: &str) -> Option<String> {
    let at = line.find('@')?;
    let r = &line[at + 1..];
    if let Some(q) = r.strip_prefix('"') {
        return Some(q[..q.find('"')?].to_string());
    }
    let e = r.find('(')?;
    Some(r[..e].to_string())
}
