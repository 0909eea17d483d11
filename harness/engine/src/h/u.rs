//! Shared parts: symbolic requests, reference encoders and decoders (written
//! from the wire format, independent of the code under test), reference values.
use hop_engine::command::request::{Context as ReqContext, Request, RequestBuilder};
use hop_engine::command::response::{Context as RespContext, Instruction};
use hop_engine::command::*;
use hop_engine::state::{KeyType, Value};
use hop_engine::Hop;
use hs::*;

pub const COMMANDS: [(CommandId, u8); 16] = [
    (CommandId::Increment, 0),
    (CommandId::Decrement, 1),
    (CommandId::IncrementBy, 2),
    (CommandId::DecrementBy, 3),
    (CommandId::Set, 10),
    (CommandId::Get, 11),
    (CommandId::Delete, 12),
    (CommandId::Exists, 13),
    (CommandId::Is, 14),
    (CommandId::Rename, 15),
    (CommandId::Type, 16),
    (CommandId::Append, 20),
    (CommandId::Length, 21),
    (CommandId::Keys, 22),
    (CommandId::Echo, 100),
    (CommandId::Stats, 101),
];
pub const STATS: u8 = 101;
pub const ECHO: u8 = 100;

pub const KEY_TYPES: [KeyType; 8] = [
    KeyType::Bytes,
    KeyType::Boolean,
    KeyType::Float,
    KeyType::Integer,
    KeyType::String,
    KeyType::List,
    KeyType::Map,
    KeyType::Set,
];
pub const BYTES: u8 = 0;
pub const BOOL: u8 = 1;
pub const FLOAT: u8 = 2;
pub const INT: u8 = 3;
pub const STRING: u8 = 4;
pub const LIST: u8 = 5;
pub const MAP: u8 = 6;
pub const SET: u8 = 7;
/// no key type
pub const NONE: u8 = 8;

pub fn command(code: u8) -> CommandId {
    COMMANDS.iter().find(|c| c.1 == code).unwrap().0
}
pub fn key_type(kt: u8) -> Option<KeyType> {
    if kt == NONE {
        None
    } else {
        Some(KEY_TYPES[kt as usize])
    }
}
/// Any key type, or none.
pub fn any_key_type() -> u8 {
    choice(9) as u8
}
pub fn any_command() -> u8 {
    COMMANDS[choice(16)].1
}
/// Any command with an argument list (all but stats).
pub fn any_command_with_args() -> u8 {
    COMMANDS[choice(15)].1
}

/// Equality of byte strings without splitting paths.
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}

pub type Args = Vec<Vec<u8>>;

/// Reference encoder of requests.
pub fn wire(cmd: u8, kt: u8, args: &[Vec<u8>]) -> Vec<u8> {
    let mut v = Vec::new();
    v.push(cmd | if kt == NONE { 0 } else { 0x80 });
    if kt != NONE {
        v.push(kt);
    }
    if cmd == STATS {
        return v;
    }
    v.push(args.len() as u8);
    for a in args {
        v.extend_from_slice(&(a.len() as u32).to_be_bytes());
        v.extend_from_slice(a);
    }
    v
}

/// Any argument list of `lo..=hi` arguments of `min..=max` bytes each.
pub fn any_args(lo: usize, hi: usize, min: usize, max: usize) -> Args {
    let n = range(lo, hi);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(bytes(range(min, max)));
    }
    v
}

/// Compare everything observable about a request.
pub fn check_request(r: &Request<'_>, cmd: u8, kt: u8, args: &[Vec<u8>], raw: &[u8]) {
    check(r.command_id() as u8 == cmd, "the command is kept");
    check(r.key_type() == key_type(kt), "the key type is kept");
    check(r.arg_count() == args.len(), "the argument count is kept");
    check(r.arg(args.len()).is_none(), "there is no further argument");
    for (i, a) in args.iter().enumerate() {
        match r.arg(i) {
            Some(x) => check(eq(x, a), "an argument is kept"),
            None => check(false, "an argument is there"),
        }
    }
    match r.args(..) {
        None => check(args.is_empty(), "the arguments are there"),
        Some(it) => {
            check(it.len() == args.len(), "the iterator has the length of the arguments");
            let mut n = 0;
            for x in it {
                check(n < args.len() && eq(x, &args[n]), "the iterator yields the arguments");
                n += 1;
            }
            check(n == args.len(), "the iterator yields all arguments");
        }
    }
    check(eq(r.as_bytes(), raw), "the encoding is kept");
}

pub fn build(cmd: u8, kt: u8, args: &[Vec<u8>]) -> RequestBuilder {
    let mut b = RequestBuilder::new_with_key_type(command(cmd), key_type(kt));
    for a in args {
        check(b.bytes(a.clone()).is_ok(), "a non-empty argument is accepted");
    }
    b
}

/// A request as the engine gets it from the network.
pub fn parsed<R>(raw: &[u8], f: impl FnOnce(&Request<'_>) -> R) -> R {
    let mut ctx = ReqContext::new();
    match ctx.feed(raw) {
        Ok(Some(r)) => f(&r),
        _ => {
            check(false, "a complete request is parsed");
            loop {}
        }
    }
}

/// Reference value.
#[derive(Clone)]
pub enum V {
    Bytes(Vec<u8>),
    Bool(bool),
    Float(u64),
    Int(i64),
    Str(Vec<u8>),
    List(Args),
    Map(Vec<(Vec<u8>, Vec<u8>)>),
    Set(Args),
}
impl V {
    pub fn kind(&self) -> u8 {
        match self {
            V::Bytes(_) => BYTES,
            V::Bool(_) => BOOL,
            V::Float(_) => FLOAT,
            V::Int(_) => INT,
            V::Str(_) => STRING,
            V::List(_) => LIST,
            V::Map(_) => MAP,
            V::Set(_) => SET,
        }
    }
    pub fn value(&self) -> Value {
        match self {
            V::Bytes(b) => Value::Bytes(b.clone()),
            V::Bool(b) => Value::Boolean(*b),
            V::Float(b) => Value::Float(f64::from_bits(*b)),
            V::Int(b) => Value::Integer(*b),
            V::Str(b) => Value::String(unsafe { String::from_utf8_unchecked(b.clone()) }),
            V::List(l) => Value::List(l.clone()),
            V::Map(m) => {
                let d = dashmap::DashMap::new();
                for (k, v) in m {
                    d.insert(k.clone(), v.clone());
                }
                Value::Map(d)
            }
            V::Set(m) => {
                let d = dashmap::DashSet::new();
                for k in m {
                    d.insert(k.clone());
                }
                Value::Set(d)
            }
        }
    }
    /// Value equality; maps and sets are unordered and have distinct keys.
    pub fn same(&self, o: &Value) -> bool {
        match (self, o) {
            (V::Bytes(a), Value::Bytes(b)) => eq(a, b),
            (V::Bool(a), Value::Boolean(b)) => a == b,
            (V::Float(a), Value::Float(b)) => feq(*a, b.to_bits()),
            (V::Int(a), Value::Integer(b)) => a == b,
            (V::Str(a), Value::String(b)) => eq(a, b.as_bytes()),
            (V::List(a), Value::List(b)) => eqs(a, b),
            (V::Map(a), Value::Map(b)) => {
                if a.len() != b.len() {
                    return false;
                }
                let mut r = true;
                for (k, v) in a {
                    r &= match b.get(k) {
                        Some(x) => eq(v, x.value()),
                        None => false,
                    };
                }
                r
            }
            (V::Set(a), Value::Set(b)) => {
                if a.len() != b.len() {
                    return false;
                }
                let mut r = true;
                for k in a {
                    r &= b.contains(k);
                }
                r
            }
            _ => false,
        }
    }
}
pub fn eqs(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= eq(&a[i], &b[i]);
    }
    r
}
/// The same number, or both not a number.
pub fn feq(a: u64, b: u64) -> bool {
    let nan = |x: u64| (x & 0x7fff_ffff_ffff_ffff) > 0x7ff0_0000_0000_0000;
    (a == b) | (nan(a) & nan(b))
}

/// Reference response.
#[derive(Clone)]
pub enum R {
    Val(V),
    Dispatch(u8),
    Parse(u8),
}

/// Reference encoder of responses.
pub fn frame(r: &R) -> Vec<u8> {
    let mut p: Vec<u8> = Vec::new();
    fn be32(p: &mut Vec<u8>, n: usize) {
        p.extend_from_slice(&(n as u32).to_be_bytes());
    }
    fn be16(p: &mut Vec<u8>, n: usize) {
        p.extend_from_slice(&(n as u16).to_be_bytes());
    }
    match r {
        R::Val(V::Bool(b)) => {
            p.push(0);
            p.push(*b as u8);
        }
        R::Val(V::Bytes(b)) => {
            p.push(1);
            be32(&mut p, b.len());
            p.extend_from_slice(b);
        }
        R::Val(V::Float(b)) => {
            p.push(2);
            p.extend_from_slice(&b.to_be_bytes());
        }
        R::Val(V::Int(b)) => {
            p.push(3);
            p.extend_from_slice(&b.to_be_bytes());
        }
        R::Val(V::List(l)) => {
            p.push(4);
            be16(&mut p, l.len());
            for x in l {
                be32(&mut p, x.len());
                p.extend_from_slice(x);
            }
        }
        R::Val(V::Map(l)) => {
            p.push(5);
            be16(&mut p, l.len());
            for (k, v) in l {
                p.push(k.len() as u8);
                p.extend_from_slice(k);
                be32(&mut p, v.len());
                p.extend_from_slice(v);
            }
        }
        R::Val(V::Set(l)) => {
            p.push(6);
            be16(&mut p, l.len());
            for x in l {
                be16(&mut p, x.len());
                p.extend_from_slice(x);
            }
        }
        R::Val(V::Str(b)) => {
            p.push(7);
            be32(&mut p, b.len());
            p.extend_from_slice(b);
        }
        R::Parse(c) => {
            p.push(8);
            p.push(*c);
        }
        R::Dispatch(c) => {
            p.push(9);
            p.push(*c);
        }
    }
    let mut v = (p.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(&p);
    v
}

pub fn same_response(want: &R, got: &Response) -> bool {
    match (want, got) {
        (R::Val(v), Response::Value(x)) => v.same(x),
        (R::Dispatch(c), Response::DispatchError(e)) => *e as u8 == *c,
        (R::Parse(c), Response::ParseError(e)) => *e as u8 == *c,
        _ => false,
    }
}

/// One arbitrary character: 1 to 4 bytes of UTF-8.
pub fn any_char(max: usize) -> Vec<u8> {
    let n = range(1, max);
    let b = bytes(n);
    let tail = |x: u8| (x & 0xc0) == 0x80;
    let ok = match n {
        1 => b[0] < 0x80,
        2 => (b[0] >= 0xc2) & (b[0] <= 0xdf) & tail(b[1]),
        3 => {
            ((b[0] & 0xf0) == 0xe0)
                & tail(b[1])
                & tail(b[2])
                & ((b[0] != 0xe0) | (b[1] >= 0xa0))
                & ((b[0] != 0xed) | (b[1] <= 0x9f))
        }
        _ => {
            (b[0] >= 0xf0)
                & (b[0] <= 0xf4)
                & tail(b[1])
                & tail(b[2])
                & tail(b[3])
                & ((b[0] != 0xf0) | (b[1] >= 0x90))
                & ((b[0] != 0xf4) | (b[1] <= 0x8f))
        }
    };
    assume(ok);
    b
}

/// An arbitrary value of type `kind`; containers have up to `n` items.
pub fn any_value(kind: u8, n: usize) -> V {
    match kind {
        BYTES => V::Bytes(bytes(range(0, n))),
        BOOL => V::Bool(sym_bool()),
        FLOAT => V::Float(sym_u64()),
        INT => V::Int(sym_i64()),
        STRING => {
            let mut s = Vec::new();
            for _ in 0..range(0, n) {
                s.extend_from_slice(&any_char(2));
            }
            V::Str(s)
        }
        LIST => {
            let mut l = Vec::new();
            for _ in 0..range(0, n) {
                l.push(bytes(range(0, 1)));
            }
            V::List(l)
        }
        MAP => {
            let mut l: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
            for _ in 0..range(0, n) {
                let k = bytes(1);
                for (o, _) in &l {
                    assume(!eq(o, &k));
                }
                l.push((k, bytes(range(0, 1))));
            }
            V::Map(l)
        }
        _ => {
            let mut l: Args = Vec::new();
            for _ in 0..range(0, n) {
                let k = bytes(1);
                for o in &l {
                    assume(!eq(o, &k));
                }
                l.push(k);
            }
            V::Set(l)
        }
    }
}

/// Decode a complete response, or nothing.
pub fn decode(raw: &[u8]) -> Option<Response> {
    let mut ctx = RespContext::new();
    match ctx.feed(raw) {
        Ok(Instruction::Concluded(r)) => Some(r),
        _ => None,
    }
}

/// The order of the items of maps, sets and lists of keys is that of a hash table.
pub fn note_response(raw: &[u8]) {
    if raw.len() > 5 && (4..=6).contains(&raw[4]) {
        note_bytes(&raw[..5]);
    } else {
        note_bytes(raw);
    }
}

/// What an arbitrary buffer holds, from the description of the wire format.
pub enum ReqRef {
    Incomplete,
    BadCommand,
    BadKeyType,
    Done { cmd: u8, kt: u8, args: Args, len: usize },
}
pub fn request_reference(b: &[u8]) -> ReqRef {
    if b.is_empty() {
        return ReqRef::Incomplete;
    }
    let cmd = b[0] & 0x7f;
    if !COMMANDS.iter().any(|c| c.1 == cmd) {
        return ReqRef::BadCommand;
    }
    let mut i = 1;
    let mut kt = NONE;
    if b[0] & 0x80 != 0 {
        if b.len() < 2 {
            return ReqRef::Incomplete;
        }
        kt = b[1];
        if kt > 7 {
            return ReqRef::BadKeyType;
        }
        i = 2;
    }
    let mut args = Vec::new();
    if cmd != STATS {
        if b.len() <= i {
            return ReqRef::Incomplete;
        }
        let n = b[i] as usize;
        i += 1;
        let mut k = 0;
        while k < n {
            if b.len() < i + 4 {
                return ReqRef::Incomplete;
            }
            let l = u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
            if b.len() - i - 4 < l {
                return ReqRef::Incomplete;
            }
            let l = concretize(l as u64) as usize;
            args.push(b[i + 4..i + 4 + l].to_vec());
            i += 4 + l;
            k += 1;
        }
    }
    ReqRef::Done { cmd: concretize(cmd as u64) as u8, kt: concretize(kt as u64) as u8, args, len: i }
}
