//! Reference model of the commands: a list of keys and values, and what each
//! command is documented to do with it.
use super::u::*;
use hop_engine::Hop;
use hs::*;

pub const INCR: u8 = 0;
pub const DECR: u8 = 1;
pub const INCR_BY: u8 = 2;
pub const DECR_BY: u8 = 3;
pub const C_SET: u8 = 10;
pub const C_GET: u8 = 11;
pub const C_DELETE: u8 = 12;
pub const C_EXISTS: u8 = 13;
pub const C_IS: u8 = 14;
pub const C_RENAME: u8 = 15;
pub const C_TYPE: u8 = 16;
pub const C_APPEND: u8 = 20;
pub const C_LENGTH: u8 = 21;
pub const C_KEYS: u8 = 22;

pub const E_ARG: u16 = 1 << 0;
pub const E_NO_KEY: u16 = 1 << 1;
pub const E_DIFFERENT: u16 = 1 << 2;
pub const E_UNEXPECTED: u16 = 1 << 3;
pub const E_PRECONDITION: u16 = 1 << 4;
pub const E_MISSING: u16 = 1 << 5;
pub const E_REQUIRED: u16 = 1 << 6;
pub const E_INVALID: u16 = 1 << 7;

pub enum Out {
    Ok(V),
    /// the sum of two numbers, at a key
    Sum(Vec<u8>, f64, f64),
    /// a list in any order
    Any(Args),
    /// the stats, checked elsewhere
    Stats,
    /// one of these errors
    Err(u16),
}

#[derive(Clone)]
pub struct M(pub Vec<(Vec<u8>, V)>);

impl M {
    pub fn find(&self, k: &[u8]) -> Option<usize> {
        for (i, e) in self.0.iter().enumerate() {
            if eq(&e.0, k) {
                return Some(i);
            }
        }
        None
    }
    pub fn get(&self, k: &[u8]) -> Option<&V> {
        self.find(k).map(|i| &self.0[i].1)
    }
    pub fn put(&mut self, k: &[u8], v: V) {
        match self.find(k) {
            Some(i) => self.0[i].1 = v,
            None => self.0.push((k.to_vec(), v)),
        }
    }
    pub fn hop(&self) -> Hop {
        let h = Hop::new();
        for (k, v) in &self.0 {
            h.state().insert(k.clone(), v.value());
        }
        h
    }
}

/// The value of type `kt` that the arguments after the key form.
pub fn convert(kt: u8, args: &[Vec<u8>]) -> Option<V> {
    if args.is_empty() {
        return None;
    }
    let a = &args[0];
    Some(match kt {
        BYTES => V::Bytes(a.clone()),
        BOOL => {
            if a.is_empty() {
                return None;
            }
            V::Bool(a[0] > 0)
        }
        FLOAT | INT => {
            if a.len() < 8 {
                return None;
            }
            let x = u64::from_be_bytes([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]]);
            if kt == FLOAT {
                V::Float(x)
            } else {
                V::Int(x as i64)
            }
        }
        STRING => {
            if core::str::from_utf8(a).is_err() {
                return None;
            }
            V::Str(a.clone())
        }
        LIST => V::List(args.to_vec()),
        MAP => {
            if args.len() % 2 != 0 {
                return None;
            }
            let mut l: Vec<(Vec<u8>, Vec<u8>)> = vec![];
            for p in args.chunks(2) {
                match l.iter_mut().find(|e| eq(&e.0, &p[0])) {
                    Some(e) => e.1 = p[1].clone(),
                    None => l.push((p[0].clone(), p[1].clone())),
                }
            }
            V::Map(l)
        }
        _ => {
            let mut l: Args = vec![];
            for x in args {
                if !l.iter().any(|y| eq(x, y)) {
                    l.push(x.clone());
                }
            }
            V::Set(l)
        }
    })
}

fn counter(m: &mut M, key: &[u8], up: bool, amount: V) -> Out {
    let float = amount.kind() == FLOAT;
    let old = match m.get(key) {
        Some(v) => v.clone(),
        None if float => V::Float(0),
        None => V::Int(0),
    };
    let new = match (old, amount) {
        (V::Int(a), V::Int(b)) => V::Int(if up { a.wrapping_add(b) } else { a.wrapping_sub(b) }),
        (V::Float(a), V::Float(b)) => {
            let (a, b) = (f64::from_bits(a), f64::from_bits(b));
            m.put(key, V::Float(if up { a + b } else { a - b }.to_bits()));
            return Out::Sum(key.to_vec(), a, if up { b } else { -b });
        }
        _ => return Out::Err(E_DIFFERENT),
    };
    m.put(key, new.clone());
    Out::Ok(new)
}

/// What the command returns; changes the model as it should change the store.
pub fn apply(m: &mut M, cmd: u8, kt: u8, args: &[Vec<u8>]) -> Out {
    let typed = kt != NONE;
    let keyless = args.is_empty() || args[0].is_empty();
    let mut e = 0u16;
    macro_rules! err {
        ($c:expr, $k:expr) => {
            if $c {
                e |= $k;
            }
        };
    }
    macro_rules! stop {
        () => {
            if e != 0 {
                return Out::Err(e);
            }
        };
    }
    match cmd {
        ECHO => return Out::Ok(V::List(args.to_vec())),
        STATS => {
            err!(typed, E_UNEXPECTED);
            stop!();
            return Out::Stats;
        }
        C_EXISTS => {
            err!(typed, E_UNEXPECTED);
            err!(args.is_empty(), E_ARG);
            stop!();
            let mut all = true;
            for k in args {
                all &= m.get(k).is_some();
            }
            return Out::Ok(V::Bool(all));
        }
        C_IS => {
            err!(!typed, E_REQUIRED);
            err!(args.is_empty(), E_ARG);
            stop!();
            let mut all = true;
            for k in args {
                all &= m.get(k).map_or(false, |v| v.kind() == kt);
            }
            return Out::Ok(V::Bool(all));
        }
        _ => {}
    }
    if keyless {
        err!(true, E_NO_KEY);
        match cmd {
            C_DELETE | C_TYPE | C_RENAME => err!(typed, E_UNEXPECTED),
            _ => {}
        }
        err!(args.is_empty() && cmd == C_APPEND, E_ARG);
        err!(args.len() < 2 && (cmd == INCR_BY || cmd == DECR_BY || cmd == C_SET || cmd == C_RENAME), E_ARG);
        // what else is wrong with the arguments doesn't matter
        match cmd {
            INCR_BY | DECR_BY | C_SET | C_RENAME | C_APPEND => err!(true, E_ARG),
            C_KEYS | C_LENGTH => err!(typed, E_INVALID),
            _ => {}
        }
        return Out::Err(e);
    }
    let key = &args[0];
    let kind = m.get(key).map(|v| v.kind());
    match cmd {
        INCR | DECR => counter(m, key, cmd == INCR, if kt == FLOAT { V::Float(1f64.to_bits()) } else { V::Int(1) }),
        INCR_BY | DECR_BY => {
            let t = if kt == FLOAT { FLOAT } else { INT };
            err!(kind.map_or(false, |k| k != t), E_DIFFERENT);
            match convert(t, &args[1..]) {
                None => {
                    err!(true, E_ARG);
                    Out::Err(e)
                }
                Some(a) => counter(m, key, cmd == INCR_BY, a),
            }
        }
        C_SET => {
            let t = if typed { kt } else { kind.unwrap_or(BYTES) };
            match convert(t, &args[1..]) {
                None => Out::Err(E_ARG),
                Some(v) => {
                    m.put(key, v.clone());
                    Out::Ok(v)
                }
            }
        }
        C_GET => match m.get(key) {
            None => Out::Err(E_MISSING),
            Some(v) => {
                if typed && v.kind() != kt {
                    return Out::Err(E_DIFFERENT);
                }
                Out::Ok(v.clone())
            }
        },
        C_DELETE => {
            err!(typed, E_UNEXPECTED);
            err!(kind.is_none(), E_PRECONDITION);
            stop!();
            let i = m.find(key).unwrap();
            m.0.remove(i);
            Out::Ok(V::Bytes(key.clone()))
        }
        C_RENAME => {
            err!(typed, E_UNEXPECTED);
            err!(kind.is_none(), E_MISSING);
            if args.len() < 2 || args[1].is_empty() {
                err!(true, E_ARG);
            } else {
                err!(m.get(&args[1]).is_some(), E_PRECONDITION);
            }
            stop!();
            let i = m.find(key).unwrap();
            let (_, v) = m.0.remove(i);
            m.0.push((args[1].clone(), v));
            Out::Ok(V::Bytes(args[1].clone()))
        }
        C_TYPE => {
            err!(typed, E_UNEXPECTED);
            err!(kind.is_none(), E_MISSING);
            stop!();
            Out::Ok(V::Int(kind.unwrap() as i64))
        }
        C_APPEND => {
            let t = if typed { kt } else { kind.unwrap_or(BYTES) };
            err!(t != BYTES && t != LIST && t != STRING, E_DIFFERENT);
            err!(kind.map_or(false, |k| k != t), E_DIFFERENT);
            if t == STRING {
                for a in &args[1..] {
                    err!(core::str::from_utf8(a).is_err(), E_ARG);
                }
            }
            stop!();
            let mut v = match (m.get(key), t) {
                (Some(v), _) => v.clone(),
                (None, BYTES) => V::Bytes(vec![]),
                (None, LIST) => V::List(vec![]),
                _ => V::Str(vec![]),
            };
            match &mut v {
                V::Bytes(b) | V::Str(b) => {
                    for a in &args[1..] {
                        b.extend_from_slice(a);
                    }
                }
                V::List(l) => l.extend_from_slice(&args[1..]),
                _ => {}
            }
            m.put(key, v.clone());
            Out::Ok(v)
        }
        C_LENGTH => {
            let t = if typed { kt } else { kind.unwrap_or(BYTES) };
            err!(t == BOOL || t == FLOAT || t == INT, E_INVALID);
            err!(kind.is_none(), E_MISSING);
            err!(kind.map_or(false, |k| k != t), E_DIFFERENT);
            stop!();
            let n = match m.get(key).unwrap() {
                V::Bytes(b) => b.len() as i64,
                V::Str(b) => {
                    let mut n = 0;
                    for x in b {
                        n += ((*x & 0xc0) != 0x80) as i64;
                    }
                    n
                }
                V::List(l) | V::Set(l) => l.len() as i64,
                V::Map(l) => l.len() as i64,
                _ => 0,
            };
            Out::Ok(V::Int(n))
        }
        C_KEYS => {
            let t = if typed { kt } else { kind.unwrap_or(MAP) };
            err!(t != MAP, E_INVALID);
            err!(kind.is_none(), E_MISSING);
            err!(kind.map_or(false, |k| k != t), E_DIFFERENT);
            stop!();
            match m.get(key).unwrap() {
                V::Map(l) => Out::Any(l.iter().map(|e| e.0.clone()).collect()),
                _ => Out::Err(E_DIFFERENT),
            }
        }
        _ => Out::Err(0),
    }
}

/// Send a request as the server would: encode, parse, dispatch. Returns the
/// error code, or the response frame.
pub fn send(hop: &Hop, cmd: u8, kt: u8, args: &[Vec<u8>]) -> Result<Vec<u8>, u8> {
    let raw = wire(cmd, kt, args);
    let mut res = Vec::new();
    let r = parsed(&raw, |r| hop.dispatch(r, &mut res));
    match r {
        Ok(()) => Ok(res),
        Err(e) => {
            check(res.is_empty(), "a refused command writes no response");
            Err(e as u8)
        }
    }
}

pub fn check_out(want: &Out, got: &Result<Vec<u8>, u8>) {
    match (want, got) {
        (Out::Err(mask), Err(c)) => {
            note(100 + *c as u64);
            check(mask & (1u16 << (*c & 15)) != 0, "the error tells what is wrong");
            cover("error");
        }
        (Out::Err(_), Ok(_)) => check(false, "the command is refused"),
        (_, Err(c)) => {
            note(100 + *c as u64);
            check(false, "the command is accepted")
        }
        (Out::Ok(v), Ok(raw)) => {
            note_response(raw);
            match decode(raw) {
                Some(r) => check(same_response(&R::Val(v.clone()), &r), "the response is the value"),
                None => check(false, "the response is a frame"),
            }
            cover("ok");
        }
        (Out::Sum(_, a, b), Ok(raw)) => {
            note_response(raw);
            match sum_of(raw) {
                Some(x) => check(is_sum(x, *a, *b), "the response is the sum"),
                None => check(false, "the response is a float"),
            }
            cover("ok");
        }
        (Out::Any(l), Ok(raw)) => {
            note(raw.len() as u64);
            match decode(raw) {
                Some(hop_engine::command::Response::Value(hop_engine::state::Value::List(g))) => {
                    let mut all = g.len() == l.len();
                    for x in l {
                        let mut any = false;
                        for y in &g {
                            any |= eq(x, y);
                        }
                        all &= any;
                    }
                    check(all, "the response has exactly the keys");
                }
                _ => check(false, "the response is a list"),
            }
            cover("keys");
        }
        (Out::Stats, Ok(_)) => cover("ok"),
    }
}

fn sum_of(raw: &[u8]) -> Option<u64> {
    match decode(raw) {
        Some(hop_engine::command::Response::Value(hop_engine::state::Value::Float(x))) => Some(x.to_bits()),
        _ => None,
    }
}
/// `x` is the number `a + b`, computed in one of the usual ways (they differ
/// in the sign of a zero at most, and the solver needs long to see that)
pub fn is_sum(x: u64, a: f64, b: f64) -> bool {
    let c = -b;
    feq(x, (a + b).to_bits())
        | feq(x, (b + a).to_bits())
        | feq(x, (a - c).to_bits())
        | feq(x, (a + (0.0 - c)).to_bits())
        | feq(x, (a - (0.0 - b)).to_bits())
        | (f64::from_bits(x) == a + b)
}

/// The store holds exactly what the model holds.
pub fn check_store(hop: &Hop, m: &M) {
    for (k, v) in &m.0 {
        check_key(hop, k, Some(v));
    }
    let probe = bytes(range(1, 2));
    let mut there = false;
    for (k, _) in &m.0 {
        there |= eq(k, &probe);
    }
    if !there {
        check(!hop.state().contains_key(&probe), "no other key is there");
    }
}
pub fn check_key(hop: &Hop, k: &[u8], want: Option<&V>) {
    match (hop.state().key_ref(k), want) {
        (Some(r), Some(v)) => check(v.same(r.value()), "a key holds its value"),
        (None, Some(_)) => check(false, "a key is there"),
        (Some(_), None) => check(false, "a key isn't there"),
        (None, None) => {}
    }
}

/// Send and compare response and store with the model.
pub fn step(hop: &Hop, m: &mut M, cmd: u8, kt: u8, args: &[Vec<u8>]) {
    let want = apply(m, cmd, kt, args);
    let got = send(hop, cmd, kt, args);
    check_out(&want, &got);
    if let (Out::Sum(k, _, _), Ok(raw)) = (&want, &got) {
        // the sign of a zero may differ
        if let Some(x) = sum_of(raw) {
            m.put(k, V::Float(x));
        }
    }
}

/// A store with maybe a value of the given types at a key, and another key.
pub fn any_store(kinds: &[u8], items: usize) -> (M, Vec<u8>) {
    let k = bytes(1);
    let mut m = M(vec![]);
    let c = choice(kinds.len() + 1);
    if c > 0 {
        m.0.push((k.clone(), any_value(kinds[c - 1], items)));
    }
    let o = bytes(1);
    assume(!eq(&o, &k));
    m.0.push((o, V::Int(sym_i64())));
    (m, k)
}
pub const KINDS: [u8; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
