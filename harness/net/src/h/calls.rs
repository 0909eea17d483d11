//! Every way to call a command through the client, along with the request it
//! stands for.
use super::m::*;
use super::u::*;
use hop::backend::Backend;
use hop::Client;
use hop_engine::state::{KeyType, Value};
use hs::*;
use std::future::Future;
use std::pin::Pin;

pub type Fut<E> = Pin<Box<dyn Future<Output = Result<Value, E>>>>;
pub struct Call<E> {
    pub cmd: u8,
    pub kt: u8,
    pub args: Args,
    /// the command takes a value, which is empty
    pub empty: bool,
    /// the command doesn't take such values
    pub unsupported: bool,
    pub fut: Fut<E>,
}
impl<E> Call<E> {
    /// No such request can be built.
    pub fn unbuildable(&self) -> bool {
        self.empty | self.args.iter().any(|a| a.is_empty()) | (self.args.len() > 255)
    }
}

fn string(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
/// The items of a set, each of them once.
fn set_of(l: Args) -> Value {
    let s = dashmap::DashSet::new();
    for x in &l {
        check(s.insert(x.clone()), "an item of a set is there once");
    }
    Value::Set(s)
}
/// The arguments that a value stands for.
pub fn value_args(v: &V) -> Args {
    match v {
        V::Bytes(b) | V::Str(b) => vec![b.clone()],
        V::Bool(b) => vec![vec![*b as u8]],
        V::Int(i) => vec![i.to_be_bytes().to_vec()],
        V::Float(x) => vec![x.to_be_bytes().to_vec()],
        V::List(l) | V::Set(l) => l.clone(),
        V::Map(l) => l.iter().flat_map(|(k, v)| [k.clone(), v.clone()]).collect(),
    }
}
fn keyed(k: &[u8], mut rest: Args) -> Args {
    rest.insert(0, k.to_vec());
    rest
}
fn vals(v: &V) -> (bool, Args) {
    let a = value_args(v);
    (a.is_empty(), a)
}

macro_rules! fut {
    ($e:expr, $f:expr) => {
        Box::pin(async move { $e.await.map($f) })
    };
}
fn kind(k: KeyType) -> Value {
    Value::Integer(k as i64)
}

/// A call of a command with one of the methods for it.
pub fn typed<B: Backend + Send + Sync + 'static>(c: &'static Client<B>, cmd: u8, k: &[u8], items: usize) -> Call<B::Error> {
    let key = k.to_vec();
    let k1: Args = vec![key.clone()];
    let none = (false, vec![]);
    macro_rules! call {
        ($kt:expr, $args:expr, $fut:expr) => {
            Call { cmd, kt: $kt, args: $args, empty: false, unsupported: false, fut: $fut }
        };
    }
    match cmd {
        INCR => match choice(5) {
            0 => call!(NONE, k1, fut!(c.increment(key), |x| x)),
            // by one, as if it had been given
            1 => Call { cmd: INCR_BY, ..call!(INT, keyed(k, value_args(&V::Int(1))), fut!(c.increment(key).int(), Value::Integer)) },
            2 => Call {
                cmd: INCR_BY,
                ..call!(FLOAT, keyed(k, value_args(&V::Float(1f64.to_bits()))), fut!(c.increment(key).float(), Value::Float))
            },
            3 => {
                let n = sym_i64();
                Call { cmd: INCR_BY, ..call!(INT, keyed(k, value_args(&V::Int(n))), fut!(c.increment(key).int().by(n), Value::Integer)) }
            }
            _ => {
                let n = sym_u64();
                let x = f64::from_bits(n);
                Call { cmd: INCR_BY, ..call!(FLOAT, keyed(k, value_args(&V::Float(n))), fut!(c.increment(key).float().by(x), Value::Float)) }
            }
        },
        DECR => match choice(5) {
            0 => call!(NONE, k1, fut!(c.decrement(key), |x| x)),
            1 => Call { cmd: DECR_BY, ..call!(INT, keyed(k, value_args(&V::Int(1))), fut!(c.decrement(key).int(), Value::Integer)) },
            2 => Call {
                cmd: DECR_BY,
                ..call!(FLOAT, keyed(k, value_args(&V::Float(1f64.to_bits()))), fut!(c.decrement(key).float(), Value::Float))
            },
            3 => {
                let n = sym_i64();
                Call { cmd: DECR_BY, ..call!(INT, keyed(k, value_args(&V::Int(n))), fut!(c.decrement(key).int().by(n), Value::Integer)) }
            }
            _ => {
                let n = sym_u64();
                let x = f64::from_bits(n);
                Call { cmd: DECR_BY, ..call!(FLOAT, keyed(k, value_args(&V::Float(n))), fut!(c.decrement(key).float().by(x), Value::Float)) }
            }
        },
        C_SET => {
            let kt = choice(8) as u8;
            let v = any_value(kt, items);
            let (empty, args) = vals(&v);
            let way = choice(2);
            let r = c.set(key);
            let fut: Fut<B::Error> = if way == 0 {
                let v = v.value();
                fut!(r.value(v), |x| x)
            } else {
                let alias = kt == BOOL || kt == INT || kt == STRING;
                let alias = alias && choice(2) == 1;
                match v {
                    V::Bytes(b) => fut!(r.bytes(b), Value::Bytes),
                    V::Bool(b) if alias => fut!(r.boolean(b), Value::Boolean),
                    V::Bool(b) => fut!(r.bool(b), Value::Boolean),
                    V::Float(b) => fut!(r.float(f64::from_bits(b)), Value::Float),
                    V::Int(b) if alias => fut!(r.integer(b), Value::Integer),
                    V::Int(b) => fut!(r.int(b), Value::Integer),
                    V::Str(b) if alias => fut!(r.string(string(&b)), Value::String),
                    V::Str(b) => fut!(r.str(string(&b)), Value::String),
                    V::List(l) => fut!(r.list(l), Value::List),
                    V::Map(l) => fut!(r.map(l), Value::Map),
                    V::Set(l) => fut!(r.set(l), set_of),
                }
            };
            Call { empty, ..call!(kt, keyed(k, args), fut) }
        }
        C_GET => {
            let r = c.get(key);
            match choice(12) {
                0 => call!(NONE, k1, fut!(r, |x| x)),
                1 => call!(BOOL, k1, fut!(r.bool(), Value::Boolean)),
                2 => call!(BYTES, k1, fut!(r.bytes(), Value::Bytes)),
                3 => call!(FLOAT, k1, fut!(r.float(), Value::Float)),
                4 => call!(INT, k1, fut!(r.int(), Value::Integer)),
                5 => call!(LIST, k1, fut!(r.list(), Value::List)),
                6 => call!(MAP, k1, fut!(r.map(), Value::Map)),
                7 => call!(SET, k1, fut!(r.set(), Value::Set)),
                8 => call!(STRING, k1, fut!(r.str(), Value::String)),
                9 => call!(BOOL, k1, fut!(r.boolean(), Value::Boolean)),
                10 => call!(INT, k1, fut!(r.integer(), Value::Integer)),
                _ => call!(STRING, k1, fut!(r.string(), Value::String)),
            }
        }
        C_DELETE => call!(NONE, k1, fut!(c.delete(key), Value::Bytes)),
        C_EXISTS => {
            if choice(2) == 0 {
                return call!(NONE, k1, fut!(c.exists().key(key), Value::Boolean));
            }
            let a = keyed(k, any_args(0, 2, 0, 1));
            match c.exists().keys(a.clone()) {
                Ok(r) => call!(NONE, a, fut!(r, Value::Boolean)),
                Err(_) => {
                    check(false, "keys are accepted");
                    loop {}
                }
            }
        }
        C_IS => {
            let kt = choice(8) as u8;
            let r = c.is(KEY_TYPES[kt as usize]);
            if choice(2) == 0 {
                return call!(kt, k1, fut!(r.key(key), Value::Boolean));
            }
            let a = keyed(k, any_args(0, 2, 0, 1));
            match r.keys(a.clone()) {
                Ok(r) => call!(kt, a, fut!(r, Value::Boolean)),
                Err(_) => {
                    check(false, "keys are accepted");
                    loop {}
                }
            }
        }
        C_RENAME => {
            let to = bytes(range(0, 1));
            call!(NONE, vec![key.clone(), to.clone()], fut!(c.rename(key, to), Value::Bytes))
        }
        C_TYPE => call!(NONE, k1, fut!(c.key_type(key), kind)),
        C_APPEND => {
            let r = c.append(key);
            match choice(4) {
                0 => {
                    let b = bytes(range(0, items));
                    call!(BYTES, keyed(k, vec![b.clone()]), fut!(r.bytes(b), Value::Bytes))
                }
                1 => match any_value(LIST, items) {
                    V::List(l) => call!(LIST, keyed(k, l.clone()), fut!(r.list(l), Value::List)),
                    _ => loop {},
                },
                w => match any_value(STRING, items) {
                    V::Str(b) => {
                        let a = keyed(k, vec![b.clone()]);
                        if w == 2 {
                            call!(STRING, a, fut!(r.str(string(&b)), Value::String))
                        } else {
                            call!(STRING, a, fut!(r.string(string(&b)), Value::String))
                        }
                    }
                    _ => loop {},
                },
            }
        }
        C_LENGTH => {
            let r = c.length(key);
            match choice(7) {
                0 => call!(NONE, k1, fut!(r, Value::Integer)),
                1 => call!(BYTES, k1, fut!(r.bytes(), Value::Integer)),
                2 => call!(LIST, k1, fut!(r.list(), Value::Integer)),
                3 => call!(MAP, k1, fut!(r.map(), Value::Integer)),
                4 => call!(SET, k1, fut!(r.set(), Value::Integer)),
                5 => call!(STRING, k1, fut!(r.str(), Value::Integer)),
                _ => call!(STRING, k1, fut!(r.string(), Value::Integer)),
            }
        }
        C_KEYS => call!(NONE, k1, fut!(c.keys(key), Value::List)),
        _ => {
            let (_, _): (bool, Args) = none;
            call!(NONE, k1, fut!(c.echo(key), Value::List))
        }
    }
}

/// A call of a method of the backend, with any key type and any kind of value.
pub fn raw<B: Backend + Send + Sync + 'static>(b: &'static B, cmd: u8, k: &[u8], items: usize) -> Call<B::Error> {
    let key = k.to_vec();
    let k1: Args = vec![key.clone()];
    macro_rules! call {
        ($kt:expr, $args:expr, $fut:expr) => {
            Call { cmd, kt: $kt, args: $args, empty: false, unsupported: false, fut: $fut }
        };
    }
    match cmd {
        INCR | DECR | C_GET | C_LENGTH => {
            let kt = any_key_type();
            let t = key_type(kt);
            call!(
                kt,
                k1,
                match cmd {
                    INCR => fut!(b.increment(&key, t), |x| x),
                    DECR => fut!(b.decrement(&key, t), |x| x),
                    C_GET => fut!(b.get(&key, t), |x| x),
                    _ => fut!(b.length(&key, t), Value::Integer),
                }
            )
        }
        INCR_BY | DECR_BY | C_SET | C_APPEND => {
            let kt = choice(8) as u8;
            let v = any_value(kt, items);
            let (empty, args) = vals(&v);
            let empty = empty && cmd != C_APPEND;
            let unsupported = match cmd {
                C_SET => false,
                C_APPEND => kt != BYTES && kt != LIST && kt != STRING,
                _ => kt != INT && kt != FLOAT,
            };
            let v = v.value();
            Call {
                empty,
                unsupported,
                ..call!(
                    kt,
                    keyed(k, args),
                    match cmd {
                        INCR_BY => fut!(b.increment_by(&key, v), |x| x),
                        DECR_BY => fut!(b.decrement_by(&key, v), |x| x),
                        C_SET => fut!(b.set(&key, v), |x| x),
                        _ => fut!(b.append(&key, v), |x| x),
                    }
                )
            }
        }
        C_EXISTS => {
            let a = any_args(0, 2, 0, 1);
            call!(NONE, a.clone(), fut!(b.exists(a), Value::Boolean))
        }
        C_IS => {
            let a = any_args(0, 2, 0, 1);
            let kt = choice(8) as u8;
            call!(kt, a.clone(), fut!(b.is(KEY_TYPES[kt as usize], a), Value::Boolean))
        }
        C_DELETE => call!(NONE, k1, fut!(b.delete(&key), Value::Bytes)),
        C_RENAME => {
            let to = bytes(range(0, 1));
            call!(NONE, vec![key.clone(), to.clone()], fut!(b.rename(&key, &to), Value::Bytes))
        }
        C_TYPE => call!(NONE, k1, fut!(b.key_type(&key), kind)),
        C_KEYS => call!(NONE, k1, fut!(b.keys(&key), Value::List)),
        _ => call!(NONE, k1, fut!(b.echo(&key), Value::List)),
    }
}

/// A call with many items, as many as a request can have, fewer, or too many.
/// What it stands for lists the items in the order given.
pub fn many_items<B: Backend + Send + Sync + 'static>(via: Via<B>, k: &[u8]) -> Call<B::Error> {
    let n = [128usize, 254, 255, 256, 127, 253][choice(if deep() { 6 } else { 4 })];
    let x = sym_u8();
    let odd = [0, 1, n - 1][choice(3)];
    let item = |i: usize| if i == odd { vec![x, b'!', i as u8] } else { vec![b'a', i as u8, 1 + (i >> 8) as u8] };
    let l: Args = (0..n).map(item).collect();
    let key = k.to_vec();
    macro_rules! call {
        ($cmd:expr, $kt:expr, $args:expr, $fut:expr) => {
            Call { cmd: $cmd, kt: $kt, args: $args, empty: false, unsupported: false, fut: $fut }
        };
    }
    let (v, w) = (Value::List(l.clone()), l.clone());
    match (choice(5), via) {
        (0, Via::Client(c)) => call!(C_SET, LIST, keyed(k, l), fut!(c.set(key).list(w), Value::List)),
        (1, Via::Client(c)) => call!(C_SET, LIST, keyed(k, l), fut!(c.set(key).value(v), |x| x)),
        (2, Via::Client(c)) => call!(C_APPEND, LIST, keyed(k, l), fut!(c.append(key).list(w), Value::List)),
        (i, Via::Client(c)) => {
            assume(n <= 255);
            if i == 3 {
                call!(C_EXISTS, NONE, l, fut!(c.exists().keys(w).unwrap_or_else(|_| panic!("up to 255 keys fit")), Value::Boolean))
            } else {
                call!(C_IS, BYTES, l, fut!(c.is(KeyType::Bytes).keys(w).unwrap_or_else(|_| panic!("up to 255 keys fit")), Value::Boolean))
            }
        }
        (0 | 1, Via::Backend(b)) => call!(C_SET, LIST, keyed(k, l), fut!(b.set(&key, v), |x| x)),
        (2, Via::Backend(b)) => call!(C_APPEND, LIST, keyed(k, l), fut!(b.append(&key, v), |x| x)),
        (3, Via::Backend(b)) => call!(C_EXISTS, NONE, l, fut!(b.exists(w), Value::Boolean)),
        (_, Via::Backend(b)) => call!(C_IS, BYTES, l, fut!(b.is(KeyType::Bytes, w), Value::Boolean)),
    }
}
pub enum Via<B: Backend + 'static> {
    Client(&'static Client<B>),
    Backend(&'static B),
}
/// The result of a call is what the reference says.
pub fn check_value(want: &Out, got: &Value) {
    match want {
        Out::Ok(v) => check(v.same(got), "the result is the value"),
        Out::Sum(_, a, b) => match got {
            Value::Float(x) => check(is_sum(x.to_bits(), *a, *b), "the result is the sum"),
            _ => check(false, "the result is a float"),
        },
        Out::Any(l) => match got {
            Value::List(g) => {
                let mut all = g.len() == l.len();
                for x in l {
                    let mut any = false;
                    for y in g {
                        any |= eq(x, y);
                    }
                    all &= any;
                }
                check(all, "the result has exactly the keys");
            }
            _ => check(false, "the result is a list"),
        },
        Out::Stats => {}
        Out::Err(_) => check(false, "the command is refused"),
    }
}
