//! The commands against the reference model.
use super::m::*;
use super::u::*;
use hs::*;

fn one(m: &mut M, cmd: u8, kt: u8, args: &[Vec<u8>]) {
    let hop = m.hop();
    step(&hop, m, cmd, kt, args);
    check_store(&hop, m);
}

/// Arguments that may form a value of type `kt`, or not quite.
fn value_args(kt: u8) -> Args {
    match kt {
        BYTES => any_args(0, 2, 0, 3),
        BOOL => any_args(0, 2, 0, 2),
        FLOAT | INT => match choice(4) {
            0 => vec![],
            1 => vec![bytes(0)],
            2 => vec![bytes(7)],
            _ => vec![bytes(8)],
        },
        STRING => {
            if choice(2) == 0 {
                any_args(0, 1, 0, 3)
            } else {
                let mut a = any_char(4);
                if choice(2) == 1 {
                    a.extend_from_slice(&any_char(2));
                }
                vec![a]
            }
        }
        LIST | SET => any_args(0, 3, 0, 1),
        _ => any_args(0, 4, 0, 1),
    }
}
fn with_key(k: &[u8], mut rest: Args) -> Args {
    rest.insert(0, k.to_vec());
    rest
}

hs::harnesses! {
/// counters with any key type but float
fn cmd_counter_int() {
    let (mut m, k) = any_store(&KINDS, 1);
    let cmd = choice(4) as u8;
    let kt = [NONE, INT, BYTES, LIST][choice(4)];
    let args = match choice(5) {
        0 => vec![],
        1 => vec![k],
        2 => vec![k, bytes(7)],
        3 => vec![k, bytes(0)],
        _ => vec![k, bytes(8)],
    };
    one(&mut m, cmd, kt, &args);
}
fn cmd_counter_float() {
    let (mut m, k) = any_store(&KINDS, 1);
    let cmd = choice(4) as u8;
    let args = match choice(4) {
        0 => vec![],
        1 => vec![k],
        2 => vec![k, bytes(7)],
        _ => vec![k, bytes(8)],
    };
    one(&mut m, cmd, FLOAT, &args);
}
/// several counter commands in a row on the same or different keys
fn cmd_counter_history() {
    let mut m = M(vec![]);
    let float = choice(2) == 1;
    let k = bytes(1);
    if choice(2) == 1 {
        m.0.push((k, if float { V::Float(sym_u64()) } else { V::Int(sym_i64()) }));
    }
    let hop = m.hop();
    let kt = if float { FLOAT } else { NONE };
    for _ in 0..if deep() { 4 } else { 3 } {
        let cmd = choice(4) as u8;
        let key = bytes(1);
        let args = if cmd >= 2 { vec![key, bytes(8)] } else { vec![key] };
        step(&hop, &mut m, cmd, kt, &args);
    }
    check_store(&hop, &m);
}
fn cmd_set() {
    any_iteration_order();
    let (mut m, k) = any_store(&KINDS, 1);
    let kt = any_key_type();
    let t = if kt != NONE { kt } else { m.get(&k).map_or(BYTES, |v| v.kind()) };
    let args = with_key(&k, value_args(t));
    one(&mut m, C_SET, kt, &args);
}
/// set without a key type on a key of each type keeps the type
fn cmd_set_untyped() {
    any_iteration_order();
    let (mut m, k) = any_store(&KINDS, 2);
    let args = with_key(&k, any_args(0, 3, 0, 1));
    one(&mut m, C_SET, NONE, &args);
}
/// long values and keys
fn cmd_set_long() {
    let n = [127usize, 255, 256, 65535, 65536][choice(5)];
    let mut b = vec![b'v'; n];
    let kt = [BYTES, STRING, LIST, MAP, SET][choice(5)];
    if kt != STRING || n < 65535 {
        b[0] = sym_u8() & 0x7f;
        b[n - 1] = sym_u8() & 0x7f;
    }
    let mut key = vec![b'k'; if deep() { [1usize, 255, 256][choice(3)] } else { 256 }];
    key[0] = sym_u8();
    let args = match kt {
        MAP => {
            if n > 255 {
                // keys of maps are at most 255 bytes
                vec![key.clone(), vec![1], b]
            } else {
                vec![key.clone(), b, vec![1]]
            }
        }
        SET if n > 65535 => vec![key.clone(), vec![1]],
        _ => vec![key.clone(), b],
    };
    let mut m = M(vec![(vec![1], V::Int(sym_i64()))]);
    let hop = m.hop();
    step(&hop, &mut m, C_SET, kt, &args);
    step(&hop, &mut m, C_GET, kt, &[key.clone()]);
    step(&hop, &mut m, C_LENGTH, kt, &[key]);
    check_store(&hop, &m);
}
/// collections that don't fit a response are refused
fn cmd_set_too_long() {
    let kt = [MAP, SET][choice(2)];
    let n = if kt == MAP { 256 } else { 65536 };
    let (m, k) = any_store(&[BYTES, MAP, SET], 1);
    let hop = m.hop();
    let mut b = vec![1u8; n];
    b[n - 1] = sym_u8();
    let mut args = vec![k];
    if choice(2) == 1 {
        args.push(bytes(1));
        if kt == MAP {
            args.push(bytes(1));
        }
    }
    args.push(b);
    if kt == MAP {
        args.push(bytes(1));
    }
    check(send(&hop, C_SET, kt, &args) == Err(0), "a collection that doesn't fit a response is refused");
    check_store(&hop, &m);
    cover("refused");
}
fn cmd_get() {
    any_iteration_order();
    let (mut m, k) = any_store(&KINDS, 2);
    let kt = any_key_type();
    let args = match choice(3) {
        0 => vec![],
        1 => vec![k],
        _ => vec![bytes(1)],
    };
    one(&mut m, C_GET, kt, &args);
}
/// set, then get, with anything in between that doesn't name the key
fn cmd_set_get() {
    any_iteration_order();
    let k = bytes(1);
    let o = bytes(1);
    assume(!eq(&o, &k));
    let kt = choice(8) as u8;
    let mut m = M(vec![]);
    let hop = m.hop();
    let v = any_value(kt, 2);
    let mut args = vec![k.clone()];
    match &v {
        V::Bytes(b) | V::Str(b) => args.push(b.clone()),
        V::Bool(b) => args.push(vec![*b as u8]),
        V::Float(b) => args.push(b.to_be_bytes().to_vec()),
        V::Int(b) => args.push(b.to_be_bytes().to_vec()),
        V::List(l) | V::Set(l) => args.extend_from_slice(l),
        V::Map(l) => l.iter().for_each(|e| {
            args.push(e.0.clone());
            args.push(e.1.clone());
        }),
    }
    step(&hop, &mut m, C_SET, kt, &args);
    match choice(5) {
        0 => step(&hop, &mut m, INCR, NONE, &[o]),
        1 => step(&hop, &mut m, C_SET, LIST, &[o, bytes(1)]),
        2 => step(&hop, &mut m, C_DELETE, NONE, &[o]),
        3 => step(&hop, &mut m, C_RENAME, NONE, &[o, bytes(1)]),
        _ => {}
    }
    let back = match choice(3) {
        0 => NONE,
        1 => kt,
        _ => choice(8) as u8,
    };
    step(&hop, &mut m, C_GET, back, &[k]);
}
fn cmd_append() {
    let (mut m, k) = any_store(&KINDS, 2);
    let kt = any_key_type();
    let t = if kt != NONE { kt } else { m.get(&k).map_or(BYTES, |v| v.kind()) };
    let rest = if t == STRING {
        match choice(4) {
            0 => vec![],
            1 => vec![any_char(3)],
            2 => vec![any_char(1), any_char(2)],
            _ => any_args(0, 2, 0, 1),
        }
    } else {
        any_args(0, if deep() { 3 } else { 2 }, 0, 2)
    };
    let args = with_key(&k, rest);
    one(&mut m, C_APPEND, kt, &args);
}
/// append again and again
fn cmd_append_history() {
    let k = bytes(1);
    let kt = [BYTES, STRING, LIST][choice(3)];
    let mut m = M(vec![]);
    let hop = m.hop();
    for i in 0..if deep() { 4 } else { 3 } {
        let key = if i == 0 { k.clone() } else { bytes(1) };
        let rest = if kt == STRING {
            vec![any_char(2)]
        } else if deep() {
            any_args(0, 2, 0, 1)
        } else {
            any_args(1, 2, 1, 1)
        };
        step(&hop, &mut m, C_APPEND, [NONE, kt][choice(2)], &with_key(&key, rest));
    }
    check_store(&hop, &m);
}
/// a list is as long as a response can tell, at most
fn cmd_append_limit() {
    let n = [65534usize, 65535][choice(2)];
    let k = bytes(1);
    let hop = hop_engine::Hop::new();
    hop.state().insert(k.clone(), hop_engine::state::Value::List(vec![vec![]; n]));
    let extra = range(0, 2);
    let mut args = vec![k.clone()];
    for _ in 0..extra {
        args.push(bytes(1));
    }
    let r = send(&hop, C_APPEND, [NONE, LIST][choice(2)], &args);
    let fits = n + extra <= 65535;
    check(r.is_ok() == fits, "an append is accepted if the list fits a response");
    let len = hop.state().key_ref(&k).map_or(0, |v| v.value().as_list_ref().map_or(0, |l| l.len()));
    check(len == if fits { n + extra } else { n }, "a refused append leaves the list");
    match r {
        Ok(raw) => {
            check(raw.len() == 7 + 4 * len + extra, "the response has all items");
            check((raw[5] as usize) << 8 | raw[6] as usize == len, "the response tells its length");
            cover("fits");
        }
        Err(_) => cover("too long"),
    }
}
fn cmd_delete() {
    let (mut m, k) = any_store(&KINDS, 1);
    let kt = [NONE, NONE, BYTES, INT][choice(4)];
    let args = match choice(4) {
        0 => vec![],
        1 => vec![k],
        2 => vec![bytes(range(0, 2))],
        _ => vec![k, bytes(1)],
    };
    one(&mut m, C_DELETE, kt, &args);
}
fn cmd_rename() {
    any_iteration_order();
    let (mut m, k) = any_store(&KINDS, 1);
    let kt = [NONE, NONE, BYTES, SET][choice(4)];
    let args = match choice(5) {
        0 => vec![],
        1 => vec![k],
        2 => vec![k, bytes(range(0, 2))],
        3 => vec![bytes(range(0, 2)), bytes(1)],
        _ => vec![k, bytes(1), bytes(1)],
    };
    one(&mut m, C_RENAME, kt, &args);
}
/// delete, rename, set and get in a row
fn cmd_rename_history() {
    let mut m = M(vec![(bytes(1), V::Int(sym_i64()))]);
    let o = bytes(1);
    assume(!eq(&o, &m.0[0].0));
    m.0.push((o, V::Bytes(bytes(1))));
    let hop = m.hop();
    for _ in 0..if deep() { 3 } else { 2 } {
        let a = bytes(1);
        let b = bytes(1);
        match choice(4) {
            0 => step(&hop, &mut m, C_RENAME, NONE, &[a, b]),
            1 => step(&hop, &mut m, C_DELETE, NONE, &[a]),
            2 => step(&hop, &mut m, C_SET, BYTES, &[a, b]),
            _ => step(&hop, &mut m, C_GET, NONE, &[a]),
        }
    }
    check_store(&hop, &m);
}
fn cmd_exists() {
    let (mut m, k) = any_store(&[BYTES, FLOAT, MAP], 1);
    let kt = [NONE, NONE, BYTES][choice(3)];
    let args = match choice(4) {
        0 => vec![],
        1 => vec![k],
        2 => any_args(1, 3, 1, 1),
        _ => vec![bytes(range(0, 2)), k],
    };
    one(&mut m, C_EXISTS, kt, &args);
}
fn cmd_is() {
    let (mut m, k) = any_store(&KINDS, 1);
    let kt = any_key_type();
    let args = match choice(4) {
        0 => vec![],
        1 => vec![k],
        2 => any_args(1, 3, 1, 1),
        _ => vec![bytes(range(0, 2)), k],
    };
    one(&mut m, C_IS, kt, &args);
}
fn cmd_type() {
    let (mut m, k) = any_store(&KINDS, 1);
    let kt = [NONE, NONE, BYTES, INT][choice(4)];
    let args = match choice(3) {
        0 => vec![],
        1 => vec![k],
        _ => vec![bytes(range(0, 2)), k],
    };
    one(&mut m, C_TYPE, kt, &args);
}
fn cmd_length() {
    any_iteration_order();
    let (mut m, k) = any_store(&KINDS, if deep() { 3 } else { 2 });
    let kt = any_key_type();
    let args = match choice(3) {
        0 => vec![],
        1 => vec![k],
        _ => vec![bytes(range(0, 2)), k],
    };
    one(&mut m, C_LENGTH, kt, &args);
}
fn cmd_length_text() {
    let mut s = any_char(4);
    for _ in 0..range(0, if deep() { 2 } else { 1 }) {
        s.extend_from_slice(&any_char(4));
    }
    let k = bytes(1);
    let mut m = M(vec![(k.clone(), V::Str(s))]);
    one(&mut m, C_LENGTH, [NONE, STRING][choice(2)], &[k]);
}
fn cmd_keys() {
    any_iteration_order();
    let (mut m, k) = any_store(&KINDS, if deep() { 3 } else { 2 });
    let kt = any_key_type();
    let args = match choice(3) {
        0 => vec![],
        1 => vec![k],
        _ => vec![bytes(range(0, 2)), k],
    };
    one(&mut m, C_KEYS, kt, &args);
}
fn cmd_echo() {
    let mut m = M(vec![(bytes(1), V::Int(sym_i64()))]);
    let kt = any_key_type();
    one(&mut m, ECHO, kt, &any_args(0, if deep() { 4 } else { 3 }, 0, 2));
}
fn cmd_echo_many() {
    let n = [127usize, 128, 254, 255][choice(4)];
    let mut args = vec![vec![5u8]; n];
    args[0] = bytes(1);
    args[n - 1] = bytes(2);
    args[126] = vec![7; [0usize, 300, 65536][choice(3)]];
    one(&mut M(vec![]), ECHO, NONE, &args);
}
/// a mix of all commands, in a row
fn cmd_history() {
    any_iteration_order();
    let mut m = M(vec![]);
    let k = bytes(1);
    match choice(4) {
        0 => {}
        1 => m.0.push((k, V::Int(sym_i64()))),
        2 => m.0.push((k, V::Bytes(bytes(1)))),
        _ => m.0.push((k, V::List(vec![bytes(1)]))),
    }
    let hop = m.hop();
    for _ in 0..if deep() { 3 } else { 2 } {
        let key = bytes(1);
        let x = bytes(1);
        let (cmd, kt, args) = match choice(14) {
            0 => (INCR, NONE, vec![key]),
            1 => (DECR_BY, INT, vec![key, bytes(8)]),
            2 => (INCR_BY, FLOAT, vec![key, bytes(8)]),
            3 => (C_SET, BYTES, vec![key, x]),
            4 => (C_SET, MAP, vec![key, x, bytes(1)]),
            5 => (C_SET, NONE, vec![key, bytes(8)]),
            6 => (C_APPEND, NONE, vec![key, x]),
            7 => (C_APPEND, LIST, vec![key, x]),
            8 => (C_DELETE, NONE, vec![key]),
            9 => (C_RENAME, NONE, vec![key, x]),
            10 => (C_LENGTH, NONE, vec![key]),
            11 => (C_TYPE, NONE, vec![key]),
            12 => (C_EXISTS, NONE, vec![key, x]),
            _ => (C_KEYS, NONE, vec![key]),
        };
        step(&hop, &mut m, cmd, kt, &args);
    }
    check_store(&hop, &m);
}
}
