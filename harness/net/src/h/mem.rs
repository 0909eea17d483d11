//! The client on a store of its own.
use super::calls::*;
use super::m::*;
use super::u::*;
use hop::backend::memory::Error;
use hop::backend::{Backend, MemoryBackend};
use hop::Client;
use hop_engine::state::Value;
use hs::*;
use std::future::Future;
use std::task::Poll;
use tokio::model::poll;

pub fn now<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match poll(f.as_mut()) {
        Poll::Ready(x) => x,
        Poll::Pending => {
            check(false, "there is nothing to wait for");
            loop {}
        }
    }
}
pub fn client() -> &'static Client<MemoryBackend> {
    Box::leak(Box::new(Client::memory()))
}

/// Does it, and compares the result with the model.
fn finish(m: &mut M, call: Call<Error>) {
    let impossible = call.unbuildable();
    let mut after = m.clone();
    let want = apply(&mut after, call.cmd, call.kt, &call.args);
    let unsupported = call.unsupported;
    let k = call.args.first().cloned().unwrap_or_default();
    let got = now(call.fut);
    match got {
        Ok(v) => {
            check(!impossible && !unsupported, "what can't be asked for is refused");
            check_value(&want, &v);
            *m = after;
            if let (Out::Sum(..), Value::Float(x)) = (&want, &v) {
                m.put(&k, V::Float(x.to_bits()));
            }
            note(1);
            cover("done");
        }
        Err(Error::BuildingRequest { .. }) => {
            check(impossible, "a request that can be sent is built");
            note(2);
            cover("not built");
        }
        Err(Error::KeyTypeUnsupported { key_type, value }) => {
            check(unsupported, "the type is one for the command");
            check(key_type as u8 == call.kt, "the error has the type");
            check(value.kind() as u8 == call.kt, "the error has the value");
            note(3);
            cover("unsupported");
        }
        Err(Error::RunningCommand { source }) => {
            match want {
                Out::Err(mask) => check(mask & (1u16 << (source as u16 & 15)) != 0, "the error tells what is wrong"),
                _ => check(false, "the command is accepted"),
            }
            check(!impossible && !unsupported, "what can't be asked for is refused");
            note(4 + source as u64);
            cover("refused");
        }
        Err(_) => check(false, "the error is one of these"),
    }
}
fn check_mem<B: Backend>(b: &B, m: &M)
where
    B::Error: std::fmt::Debug,
{
    for (k, v) in &m.0 {
        match now(b.get(k, None)) {
            Ok(x) => check(v.same(&x), "a key holds its value"),
            Err(_) => check(false, "a key is there"),
        }
    }
    let probe = bytes(1);
    let mut there = false;
    for (k, _) in &m.0 {
        there |= eq(k, &probe);
    }
    match now(b.exists([&probe])) {
        Ok(x) => check(x == there, "no other key is there"),
        Err(_) => check(false, "a key can be asked for"),
    }
}
fn check_client(c: &Client<MemoryBackend>, m: &M) {
    for (k, v) in &m.0 {
        match now(c.get(k)) {
            Ok(x) => check(v.same(&x), "a key holds its value"),
            Err(_) => check(false, "a key is there"),
        }
    }
    let probe = bytes(1);
    let mut there = false;
    for (k, _) in &m.0 {
        there |= eq(k, &probe);
    }
    match now(c.exists().key(&probe)) {
        Ok(x) => check(x == there, "no other key is there"),
        Err(_) => check(false, "a key can be asked for"),
    }
}
fn full(kind: u8, items: usize) -> V {
    let v = any_value(kind, items);
    let a = value_args(&v);
    assume(!a.is_empty() && !a.iter().any(|x| x.is_empty()));
    v
}
/// A store with maybe a value of one of the kinds at a key.
fn store(kinds: &[u8], items: usize, mut put: impl FnMut(&[u8], Value)) -> (M, Vec<u8>) {
    let k = bytes(1);
    let mut m = M(vec![]);
    let i = choice(kinds.len() + 1);
    if i > 0 {
        let v = full(kinds[i - 1], items);
        put(&k, v.value());
        m.0.push((k.clone(), v));
    }
    (m, k)
}
fn any_key(k: &[u8]) -> Vec<u8> {
    match choice(3) {
        0 => k.to_vec(),
        1 => bytes(1),
        _ => vec![],
    }
}
fn typed_call(cmd: u8, kinds: &[u8]) {
    let c = client();
    let items = 2 + deep() as usize;
    let (mut m, k) = store(kinds, items, |k, v| check(now(c.set(k).value(v)).is_ok(), "a value is set"));
    let call = typed(c, cmd, &any_key(&k), items);
    finish(&mut m, call);
    check_client(c, &m);
}
fn raw_call(cmd: u8, kinds: &[u8]) {
    let b: &'static MemoryBackend = Box::leak(Box::new(MemoryBackend::new()));
    let items = 2 + deep() as usize;
    let (mut m, k) = store(kinds, items, |k, v| check(now(b.set(k, v)).is_ok(), "a value is set"));
    let call = raw(b, cmd, &any_key(&k), items);
    finish(&mut m, call);
    check_mem(b, &m);
}

harnesses! {
    fn mem_increment() { typed_call(INCR, &[INT, FLOAT, BYTES]); }
    fn mem_decrement() { typed_call(DECR, &[INT, FLOAT, STRING]); }
    fn mem_set() { typed_call(C_SET, &[INT, MAP]); }
    fn mem_get() { typed_call(C_GET, &KINDS); }
    fn mem_append() { typed_call(C_APPEND, &[BYTES, LIST, STRING, INT]); }
    fn mem_length() { typed_call(C_LENGTH, &KINDS); }
    fn mem_keys() { let c = [C_TYPE, C_DELETE, C_KEYS, C_RENAME][choice(4)]; typed_call(c, &KINDS); }
    fn mem_query() { let c = [C_EXISTS, C_IS, ECHO][choice(3)]; typed_call(c, &[INT, SET]); }
    fn raw_counter() { let c = [INCR, DECR, INCR_BY, DECR_BY][choice(4)]; raw_call(c, &[INT, FLOAT, LIST]); }
    fn raw_value() { let c = [C_SET, C_APPEND][choice(2)]; raw_call(c, &[BYTES, LIST, STRING]); }
    fn raw_get() { let c = [C_GET, C_LENGTH][choice(2)]; raw_call(c, &KINDS); }
    fn raw_keys() { let c = [C_TYPE, C_DELETE, C_KEYS, C_RENAME, C_EXISTS, C_IS, ECHO][choice(7)]; raw_call(c, &[BOOL, SET, MAP]); }
    fn mem_limits() {
        // as many keys as fit
        let c = client();
        let n = [0usize, 1, 254, 255, 256, 300][choice(6)];
        let keys: Vec<Vec<u8>> = (0..n).map(|i| vec![1 + (i % 5) as u8]).collect();
        let is = choice(2) == 0;
        let r = if is {
            c.is(hop::KeyType::Integer).keys(&keys).map(|r| now(r))
        } else {
            c.exists().keys(&keys).map(|r| now(r))
        };
        use hop::request::CommandConfigurationError as E;
        match r {
            Err(E::NoKeys) => check(n == 0, "no keys are too few"),
            Err(E::TooManyKeys) => check(n > 255, "keys are too many only if they don't fit"),
            Ok(Ok(x)) => {
                check(n >= 1 && n <= 255, "up to 255 keys");
                check(!x, "none of them is there");
                cover("fits");
            }
            Ok(Err(_)) => check(false, "a request that fits is sent"),
        }
        // a value of many parts
        let k = bytes(1);
        let v: Args = vec![vec![9]; n];
        let r = now(c.set(&k).list(v.clone()));
        let fits = n >= 1 && n <= 254;
        match r {
            Ok(l) => check(fits && eqs(&l, &v), "a list that fits is set"),
            Err(Error::BuildingRequest { .. }) => check(!fits, "a list that fits is set"),
            Err(_) => check(false, "the error is one of these"),
        }
        match now(c.get(&k).list()) {
            Ok(l) => check(fits && eqs(&l, &v), "the list is there"),
            Err(_) => check(!fits, "the list is there"),
        }
        note(n as u64);
        cover("limits");
    }
    fn mem_many_values() {
        let c = client();
        let b: &'static MemoryBackend = Box::leak(Box::new(MemoryBackend::new()));
        let by_client = choice(2) == 0;
        let k = bytes(1);
        let mut m = M(vec![]);
        if choice(2) == 0 {
            let v = V::List(vec![vec![9]]);
            m.0.push((k.clone(), v.clone()));
            check(if by_client { now(c.set(&k).value(v.value())).is_ok() } else { now(b.set(&k, v.value())).is_ok() }, "a value is set");
        }
        finish(&mut m, many_items(if by_client { Via::Client(c) } else { Via::Backend(b) }, &k));
        if by_client {
            check_client(c, &m);
        } else {
            check_mem(b, &m);
        }
        cover("many");
    }
    fn mem_history() {
        let c = client();
        let mut m = M(vec![]);
        let k = bytes(1);
        for _ in 0..if deep() { 4 } else { 3 } {
            match choice(4) {
                0 => {
                    let n = sym_i64();
                    let call = Call { cmd: INCR_BY, kt: INT, args: vec![k.clone(), n.to_be_bytes().to_vec()], empty: false, unsupported: false,
                        fut: { let k = k.clone(); Box::pin(async move { c.increment(k).int().by(n).await.map(Value::Integer) }) } };
                    finish(&mut m, call);
                }
                1 => {
                    let s = bytes(1);
                    let call = Call { cmd: C_APPEND, kt: BYTES, args: vec![k.clone(), s.clone()], empty: false, unsupported: false,
                        fut: { let k = k.clone(); Box::pin(async move { c.append(k).bytes(s).await.map(Value::Bytes) }) } };
                    finish(&mut m, call);
                }
                2 => {
                    let o = bytes(1);
                    let call = Call { cmd: C_RENAME, kt: NONE, args: vec![k.clone(), o.clone()], empty: false, unsupported: false,
                        fut: { let k = k.clone(); Box::pin(async move { c.rename(k, o).await.map(Value::Bytes) }) } };
                    finish(&mut m, call);
                }
                _ => {
                    let call = typed(c, C_DELETE, &k, 1);
                    finish(&mut m, call);
                }
            }
        }
        check_client(c, &m);
        cover("history");
    }
    fn mem_many() {
        let c = client();
        let k = bytes(1);
        let start = sym_i64();
        let n = if deep() { 600i64 } else { 300 };
        check(now(c.set(k.clone()).int(start)).map_or(false, |v| v == start), "a value is set");
        for i in 1..=n {
            check(now(c.increment(k.clone()).int()).map_or(false, |v| v == start.wrapping_add(i)), "every call is carried out");
            let o = vec![b'k', (i >> 8) as u8, i as u8];
            check(now(c.set(o).bytes(vec![k[0], i as u8])).is_ok(), "a value is set");
        }
        for i in 1..=n {
            let o = vec![b'k', (i >> 8) as u8, i as u8];
            check(now(c.get(o).bytes()).map_or(false, |v| eq(&v, &[k[0], i as u8])), "every value is kept");
        }
        cover("many");
    }
    fn mem_stats() {
        let c = client();
        let mut n = [0i64; 2];
        for _ in 0..3 {
            match choice(4) {
                0 => {
                    check(now(c.increment(vec![1])).is_ok(), "a counter is incremented");
                    n[0] += 1;
                }
                1 => {
                    check(now(c.get(bytes(1)).bool()).is_err(), "a counter isn't a boolean");
                    n[1] += 1;
                }
                2 => {
                    // never gets to the engine
                    check(now(c.get(Vec::new())).is_err(), "an empty key is refused");
                }
                _ => {
                    match now(c.stats()) {
                        Ok(s) => {
                            check(s.commands_successful() == n[0], "the successful commands");
                            check(s.commands_errored() == n[1], "the refused commands");
                        }
                        Err(_) => check(false, "there are stats"),
                    }
                    n[0] += 1;
                }
            }
        }
        match now(c.stats()) {
            Ok(s) => {
                check(s.commands_successful() == n[0], "the successful commands");
                check(s.commands_errored() == n[1], "the refused commands");
                check(s.sessions_started() == 0 && s.sessions_ended() == 0, "there were no sessions");
            }
            Err(_) => check(false, "there are stats"),
        }
        cover("stats");
    }
    fn mem_apart() {
        // clients with stores of their own
        let (a, b) = (client(), client());
        let k = bytes(1);
        let v = any_value([INT, BYTES, LIST][choice(3)], 1);
        let ok = now(a.set(&k).value(v.value())).is_ok();
        check(matches!(now(b.exists().key(&k)), Ok(false)), "another store isn't changed");
        check(matches!(now(a.exists().key(&k)), Ok(x) if x == ok), "the store is changed");
        cover("apart");
    }
}
