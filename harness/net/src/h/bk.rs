//! The client on a server: what it sends, and what it makes of what it gets.
use super::calls::*;
use super::m::*;
use super::mem::now;
use super::server;
use super::u::*;
use hop::backend::server::Error;
use hop::backend::{Backend, ServerBackend};
use hop::Client;
use hop_engine::state::Value;
use hs::*;
use std::future::Future;
use std::io::ErrorKind;
use std::pin::Pin;
use std::task::Poll;
use tokio::model::{conn, poll, poll_task, world, Conn};

fn c(i: usize) -> &'static mut Conn {
    &mut world().conns[i]
}
/// A backend connected to connection 0.
fn backend() -> &'static ServerBackend {
    let i = conn();
    world().connects.push_back(Ok(i));
    match now(ServerBackend::connect("host:1")) {
        Ok(b) => Box::leak(Box::new(b)),
        Err(_) => {
            check(false, "connecting works");
            loop {}
        }
    }
}
fn client() -> &'static Client<ServerBackend> {
    let i = conn();
    world().connects.push_back(Ok(i));
    match now(Client::connect("host:1")) {
        Ok(b) => Box::leak(Box::new(b)),
        Err(_) => {
            check(false, "connecting works");
            loop {}
        }
    }
}
fn step<T>(f: &mut Pin<Box<dyn Future<Output = T>>>) -> Option<T> {
    match poll(f.as_mut()) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}
fn waits<T>(f: &mut Pin<Box<dyn Future<Output = T>>>) {
    check(step(f).is_none(), "a response is waited for");
}
fn gets<T>(f: &mut Pin<Box<dyn Future<Output = T>>>) -> T {
    match step(f) {
        Some(x) => x,
        None => {
            check(false, "a complete response is enough");
            loop {}
        }
    }
}
fn arrive(i: usize, b: &[u8]) {
    if !b.is_empty() {
        c(i).pieces.push_back(b.to_vec());
    }
}
fn reply(want: &Out) -> Option<Vec<u8>> {
    Some(match want {
        Out::Ok(v) => frame(&R::Val(v.clone())),
        Out::Sum(_, a, b) => frame(&R::Val(V::Float((a + b).to_bits()))),
        Out::Any(l) => frame(&R::Val(V::List(l.clone()))),
        Out::Err(mask) => {
            let mut code = 0;
            while mask >> code & 1 == 0 {
                code += 1;
            }
            frame(&R::Dispatch(code))
        }
        Out::Stats => return None,
    })
}
fn same_result(want: &Out, got: &Result<Value, Error>) {
    match (want, got) {
        (Out::Err(mask), Err(Error::Dispatching { reason })) => {
            check(mask & (1u16 << (*reason as u16 & 15)) != 0, "the error is the server's");
            note(20 + *reason as u64);
            cover("refused");
        }
        (Out::Err(_), _) => check(false, "the error is the server's"),
        (w, Ok(v)) => {
            check_value(w, v);
            cover("done");
        }
        (_, Err(_)) => check(false, "the call succeeds"),
    }
}
/// A call, answered by a server that has a store.
fn answered(call: Call<Error>, m: &mut M) {
    let mut f = call.fut;
    if call.unsupported || call.empty || call.args.len() > 255 || call.args.iter().any(|a| a.is_empty()) {
        match gets(&mut f) {
            Err(Error::BuildingRequest { .. }) => check(!call.unsupported || call.args.iter().any(|a| a.is_empty()), "the type is not one for the command"),
            Err(Error::KeyTypeUnsupported { key_type }) => {
                check(call.unsupported && key_type as u8 == call.kt, "the type is not one for the command")
            }
            _ => check(false, "what can't be asked for is refused"),
        }
        check(c(0).written.is_empty(), "nothing is sent");
        cover("not sent");
        return;
    }
    let raw = wire(call.cmd, call.kt, &call.args);
    c(0).write_max = [usize::MAX, 3][choice(2)];
    waits(&mut f);
    check(eq(&c(0).written, &raw), "the request is sent as it is, whole, and once");
    let want = apply(m, call.cmd, call.kt, &call.args);
    let back = reply(&want).unwrap_or_default();
    let cut = match choice(3) {
        0 => 0,
        1 => back.len() - 1,
        _ => 4 + choice(2),
    };
    if cut > 0 {
        arrive(0, &back[..cut]);
        waits(&mut f);
    }
    arrive(0, &back[cut..]);
    let got = gets(&mut f);
    same_result(&want, &got);
    check(eq(&c(0).written, &raw), "nothing more is sent");
    check(c(0).pieces.is_empty(), "the response is taken from the stream");
}
fn typed_call(cmds: &[u8], kinds: &[u8]) {
    let cl = client();
    let cmd = cmds[choice(cmds.len())];
    let k = bytes(range(0, 1));
    let mut m = M(vec![]);
    let i = choice(kinds.len() + 1);
    if i > 0 && !k.is_empty() {
        m.0.push((k.clone(), any_value(kinds[i - 1], 1)));
    }
    answered(typed(cl, cmd, &k, 1), &mut m);
}
fn raw_call(cmds: &[u8], kinds: &[u8]) {
    let b = backend();
    let cmd = cmds[choice(cmds.len())];
    let k = bytes(range(0, 1));
    let mut m = M(vec![]);
    let i = choice(kinds.len() + 1);
    if i > 0 && !k.is_empty() {
        m.0.push((k.clone(), any_value(kinds[i - 1], 1)));
    }
    answered(raw(b, cmd, &k, 1), &mut m);
}
const ALL: [u8; 15] =
    [INCR, DECR, INCR_BY, DECR_BY, C_SET, C_GET, C_DELETE, C_EXISTS, C_IS, C_RENAME, C_TYPE, C_APPEND, C_LENGTH, C_KEYS, ECHO];

/// A plain call of a command.
fn simple(b: &'static ServerBackend, cmd: u8) -> (Vec<u8>, Fut<Error>) {
    let k = bytes(1);
    let a: Args = vec![k.clone()];
    macro_rules! fut {
        ($e:expr, $f:expr) => {
            Box::pin(async move { $e.await.map($f) })
        };
    }
    match cmd {
        INCR => (wire(cmd, NONE, &a), fut!(b.increment(&k, None), |x| x)),
        DECR => (wire(cmd, NONE, &a), fut!(b.decrement(&k, None), |x| x)),
        INCR_BY | DECR_BY => {
            let w = wire(cmd, INT, &[k.clone(), 1i64.to_be_bytes().to_vec()]);
            if cmd == INCR_BY {
                (w, fut!(b.increment_by(&k, 1i64), |x| x))
            } else {
                (w, fut!(b.decrement_by(&k, 1i64), |x| x))
            }
        }
        C_SET => (wire(cmd, BOOL, &[k.clone(), vec![1]]), fut!(b.set(&k, true), |x| x)),
        C_APPEND => (wire(cmd, BYTES, &[k.clone(), vec![1]]), fut!(b.append(&k, vec![1u8]), |x| x)),
        C_GET => (wire(cmd, NONE, &a), fut!(b.get(&k, None), |x| x)),
        C_LENGTH => (wire(cmd, NONE, &a), fut!(b.length(&k, None), Value::Integer)),
        C_EXISTS => (wire(cmd, NONE, &a), fut!(b.exists([k]), Value::Boolean)),
        C_IS => (wire(cmd, MAP, &a), fut!(b.is(hop::KeyType::Map, [k]), Value::Boolean)),
        C_DELETE => (wire(cmd, NONE, &a), fut!(b.delete(&k), Value::Bytes)),
        C_RENAME => (wire(cmd, NONE, &[k.clone(), k.clone()]), fut!(b.rename(&k, &k), Value::Bytes)),
        C_TYPE => (wire(cmd, NONE, &a), fut!(b.key_type(&k), |t| Value::Integer(t as i64))),
        C_KEYS => (wire(cmd, NONE, &a), fut!(b.keys(&k), Value::List)),
        _ => (wire(cmd, NONE, &a), fut!(b.echo(&k), Value::List)),
    }
}
/// The kinds of values that a command has for an answer.
fn expects(cmd: u8, kind: u8) -> bool {
    match cmd {
        INCR | DECR | INCR_BY | DECR_BY => kind == INT || kind == FLOAT,
        C_DELETE | C_RENAME => kind == BYTES,
        ECHO | C_KEYS => kind == LIST,
        C_EXISTS | C_IS => kind == BOOL,
        C_TYPE | C_LENGTH => kind == INT,
        _ => true,
    }
}
/// Any of the responses there are.
fn any_response() -> R {
    match choice(10) as u8 {
        8 => R::Dispatch(choice(8) as u8),
        9 => R::Parse(choice(2) as u8),
        k => R::Val(any_value(k, 1)),
    }
}
fn check_response(cmd: u8, r: &R, got: &Result<Value, Error>) {
    match (r, got) {
        (R::Dispatch(c), Err(Error::Dispatching { reason })) => check(*reason as u8 == *c, "the error is the server's"),
        (R::Parse(c), Err(Error::BadRequest { reason })) => check(*reason as u8 == *c, "the error is the server's"),
        (R::Val(V::Int(n)), got) if cmd == C_TYPE => match got {
            Ok(Value::Integer(x)) => check(*x == *n & 0xff && *x < 8, "the type is the server's"),
            Err(Error::KeyTypeInvalid { number }) => check(*number as i64 == *n & 0xff && *number > 7, "the type is unknown"),
            _ => check(false, "the type is the server's"),
        },
        (R::Val(v), Ok(x)) => check(expects(cmd, v.kind()) && v.same(x), "the result is the server's"),
        (R::Val(v), Err(Error::BadResponse)) => check(!expects(cmd, v.kind()), "a response of the right type is accepted"),
        _ => check(false, "the result is the server's"),
    }
}
fn response(cmds: &[u8]) {
    let b = backend();
    let cmd = cmds[choice(cmds.len())];
    let (raw, mut f) = simple(b, cmd);
    waits(&mut f);
    check(eq(&c(0).written, &raw), "the request is sent");
    let r = any_response();
    let back = frame(&r);
    let cut = [0, 3, 4, 5, back.len() - 1][choice(5)];
    if cut > 0 {
        arrive(0, &back[..cut]);
        waits(&mut f);
    }
    arrive(0, &back[cut..]);
    let got = gets(&mut f);
    check_response(cmd, &r, &got);
    cover(match got {
        Ok(_) => "ok",
        Err(Error::BadResponse) => "bad response",
        Err(_) => "error",
    });
    // the connection can be used for more
    let (_, mut f) = simple(b, C_GET);
    waits(&mut f);
    let v = V::Int(sym_i64());
    arrive(0, &frame(&R::Val(v.clone())));
    let got = gets(&mut f);
    check(matches!(&got, Ok(x) if v.same(x)), "the next call gets its response");
}

/// What was written on one side arrives on the other, in pieces.
fn carry(from: usize, to: usize, cut: bool) {
    let b = std::mem::take(&mut c(from).written);
    let n = if cut && b.len() > 1 { if deep() { [1, b.len() / 2, b.len() - 1][choice(3)] } else { b.len() / 2 } } else { 0 };
    arrive(to, &b[..n]);
    arrive(to, &b[n..]);
}
/// Clients on a server: calls have the results of the reference.
fn end_to_end(cmds: &[u8], clients: usize, calls: usize) {
    let cls: Vec<_> = (0..clients).map(|_| client()).collect();
    for _ in 0..clients {
        let i = conn();
        world().incoming.push_back(Ok(i));
    }
    world().more_incoming = true;
    let mut main = Box::pin(server::main());
    check(poll(main.as_mut()).is_pending(), "the server serves");
    let mut m = M(vec![]);
    let k = bytes(1);
    for n in 0..calls {
        let who = n % clients;
        let call = typed(cls[who], cmds[choice(cmds.len())], &k, 1);
        if call.unbuildable() {
            assume(false);
        }
        let want = apply(&mut m, call.cmd, call.kt, &call.args);
        let mut f = call.fut;
        waits(&mut f);
        carry(who, clients + who, n == 0);
        check(!poll_task(who), "the connection stays open");
        carry(clients + who, who, n == 1);
        let got = gets(&mut f);
        if let (Out::Sum(k, _, _), Ok(Value::Float(x))) = (&want, &got) {
            m.put(k, V::Float(x.to_bits()));
        }
        same_result(&want, &got);
    }
    cover("end to end");
}

harnesses! {
    fn end_to_end_one() { end_to_end(&[INCR, C_SET, C_GET, C_APPEND], 1, 2); }
    fn end_to_end_two() { end_to_end(&[INCR, DECR, C_DELETE, C_EXISTS], 2, 2 + deep() as usize); }
    fn end_to_end_more() { end_to_end(&[C_RENAME, C_TYPE, C_LENGTH, C_KEYS, C_IS, ECHO, C_SET], 2, 2); }
    fn end_to_end_stats() {
        let cl = client();
        let i = conn();
        world().incoming.push_back(Ok(i));
        world().more_incoming = true;
        let mut main = Box::pin(server::main());
        check(poll(main.as_mut()).is_pending(), "the server serves");
        let mut n = [0i64; 2];
        for _ in 0..2 {
            let call = typed(cl, [INCR, C_GET][choice(2)], &bytes(1), 1);
            let mut f = call.fut;
            waits(&mut f);
            carry(0, 1, false);
            poll_task(0);
            carry(1, 0, false);
            n[gets(&mut f).is_err() as usize] += 1;
        }
        let mut f: Pin<Box<dyn Future<Output = Result<hop::model::StatsData, Error>>>> = Box::pin(cl.stats());
        waits(&mut f);
        check(eq(&c(0).written, &[101]), "the request is sent");
        carry(0, 1, false);
        poll_task(0);
        carry(1, 0, true);
        match gets(&mut f) {
            Ok(s) => {
                check(s.commands_successful() == n[0] && s.commands_errored() == n[1], "the stats are the server's");
                check(s.sessions_started() == 0 && s.sessions_ended() == 0, "the stats are the server's");
            }
            Err(_) => check(false, "there are stats"),
        }
        cover("stats");
    }
    fn client_counter() { typed_call(&[INCR, DECR], &[INT, FLOAT]); }
    fn client_set() { typed_call(&[C_SET], &[]); }
    fn client_get() { typed_call(&[C_GET], &KINDS); }
    fn client_append() { typed_call(&[C_APPEND], &[BYTES, LIST, STRING]); }
    fn client_others() { typed_call(&[C_TYPE, C_DELETE, C_RENAME, C_KEYS, C_LENGTH], &[MAP, STRING]); }
    fn client_query() { typed_call(&[C_EXISTS, C_IS, ECHO], &[SET]); }
    fn backend_counter() { raw_call(&[INCR, DECR, INCR_BY, DECR_BY], &[INT, FLOAT]); }
    fn backend_value() { raw_call(&[C_SET, C_APPEND], &[BYTES, LIST]); }
    fn backend_get() { raw_call(&[C_GET, C_LENGTH], &[BOOL, SET, STRING]); }
    fn backend_others() { raw_call(&[C_TYPE, C_DELETE, C_RENAME, C_KEYS, C_EXISTS, C_IS, ECHO], &[MAP, INT]); }
    fn response_any() { response(&ALL); }
    fn response_bytes() {
        // not even a response
        let b = backend();
        let cmd = [C_GET, C_EXISTS][choice(2)];
        let (_, mut f) = simple(b, cmd);
        waits(&mut f);
        let n = range(1, if deep() { 4 } else { 3 });
        let mut back = (n as u32).to_be_bytes().to_vec();
        let body = bytes(n);
        back.extend_from_slice(&body);
        arrive(0, &back);
        c(0).eof = true;
        match gets(&mut f) {
            Ok(Value::Boolean(x)) => {
                check(n >= 2 && body[0] == 0 && (body[1] > 0) == x, "only a boolean is a boolean");
                cover("boolean");
            }
            Ok(Value::List(l)) => {
                check(cmd == C_GET && l.is_empty() && body[0] == 4, "only a list is a list");
                cover("list");
            }
            Ok(Value::Map(l)) => check(cmd == C_GET && l.is_empty() && body[0] == 5, "only a map is a map"),
            Ok(Value::Set(l)) => check(cmd == C_GET && l.is_empty() && body[0] == 6, "only a set is a set"),
            Ok(_) => check(false, "there is no such value"),
            Err(Error::Dispatching { reason }) => {
                check(n >= 2 && body[0] == 9 && body[1] == reason as u8, "only an error is an error");
                cover("refused");
            }
            Err(Error::BadRequest { reason }) => {
                check(n >= 2 && body[0] == 8 && body[1] == reason as u8, "only an error is an error");
                cover("bad request");
            }
            Err(Error::BadResponse) => cover("bad response"),
            Err(Error::ConnectionClosed) => cover("closed"),
            Err(_) => check(false, "the error is one of these"),
        }
    }
    fn response_end() {
        // the connection ends or fails before the response is there
        let b = backend();
        let cmd = ALL[choice(ALL.len())];
        let (raw, mut f) = simple(b, cmd);
        let back = frame(&[R::Val(V::Bool(sym_bool())), R::Val(V::List(vec![bytes(1)])), R::Dispatch(3)][choice(3)]);
        let cut = range(0, back.len() - 1);
        let when = choice(2);
        if when == 1 {
            waits(&mut f);
        }
        arrive(0, &back[..cut]);
        let error = choice(2) == 1;
        if error {
            c(0).read_error = Some(ErrorKind::ConnectionReset);
        } else {
            c(0).eof = true;
        }
        match gets(&mut f) {
            Err(Error::ConnectionClosed) => check(!error, "the end of the connection"),
            Err(Error::ReadingMessage { source }) => check(error && source.kind() == ErrorKind::ConnectionReset, "the error of the connection"),
            _ => check(false, "there is no response"),
        }
        check(eq(&c(0).written, &raw), "the request was sent");
        cover(if error { "error" } else { "end" });
        // and there is none for other calls
        let (_, mut f) = simple(b, C_GET);
        check(gets(&mut f).is_err(), "there is no response");
    }
    fn request_fails() {
        let b = backend();
        let cmd = ALL[choice(ALL.len())];
        let (raw, mut f) = simple(b, cmd);
        let at = range(0, raw.len() - 1);
        c(0).write_error = Some((at, ErrorKind::BrokenPipe));
        match gets(&mut f) {
            Err(Error::WritingMessage { source }) => check(source.kind() == ErrorKind::BrokenPipe, "the error of the connection"),
            _ => check(false, "the request isn't sent"),
        }
        cover("failed");
    }
    fn connect_fails() {
        let k = [ErrorKind::ConnectionRefused, ErrorKind::TimedOut][choice(2)];
        world().connects.push_back(Err(k.into()));
        match now(ServerBackend::connect("host:1")) {
            Err(Error::Connecting { source }) => check(source.kind() == k, "the error of connecting"),
            _ => check(false, "connecting fails"),
        }
        cover("failed");
    }
    fn two_calls() {
        // two calls at once, in any order of steps, on a slow connection
        let b = backend();
        let names = [bytes(1), bytes(1)];
        let raws = [wire(C_GET, NONE, &[names[0].clone()]), wire(C_DELETE, NONE, &[names[1].clone()])];
        let (n0, n1) = (names[0].clone(), names[1].clone());
        let mut fs: Vec<Option<Fut<Error>>> = vec![
            Some(Box::pin(async move { b.get(&n0, None).await })),
            Some(Box::pin(async move { b.delete(&n1).await.map(Value::Bytes) })),
        ];
        // the responses; a server answers in the order of the requests
        let v = V::Int(sym_i64());
        let answers = [frame(&R::Val(v.clone())), frame(&R::Val(V::Bytes(names[1].clone())))];
        c(0).write_room = [3usize, 100][choice(2)];
        let first = choice(2);
        let mut got: [Option<Result<Value, Error>>; 2] = [None, None];
        let mut sent = 0;
        macro_rules! go {
            ($i:expr) => {
                if let Some(f) = &mut fs[$i] {
                    if let Some(x) = step(f) {
                        got[$i] = Some(x);
                        fs[$i] = None;
                    }
                }
            };
        }
        go!(first);
        let order = [first, 1 - first];
        let wire_all = [&raws[order[0]][..], &raws[order[1]][..]].concat();
        let mut back = [&answers[order[0]][..], &answers[order[1]][..]].concat();
        let cut = [0, 2, answers[order[0]].len(), back.len() - 1][choice(4)];
        let _ = cut;
        for _ in 0..if deep() { 5 } else { 4 } {
            match choice(4) {
                0 => go!(0),
                1 => go!(1),
                2 => c(0).write_room = 100,
                _ => {
                    // the server answers what it has
                    let l = c(0).written.len();
                    check(l <= wire_all.len() && eq(&c(0).written, &wire_all[..l]), "requests are sent one after the other");
                    let ready = if l == wire_all.len() {
                        back.len()
                    } else if l >= raws[order[0]].len() {
                        answers[order[0]].len().saturating_sub(sent)
                    } else {
                        0
                    };
                    let ready = ready.min(back.len());
                    let n = if choice(2) == 0 { ready } else { ready.min(7) };
                    arrive(0, &back[..n]);
                    back.drain(..n);
                    sent += n;
                }
            }
        }
        // everything gets done in the end
        c(0).write_room = 100;
        for _ in 0..2 {
            go!(order[0]);
            go!(order[1]);
        }
        arrive(0, &back);
        go!(order[0]);
        go!(order[1]);
        go!(order[0]);
        check(eq(&c(0).written, &wire_all), "both requests are sent");
        check(matches!(&got[0], Some(Ok(x)) if v.same(x)), "the first call gets its response");
        check(matches!(&got[1], Some(Ok(x)) if V::Bytes(names[1].clone()).same(x)), "the second call gets its response");
        cover("both");
    }
    fn cancelled_call() {
        // a call that is given up at any point isn't answered to others
        let b = backend();
        let k = bytes(1);
        let raw0 = wire(C_GET, NONE, &[k.clone()]);
        let mut f: Fut<Error> = Box::pin(async move { b.get(&k, None).await });
        c(0).write_room = range(0, raw0.len());
        waits(&mut f);
        let back = frame(&R::Val(V::Int(7)));
        let whole = c(0).write_room == 0 && c(0).written.len() == raw0.len();
        let mut sent = 0;
        if whole {
            sent = range(0, back.len() - 1);
            arrive(0, &back[..sent]);
            waits(&mut f);
        }
        drop(f);
        c(0).write_room = 100;
        // another one
        let n = sym_i64();
        assume(n != 7);
        let k = bytes(1);
        let raw1 = wire(C_GET, NONE, &[k.clone()]);
        let mut f: Fut<Error> = Box::pin(async move { b.get(&k, None).await });
        let mut r = step(&mut f);
        let w = c(0).written.clone();
        let two = w.len() == raw0.len() + raw1.len();
        if whole {
            arrive(0, &back[sent..]);
        }
        if two || (!whole && eq(&w, &raw1)) {
            arrive(0, &frame(&R::Val(V::Int(n))));
        }
        c(0).eof = true;
        if r.is_none() {
            r = step(&mut f);
        }
        match r {
            Some(Ok(Value::Integer(x))) => {
                check(x == n, "a call gets the response to its own request");
                cover("answered");
            }
            Some(Ok(_)) => check(false, "a call gets the response to its own request"),
            Some(Err(_)) => cover("given up"),
            None => check(false, "the call ends with the connection"),
        }
    }
    fn large_response() {
        // larger than what is read at once
        let b = backend();
        let n = [8000usize, 8190, 8192, 9000, 20000, 65531, 65536, 70000][choice(8)];
        let mut v = vec![5u8; n];
        v[0] = sym_u8();
        v[n - 1] = sym_u8();
        let (_, mut f) = simple(b, C_GET);
        waits(&mut f);
        let mut back = frame(&R::Val(V::Bytes(v.clone())));
        let next = V::Int(sym_i64());
        back.extend(frame(&R::Val(next.clone())));
        let cut = [0, 5, 4096, n][choice(4)];
        arrive(0, &back[..cut]);
        waits(&mut f);
        arrive(0, &back[cut..]);
        let got = gets(&mut f);
        check(matches!(&got, Ok(x) if V::Bytes(v).same(x)), "the value is the server's");
        let (_, mut f) = simple(b, C_GET);
        let got = gets(&mut f);
        check(matches!(&got, Ok(x) if next.same(x)), "the next value is the server's");
        cover("large");
    }
    fn many_calls() {
        // many calls one after the other
        let b = backend();
        let n = if deep() { 600usize } else { 300 };
        let x = sym_u8();
        let how = choice(3);
        let mut sent = 0;
        for i in 0..n {
            let (raw, mut f) = simple(b, C_GET);
            waits(&mut f);
            check(eq(&c(0).written[sent..], &raw), "the request is sent");
            sent = c(0).written.len();
            let v = match i % 4 {
                0 => V::Bytes(vec![x; i % 50]),
                1 => V::Int(i as i64),
                2 => V::List(vec![vec![x], vec![i as u8; i % 30]]),
                _ => V::Str(vec![b'a'; i % 100]),
            };
            let bad = i % 7 == 0;
            let back = if bad { frame(&R::Dispatch((i % 8) as u8)) } else { frame(&R::Val(v.clone())) };
            let cut = match how {
                0 => 0,
                1 => 4.min(back.len()),
                _ => back.len() - 1,
            };
            if cut != 0 {
                arrive(0, &back[..cut]);
                waits(&mut f);
            }
            arrive(0, &back[cut..]);
            match gets(&mut f) {
                Ok(got) => check(!bad && v.same(&got), "the value is the server's"),
                Err(e) => check(bad && matches!(&e, Error::Dispatching { reason } if *reason as u8 == (i % 8) as u8), "the error is the server's"),
            }
        }
        cover("many");
    }
    fn many_values() {
        let via = if choice(2) == 0 { Via::Client(client()) } else { Via::Backend(backend()) };
        let k = bytes(1);
        answered(many_items(via, &k), &mut M(vec![]));
        cover("many");
    }
    fn large_request() {
        // larger than what is written at once
        let b = backend();
        let n = [255usize, 256, 8192, 65535, 65536, 70000][choice(6)];
        let k = bytes(1);
        let mut v = vec![5u8; n];
        v[0] = sym_u8();
        v[n - 1] = sym_u8();
        let raw = wire(C_SET, BYTES, &[k.clone(), v.clone()]);
        c(0).write_max = [usize::MAX, 4000][choice(2)];
        c(0).write_room = [usize::MAX, 0, n / 2][choice(3)];
        let w = v.clone();
        let mut f: Fut<Error> = Box::pin(async move { b.set(&k, Value::Bytes(w)).await });
        waits(&mut f);
        c(0).write_room = usize::MAX;
        waits(&mut f);
        check(eq(&c(0).written, &raw), "the request is sent");
        arrive(0, &frame(&R::Val(V::Bytes(v.clone()))));
        let got = gets(&mut f);
        check(matches!(&got, Ok(x) if V::Bytes(v).same(x)), "the value is the server's");
        cover("large");
    }
}
