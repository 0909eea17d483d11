//! Request encoding and decoding.
use super::u::{request_reference as reference, ReqRef as Ref, *};
use hop_engine::command::request::{Context, ParseError, Request, RequestBuilder};
use hop_engine::command::*;
use hop_engine::state::*;
use hs::*;

fn round_trip(cmd: u8, kt: u8, args: Args) {
    let raw = wire(cmd, kt, &args);
    let b = build(cmd, kt, &args);
    check(*b.command_id_ref() as u8 == cmd, "the builder has the command");
    let r = b.into_request();
    check_request(&r, cmd, kt, &args, &raw);
    note_bytes(r.as_bytes());
    let sent = r.into_bytes();
    check(eq(&sent, &raw), "the encoding is the wire format");
    let mut ctx = Context::new();
    match ctx.feed(&sent) {
        Ok(Some(p)) => {
            check_request(&p, cmd, kt, &args, &raw);
            let again = RequestBuilder::from(p).into_request();
            check_request(&again, cmd, kt, &args, &raw);
            cover("round trip");
        }
        _ => check(false, "a complete request is parsed"),
    };
}

fn same_outcome(want: &Ref, got: Result<Option<Request<'_>>, ParseError>, buf: &[u8]) {
    match (want, got) {
        (Ref::Incomplete, Ok(None)) => cover("incomplete"),
        (Ref::BadCommand, Err(ParseError::CommandIdInvalid)) => cover("invalid command"),
        (Ref::BadKeyType, Err(ParseError::KeyTypeInvalid)) => cover("invalid key type"),
        (Ref::Done { cmd, kt, args, len }, Ok(Some(r))) => {
            check_request(&r, *cmd, *kt, args, &buf[..*len]);
            note_bytes(r.as_bytes());
            cover("complete");
        }
        (Ref::Incomplete, Ok(Some(_))) => check(false, "an incomplete request isn't accepted"),
        (Ref::Incomplete, Err(_)) => check(false, "an incomplete request isn't rejected"),
        (Ref::Done { .. }, Ok(None)) => check(false, "a complete request is recognised"),
        (Ref::Done { .. }, Err(_)) => check(false, "a valid request isn't rejected"),
        _ => check(false, "an invalid request is rejected with its reason"),
    }
}

/// Feed the growing prefixes of a request, ending at `cuts`, and the whole.
fn incremental(ctx: &mut Context, cmd: u8, kt: u8, args: &Args, cuts: &[usize], rest: &[u8]) {
    let raw = wire(cmd, kt, args);
    let mut buf = Vec::new();
    for c in cuts {
        buf.extend_from_slice(&raw[buf.len()..*c]);
        match ctx.feed(&buf) {
            Ok(None) => {}
            Ok(Some(_)) => check(false, "a part of a request isn't a request"),
            Err(_) => check(false, "a part of a valid request isn't rejected"),
        };
    }
    buf.extend_from_slice(&raw[buf.len()..]);
    buf.extend_from_slice(rest);
    match ctx.feed(&buf) {
        Ok(Some(r)) => {
            check_request(&r, cmd, kt, args, &raw);
            note_bytes(r.as_bytes());
            cover("assembled");
        }
        _ => check(false, "an assembled request is recognised"),
    };
}

hs::harnesses! {
/// every command and key type, few short arguments
fn req_round_trip_small() {
    let cmd = any_command();
    let kt = any_key_type();
    let args = if cmd == STATS { vec![] } else { any_args(0, 2, 1, 2) };
    round_trip(cmd, kt, args);
}
/// more and longer arguments
fn req_round_trip_args() {
    let cmd = [1u8, 10, ECHO][choice(3)];
    let kt = [NONE, BYTES, SET][choice(3)];
    round_trip(cmd, kt, any_args(0, 4, 1, 3));
}
/// arguments as long as length fields and buffers change their shape
fn req_round_trip_long() {
    let cmd = [0u8, 13, ECHO][choice(3)];
    let kt = [NONE, MAP][choice(2)];
    let n = [127, 128, 255, 256, 257, 4096, 65535, 65536][choice(8)];
    let mut a = vec![7u8; n];
    a[0] = sym_u8();
    a[n / 2] = sym_u8();
    a[n - 1] = sym_u8();
    let first = bytes(1);
    round_trip(cmd, kt, vec![first, a, bytes(1)]);
}
/// as many arguments as there can be
fn req_round_trip_many() {
    let cmd = [12u8, ECHO][choice(2)];
    let kt = [NONE, LIST][choice(2)];
    let n = [127, 128, 200, 254, 255][choice(5)];
    let mut args = vec![vec![1u8]; n];
    args[0] = bytes(2);
    args[126] = bytes(1);
    args[n - 1] = bytes(1);
    round_trip(cmd, kt, args);
}
/// an arbitrary buffer in one piece
fn req_any_bytes() {
    let buf = bytes(range(0, if deep() { 16 } else { 13 }));
    let want = reference(&buf);
    let mut ctx = Context::new();
    same_outcome(&want, ctx.feed(&buf), &buf);
}
/// an arbitrary buffer of one or two arguments, longer
fn req_any_bytes_long() {
    let mut buf = bytes(if deep() { 26 } else { 18 });
    buf[0] &= 0x80;
    buf[0] |= [0u8, 10, ECHO][choice(3)];
    let want = reference(&buf);
    let mut ctx = Context::new();
    same_outcome(&want, ctx.feed(&buf), &buf);
}
/// an arbitrary buffer, in arbitrary pieces: the same as in one
fn req_any_bytes_pieces() {
    let n = if deep() { 11 } else { 9 };
    let buf = bytes(n);
    let want = reference(&buf);
    let mut ctx = Context::new();
    let mut at = 0;
    for _ in 0..2 {
        at = range(at, n);
        match ctx.feed(&buf[..at]) {
            Ok(None) => {}
            got => {
                let r = reference(&buf[..at]);
                same_outcome(&r, got, &buf[..at]);
                return;
            }
        }
    }
    same_outcome(&want, ctx.feed(&buf), &buf);
}
/// after an error, the next buffer is parsed as if it was the first
fn req_after_error() {
    let bad = bytes(range(1, 4));
    let mut ctx = Context::new();
    match ctx.feed(&bad) {
        Err(_) => cover("error"),
        Ok(_) => return,
    };
    let buf = bytes(9);
    let want = reference(&buf);
    same_outcome(&want, ctx.feed(&buf), &buf);
}
/// all ways to cut a request in up to three pieces, with more bytes behind it
fn req_incremental() {
    let cmd = any_command();
    let kt = any_key_type();
    let args = if cmd == STATS { vec![] } else { any_args(0, 2, 1, 1) };
    let len = wire(cmd, kt, &args).len();
    let a = range(0, len - 1);
    let b = range(a, len - 1);
    let rest = bytes([0, 2][choice(2)]);
    incremental(&mut Context::new(), cmd, kt, &args, &[a, b], &rest);
}
/// byte by byte, including empty arguments, then another request
fn req_incremental_bytewise() {
    let cmd = [1u8, 15, ECHO][choice(3)];
    let kt = any_key_type();
    let args = any_args(0, 3, 0, 2);
    let len = wire(cmd, kt, &args).len();
    let cuts: Vec<usize> = (0..len).collect();
    let mut ctx = Context::new();
    incremental(&mut ctx, cmd, kt, &args, &cuts, &[]);
    let kt = [NONE, INT][choice(2)];
    let args = vec![bytes(2)];
    let rest = bytes(1);
    let cut = range(0, 7);
    incremental(&mut ctx, 11, kt, &args, &[cut], &rest);
}
/// long arguments and many arguments in pieces
fn req_incremental_long() {
    let kt = [NONE, STRING][choice(2)];
    let (n, len) = [(2, 300), (2, 65536), (255, 1), (130, 3)][choice(4)];
    let mut args = vec![vec![9u8; len]; n];
    args[0][len - 1] = sym_u8();
    args[n - 1][0] = sym_u8();
    let total = wire(20, kt, &args).len();
    let cuts = [[3, 6], [8, total / 2], [total / 2, total / 2 + 1], [259, total - 1], [256, 257]][choice(5)];
    incremental(&mut Context::new(), 20, kt, &args, &cuts, &[20, 1]);
}
/// requests back to back: each is taken off the front exactly
fn req_pipeline() {
    let mut all = Vec::new();
    let mut reqs = Vec::new();
    for _ in 0..2 {
        let cmd = [0u8, 10, ECHO, STATS][choice(4)];
        let kt = [NONE, FLOAT][choice(2)];
        let args = if cmd == STATS { vec![] } else { any_args(0, 2, 0, 1) };
        all.extend_from_slice(&wire(cmd, kt, &args));
        reqs.push((cmd, kt, args));
    }
    let mut ctx = Context::new();
    for (cmd, kt, args) in &reqs {
        let n = match ctx.feed(&all) {
            Ok(Some(r)) => {
                check_request(&r, *cmd, *kt, args, &wire(*cmd, *kt, args));
                r.as_bytes().len()
            }
            _ => {
                check(false, "a pipelined request is recognised");
                return;
            }
        };
        all.drain(..n);
    }
    check(all.is_empty(), "nothing is left");
    cover("pipelined");
}
/// ranges of arguments
fn req_arg_ranges() {
    let args = any_args(1, 3, 1, 1);
    let n = args.len();
    let kt = [NONE, INT][choice(2)];
    let r = build(ECHO, kt, &args).into_request();
    let a = range(0, 4);
    let b = range(a, 4);
    let (it, lo, hi) = match choice(4) {
        0 => (r.args(a..b), a, b),
        1 => (r.args(a..), a, n),
        2 => (r.args(..b), 0, b),
        _ => (r.args(a..=b), a, b + 1),
    };
    let lo = lo.min(n);
    let hi = hi.min(n).max(lo);
    match it {
        None => check(false, "the range is there"),
        Some(it) => {
            check(it.len() == hi - lo, "the range has its length");
            let mut k = lo;
            for x in it {
                check(k < hi && eq(x, &args[k]), "the range yields its arguments");
                k += 1;
            }
            check(k == hi, "the range is complete");
            cover("range");
        }
    }
}
/// the key of a request
fn req_key() {
    let cmd = any_command();
    let kt = [NONE, BOOL][choice(2)];
    let args = if cmd == STATS { vec![] } else { any_args(0, 2, 0, 1) };
    let raw = wire(cmd, kt, &args);
    parsed(&raw, |r| {
        let want = if cmd == STATS || cmd == ECHO || args.is_empty() || args[0].is_empty() { None } else { Some(&args[0]) };
        match (r.key(), want) {
            (None, None) => cover("no key"),
            (Some(a), Some(b)) => {
                check(eq(a, b), "the key is the first argument");
                cover("key");
            }
            _ => check(false, "a key is there if the first argument is one"),
        }
    });
}

// ---------------------------------------------------------------- builder

/// adding past 255 arguments fails and changes nothing
fn build_limit() {
    let kt = [NONE, LIST][choice(2)];
    let n = [254, 255][choice(2)];
    let args = vec![vec![3u8]; n];
    let mut b = build(ECHO, kt, &args);
    let x = sym_u8();
    let extra = choice(3);
    let items: Vec<Vec<u8>> = vec![vec![x]; extra];
    let ok = match choice(4) {
        0 => {
            if extra != 1 { return; }
            b.bytes(vec![x]).is_ok()
        }
        1 => {
            if extra == 0 { return; }
            b.value(Value::List(items.clone())).is_ok()
        }
        2 => {
            if extra != 1 { return; }
            b.value(Value::Set(dashmap_set(&items))).is_ok()
        }
        _ => {
            if extra != 2 { return; }
            let m = dashmap::DashMap::new();
            m.insert(vec![x], vec![x]);
            b.value(Value::Map(m)).is_ok()
        }
    };
    let mut want = args.clone();
    check(ok == (n + extra <= 255), "an argument is accepted exactly if there is room for it");
    if ok {
        want.extend(items);
        cover("full");
    } else {
        cover("overfull");
    }
    let r = b.into_request();
    check_request(&r, ECHO, kt, &want, &wire(ECHO, kt, &want));
}
/// big collections that don't fit are rejected whole
fn build_limit_value() {
    let n = [255usize, 256, 257, 511, 512][choice(5)];
    let kt = [NONE, LIST][choice(2)];
    let mut items = vec![vec![3u8]; n];
    items[n - 1] = bytes(1);
    let mut b = build(ECHO, kt, &[vec![1]]);
    check(b.value(Value::List(items)).is_err(), "a list that doesn't fit is rejected");
    check_request(&b.into_request(), ECHO, kt, &[vec![1]], &wire(ECHO, kt, &[vec![1]]));
    cover("rejected");
}
/// empty arguments and values are rejected and change nothing
fn build_empty() {
    let kt = any_key_type();
    let first = bytes(1);
    let mut b = build(10, kt, &[first.clone()]);
    let x = sym_u8();
    let m = dashmap::DashMap::new();
    let bad = match choice(12) {
        0 => b.bytes(Vec::new()).is_err(),
        1 => b.value(Value::Bytes(vec![])).is_err(),
        2 => b.value(Value::List(vec![])).is_err(),
        3 => b.value(Value::List(vec![vec![x], vec![]])).is_err(),
        4 => b.value(Value::List(vec![vec![], vec![x]])).is_err(),
        5 => b.value(Value::String(String::new())).is_err(),
        6 => b.value(Value::Map(m)).is_err(),
        7 => {
            m.insert(vec![x], vec![]);
            b.value(Value::Map(m)).is_err()
        }
        8 => {
            m.insert(vec![], vec![x]);
            b.value(Value::Map(m)).is_err()
        }
        9 => b.value(Value::Set(dashmap_set(&[]))).is_err(),
        10 => b.value(Value::Set(dashmap_set(&[vec![]]))).is_err(),
        _ => b.value(Value::Set(dashmap_set(&[vec![x], vec![]]))).is_err(),
    };
    check(bad, "an empty argument is rejected");
    let want = vec![first];
    check_request(&b.into_request(), 10, kt, &want, &wire(10, kt, &want));
    cover("empty rejected");
}
/// one empty part anywhere in a big collection is enough to reject it
fn build_empty_late() {
    let kt = [NONE, LIST][choice(2)];
    let n = [40usize, 127, 253][choice(if deep() { 3 } else { 2 }) + if deep() { 0 } else { 1 }];
    let at = [0, n / 2, n - 2, n - 1][choice(4)];
    let x = sym_u8();
    let part = |i: usize| if i == at { vec![] } else { vec![i as u8, x] };
    let mut b = build(ECHO, kt, &[vec![1]]);
    let got = match choice(4) {
        0 => b.value(Value::List((0..n).map(part).collect())).is_err(),
        1 => b.value(Value::Set(dashmap_set(&(0..n).map(part).collect::<Vec<_>>()))).is_err(),
        which => {
            if n > 127 { return; }
            let m = dashmap::DashMap::new();
            for i in 0..n {
                let k = vec![i as u8, x];
                if which == 2 { m.insert(part(i), k); } else { m.insert(k, part(i)); }
            }
            b.value(Value::Map(m)).is_err()
        }
    };
    check(got, "a collection with an empty part is rejected");
    check_request(&b.into_request(), ECHO, kt, &[vec![1]], &wire(ECHO, kt, &[vec![1]]));
    cover("empty part");
}
/// commands without arguments don't take any
fn build_simple() {
    let kt = any_key_type();
    let mut b = build(STATS, kt, &[]);
    let x = sym_u8();
    let bad = match choice(3) {
        0 => b.bytes(vec![x]).is_err(),
        1 => b.value(Value::Integer(x as i64)).is_err(),
        _ => b.value(Value::List(vec![vec![x]])).is_err(),
    };
    check(bad, "a command without arguments rejects one");
    check_request(&b.into_request(), STATS, kt, &[], &wire(STATS, kt, &[]));
    cover("simple");
}
/// each value becomes its arguments
fn build_value() {
    let kind = choice(8) as u8;
    let kt = [NONE, kind][choice(2)];
    let v = any_value(kind, 2);
    any_iteration_order();
    let empty = match &v {
        V::Bytes(b) | V::Str(b) => b.is_empty(),
        V::List(l) | V::Set(l) => l.is_empty() || l.iter().any(|x| x.is_empty()),
        V::Map(l) => l.is_empty() || l.iter().any(|x| x.0.is_empty() || x.1.is_empty()),
        _ => false,
    };
    let key = bytes(1);
    let mut b = build(10, kt, &[key.clone()]);
    let ok = b.value(v.value()).is_ok();
    check(ok != empty, "a value is accepted unless it is empty");
    if !ok {
        return;
    }
    let r = b.into_request();
    note(r.arg_count() as u64);
    let mut raw_args: Args = vec![];
    for i in 0..r.arg_count() {
        raw_args.push(r.arg(i).unwrap_or(&[]).to_vec());
    }
    check(eq(r.as_bytes(), &wire(10, kt, &raw_args)), "the encoding holds the arguments");
    check(eq(&raw_args[0], &key), "the key stays first");
    let rest = &raw_args[1..];
    let good = match &v {
        V::Bytes(x) | V::Str(x) => rest.len() == 1 && eq(&rest[0], x),
        V::Bool(x) => rest.len() == 1 && eq(&rest[0], &[*x as u8]),
        V::Int(x) => rest.len() == 1 && eq(&rest[0], &x.to_be_bytes()),
        V::Float(x) => rest.len() == 1 && eq(&rest[0], &x.to_be_bytes()),
        V::List(l) => eqs(rest, l),
        V::Set(l) => rest.len() == l.len() && l.iter().all(|x| rest.iter().any(|y| eq(x, y))),
        V::Map(l) => {
            rest.len() == 2 * l.len()
                && l.iter().all(|(k, x)| (0..l.len()).any(|i| eq(k, &rest[2 * i]) & eq(x, &rest[2 * i + 1])))
        }
    };
    check(good, "the arguments are the value");
    cover("value");
}
/// extending a request that was received
fn build_from_request() {
    let kt = [NONE, BYTES, FLOAT][choice(3)];
    let mut args = any_args(0, 2, 1, 2);
    let raw = wire(20, kt, &args);
    parsed(&raw, |r| {
        let mut b = RequestBuilder::from(r.clone());
        let more = bytes(2);
        check(b.bytes(more.clone()).is_ok(), "an argument is added");
        args.push(more);
        let r = b.into_request();
        check_request(&r, 20, kt, &args, &wire(20, kt, &args));
        cover("extended");
    });
}
}

fn dashmap_set(items: &[Vec<u8>]) -> dashmap::DashSet<Vec<u8>> {
    let d = dashmap::DashSet::new();
    for k in items {
        d.insert(k.clone());
    }
    d
}
