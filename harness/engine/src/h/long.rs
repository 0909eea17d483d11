//! Many steps and large values: what only shows beyond the sizes that can be
//! explored with everything unknown. Few bytes are symbolic here.
use super::all::check_stats;
use super::m::*;
use super::u::*;
use hop_engine::command::request::Context;
use hop_engine::command::response;
use hop_engine::metrics::Metric;
use hop_engine::pubsub::PubSubManager;
use hop_engine::session::SessionId;
use hop_engine::state::Value;
use hop_engine::Hop;
use hop_internal_metrics::Metrics;
use hs::*;

/// A number of steps.
fn many() -> usize {
    if deep() {
        2200
    } else {
        1100
    }
}
fn sizes() -> usize {
    [255, 256, 257, 300, 65535, 65536, 70000][choice(if deep() { 7 } else { 6 })]
}
fn sid(n: u32) -> SessionId {
    unsafe { std::mem::transmute::<u32, SessionId>(n) }
}
fn name(i: usize) -> Vec<u8> {
    vec![b'k', (i >> 8) as u8, i as u8]
}
fn int_of(r: &Result<Vec<u8>, u8>) -> Option<i64> {
    match r {
        Ok(raw) if raw.len() == 13 => {
            let mut b = [0u8; 8];
            b.copy_from_slice(&raw[5..]);
            Some(i64::from_be_bytes(b))
        }
        _ => None,
    }
}

harnesses! {
    /// P09: many increments and decrements of one key
    fn long_counter() {
        let hop = Hop::new();
        let k = bytes(1);
        let start = sym_i64();
        hop.state().insert(k.clone(), Value::Integer(start));
        let down = choice(2) == 1;
        for i in 1..=many() as i64 / 4 {
            let r = send(&hop, if down { DECR } else { INCR }, NONE, &[k.clone()]);
            let want = if down { start.wrapping_sub(i) } else { start.wrapping_add(i) };
            check(int_of(&r) == Some(want), "every step is counted");
        }
        cover("counted");
    }
    /// P11, P13, P16: many keys
    fn long_keys() {
        let hop = Hop::new();
        let x = sym_u8();
        let n = many();
        for i in 0..n {
            let r = send(&hop, C_SET, BYTES, &[name(i), vec![x, i as u8]]);
            check(r.is_ok(), "a key is set");
        }
        for i in 0..n {
            check_key(&hop, &name(i), Some(&V::Bytes(vec![x, i as u8])));
        }
        let d = [0, 1, 255, n - 1][choice(4)];
        match choice(3) {
            0 => check(send(&hop, C_DELETE, NONE, &[name(d)]).is_ok(), "a key is deleted"),
            1 => {
                check(send(&hop, C_RENAME, NONE, &[name(d), b"new".to_vec()]).is_ok(), "a key is renamed");
                check_key(&hop, b"new", Some(&V::Bytes(vec![x, d as u8])));
            }
            _ => {
                check(send(&hop, C_SET, INT, &[name(d), 5i64.to_be_bytes().to_vec()]).is_ok(), "a key is set");
                check_key(&hop, &name(d), Some(&V::Int(5)));
                check(send(&hop, C_DELETE, NONE, &[name(d)]).is_ok(), "a key is deleted");
            }
        }
        for i in 0..n {
            let v = V::Bytes(vec![x, i as u8]);
            check_key(&hop, &name(i), if i == d { None } else { Some(&v) });
        }
        cover("keys");
    }
    /// P12: many appends to one key
    fn long_append() {
        let hop = Hop::new();
        let k = bytes(1);
        let x = sym_u8();
        assume(x < 0x80);
        let kt = [BYTES, STRING, LIST][choice(3)];
        let n = many();
        for i in 0..n {
            let r = send(&hop, C_APPEND, kt, &[k.clone(), vec![if i == 0 || i == n - 1 { x } else { b'a' + (i % 26) as u8 }]]);
            check(r.is_ok(), "an append is accepted");
        }
        let all: Vec<u8> = (0..n).map(|i| if i == 0 || i == n - 1 { x } else { b'a' + (i % 26) as u8 }).collect();
        let want = match kt {
            BYTES => V::Bytes(all),
            STRING => V::Str(all),
            _ => V::List(all.iter().map(|b| vec![*b]).collect()),
        };
        check_key(&hop, &k, Some(&want));
        cover("appended");
    }
    /// P12: appends to and of large values
    fn long_append_large() {
        let hop = Hop::new();
        let k = bytes(1);
        let x = sym_u8();
        assume(x < 0x80);
        let n = sizes();
        let mut v = vec![b'v'; n];
        v[n - 1] = x;
        let text = choice(2) == 1;
        let val = |b: Vec<u8>| if text { V::Str(b) } else { V::Bytes(b) };
        hop.state().insert(k.clone(), val(v.clone()).value());
        let mut add = vec![b'w'; [1, 255, 256, 65536][choice(4)]];
        add[0] = x;
        let got = send(&hop, C_APPEND, [NONE, if text { STRING } else { BYTES }][choice(2)], &[k.clone(), add.clone()]);
        v.extend_from_slice(&add);
        check_out(&Out::Ok(val(v.clone())), &got);
        check_key(&hop, &k, Some(&val(v)));
    }
    /// P14: lengths of large values
    fn long_length() {
        let hop = Hop::new();
        let k = bytes(1);
        let x = sym_u8();
        assume(x < 0x80);
        let (v, n) = match choice(5) {
            0 => {
                let n = sizes();
                (Value::Bytes(vec![x; n]), n)
            }
            1 => {
                let n = sizes();
                // as many characters, more bytes
                let mut t = "\u{e4}".repeat(n - 1);
                t.push(x as char);
                (Value::String(t), n)
            }
            2 => {
                let n = [255, 256, 65535][choice(3)];
                (Value::List(vec![vec![]; n]), n)
            }
            3 => {
                let n = many();
                (Value::Set((0..n).map(name).collect()), n)
            }
            _ => {
                let n = many();
                (Value::Map((0..n).map(|i| (name(i), vec![x])).collect()), n)
            }
        };
        hop.state().insert(k.clone(), v);
        check(int_of(&send(&hop, C_LENGTH, NONE, &[k])) == Some(n as i64), "the length is that of the value");
        cover("length");
    }
    /// P14: the keys of a large map
    fn long_map_keys() {
        let hop = Hop::new();
        let k = bytes(1);
        let n = many();
        hop.state().insert(k.clone(), Value::Map((0..n).map(|i| (name(i), vec![])).collect()));
        let mut seen = vec![false; n];
        match send(&hop, C_KEYS, NONE, &[k]).ok().and_then(|raw| decode(&raw)) {
            Some(hop_engine::command::Response::Value(Value::List(l))) => {
                check(l.len() == n, "there are as many keys");
                for x in l {
                    check(x.len() == 3 && x[0] == b'k', "a key is one of the map's");
                    let i = (x[1] as usize) << 8 | x[2] as usize;
                    check(i < n && !seen[i], "a key is told once");
                    seen[i] = true;
                }
            }
            _ => check(false, "the keys are a list"),
        }
        cover("keys");
    }
    /// P14: many keys in one question
    fn long_questions() {
        let hop = Hop::new();
        let n = [250usize, 254, 255][choice(3)];
        let odd = [0, 1, 127, n - 1][choice(4)];
        let kind = choice(3);
        for i in 0..n {
            if i != odd || kind == 0 {
                hop.state().insert(name(i), Value::Integer(1));
            } else if kind == 1 {
                hop.state().insert(name(i), Value::Bytes(vec![]));
            }
        }
        let args: Vec<_> = (0..n).map(name).collect();
        let r = send(&hop, C_EXISTS, NONE, &args);
        check_out(&Out::Ok(V::Bool(kind != 2)), &r);
        let r = send(&hop, C_IS, INT, &args);
        check_out(&Out::Ok(V::Bool(kind == 0)), &r);
    }
    /// P15, P21: many commands of both outcomes
    fn long_stats() {
        let hop = Hop::new();
        let n = many();
        let bad = choice(2) == 1;
        for _ in 0..n {
            let r = if bad { send(&hop, C_GET, NONE, &[b"none".to_vec()]) } else { send(&hop, INCR, NONE, &[b"n".to_vec()]) };
            check(r.is_err() == bad, "a command has its outcome");
        }
        check_stats(&hop, if bad { [0, n as u64, 0, 0] } else { [n as u64, 0, 0, 0] });
        cover("stats");
    }
    /// P23: many sessions
    fn long_sessions() {
        let hop = Hop::new();
        let mut mgr = hop.sessions().clone();
        let n = many();
        let mut ids: Vec<u32> = vec![];
        for i in 0..n {
            let id = *mgr.add([i as u8; 32]).key();
            check(!ids.contains(&id), "an id is new");
            ids.push(id);
        }
        let gone = [0, 1, 255, n - 1][choice(4)];
        check(mgr.remove(ids[gone]), "an existing session is ended");
        check(!mgr.remove(ids[gone]), "an ended session can't be ended again");
        let id = *mgr.add([7; 32]).key();
        check(!ids.contains(&id), "an id is new");
        for (i, id) in ids.iter().enumerate() {
            check(i == gone || mgr.remove(*id), "an existing session is ended");
        }
        let r = hop.metrics();
        check(r.counter(&Metric::SessionsStarted) == Some(n as u64 + 1), "starts are counted");
        check(r.counter(&Metric::SessionsEnded) == Some(n as u64), "ends are counted");
        cover("sessions");
    }
    /// P23: ids stay new over more sessions than 16 bits can tell apart
    fn long_sessions_ids() {
        let hop = Hop::new();
        let mut mgr = hop.sessions().clone();
        let x = sym_u8();
        let first = *mgr.add([x; 32]).key();
        let mut seen = vec![0u64; 1 << 12];
        let mut starts = 1;
        for i in 0..65540u32 {
            let id = *mgr.add([i as u8; 32]).key();
            check(id != first, "an id isn't one of a running session");
            if let Some(w) = seen.get_mut(id as usize / 64) {
                check(*w & 1 << (id % 64) == 0, "an id is new");
                *w |= 1 << (id % 64);
            }
            check(mgr.remove(id), "an existing session is ended");
            starts += 1;
        }
        let r = hop.metrics();
        check(r.counter(&Metric::SessionsStarted) == Some(starts), "starts are counted");
        check(r.counter(&Metric::SessionsEnded) == Some(starts - 1), "ends are counted");
        check(mgr.remove(first), "the first session is still there");
        cover("ids");
    }
    /// P22: counters beyond 16 bits
    fn long_metrics_count() {
        let ms = Metrics::<u32>::new();
        let (w, r) = (ms.writer(), ms.reader());
        let x = sym_u32();
        for _ in 0..65540 {
            w.increment(x);
        }
        check(r.counter(&x) == Some(65540) && ms.snapshot().counter(&x) == Some(65540), "every increment is counted");
        cover("count");
    }
    /// P24: many subscriptions of one session, and of one key
    fn long_pubsub() {
        let p = PubSubManager::default();
        let n = many() / 2;
        let one_key = choice(2) == 1;
        let at = |i: usize| if one_key { (b"key".to_vec(), sid(i as u32)) } else { (name(i), sid(1)) };
        for i in 0..n {
            let (k, s) = at(i);
            check(p.subscribe(k, s).is_some(), "a new subscription is made");
        }
        let gone = [0, 1, n - 1][choice(3)];
        let (k, s) = at(gone);
        check(p.unsubscribe(&k, s), "an existing subscription is ended");
        check(!p.unsubscribe(&k, s), "an ended one can't be ended again");
        for i in 0..n {
            let (k, s) = at(i);
            check(p.get(&k, s).map_or(false, |w| w.upgrade().is_some()) == (i != gone), "exactly the subscriptions are found");
        }
        for i in 0..n {
            let (k, s) = at(i);
            if one_key || i == 0 {
                check(p.remove_session(s) == (!one_key || i != gone), "the subscriptions of a session are ended");
            }
            check(p.get(&k, s).is_none(), "an ended subscription is not found");
        }
        cover("subscriptions");
    }
    /// P22: many names, and many updates of one
    fn long_metrics() {
        let ms = Metrics::<u32>::new();
        let (w, r) = (ms.writer(), ms.reader());
        let n = many();
        let v = sym_u64();
        let base = sym_u32();
        assume(base < 1000);
        let base = 7 + (base & 1);
        for i in 0..n as u32 {
            check(w.increment(i) && w.increment(base) && w.gauge(i, v.wrapping_add(i as u64)), "metrics are written");
        }
        let s = ms.snapshot();
        for i in 0..n as u32 {
            let c = if i == base { 1 + n as u64 } else { 1 };
            check(r.counter(&i) == Some(c) && s.counter(&i) == Some(c), "a counter is the number of its increments");
            check(r.gauge(&i) == Some(v.wrapping_add(i as u64)), "a gauge is the last value written");
        }
        check(s.counters().len() == n && s.gauges().len() == n, "a snapshot has exactly the metrics");
        cover("metrics");
    }
    /// P02: many requests in one buffer, parsed with one context
    fn long_pipeline() {
        let n = many();
        let x = sym_u8();
        let req = |i: usize| match i % 4 {
            0 => (INCR, NONE, vec![vec![x]]),
            1 => (C_SET, BYTES, vec![name(i), vec![x; 1 + i % 40]]),
            2 => (ECHO, NONE, vec![]),
            _ => (C_GET, STRING, vec![vec![i as u8, x]]),
        };
        let mut all = vec![];
        for i in 0..n {
            let (c, t, a) = req(i);
            all.extend(wire(c, t, &a));
        }
        let mut ctx = Context::new();
        let mut at = 0;
        for i in 0..n {
            let (c, t, a) = req(i);
            let raw = wire(c, t, &a);
            match ctx.feed(&all[at..]) {
                Ok(Some(r)) => check_request(&r, c, t, &a, &raw),
                _ => check(false, "a request is parsed"),
            }
            at += raw.len();
        }
        check(at == all.len(), "every byte is of a request");
        cover("pipeline");
    }
    /// P06: many frames decoded with one context
    fn long_frames() {
        let n = many();
        let x = sym_u8();
        let mut ctx = response::Context::new();
        for i in 0..n {
            let r = match i % 4 {
                0 => R::Val(V::Bytes(vec![x; i % 50])),
                1 => R::Val(V::List(vec![vec![x], vec![i as u8]])),
                2 => R::Dispatch((i % 8) as u8),
                _ => R::Val(V::Int(i as i64)),
            };
            let f = frame(&r);
            match ctx.feed(&f[..f.len() / 2]) {
                Ok(response::Instruction::ReadBytes(m)) => check(m > 0 && m <= f.len() - f.len() / 2, "no more is asked for than is missing"),
                _ => check(false, "a part of a frame is incomplete"),
            }
            match ctx.feed(&f) {
                Ok(response::Instruction::Concluded(got)) => check(same_response(&r, &got), "the response is the same"),
                _ => check(false, "a frame is decoded"),
            }
        }
        cover("frames");
    }
    /// P18: many frames in one output
    fn long_output() {
        let hop = Hop::new();
        let n = many();
        let x = sym_u8();
        let mut out = vec![x];
        let mut want = vec![x];
        for i in 0..n {
            let raw = wire(ECHO, NONE, &[vec![x, i as u8], vec![7; 1 + i % 30]]);
            check(parsed(&raw, |r| hop.dispatch(r, &mut out)).is_ok(), "echo is answered");
            want.extend(frame(&R::Val(V::List(vec![vec![x, i as u8], vec![7; 1 + i % 30]]))));
        }
        check(eq(&out, &want), "every answer is a frame behind the last one");
        cover("output");
    }
    /// P16: keys that are long, and alike
    fn long_names() {
        let n = if deep() { sizes() } else { [256, 257, 65537][choice(3)] };
        let mut a = vec![b'k'; n];
        let x = sym_u8();
        a[n - 1] = x;
        let mut b = a.clone();
        match choice(4) {
            0 => {
                b[n - 1] = sym_u8();
                assume(b[n - 1] != x);
            }
            1 => {
                b.pop();
            }
            2 => b[0] = b'l',
            _ => b[n - 2] = b'l',
        }
        let mut m = M(vec![]);
        let have = choice(3);
        if have > 0 {
            m.put(&b, V::Int(sym_i64()));
        }
        if have > 1 {
            m.put(&a, V::Bytes(vec![x]));
        }
        let hop = m.hop();
        let amount = 3i64.to_be_bytes().to_vec();
        let (cmd, kt, args) = match choice(13) {
            0 => (INCR, NONE, vec![a.clone()]),
            1 => (DECR_BY, INT, vec![a.clone(), amount]),
            2 => (C_SET, BYTES, vec![a.clone(), vec![x]]),
            3 => (C_SET, NONE, vec![a.clone(), amount]),
            4 => (C_DELETE, NONE, vec![a.clone()]),
            5 => (C_RENAME, NONE, vec![a.clone(), b"c".to_vec()]),
            6 => (C_RENAME, NONE, vec![a.clone(), b.clone()]),
            7 => (C_APPEND, NONE, vec![a.clone(), vec![x]]),
            8 => (C_GET, NONE, vec![a.clone()]),
            9 => (C_EXISTS, NONE, vec![a.clone(), b.clone()]),
            10 => (C_IS, INT, vec![a.clone()]),
            11 => (C_TYPE, NONE, vec![a.clone()]),
            _ => (C_LENGTH, NONE, vec![a.clone()]),
        };
        step(&hop, &mut m, cmd, kt, &args);
        check_key(&hop, &a, m.get(&a));
        check_key(&hop, &b, m.get(&b));
        check_key(&hop, &b"k"[..], None);
        a.pop();
        if !eq(&a, &b) {
            check_key(&hop, &a, None);
        }
        for l in [254usize, 255, 256] {
            if l + 1 < n {
                check_key(&hop, &a[..l], None);
            }
        }
    }
    /// P18, P21: commands with many arguments, as many as a request can have or fewer
    fn long_arguments() {
        let cmd = COMMANDS[choice(COMMANDS.len())].1;
        if cmd == STATS {
            // its answer isn't known to `apply`: see stats_history
            assume(false);
        }
        let kt = [NONE, BYTES, BOOL, FLOAT, INT, STRING, LIST, MAP, SET][choice(9)];
        let n = if deep() { [16usize, 127, 128, 129, 253, 254, 255][choice(7)] } else { [127, 128, 254, 255][choice(4)] };
        let k = bytes(1);
        let x = sym_u8();
        assume(x < 0x80);
        let second = match cmd {
            INCR_BY | DECR_BY => vec![0x40, x, 0, 0, 0, 0, 0, 1],
            C_SET if kt == INT || kt == FLOAT => vec![0x40, 8, 0, 0, 0, 0, 0, x],
            C_SET if kt == BOOL => vec![1],
            _ => vec![b's', x],
        };
        let mut args = vec![k.clone(), second];
        for i in args.len()..n {
            args.push(vec![i as u8 & 0x7f, b'a', (i >> 7) as u8]);
        }
        let mut m = M(vec![]);
        match choice(4) {
            0 => {}
            1 => m.put(&k, V::Int(sym_i64())),
            2 => m.put(&k, V::List(vec![vec![x]])),
            _ => m.put(&k, V::Bytes(vec![x, 1])),
        }
        let hop = m.hop();
        let want = apply(&mut m, cmd, kt, &args);
        let raw = wire(cmd, kt, &args);
        let mut out = vec![x];
        let r = parsed(&raw, |r| hop.dispatch(r, &mut out));
        check(out[0] == x, "the output before stays");
        check_stats(&hop, if r.is_ok() { [1, 0, 0, 0] } else { [0, 1, 0, 0] });
        match r {
            Ok(()) => {
                check(out.len() > 5 && u32::from_be_bytes([out[1], out[2], out[3], out[4]]) as usize == out.len() - 5, "exactly one frame is added");
                out.remove(0);
                check_out(&want, &Ok(out));
                cover("accepted");
            }
            Err(e) => {
                check(out.len() == 1, "a refused command adds nothing to the output");
                check_out(&want, &Err(e as u8));
                cover("refused");
            }
        }
        check_key(&hop, &k, m.get(&k));
    }
    /// P17, P18: commands that large values or arguments are refused for
    fn long_refused() {
        let k = bytes(1);
        let x = sym_u8();
        let (v, cmd, kt, args, ok) = match choice(12) {
            0 => (Some(V::List(vec![vec![]; 65535])), C_APPEND, [LIST, NONE][choice(2)], vec![vec![x]], false),
            1 => (Some(V::List(vec![vec![]; 65534])), C_APPEND, [LIST, NONE][choice(2)], vec![vec![x], vec![x]], false),
            2 => (Some(V::List(vec![vec![]; 65534])), C_APPEND, LIST, vec![vec![x]], true),
            3 => (None, C_SET, MAP, vec![vec![b'a'; 256], vec![x]], false),
            4 => (Some(V::Int(5)), C_SET, MAP, vec![vec![b'a'], vec![x], vec![b'b'; 256], vec![x]], false),
            5 => (None, C_SET, SET, vec![vec![x], vec![b'a'; 65536]], false),
            6 => {
                assume(x >= 0xf8);
                let mut t = vec![b't'; 300];
                t[299] = x;
                (Some(V::Str(vec![b's'; 70000])), C_APPEND, STRING, vec![vec![b'a'; 300], t], false)
            }
            7 => (Some(V::Str(vec![b's'; 70000])), C_APPEND, BYTES, vec![vec![x; 300]], false),
            8 => (Some(V::Bytes(vec![x; 70000])), [INCR, DECR][choice(2)], NONE, vec![], false),
            9 => (Some(V::Bytes(vec![x; 70000])), C_GET, STRING, vec![], false),
            10 => {
                let mut t = vec![b't'; 70000];
                t[69999] = 0xff;
                (Some(V::Bytes(vec![x])), C_SET, STRING, vec![t], false)
            }
            _ => {
                let args = vec![vec![x]; [4, 254][choice(2)]];
                (Some(V::Int(7)), C_SET, MAP, args[1..].to_vec(), false)
            }
        };
        let mut m = M(vec![]);
        if let Some(v) = v {
            m.put(&k, v);
        }
        let hop = m.hop();
        let mut all = vec![k.clone()];
        all.extend(args);
        let mut out = vec![x];
        let raw = wire(cmd, kt, &all);
        let r = parsed(&raw, |r| hop.dispatch(r, &mut out));
        check(out[0] == x, "the output before stays");
        check(r.is_ok() == ok, "the command is refused");
        if ok {
            check(out.len() >= 5 && u32::from_be_bytes([out[1], out[2], out[3], out[4]]) as usize == out.len() - 5, "exactly one frame is added");
            cover("accepted");
        } else {
            check(out.len() == 1, "a refused command adds nothing to the output");
            check_key(&hop, &k, m.get(&k));
            cover("refused");
        }
    }
    /// P05: responses with many items
    fn long_items() {
        let x = sym_u8();
        let n = [255usize, 256, 300][choice(3)];
        let (raw, v) = match choice(3) {
            0 => {
                let v = V::Set((0..n).map(|i| vec![x, (i >> 8) as u8, i as u8]).collect());
                let mut raw = vec![];
                response::write_value(&mut raw, &v.value());
                (raw, v)
            }
            1 => {
                let v = V::Map((0..n).map(|i| (name(i), vec![x; i % 3])).collect());
                let mut raw = vec![];
                response::write_value(&mut raw, &v.value());
                (raw, v)
            }
            _ => {
                let v = V::List((0..n).map(|i| vec![x; i % 5]).collect());
                let mut raw = vec![];
                response::write_value(&mut raw, &v.value());
                (raw, v)
            }
        };
        check(raw.len() >= 7 && u32::from_be_bytes([raw[0], raw[1], raw[2], raw[3]]) as usize == raw.len() - 4, "a frame tells its length");
        match decode(&raw) {
            Some(hop_engine::command::Response::Value(got)) => {
                let same = match (&v, &got) {
                    (V::Set(l), Value::Set(g)) => l.len() == g.len() && l.iter().all(|x| g.contains(x)),
                    (V::Map(l), Value::Map(g)) => l.len() == g.len() && l.iter().all(|(k, x)| g.get(k).map_or(false, |y| eq(x, &y))),
                    _ => v.same(&got),
                };
                check(same, "the value is the same")
            }
            _ => check(false, "the frame is a value"),
        }
        cover("items");
    }
}
