//! What holds for every command alike: isolation, refusal without effect,
//! one frame per request, statistics.
use super::m::*;
use super::resp::{reference, Ref};
use super::u::*;
use hop_engine::command::request::Context as ReqContext;
use hop_engine::Hop;
use hs::*;

const WRITES: [u8; 8] = [INCR, DECR, INCR_BY, DECR_BY, C_SET, C_DELETE, C_RENAME, C_APPEND];
const READS: [u8; 4] = [C_GET, C_TYPE, C_LENGTH, C_KEYS];
const QUERIES: [u8; 4] = [C_EXISTS, C_IS, ECHO, STATS];

/// A store with values of several kinds at up to two keys.
fn store() -> M {
    let mut m = M(vec![]);
    let c = choice(9) as u8;
    if c < 8 {
        m.0.push((bytes(1), any_value(c, 1)));
    }
    let o = bytes(1);
    if let Some((k, _)) = m.0.first() {
        assume(!eq(k, &o));
    }
    m.0.push((o, [V::Int(sym_i64()), V::Bytes(vec![1])][choice(2)].clone()));
    m
}
/// Arguments of many shapes; the first ones may name keys.
fn args(cmd: u8) -> Args {
    let mut a = vec![];
    match cmd {
        STATS => return a,
        ECHO | C_EXISTS | C_IS => return any_args(0, 3, 0, 1),
        INCR_BY | DECR_BY => match choice(5) {
            0 => {}
            1 => a.push(bytes(1)),
            2 => {
                a.push(bytes(1));
                a.push(bytes(range(0, 1)));
            }
            3 => {
                a.push(vec![]);
                a.push(bytes(8));
            }
            _ => {
                a.push(bytes(1));
                a.push(bytes(8));
            }
        },
        C_SET => {
            let n = if deep() { range(0, 4) } else { [0, 1, 2, 3, 4][choice(5)] };
            if !deep() && n >= 3 {
                return any_args(n, n, 1, 1);
            }
            for i in 0..n {
                a.push(if i == 1 {
                    match choice(3) {
                        0 => vec![],
                        1 => bytes(1),
                        _ => vec![0x40, sym_u8() & 0x7f, 0, 0, 0, 0, 0, sym_u8() & 0x7f],
                    }
                } else if i == 0 {
                    bytes(range(0, 1))
                } else {
                    bytes(1)
                });
            }
        }
        C_APPEND => {
            let n = range(0, 3);
            for _ in 0..n {
                a.push(bytes(range(0, 1)));
            }
        }
        _ => {
            let n = range(0, 3);
            for i in 0..n {
                a.push(bytes(if i == 2 { 1 } else { range(0, if deep() { 2 } else { 1 }) }));
            }
        }
    }
    a
}
/// Whether the command may write the key.
fn written(cmd: u8, args: &[Vec<u8>], k: &[u8]) -> bool {
    let n = match cmd {
        C_RENAME => 2,
        INCR | DECR | INCR_BY | DECR_BY | C_SET | C_DELETE | C_APPEND => 1,
        _ => 0,
    };
    let mut w = false;
    for a in args.iter().take(n) {
        w |= eq(a, k);
    }
    w
}
fn isolated(cmd: u8) {
    let m = store();
    let hop = m.hop();
    let kt = any_key_type();
    let a = args(cmd);
    let probe = bytes(range(1, 2));
    let r = send(&hop, cmd, kt, &a);
    cover(if r.is_ok() { "accepted" } else { "refused" });
    for (k, v) in &m.0 {
        if !written(cmd, &a, k) {
            check_key(&hop, k, Some(v));
            cover("another key");
        }
    }
    if !written(cmd, &a, &probe) {
        check_key(&hop, &probe, m.get(&probe));
    }
}
fn refused(cmd: u8) {
    let m = store();
    let hop = m.hop();
    let kt = any_key_type();
    let a = args(cmd);
    let probe = bytes(range(1, 2));
    if let Err(c) = send(&hop, cmd, kt, &a) {
        note(c as u64);
        for (k, v) in &m.0 {
            check_key(&hop, k, Some(v));
        }
        check_key(&hop, &probe, m.get(&probe));
        cover("refused");
    }
}
fn dispatch_one(hop: &Hop, req: &hop_engine::command::Request<'_>) {
    let junk = bytes(range(0, 2));
    let mut out = junk.clone();
    let r = hop.dispatch(req, &mut out);
    check(out.len() >= junk.len() && eq(&out[..junk.len()], &junk), "the output before stays");
    match r {
        Ok(()) => {
            let f = &out[junk.len()..];
            check(f.len() > 4, "a frame is added");
            let n = u32::from_be_bytes([f[0], f[1], f[2], f[3]]) as usize;
            check(n == f.len() - 4, "exactly one frame is added");
            match reference(f) {
                Ref::Done(R::Val(_)) => cover("value"),
                _ => check(false, "the frame is a value"),
            }
        }
        Err(_) => {
            check(out.len() == junk.len(), "a refused command adds nothing to the output");
            cover("error");
        }
    }
}
fn framed(cmd: u8) {
    let m = store();
    let hop = m.hop();
    let kt = any_key_type();
    let raw = wire(cmd, kt, &args(cmd));
    parsed(&raw, |r| dispatch_one(&hop, r));
}
fn counted(hop: &Hop) -> Vec<(Vec<u8>, u64)> {
    match send(hop, STATS, NONE, &[]) {
        Ok(raw) => match reference(&raw) {
            Ref::Done(R::Val(V::Map(l))) => {
                let mut v = vec![];
                for (k, x) in l {
                    check(x.len() == 8, "a counter is 8 bytes");
                    v.push((k, u64::from_be_bytes([x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]])));
                }
                v
            }
            _ => {
                check(false, "stats are a map");
                vec![]
            }
        },
        Err(_) => {
            check(false, "stats are available");
            vec![]
        }
    }
}
/// The counters are exactly these; those at 0 may be absent.
pub fn check_stats(hop: &Hop, want: [u64; 4]) {
    let names: [&[u8]; 4] = [b"commands_successful", b"commands_errored", b"sessions_started", b"sessions_ended"];
    let got = counted(hop);
    let mut seen = 0;
    for (i, n) in names.iter().enumerate() {
        match got.iter().find(|e| eq(&e.0, n)) {
            Some(e) => {
                check(e.1 == want[i], "a counter has the number of events");
                seen += 1;
            }
            None => check(want[i] == 0, "a counter is there"),
        }
    }
    check(seen == got.len(), "there are no other counters");
}

macro_rules! per_command {
    ($f:ident: $($n:ident $l:expr;)*) => {
        hs::harnesses! {
            $(fn $n() { let l = $l; let c = l[choice(l.len())]; $f(c); })*
        }
    };
}
pub mod isolation {
    use super::*;
    per_command! { isolated:
        isolate_reads READS;
        isolate_queries QUERIES;
        isolate_counters [INCR, DECR, INCR_BY, DECR_BY];
        isolate_set [C_SET];
        isolate_moves [C_DELETE, C_RENAME];
        isolate_append [C_APPEND];
    }
}
pub mod refusal {
    use super::*;
    per_command! { refused:
        refuse_reads READS;
        refuse_queries QUERIES;
        refuse_counters [INCR, DECR, INCR_BY, DECR_BY];
        refuse_set [C_SET];
        refuse_moves [C_DELETE, C_RENAME];
        refuse_append [C_APPEND];
    }
}
pub mod framing {
    use super::*;
    per_command! { framed:
        frame_reads READS;
        frame_queries QUERIES;
        frame_counters [INCR, DECR, INCR_BY, DECR_BY];
        frame_set [C_SET];
        frame_moves [C_DELETE, C_RENAME];
        frame_append [C_APPEND];
    }
}
pub mod more {
    use super::*;
    hs::harnesses! {
    /// other keys stay over several commands
    fn isolate_history() {
        let m = M(vec![(bytes(1), any_value([INT, BYTES, LIST, MAP][choice(4)], 1))]);
        let hop = m.hop();
        let mut touched = false;
        for _ in 0..if deep() { 3 } else { 2 } {
            let cmd = WRITES[choice(8)];
            let a = match cmd {
                INCR | DECR | C_DELETE => vec![bytes(1)],
                INCR_BY | DECR_BY => vec![bytes(1), bytes(8)],
                _ => vec![bytes(1), bytes(1)],
            };
            let kt = [NONE, LIST][choice(2)];
            touched |= written(cmd, &a, &m.0[0].0);
            let _ = send(&hop, cmd, kt, &a);
        }
        if !touched {
            check_key(&hop, &m.0[0].0, Some(&m.0[0].1));
            cover("untouched");
        }
    }
    /// any bytes that parse as a request
    fn frame_any_bytes() {
        let raw = bytes(range(1, if deep() { 13 } else { 11 }));
        let mut ctx = ReqContext::new();
        if let Ok(Some(r)) = ctx.feed(&raw) {
            let m = M(vec![(bytes(1), any_value([INT, BYTES, STRING, LIST, MAP][choice(5)], 1))]);
            dispatch_one(&m.hop(), &r);
        }
    }
    /// each request of a pipeline gets its frame
    fn frame_pipeline() {
        let m = M(vec![(bytes(1), any_value([INT, MAP][choice(2)], 1))]);
        let hop = m.hop();
        let mut out = vec![];
        let mut oks = 0;
        for _ in 0..3 {
            let cmd = [INCR, C_GET, C_SET, C_DELETE, C_KEYS][choice(5)];
            let a = if cmd == C_SET { vec![bytes(1), bytes(1)] } else { vec![bytes(1)] };
            let raw = wire(cmd, NONE, &a);
            if parsed(&raw, |r| hop.dispatch(r, &mut out)).is_ok() {
                oks += 1;
            }
        }
        let mut rest: &[u8] = &out;
        while !rest.is_empty() {
            check(rest.len() > 4, "a whole frame follows");
            let n = concretize(u32::from_be_bytes([rest[0], rest[1], rest[2], rest[3]]) as u64) as usize;
            check(n <= rest.len() - 4, "the frame is there");
            check(matches!(reference(&rest[..4 + n]), Ref::Done(R::Val(_))), "the frame is a value");
            rest = &rest[4 + n..];
            oks -= 1;
        }
        check(oks == 0, "there are as many frames as accepted commands");
        cover("pipeline");
    }
    /// stats after commands and sessions
    fn stats_history() {
        let hop = Hop::new();
        let mut n = [0u64; 4];
        let mut sessions = hop.sessions().clone();
        let mut started: Vec<u32> = vec![];
        for _ in 0..if deep() { 5 } else { 4 } {
            match choice(7) {
                0 => {
                    check(send(&hop, INCR, NONE, &[vec![b'a']]).is_ok(), "a counter is incremented");
                    n[0] += 1;
                }
                1 => {
                    check(send(&hop, C_GET, NONE, &[vec![b'b']]).is_err(), "a missing key is refused");
                    n[1] += 1;
                }
                2 => {
                    let r = send(&hop, C_EXISTS, NONE, &[bytes(1)]);
                    check(r.is_ok(), "exists is answered");
                    n[0] += 1;
                }
                3 => {
                    check(send(&hop, STATS, INT, &[]).is_err(), "stats have no type");
                    n[1] += 1;
                }
                4 => {
                    check_stats(&hop, n);
                    n[0] += 1;
                }
                5 => {
                    let id = *sessions.add([7; 32]).key();
                    for o in &started {
                        check(*o != id, "an id is new");
                    }
                    started.push(id);
                    n[2] += 1;
                }
                _ => {
                    let there = !started.is_empty();
                    let id = if there { started.remove(0) } else { 99 };
                    check(hop.sessions().remove(id) == there, "an existing session is ended");
                    n[3] += there as u64;
                }
            }
        }
        check_stats(&hop, n);
        cover("stats");
    }
    /// any session id
    fn stats_unknown_session() {
        let hop = Hop::new();
        let id = *hop.sessions().clone().add([0; 32]).key();
        let x = sym_u32();
        let known = x == id;
        check(hop.sessions().remove(x) == known, "only the session's id ends it");
        check_stats(&hop, [0, 0, 1, known as u64]);
        cover(if known { "known" } else { "unknown" });
    }
    }
}
