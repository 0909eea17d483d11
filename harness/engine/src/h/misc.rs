//! Metrics, sessions, subscriptions, timer.
use super::all::check_stats;
use super::m::*;
use super::u::*;
use hop_engine::metrics::Metric;
use hop_engine::pubsub::{KeyUpdate, PubSubManager, Subscription};
use hop_engine::session::SessionId;
use hop_engine::Hop;
use hop_internal_metrics::{Metrics, Reader, Snapshot, Writer};
use hop_internal_timer::Timer;
use hs::*;
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::sync::{Arc, Weak};
use std::time::Duration;

/// Let a future run as far as it gets.
fn poll<F: Future>(f: &mut Pin<Box<F>>) -> Option<F::Output> {
    fn raw() -> RawWaker {
        const T: RawWakerVTable = RawWakerVTable::new(|_| raw(), |_| (), |_| (), |_| ());
        RawWaker::new(std::ptr::null(), &T)
    }
    let waker = unsafe { Waker::from_raw(raw()) };
    match f.as_mut().poll(&mut Context::from_waker(&waker)) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}

// ---- P21 -----------------------------------------------------------------

fn counters(h: &Hop) -> [u64; 2] {
    let r = h.metrics();
    [r.counter(&Metric::CommandsSuccessful).unwrap_or(0), r.counter(&Metric::CommandsErrored).unwrap_or(0)]
}

/// Whatever the command and its outcome: it is counted once, as what it was.
fn counted_once(list: &[u8]) {
    let cmd = list[choice(list.len())];
    let kt = any_key_type();
    let m = M(match choice(4) {
        0 => vec![],
        n => vec![(vec![b'k'], any_value([INT, LIST, STRING][n - 1], 1))],
    });
    let hop = m.hop();
    let mut args = any_args(0, 3, 0, 1);
    if !args.is_empty() && choice(2) == 0 {
        args[0] = vec![b'k'];
    }
    let before = counters(&hop);
    if choice(2) == 0 {
        let ok = send(&hop, INCR, NONE, &[vec![b'n']]).is_ok();
        check(ok, "a new counter is made");
    }
    let base = counters(&hop);
    check(base[0] - before[0] <= 1 && base[1] == before[1], "a successful command is counted as such");
    let got = send(&hop, cmd, kt, &args);
    let after = counters(&hop);
    let ok = got.is_ok() as u64;
    note(ok);
    check(after[0] == base[0] + ok, "successful commands are counted");
    check(after[1] == base[1] + 1 - ok, "failed commands are counted");
    check_stats(&hop, [after[0], after[1], 0, 0]);
    cover(if got.is_ok() { "successful" } else { "failed" });
}

// ---- P22 -----------------------------------------------------------------

struct Model {
    counters: [Option<u64>; 3],
    gauges: [Option<u64>; 3],
}
fn agree(m: &Model, counter: impl Fn(u8) -> Option<u64>, gauge: impl Fn(u8) -> Option<u64>) {
    for i in 0..3u8 {
        check(counter(i) == m.counters[i as usize], "a counter is the number of its increments");
        check(gauge(i) == m.gauges[i as usize], "a gauge is the last value written");
    }
}
fn agree_snapshot(m: &Model, s: &Snapshot<u8>) {
    agree(m, |i| s.counter(&i), |i| s.gauge(&i));
    let n = m.counters.iter().filter(|x| x.is_some()).count();
    check(s.counters().len() == n, "a snapshot has exactly the counters");
    let n = m.gauges.iter().filter(|x| x.is_some()).count();
    check(s.gauges().len() == n, "a snapshot has exactly the gauges");
}

// ---- P23 -----------------------------------------------------------------

fn stats4(h: &Hop) -> [u64; 2] {
    let r = h.metrics();
    [r.counter(&Metric::SessionsStarted).unwrap_or(0), r.counter(&Metric::SessionsEnded).unwrap_or(0)]
}

// ---- P24 -----------------------------------------------------------------

pub fn sid(n: u32) -> SessionId {
    unsafe { std::mem::transmute::<u32, SessionId>(n) }
}
fn keyname(i: usize) -> Vec<u8> {
    vec![b'a' + i as u8]
}
#[derive(Clone)]
struct Subs {
    on: [[bool; 2]; 2],
    weak: [[Option<Weak<Subscription>>; 2]; 2],
}
impl Subs {
    fn any(&self, s: usize) -> bool {
        self.on[s][0] || self.on[s][1]
    }
}
fn agree_subs(p: &PubSubManager, m: &Subs) {
    for s in 0..2 {
        for k in 0..2 {
            let g = p.get(&keyname(k), sid(s as u32));
            check(g.is_some() == m.on[s][k], "exactly the subscriptions are found");
            if let (Some(g), true) = (&g, m.on[s][k]) {
                check(g.upgrade().is_some(), "a subscription lives");
                if let Some(w) = &m.weak[s][k] {
                    check(Weak::ptr_eq(g, w), "the subscription is the one that was made");
                }
            }
            if let (Some(w), false) = (&m.weak[s][k], m.on[s][k]) {
                check(w.upgrade().is_none(), "an ended subscription is gone");
            }
        }
    }
}

// ---- P25 -----------------------------------------------------------------

static mut CLOCK: Option<(i64, i64)> = None;
#[cfg(not(feature = "native"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut (i64, i64)) -> i32 {
    check(id == 1, "the clock is the monotonic one");
    *t = next_reading();
    0
}
#[cfg(feature = "native")]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut (i64, i64)) -> i32 {
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    if std::ptr::read(std::ptr::addr_of!(CLOCK)).is_some() {
        check(id == 1, "the clock is the monotonic one");
        *t = next_reading();
        return 0;
    }
    syscall(228, id, t) as i32
}
/// The next reading of a monotonic clock: any that isn't earlier.
unsafe fn next_reading() -> (i64, i64) {
    let (s, n) = ((sym_u64() >> 1) as i64, sym_u32() as i64);
    let (ls, ln) = match std::ptr::read(std::ptr::addr_of!(CLOCK)) {
        Some(x) => x,
        None => (0, 0),
    };
    assume(n < 1_000_000_000);
    if choice(2) == 0 {
        assume(s == ls);
        assume(n >= ln);
    } else {
        assume(s > ls);
    }
    CLOCK = Some((s, n));
    (s, n)
}
fn clock_on() {
    unsafe { CLOCK = Some((0, 0)) }
}
fn last_reading() -> (i64, i64) {
    unsafe { std::ptr::read(std::ptr::addr_of!(CLOCK)) }.unwrap()
}
fn is_difference(d: &Duration, a: (i64, i64), b: (i64, i64)) -> bool {
    if b.1 >= a.1 {
        (d.as_secs() == (b.0 - a.0) as u64) & (d.subsec_nanos() == (b.1 - a.1) as u32)
    } else {
        (d.as_secs() == (b.0 - a.0 - 1) as u64) & (d.subsec_nanos() == (b.1 + 1_000_000_000 - a.1) as u32)
    }
}

hs::harnesses! {
    fn count_reads() { counted_once(&[C_GET, C_TYPE, C_LENGTH, C_KEYS, C_EXISTS, C_IS]); }
    fn count_counters() { counted_once(&[INCR, DECR, INCR_BY, DECR_BY]); }
    fn count_writes() { counted_once(&[C_SET, C_DELETE, C_RENAME, C_APPEND]); }
    fn count_others() { counted_once(&[ECHO, STATS]); }
    /// commands of several threads and copies of the engine
    fn count_concurrent() {
        let hop = Hop::new();
        for _ in 0..2 {
            let h = hop.clone();
            let good = choice(2) == 0;
            spawn(move || {
                let r = if good { send(&h, ECHO, NONE, &[vec![1]]) } else { send(&h, C_GET, NONE, &[vec![b'x']]) };
                check(r.is_ok() == good, "the command is answered");
                note(good as u64);
            });
        }
        let a = send(&hop, C_EXISTS, NONE, &[vec![b'x']]).is_ok();
        check(a, "the command is answered");
        join();
        let c = counters(&hop);
        check(c[0] + c[1] == 3, "every command is counted once");
        check(c[0] >= 1, "the successful one is counted");
        cover("concurrent");
    }

    /// every history of updates and reads of three metrics
    fn metrics_history() {
        let ms = Metrics::<u8>::new();
        let (w, r) = (ms.writer(), ms.reader());
        let w2 = w.clone();
        let mut m = Model { counters: [None; 3], gauges: [None; 3] };
        for _ in 0..if deep() { 5 } else { 4 } {
            let i = choice(3) as u8;
            match choice(3) {
                0 => {
                    check(w.increment(i), "a counter is written");
                    m.counters[i as usize] = Some(m.counters[i as usize].unwrap_or(0) + 1);
                }
                1 => {
                    check(w2.increment(i), "a counter is written through another writer");
                    m.counters[i as usize] = Some(m.counters[i as usize].unwrap_or(0) + 1);
                }
                _ => {
                    let v = sym_u64();
                    check(w.gauge(i, v), "a gauge is written");
                    m.gauges[i as usize] = Some(v);
                }
            }
        }
        agree(&m, |i| r.counter(&i), |i| r.gauge(&i));
        let s = ms.snapshot();
        agree_snapshot(&m, &s);
        check(r.valid() && w.valid(), "reader and writer are valid");
        cover("history");
    }
    /// any name of a metric
    fn metrics_any_name() {
        let ms = Metrics::<u32>::new();
        let (w, r) = (ms.writer(), ms.reader());
        let (a, b, q) = (sym_u32(), sym_u32(), sym_u32());
        let v = sym_u64();
        w.increment(a);
        w.increment(b);
        w.gauge(b, v);
        let n = (q == a) as u64 + (q == b) as u64;
        check(r.counter(&q).unwrap_or(0) == n, "a counter is the number of its increments");
        check(r.gauge(&q) == if q == b { Some(v) } else { None }, "a gauge is the last value written");
        check(ms.snapshot().counter(&q).unwrap_or(0) == n, "a snapshot has the counter");
        cover("name");
    }
    /// snapshots stay as they were, also without the metrics
    fn metrics_snapshot() {
        let ms = Metrics::<u8>::new();
        let (w, r) = (ms.writer(), ms.reader());
        let mut m = Model { counters: [None; 3], gauges: [None; 3] };
        let v = sym_u64();
        for i in 0..3u8 {
            for _ in 0..choice(3) {
                w.increment(i);
                m.counters[i as usize] = Some(m.counters[i as usize].unwrap_or(0) + 1);
            }
        }
        if choice(2) == 0 {
            w.gauge(1, v);
            m.gauges[1] = Some(v);
        }
        let s = ms.snapshot();
        w.increment(choice(3) as u8);
        w.gauge(choice(2) as u8, sym_u64());
        agree_snapshot(&m, &s);
        let other = Metrics::<u8>::new();
        check(other.reader().counter(&0).is_none(), "another instance is not related");
        drop(ms);
        agree_snapshot(&m, &s);
        check(!r.valid() && !w.valid(), "reader and writer know that the metrics are gone");
        check(!w.increment(0) && !w.gauge(0, 1), "nothing is written any more");
        check(r.counter(&0).is_none() && r.gauge(&1).is_none(), "nothing is read any more");
        cover("snapshot");
    }
    /// increments of several threads
    fn metrics_concurrent() {
        let ms = Metrics::<u8>::new();
        let r = ms.reader();
        let a = choice(2) as u8;
        for _ in 0..2 {
            let w = ms.writer();
            spawn(move || {
                check(w.increment(0), "a counter is written");
                check(w.increment(a), "a counter is written");
            });
        }
        let w = ms.writer();
        w.increment(0);
        let early = r.counter(&0).unwrap_or(0);
        check(early >= 1, "an increment is seen at once");
        join();
        let n = if a == 0 { 5 } else { 3 };
        check(early <= n, "nothing is counted twice");
        check(r.counter(&0) == Some(n), "no increment is lost");
        check(r.counter(&1) == if a == 1 { Some(2) } else { None }, "no increment is lost");
        cover("concurrent");
    }
    /// gauges of several threads
    fn metrics_concurrent_gauge() {
        let ms = Metrics::<u8>::new();
        let (x, y) = (sym_u64(), sym_u64());
        let w = ms.writer();
        spawn(move || {
            w.gauge(7, x);
        });
        let w = ms.writer();
        w.gauge(7, y);
        let seen = ms.reader().gauge(&7);
        join();
        let last = ms.reader().gauge(&7);
        check((seen == Some(x)) | (seen == Some(y)), "a gauge is a value that was written");
        check((last == Some(x)) | (last == Some(y)), "a gauge is a value that was written");
        cover("concurrent");
    }

    /// every history of starts and ends
    fn sessions_history() {
        let hop = Hop::new();
        let mut mgr = hop.sessions().clone();
        let mut live: Vec<u32> = vec![];
        let mut ended: Vec<u32> = vec![];
        let mut n = [0u64; 2];
        for _ in 0..if deep() { 6 } else { 5 } {
            match choice(4) {
                0 | 1 => {
                    let t = sym_u8();
                    let (id, key, token) = {
                        let r = mgr.add([t; 32]);
                        (r.value().id, *r.key(), r.value().client_token)
                    };
                    check(id == key, "a session is kept under its id");
                    check(token[0] == t && token[31] == t, "a session has its token");
                    check(!live.contains(&id) && !ended.contains(&id), "an id is new");
                    live.push(id);
                    n[0] += 1;
                }
                2 => {
                    let there = !live.is_empty();
                    let id = if there { live.remove(choice(live.len())) } else { 7 };
                    check(mgr.remove(id) == there, "an existing session is ended");
                    if there {
                        ended.push(id);
                        n[1] += 1;
                    }
                }
                _ => {
                    let id = if ended.is_empty() { 9 } else { ended[choice(ended.len())] };
                    check(!mgr.remove(id), "an ended session can't be ended again");
                }
            }
            let c = stats4(&hop);
            check(c[0] == n[0] && c[1] == n[1], "starts and ends are counted");
        }
        check_stats(&hop, [0, 0, n[0], n[1]]);
        cover("history");
    }
    /// any id
    fn sessions_any_id() {
        let hop = Hop::new();
        let mut mgr = hop.sessions().clone();
        let a = mgr.add([1; 32]).value().id;
        let b = mgr.add([2; 32]).value().id;
        let x = sym_u32();
        let there = (x == a) | (x == b);
        check(mgr.remove(x) == there, "exactly existing sessions are ended");
        check(!mgr.remove(x), "a session ends once");
        check(mgr.remove(a) == (x != a), "the others stay");
        check(mgr.remove(b) == (x != b), "the others stay");
        cover("any");
    }
    /// starts and ends of several threads
    fn sessions_concurrent() {
        let hop = Hop::new();
        let ids = Rc::new([Cell::new(u32::MAX), Cell::new(u32::MAX), Cell::new(u32::MAX)]);
        let ends = choice(3);
        for i in 0..2 {
            let (mut mgr, ids) = (hop.sessions().clone(), ids.clone());
            spawn(move || {
                let id = mgr.add([i as u8; 32]).value().id;
                ids[i].set(id);
                if ends > i {
                    check(mgr.remove(id), "an own session is ended");
                }
            });
        }
        let id = hop.sessions().clone().add([2; 32]).value().id;
        ids[2].set(id);
        join();
        let v: Vec<u32> = ids.iter().map(|c| c.get()).collect();
        check(v[0] != v[1] && v[0] != v[2] && v[1] != v[2], "ids are distinct");
        let c = stats4(&hop);
        check(c[0] == 3 && c[1] == ends as u64, "starts and ends are counted");
        for i in 0..3 {
            let ended = i < 2 && ends > i;
            check(hop.sessions().remove(v[i]) != ended, "exactly the sessions that were not ended are there");
        }
        cover("concurrent");
    }
    /// two threads end the same session
    fn sessions_end_twice() {
        let hop = Hop::new();
        let id = hop.sessions().clone().add([0; 32]).value().id;
        let other = hop.sessions().clone();
        let r = Rc::new(Cell::new(false));
        let r2 = r.clone();
        spawn(move || r2.set(other.remove(id)));
        let mine = hop.sessions().remove(id);
        join();
        check(mine != r.get(), "one of them ends it");
        check(stats4(&hop) == [1, 1], "the end is counted once");
        cover("twice");
    }

    /// every history of subscriptions
    fn pubsub_history() {
        let p = PubSubManager::default();
        let mut m = Subs { on: [[false; 2]; 2], weak: [[None, None], [None, None]] };
        for _ in 0..if deep() { 5 } else { 4 } {
            let (s, k) = (choice(2), choice(2));
            match choice(3) {
                0 => {
                    let r = p.subscribe(keyname(k), sid(s as u32));
                    check(r.is_some() != m.on[s][k], "a new subscription is made exactly if there is none");
                    if let Some(w) = r {
                        check(w.upgrade().is_some(), "a new subscription lives");
                        m.weak[s][k] = Some(w);
                        m.on[s][k] = true;
                    }
                }
                1 => {
                    check(p.unsubscribe(&keyname(k), sid(s as u32)) == m.on[s][k], "an existing subscription is ended");
                    m.on[s][k] = false;
                }
                _ => {
                    check(p.remove_session(sid(s as u32)) == m.any(s), "the subscriptions of a session are ended");
                    m.on[s] = [false; 2];
                }
            }
        }
        agree_subs(&p, &m);
        cover("history");
    }
    /// any keys and sessions
    fn pubsub_any() {
        let p = PubSubManager::default();
        let (a, b) = (sym_u32(), sym_u32());
        let (x, y) = (bytes(range(0, 2)), bytes(range(0, 2)));
        check(p.subscribe(x.clone(), sid(a)).is_some(), "the first subscription is made");
        let same = (a == b) & eq(&x, &y);
        check(p.get(&y, sid(b)).is_some() == same, "exactly the subscription is found");
        check(p.subscribe(y.clone(), sid(b)).is_none() == same, "a second one is made unless it is the same");
        match choice(3) {
            0 => check(p.unsubscribe(&x, sid(a)), "it is ended"),
            _ => check(p.remove_session(sid(a)), "the session's are ended"),
        }
        check(p.get(&x, sid(a)).is_none(), "an ended subscription is not found");
        cover("any");
    }
    /// channels of removed sessions are closed, others not
    fn pubsub_close() {
        let p = PubSubManager::default();
        let subs: Vec<Arc<Subscription>> = (0..4)
            .map(|i| p.subscribe(keyname(i % 2), sid(i as u32 / 2)).and_then(|w| w.upgrade()).unwrap())
            .collect();
        let s = choice(2);
        check(p.remove_session(sid(s as u32)), "the session is removed");
        for (i, x) in subs.iter().enumerate() {
            let closed = matches!(x.receiver().try_receive(), Err(e) if e.is_closed());
            check(closed == (i / 2 == s), "exactly the channels of the removed session are closed");
        }
        cover("closed");
    }
    /// the same while something is being sent, or after something was sent
    fn pubsub_close_pending() {
        let p = PubSubManager::default();
        let subs: Vec<Arc<Subscription>> =
            (0..2).map(|i| p.subscribe(keyname(0), sid(i as u32)).and_then(|w| w.upgrade()).unwrap()).collect();
        let x = sym_u8();
        let update = || KeyUpdate::Renamed { to: vec![x] };
        let (tx, rx) = (subs[0].sender(), subs[0].receiver());
        let mut sending = Box::pin(tx.send(update()));
        let first = poll(&mut sending);
        let sent = match choice(2) {
            0 => false,
            _ => {
                check(matches!(rx.try_receive(), Ok(KeyUpdate::Renamed { to }) if eq(&to, &[x])), "what is sent is received");
                check(matches!(poll(&mut sending), Some(Ok(()))), "sending succeeds when it was received");
                true
            }
        };
        check(first.is_none(), "sending waits for the receiver");
        check(p.remove_session(sid(0)), "the session is removed");
        if !sent {
            // what was being sent may still be received, but then it's closed
            if rx.try_receive().is_ok() {
                cover("received");
            }
        }
        check(matches!(rx.try_receive(), Err(e) if e.is_closed()), "the channel of the removed session is closed");
        check(matches!(poll(&mut Box::pin(tx.send(update()))), Some(Err(_))), "nothing can be sent any more");
        check(matches!(subs[1].receiver().try_receive(), Err(e) if !e.is_closed()), "the others are not closed");
        cover("pending");
    }
    /// two threads subscribe and unsubscribe
    fn pubsub_concurrent() {
        let p = PubSubManager::default();
        let pre = choice(2) == 1;
        if pre {
            check(p.subscribe(keyname(0), sid(0)).is_some(), "a subscription is made");
        }
        let r = Rc::new(Cell::new(9usize));
        let act = |p: &PubSubManager, o: usize, s: u32| match o {
            0 => p.subscribe(keyname(0), sid(s)).is_some() as usize,
            1 => p.unsubscribe(&keyname(0), sid(s)) as usize,
            _ => p.remove_session(sid(s)) as usize,
        };
        let (a, b) = (choice(3), choice(3));
        let t = choice(2) as u32;
        let (p2, r2) = (p.clone(), r.clone());
        spawn(move || r2.set(act(&p2, b, t)));
        let x = act(&p, a, 0);
        join();
        let y = r.get();
        // one after the other, in either order
        let seq = |first: (usize, u32), second: (usize, u32)| {
            let mut on = [pre, false];
            let mut res = [0; 2];
            for (i, (o, s)) in [first, second].iter().enumerate() {
                let s = *s as usize;
                res[i] = match o {
                    0 => !on[s],
                    _ => on[s],
                } as usize;
                on[s] = *o == 0;
            }
            (res, on)
        };
        let (r1, on1) = seq((a, 0), (b, t));
        let (r2, on2) = seq((b, t), (a, 0));
        let now = [p.get(&keyname(0), sid(0)).is_some(), p.get(&keyname(0), sid(1)).is_some()];
        let one = r1 == [x, y] && on1 == now;
        let two = r2 == [y, x] && on2 == now;
        note(x as u64 * 2 + y as u64);
        check(one || two, "the outcome is that of some order");
        for s in 0..2 {
            check(p.unsubscribe(&keyname(0), sid(s)) == now[s as usize], "what is found can be ended, and nothing else");
        }
        cover("concurrent");
    }

    /// every clock reading
    fn timer_duration() {
        clock_on();
        let mut t = Timer::new();
        check(!t.is_running() && t.duration().is_none(), "a new timer doesn't run");
        check(t.stop().is_none(), "a new timer can't be stopped");
        check(t.start(), "a new timer is started");
        let a = last_reading();
        check(t.is_running() && t.duration().is_none(), "a started timer runs");
        let d = t.stop();
        let b = last_reading();
        check(!t.is_running(), "a stopped timer doesn't run");
        match (&d, t.duration()) {
            (Some(x), Some(y)) => {
                check(is_difference(x, a, b), "the duration is the difference of the clock readings");
                check(*x == y, "the duration stays");
            }
            _ => check(false, "a stopped timer has a duration"),
        }
        check(t.stop().is_none(), "a stopped timer can't be stopped again");
        match t.duration() {
            Some(x) => check(is_difference(&x, a, b), "the duration stays"),
            None => check(false, "the duration stays"),
        }
        cover("stopped");
    }
    /// every order of calls
    fn timer_history() {
        clock_on();
        let mut t = Timer::new();
        let (mut start, mut stop): (Option<(i64, i64)>, Option<(i64, i64)>) = (None, None);
        for _ in 0..if deep() { 6 } else { 5 } {
            match choice(4) {
                0 => {
                    check(t.start() == start.is_none(), "a timer is started unless it was");
                    if start.is_none() {
                        start = Some(last_reading());
                    }
                }
                1 => {
                    let d = t.stop();
                    check(d.is_some() == (start.is_some() && stop.is_none()), "a running timer is stopped");
                    if let Some(d) = d {
                        let now = last_reading();
                        check(is_difference(&d, start.unwrap(), now), "the duration is the difference of the clock readings");
                        stop = Some(now);
                    }
                }
                2 => {
                    t.reset();
                    start = None;
                    stop = None;
                    check(t == Timer::new(), "a timer that was reset is as new");
                }
                _ => {
                    let u = t.clone();
                    check(u == t, "a copy is the same timer");
                    t = u;
                }
            }
            check(t.is_running() == (start.is_some() && stop.is_none()), "a timer runs from start to stop");
            match (t.duration(), start, stop) {
                (Some(d), Some(a), Some(b)) => check(is_difference(&d, a, b), "the duration is the difference of the clock readings"),
                (d, _, b) => check(d.is_none() && b.is_none(), "a duration is there after stopping"),
            }
        }
        cover("history");
    }
}
