//! The server's main function over a network that the harness drives.
use super::m::*;
use super::server;
use super::u::*;
use hs::*;
use std::future::Future;
use std::io::ErrorKind;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::pin::Pin;
use tokio::model::{conn, poll, poll_task, world, Conn};

type Main = Pin<Box<dyn Future<Output = Result<(), Box<dyn std::error::Error>>>>>;

fn c(i: usize) -> &'static mut Conn {
    &mut world().conns[i]
}
/// A server with `n` connections waiting, and maybe more to come.
fn start(n: usize) -> Main {
    for _ in 0..n {
        let i = conn();
        world().incoming.push_back(Ok(i));
    }
    world().more_incoming = true;
    let mut f: Main = Box::pin(server::main());
    check(poll(f.as_mut()).is_pending(), "the server goes on serving");
    check(world().tasks.len() == n, "every connection is served");
    f
}
/// Something arrives.
fn arrive(i: usize, piece: &[u8]) {
    if !piece.is_empty() {
        c(i).pieces.push_back(piece.to_vec());
    }
}
/// The task runs until it needs something. It must not have ended.
fn run(i: usize) {
    check(!poll_task(i), "the connection stays open");
    check(c(i).open_halves > 0 && !c(i).shut, "the connection stays open");
}
fn ends(i: usize) {
    check(poll_task(i), "the connection ends");
    check(c(i).open_halves == 0, "the connection is closed");
}

pub enum Want {
    Out(Out),
    Parse(u8),
}
/// What the reference answers to everything that is complete in a stream.
fn answer(m: &mut M, raw: &[u8]) -> (Vec<Want>, usize) {
    let mut out = vec![];
    let mut at = 0;
    while at < raw.len() {
        match request_reference(&raw[at..]) {
            ReqRef::Incomplete => break,
            ReqRef::BadCommand => {
                out.push(Want::Parse(0));
                at = raw.len();
            }
            ReqRef::BadKeyType => {
                out.push(Want::Parse(1));
                at = raw.len();
            }
            ReqRef::Done { cmd, kt, args, len } => {
                out.push(Want::Out(apply(m, cmd, kt, &args)));
                at += len;
            }
        }
    }
    (out, at)
}
/// The bytes are the frames wanted, no more and no less.
fn check_answers(written: &[u8], want: &[Want]) {
    let mut at = 0;
    for w in want {
        if written.len() < at + 5 {
            check(false, "a request is answered");
            return;
        }
        let n = u32::from_be_bytes([written[at], written[at + 1], written[at + 2], written[at + 3]]);
        let n = concretize(n as u64) as usize;
        if n == 0 || written.len() - at - 4 < n {
            check(false, "an answer is a whole frame");
            return;
        }
        let f = &written[at..at + 4 + n];
        at += 4 + n;
        match w {
            Want::Parse(code) => {
                check(eq(f, &frame(&R::Parse(*code))), "what is no request is answered with the parse error");
                cover("parse error");
            }
            Want::Out(o) => {
                let got = if f[4] == 9 && f.len() == 6 { Err(f[5]) } else { Ok(f.to_vec()) };
                check_out(o, &got);
            }
        }
    }
    check(at == written.len(), "nothing else is sent");
}

/// Requests of different kinds, some of them refused.
fn any_request(k: &[u8]) -> Vec<u8> {
    match choice(6) {
        0 => wire(INCR, NONE, &[k.to_vec()]),
        1 => wire(C_GET, NONE, &[bytes(1)]),
        2 => wire(C_SET, BYTES, &[k.to_vec(), bytes(range(0, 2))]),
        3 => wire(ECHO, NONE, &[bytes(2), bytes(1)]),
        4 => wire(C_DELETE, NONE, &[k.to_vec()]),
        _ => wire(INCR, STRING, &[vec![]]),
    }
}

fn stream(n: usize, cuts: usize) {
    let _f = start(1);
    let k = bytes(1);
    let mut raw = vec![];
    for _ in 0..n {
        raw.extend(any_request(&k));
    }
    let mut m = M(vec![]);
    c(0).write_max = [usize::MAX, 1, 5][choice(3)];
    let mut at = 0;
    let mut seen = 0;
    let mut want = vec![];
    for i in 0..=cuts {
        let to = if i == cuts { raw.len() } else { range(at, raw.len()) };
        arrive(0, &raw[at..to]);
        at = to;
        // pieces may arrive while the task waits, or before it gets to run
        if i == cuts || choice(2) == 0 {
            run(0);
            let (w, len) = answer(&mut m, &raw[seen..to]);
            want.extend(w);
            seen += len;
            check_answers(&c(0).written, &want);
        }
    }
    check(seen == raw.len(), "everything is answered");
    note(c(0).written.len() as u64);
    c(0).eof = true;
    ends(0);
    cover("stream");
}

static mut ENV: [Option<Vec<u8>>; 2] = [None, None];
/// The environment of the server.
#[no_mangle]
extern "C" fn getenv(name: *const std::os::raw::c_char) -> *const std::os::raw::c_char {
    let n = unsafe { std::ffi::CStr::from_ptr(name) }.to_bytes();
    let i = match n {
        b"HOST" => 0,
        b"PORT" => 1,
        _ => return std::ptr::null(),
    };
    match unsafe { &*std::ptr::addr_of!(ENV[i]) } {
        Some(v) => v.as_ptr() as _,
        None => std::ptr::null(),
    }
}
fn set_env(i: usize, v: &[u8]) {
    let mut v = v.to_vec();
    v.push(0);
    unsafe { ENV[i] = Some(v) }
}
/// A decimal number, if these are digits.
fn number(b: &[u8]) -> Option<u64> {
    if b.is_empty() {
        return None;
    }
    let mut n = 0u64;
    for x in b {
        if !(*x >= b'0' && *x <= b'9') {
            return None;
        }
        n = n * 10 + (*x - b'0') as u64;
    }
    Some(n)
}
const DEFAULT_HOST: IpAddr = IpAddr::V4(Ipv4Addr::new(0, 0, 0, 0));
const DEFAULT_PORT: u16 = 46733;
fn bound(host: IpAddr, port: u16) {
    let mut f: Main = Box::pin(server::main());
    world().more_incoming = true;
    check(poll(f.as_mut()).is_pending(), "the server serves");
    let b = &world().bound;
    check(b.len() == 1, "one address is bound");
    check(b[0].ip() == host, "the host is as configured");
    check(b[0].port() == port, "the port is as configured");
    note(b[0].port() as u64);
    check(matches!(b[0], SocketAddr::V4(_)) == host.is_ipv4(), "the kind of address is as configured");
}
/// `n` bytes of text, as a variable can have them.
fn text(n: usize) -> Vec<u8> {
    let b = bytes(n);
    for x in &b {
        assume(*x != 0);
    }
    b
}

harnesses! {
    fn server_port() {
        let v = match choice(5) {
            0 => {
                bound(DEFAULT_HOST, DEFAULT_PORT);
                cover("unset");
                return;
            }
            1 => text(range(0, 2 + deep() as usize)),
            2 => [&b"6553"[..], &text(1)].concat(),
            3 => [&b"4673"[..], &text(range(0, 2))].concat(),
            _ => [&b"1844674407370955"[..], &text(1)].concat(),
        };
        set_env(1, &v);
        let digits = if v.len() > 1 && v[0] == b'+' { &v[1..] } else { &v[..] };
        let port = match number(digits) {
            Some(n) if n < 65536 => {
                cover("port");
                n as u16
            }
            _ => {
                cover("no port");
                DEFAULT_PORT
            }
        };
        bound(DEFAULT_HOST, port);
    }
    fn server_host() {
        let host = match choice(5) {
            0 => {
                set_env(0, b"::1");
                cover("v6");
                IpAddr::V6(std::net::Ipv6Addr::LOCALHOST)
            }
            1 => {
                set_env(0, b"localhost");
                cover("no host");
                DEFAULT_HOST
            }
            2 => {
                set_env(0, &text(range(0, 2)));
                match unsafe { &*std::ptr::addr_of!(ENV[0]) } {
                    Some(v) if eq(v, b"::\0") => IpAddr::V6(std::net::Ipv6Addr::UNSPECIFIED),
                    _ => DEFAULT_HOST,
                }
            }
            _ => {
                let first = choice(2) == 0;
                let x = text(range(1, 2 + deep() as usize));
                for b in &x {
                    assume(*b != b':');
                }
                let v = if first { [&x[..], b".0.0.1"].concat() } else { [b"127.0.0.", &x[..]].concat() };
                set_env(0, &v);
                match number(&x) {
                    Some(n) if n < 256 && (x.len() == 1 || x[0] != b'0') => {
                        cover("v4");
                        IpAddr::V4(if first { Ipv4Addr::new(n as u8, 0, 0, 1) } else { Ipv4Addr::new(127, 0, 0, n as u8) })
                    }
                    _ => {
                        cover("no v4");
                        DEFAULT_HOST
                    }
                }
            }
        };
        bound(host, DEFAULT_PORT);
    }
    fn server_stream() {
        if deep() {
            stream(2, 2)
        } else {
            stream(range(1, 2), 1)
        }
    }
    fn server_pipeline() {
        // requests sent at once, and the end of the input along with them
        let _f = start(1);
        let k = bytes(1);
        let n = range(1, 2 + deep() as usize);
        let mut raw = vec![];
        for _ in 0..n {
            raw.extend(any_request(&k));
        }
        let mut m = M(vec![]);
        let (want, _) = answer(&mut m, &raw);
        check(want.len() == n, "complete requests");
        arrive(0, &raw);
        c(0).eof = true;
        ends(0);
        check_answers(&c(0).written, &want);
        note(c(0).written.len() as u64);
        cover("pipeline");
    }
    fn server_any_bytes() {
        let _f = start(1);
        let n = range(1, if deep() { 5 } else { 4 });
        let raw = bytes(n);
        let mut m = M(vec![]);
        let cut = range(0, raw.len() - 1);
        arrive(0, &raw[..cut]);
        run(0);
        let (mut want, len) = answer(&mut m, &raw[..cut]);
        check_answers(&c(0).written, &want);
        arrive(0, &raw[cut..]);
        run(0);
        let (more, _) = answer(&mut m, &raw[len..]);
        want.extend(more);
        check_answers(&c(0).written, &want);
        // it can still be used when nothing is left half done
        note(want.len() as u64);
        cover("bytes");
    }
    fn server_after_parse_error() {
        // no request, and what came with it is dropped; the next is served
        let _f = start(1);
        let bad = bytes(range(1, 2));
        let code = match request_reference(&bad) {
            ReqRef::BadCommand => 0,
            ReqRef::BadKeyType => 1,
            _ => {
                assume(false);
                2
            }
        };
        let mut raw = bad;
        raw.extend(bytes(range(0, 3)));
        arrive(0, &raw);
        run(0);
        let mut want = vec![Want::Parse(code)];
        check_answers(&c(0).written, &want);
        let mut m = M(vec![]);
        let k = bytes(1);
        let next = any_request(&k);
        let (more, _) = answer(&mut m, &next);
        want.extend(more);
        let cut = range(0, next.len());
        arrive(0, &next[..cut]);
        arrive(0, &next[cut..]);
        run(0);
        check_answers(&c(0).written, &want);
        cover("goes on");
    }
    fn server_two() {
        // two connections on one store, in any order
        let _f = start(2);
        let k = [bytes(1), bytes(1)];
        let raw = [wire(INCR, NONE, &[k[0].clone()]), wire(DECR, NONE, &[k[1].clone()])];
        let mut m = M(vec![]);
        let mut at = [0usize; 2];
        let mut want: [Vec<Want>; 2] = [vec![], vec![]];
        let cut = [range(1, raw[0].len() - 1), range(1, raw[1].len() - 1)];
        for _ in 0..4 {
            let i = choice(2);
            let to = if at[i] == 0 { cut[i] } else { raw[i].len() };
            if at[i] == to {
                assume(false);
            }
            arrive(i, &raw[i][at[i]..to]);
            at[i] = to;
            run(i);
            if to == raw[i].len() {
                want[i] = answer(&mut m, &raw[i]).0;
            }
            check_answers(&c(0).written, &want[0]);
            check_answers(&c(1).written, &want[1]);
        }
        for i in 0..2 {
            check(want[i].len() == 1, "both are answered");
            c(i).eof = true;
            ends(i);
        }
        cover("two");
    }
    fn server_failing() {
        // a connection that fails at any point is of no concern to others
        let mut f = start(2);
        let k = bytes(1);
        let raw = wire(INCR, NONE, &[k.clone()]);
        let cut = range(0, raw.len());
        arrive(0, &raw[..cut]);
        let done = cut == raw.len();
        let mut counted = done;
        match choice(4) {
            0 => {
                c(0).eof = true;
                ends(0);
                check_answers(&c(0).written, &answer(&mut M(vec![]), &raw[..cut]).0);
                cover("end of input");
            }
            1 => {
                c(0).read_error = Some(ErrorKind::ConnectionReset);
                ends(0);
                cover("read error");
            }
            2 => {
                c(0).write_error = Some((range(0, 12), ErrorKind::BrokenPipe));
                if done {
                    ends(0);
                } else {
                    run(0);
                }
                cover("write error");
            }
            _ => {
                // it doesn't take its answer
                c(0).write_room = range(0, 12);
                run(0);
                counted = done;
                if done {
                    check(c(0).written.len() + c(0).write_room <= 12, "no more is sent than is taken");
                    c(0).write_room = usize::MAX;
                    run(0);
                    check_answers(&c(0).written, &answer(&mut M(vec![]), &raw).0);
                }
                cover("slow");
            }
        }
        // one more connection
        let n = conn();
        world().incoming.push_back(Ok(n));
        check(poll(f.as_mut()).is_pending(), "the server goes on serving");
        check(world().tasks.len() == 3, "every connection is served");
        let mut m = M(vec![]);
        if counted {
            apply(&mut m, INCR, NONE, &[k.clone()]);
        }
        for i in 1..3 {
            arrive(i, &raw);
            run(i);
            let want = answer(&mut m, &raw).0;
            check_answers(&c(i).written, &want);
        }
        cover("others");
    }
    fn server_accept_error() {
        // a connection that was gone before it was accepted
        let kind = [ErrorKind::ConnectionAborted, ErrorKind::Other, ErrorKind::ConnectionReset][choice(3)];
        let before = range(0, 1);
        for _ in 0..before {
            let i = conn();
            world().incoming.push_back(Ok(i));
        }
        world().incoming.push_back(Err(kind.into()));
        let i = conn();
        world().incoming.push_back(Ok(i));
        world().more_incoming = true;
        let mut f: Main = Box::pin(server::main());
        check(poll(f.as_mut()).is_pending(), "the server goes on serving");
        check(world().tasks.len() == before + 1, "every connection is served");
        let raw = wire(INCR, NONE, &[bytes(1)]);
        arrive(before, &raw);
        run(before);
        check_answers(&c(before).written, &answer(&mut M(vec![]), &raw).0);
        cover("served");
    }
    fn server_large() {
        // requests and responses larger than a read
        let _f = start(1);
        let len = [4080usize, 4096, 5000, 9000, 65530, 65536, 70000][choice(7)];
        let k = bytes(1);
        let mut v = vec![7u8; len];
        v[0] = sym_u8();
        v[len - 1] = sym_u8();
        let mut raw = wire(C_SET, BYTES, &[k.clone(), v.clone()]);
        raw.extend(wire(C_GET, NONE, &[k.clone()]));
        raw.extend(wire(INCR, NONE, &[vec![k[0] ^ 1]]));
        arrive(0, &raw);
        c(0).write_room = [0, 1000, len + 20][choice(3)];
        run(0);
        c(0).write_room = usize::MAX;
        c(0).write_max = 4000;
        run(0);
        let (want, n) = answer(&mut M(vec![]), &raw);
        check(n == raw.len(), "everything is answered");
        let mut all = vec![];
        for w in &want {
            if let Want::Out(Out::Ok(v)) = w {
                all.extend(frame(&R::Val(v.clone())));
            }
        }
        check(eq(&c(0).written, &all), "the answers");
        cover("large");
    }
    fn server_full_reads() {
        // requests that end where a read ends, or next to it
        let _f = start(1);
        let k = bytes(1);
        let mut m = M(vec![]);
        let mut want = vec![];
        if choice(2) == 1 {
            // what comes before may change how much is read next
            let raw = wire(ECHO, NONE, &[k.clone(), vec![7; [1usize, 5000][choice(2)]]]);
            arrive(0, &raw);
            want.extend(answer(&mut m, &raw).0);
        }
        run(0);
        check_answers(&c(0).written, &want);
        let max = c(0).read_size;
        check(max > 0, "the server waits for input");
        // (a server may read as much as it likes: then this is only a large request)
        let max = if max > 20000 || max < 64 { 20000 } else { max };
        let len = [max - 1, max, max + 1, 2 * max, 2 * max + 1][choice(5)];
        let raw = match choice(3) {
            0 => wire(C_SET, BYTES, &[k.clone(), vec![k[0]; len - 12]]),
            1 => {
                // many requests
                let mut raw = vec![];
                let one = wire(INCR, NONE, &[k.clone()]);
                while raw.len() + 2 * one.len() + 20 <= len {
                    raw.extend_from_slice(&one);
                }
                let rest = len - raw.len() - 11;
                raw.extend(wire(ECHO, NONE, &[k.clone(), vec![k[0]; rest]]));
                raw
            }
            _ => wire(ECHO, NONE, &[vec![k[0]; len - 6]]),
        };
        check(raw.len() == len, "the harness made as many bytes");
        let cut = [0, 1, len / 2][choice(3)];
        arrive(0, &raw[..cut]);
        let mut seen = 0;
        if cut > 0 {
            run(0);
            let (w, n) = answer(&mut m, &raw[..cut]);
            want.extend(w);
            seen = n;
            check_answers(&c(0).written, &want);
        }
        arrive(0, &raw[cut..]);
        run(0);
        let (w, n) = answer(&mut m, &raw[seen..]);
        check(seen + n == len, "the requests are complete");
        want.extend(w);
        check_answers(&c(0).written, &want);
        // and the connection still works
        let raw = wire(INCR, NONE, &[k.clone()]);
        arrive(0, &raw);
        run(0);
        want.extend(answer(&mut m, &raw).0);
        check_answers(&c(0).written, &want);
        cover("goes on");
    }
    fn server_many_requests() {
        // many requests and answers on one connection
        let n = if deep() { 600usize } else { 300 };
        let _f = start(1);
        let k = bytes(1);
        let x = sym_u8();
        let how = choice(3);
        let odd = [0, 1, 255, n - 1][choice(4)];
        let mut raw = vec![];
        for i in 0..n {
            let r = match if i == odd { 5 } else { i % 5 } {
                0 => wire(INCR, NONE, &[k.clone()]),
                1 => wire(ECHO, NONE, &[vec![x, i as u8], vec![x; 1 + i % 40]]),
                2 => wire(C_GET, NONE, &[k.clone()]),
                3 => wire(C_EXISTS, NONE, &[k.clone()]),
                4 => wire(DECR_BY, INT, &[k.clone(), (i as i64).to_be_bytes().to_vec()]),
                _ => wire(INCR, STRING, &[vec![]]),
            };
            if how == 0 {
                arrive(0, &r);
                run(0);
            }
            raw.extend(r);
        }
        if how == 1 {
            arrive(0, &raw);
        } else if how == 2 {
            let mut at = 0;
            while at < raw.len() {
                let m = 97.min(raw.len() - at);
                arrive(0, &raw[at..at + m]);
                run(0);
                at += m;
            }
        }
        run(0);
        let (want, m) = answer(&mut M(vec![]), &raw);
        check(m == raw.len() && want.len() == n, "everything is answered");
        check_answers(&c(0).written, &want);
        cover("many");
    }
    fn server_many_connections() {
        // many connections, some of which end
        let n = if deep() { 520usize } else { 270 };
        let k = bytes(1);
        let _f = start(n);
        let gone = [0, 1, 255, n - 1][choice(4)];
        c(gone).eof = true;
        ends(gone);
        for i in 0..n {
            if i != gone {
                arrive(i, &wire(INCR, NONE, &[k.clone()]));
                run(i);
            }
        }
        let mut v = 0i64;
        for i in 0..n {
            if i == gone {
                check(c(i).written.is_empty(), "nothing is sent to who asked nothing");
            } else {
                v += 1;
                check(eq(&c(i).written, &frame(&R::Val(V::Int(v)))), "the counter is shared by all connections");
            }
        }
        cover("many");
    }
    fn server_bind_error() {
        world().bind_error = Some(ErrorKind::AddrInUse);
        let mut f: Main = Box::pin(server::main());
        match poll(f.as_mut()) {
            std::task::Poll::Ready(Err(_)) => cover("refused"),
            _ => check(false, "the error is returned"),
        }
        check(world().tasks.is_empty(), "nothing is served");
    }
}
