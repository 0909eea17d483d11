//! The command line program, over standard input and output that the harness drives.
use super::cli::{line, out};
use super::mem::client;
use super::shell_main;
use super::u::*;
use hop::backend::MemoryBackend;
use hop::Client;
use hs::*;
use std::io::ErrorKind;
use tokio::model::{conn, world, Conn};

/// What is typed and what has to be answered.
struct Session {
    /// Pieces that are yet to arrive, and the lines that are complete with them.
    pieces: Vec<(Vec<u8>, Vec<Vec<u8>>)>,
    /// Another client that is given the same lines.
    reference: &'static Client<MemoryBackend>,
    /// For each line its output; none: a line that is no command.
    want: Vec<Option<Vec<u8>>>,
    eof: bool,
    /// The last line, when it has no end.
    last: Option<Vec<u8>>,
    /// The input or the output fails.
    fails: bool,
}
static mut SESSION: Option<Session> = None;
fn session() -> &'static mut Session {
    unsafe { (*core::ptr::addr_of_mut!(SESSION)).as_mut().unwrap() }
}
fn stdio() -> &'static mut Conn {
    let w = world();
    let i = w.stdio.unwrap();
    &mut w.conns[i]
}

/// A word that no space is part of.
fn word() -> Vec<u8> {
    vec![(sym_u8() & 0x1f) | 0x40, (sym_u8() & 0x0f) | 0x30]
}

/// The output so far: for each line a prompt and its output, then a prompt.
fn check_output(s: &[u8], want: &[Option<Vec<u8>>], last: bool) {
    let mut at = 0;
    for w in want {
        check(s.len() >= at + 2 && &s[at..at + 2] == b"> ", "there is a prompt for every line");
        at += 2;
        match w {
            Some(t) => {
                let n = t.len();
                let ok = s.len() > at + n && eq(&s[at..at + n], t) && s[at + n] == b'\n';
                check(ok, "a line is answered with its output");
                at += n + 1;
            }
            None => {
                let from = at;
                while at < s.len() && s[at] != b'\n' {
                    at += 1;
                }
                check(at < s.len() && at > from, "a line that is no command is answered with what is wrong");
                at += 1;
            }
        }
    }
    check(s.len() >= at + 2 && &s[at..at + 2] == b"> ", "there is a prompt for the next line");
    at += 2;
    check(s.len() == at || (last && s.len() == at + 1 && s[at] == b'\n'), "nothing else is shown");
}

/// There is nothing to do until more is typed.
fn idle() {
    let s = session();
    let c = stdio();
    if !s.fails {
        check_output(&c.written[..c.visible], &s.want, false);
    }
    check(!s.eof, "the program ends with its input");
    type_next();
}
fn type_next() {
    let s = session();
    if s.pieces.is_empty() {
        if let Some(l) = s.last.take() {
            s.want.push(out(s.reference, &l));
        }
        s.eof = true;
        stdio().eof = true;
        return;
    }
    let (piece, ends) = s.pieces.remove(0);
    stdio().pieces.push_back(piece);
    for l in ends {
        s.want.push(out(s.reference, &l));
    }
}

fn start() -> &'static Client<MemoryBackend> {
    let w = world();
    w.stdio = Some(conn());
    w.idle = Some(Box::new(idle));
    let reference = client();
    unsafe { SESSION = Some(Session { pieces: vec![], reference, want: vec![], eof: false, last: None, fails: false }) };
    reference
}
fn finish() {
    let r = shell_main::main();
    check(r.is_ok(), "the end of the input is no error");
    let s = session();
    check(s.eof && s.pieces.is_empty(), "the program goes on until its input ends");
    let c = stdio();
    check_output(&c.written, &s.want, true);
    note_bytes(&c.written);
}

/// A line that is typed.
fn any_line(k: &[u8]) -> Vec<u8> {
    match choice(6) {
        0 => line(&[b"set:str", k, &word()]),
        1 => line(&[b"append:list", k, &word(), b"x"]),
        2 => line(&[b"get", k]),
        3 => line(&[b"increment", k]),
        4 => vec![],
        _ => line(&[b"ge", k]),
    }
}

fn ended(l: &[u8]) -> Vec<u8> {
    [l, [&b"\n"[..], b"\r\n", b" \t\n"][choice(3)]].concat()
}

harnesses! {
    fn shell_lines() {
        start();
        let k = word();
        for _ in 0..if deep() { 3 } else { 2 } {
            let l = any_line(&k);
            session().pieces.push(([&l[..], b"\n"].concat(), vec![l]));
        }
        stdio().write_max = [usize::MAX, 1][choice(2)];
        cover("lines");
        finish();
    }
    fn shell_pieces() {
        // a line may be typed in pieces, and several lines may arrive together
        start();
        let k = word();
        let l = any_line(&k);
        let p = ended(&l);
        let cut = range(0, p.len());
        let second = line(&[b"get", &k]);
        let q = [&second[..], b"\n"].concat();
        let s = session();
        let (a, b) = (p[..cut].to_vec(), p[cut..].to_vec());
        if cut == p.len() {
            s.pieces = vec![(a, vec![l]), (q, vec![second])];
            cover("one by one");
        } else {
            if cut > 0 {
                s.pieces.push((a, vec![]));
            }
            if choice(2) == 0 {
                s.pieces.push((b, vec![l]));
                s.pieces.push((q, vec![second]));
                cover("in pieces");
            } else {
                s.pieces.push(([b, q].concat(), vec![l, second]));
                cover("together");
            }
        }
        finish();
    }
    fn shell_last_line() {
        // the last line needs no end
        start();
        let k = word();
        let l = any_line(&k);
        let s = session();
        s.pieces.push((b"set:str k v\n".to_vec(), vec![b"set:str k v".to_vec()]));
        // without its end it is a line once the input ends
        if !l.is_empty() {
            s.last = Some(l.clone());
            s.pieces.push((l, vec![]));
            cover("unended");
        }
        finish();
    }
    fn shell_long_line() {
        // longer than any buffer
        start();
        let n = [8191usize, 8192, 8193, 20000][choice(4)];
        let mut l = b"set:str k ".to_vec();
        l.resize(l.len() + n, b'a');
        let i = 10 + [0, n / 2, n - 1][choice(3)];
        l[i] = (sym_u8() & 0x1f) | 0x40;
        let p = [&l[..], b"\n"].concat();
        let s = session();
        s.pieces.push((p, vec![l]));
        s.pieces.push((b"length:str k\n".to_vec(), vec![b"length:str k".to_vec()]));
        cover("long");
        finish();
    }
    fn shell_many_lines() {
        // one after the other, whatever they are
        start();
        let n = if deep() { 100 } else { 40 };
        for i in 0..n {
            let l: Vec<u8> = match i % 4 {
                0 => b"increment n".to_vec(),
                1 if i % 16 == 1 => line(&[b"set", b"n", &word()]),
                1 => b"get n".to_vec(),
                2 => b"x".to_vec(),
                _ => b"stats".to_vec(),
            };
            session().pieces.push(([&l[..], b"\n"].concat(), vec![l]));
        }
        cover("many");
        finish();
    }
    fn shell_failures() {
        // the input or the output fails
        start();
        let s = session();
        let l = line(&[b"echo", &word()]);
        s.pieces.push(([&l[..], b"\n"].concat(), vec![l]));
        s.fails = true;
        let c = stdio();
        if choice(2) == 0 {
            c.read_error = Some(ErrorKind::Other);
            c.pieces.push_back(s.pieces[0].0.clone());
            cover("input fails");
        } else {
            c.write_error = Some((range(0, 5), ErrorKind::BrokenPipe));
            cover("output fails");
        }
        check(shell_main::main().is_err(), "a failure is an error");
        check(s.want.len() <= 1, "the program ends with the failure");
    }
}
