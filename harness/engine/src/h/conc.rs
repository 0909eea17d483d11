//! Commands of several threads: responses and store are those of the same
//! commands one after another in some order.
use super::all::check_stats;
use super::m::*;
use super::u::*;
use hop_engine::Hop;
use hs::*;

type Got = Result<Vec<u8>, u8>;
#[derive(Clone)]
struct C {
    cmd: u8,
    kt: u8,
    args: Args,
}
fn c(cmd: u8, kt: u8, args: Args) -> C {
    C { cmd, kt, args }
}
fn same(a: &Got, b: &Got) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => eq(x, y),
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}
/// What is stored at the keys.
fn stored(hop: &Hop, keys: &[Vec<u8>]) -> Vec<Got> {
    keys.iter().map(|k| send(hop, C_GET, NONE, &[k.clone()])).collect()
}
/// Run the programs concurrently; the responses of each.
fn run(hop: &Hop, progs: &[Vec<C>]) -> Vec<Vec<Got>> {
    let out: &'static mut Vec<Vec<Got>> = Box::leak(Box::new(progs.iter().map(|_| vec![]).collect()));
    let p = out.as_mut_ptr();
    for (i, prog) in progs.iter().enumerate().skip(1) {
        let (hop, prog) = (hop.clone(), prog.clone());
        let slot = unsafe { p.add(i) };
        spawn(move || {
            for x in &prog {
                let r = send(&hop, x.cmd, x.kt, &x.args);
                unsafe { (*slot).push(r) };
            }
        });
    }
    for x in &progs[0] {
        let r = send(hop, x.cmd, x.kt, &x.args);
        unsafe { (*p).push(r) };
    }
    join();
    unsafe { std::slice::from_raw_parts(p, progs.len()) }.to_vec()
}
/// All orders of `n[i]` steps of thread `i`.
fn orders(n: &mut Vec<usize>, so_far: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    let mut last = true;
    for i in 0..n.len() {
        if n[i] > 0 {
            last = false;
            n[i] -= 1;
            so_far.push(i);
            orders(n, so_far, out);
            so_far.pop();
            n[i] += 1;
        }
    }
    if last {
        out.push(so_far.clone());
    }
}
/// The outcome is that of some order of the commands.
fn serial(m: &M, progs: &[Vec<C>], got: &[Vec<Got>], keys: &[Vec<u8>], after: &[Got]) -> bool {
    let mut all = vec![];
    orders(&mut progs.iter().map(|p| p.len()).collect(), &mut vec![], &mut all);
    let mut any = false;
    for o in &all {
        let hop = m.hop();
        let mut at = vec![0; progs.len()];
        let mut ok = true;
        for &t in o {
            let x = &progs[t][at[t]];
            ok &= same(&send(&hop, x.cmd, x.kt, &x.args), &got[t][at[t]]);
            at[t] += 1;
        }
        for (a, b) in stored(&hop, keys).iter().zip(after) {
            ok &= same(a, b);
        }
        any |= ok;
        if known(any) {
            break;
        }
    }
    any
}
fn kk() -> Vec<u8> {
    vec![b'k']
}
fn ll() -> Vec<u8> {
    vec![b'l']
}
fn concurrently(m: M, progs: Vec<Vec<C>>, keys: Vec<Vec<u8>>) {
    let hop = m.hop();
    let got = run(&hop, &progs);
    let mut wrong = 0;
    for (i, g) in got.iter().enumerate() {
        check(g.len() == progs[i].len(), "every command is answered");
        for r in g {
            wrong += r.is_err() as u64;
            note(match r {
                Ok(x) => x.len() as u64,
                Err(e) => 1000 + *e as u64,
            });
        }
    }
    let total: usize = progs.iter().map(|p| p.len()).sum();
    check_stats(&hop, [total as u64 - wrong, wrong, 0, 0]);
    let after = stored(&hop, &keys);
    check(serial(&m, &progs, &got, &keys, &after), "the outcome is that of some order of the commands");
    cover("concurrent");
}
fn start(kinds: &[u8]) -> M {
    let n = choice(kinds.len() + 1);
    M(if n == 0 { vec![] } else { vec![(kk(), any_value_of(kinds[n - 1]))] })
}
fn any_value_of(k: u8) -> V {
    match k {
        STRING => V::Str(vec![b's']),
        BYTES => V::Bytes(bytes(1)),
        LIST => V::List(vec![bytes(1)]),
        MAP => V::Map(vec![(bytes(1), bytes(1))]),
        SET => V::Set(vec![bytes(1)]),
        k => any_value(k, 1),
    }
}
fn amount() -> Vec<u8> {
    bytes(8)
}
/// A counter command on the key.
fn counter(kt: u8) -> C {
    match choice(4) {
        0 => c(INCR, kt, vec![kk()]),
        1 => c(DECR, kt, vec![kk()]),
        2 => c(INCR_BY, kt, vec![kk(), amount()]),
        _ => c(DECR_BY, kt, vec![kk(), amount()]),
    }
}
/// A command that changes the key, without looking its type up first.
fn write(i: usize) -> C {
    match i {
        0 => c(INCR, NONE, vec![kk()]),
        1 => c(DECR_BY, INT, vec![kk(), amount()]),
        2 => c(INCR, FLOAT, vec![kk()]),
        3 => c(C_SET, INT, vec![kk(), amount()]),
        4 => c(C_SET, BYTES, vec![kk(), bytes(1)]),
        5 => c(C_SET, LIST, vec![kk(), bytes(1), bytes(1)]),
        6 => c(C_DELETE, NONE, vec![kk()]),
        7 => c(C_APPEND, BYTES, vec![kk(), bytes(1), bytes(1)]),
        8 => c(C_APPEND, LIST, vec![kk(), bytes(1)]),
        9 => c(C_SET, STRING, vec![kk(), vec![b'x']]),
        10 => c(C_APPEND, STRING, vec![kk(), vec![b'y']]),
        11 => c(C_SET, MAP, vec![kk(), bytes(1), bytes(1)]),
        12 => c(C_SET, SET, vec![kk(), bytes(1)]),
        13 => c(C_SET, BOOL, vec![kk(), bytes(1)]),
        _ => c(C_SET, FLOAT, vec![kk(), amount()]),
    }
}
const WRITES: usize = 15;
/// A command that reads the key.
fn read(i: usize) -> C {
    match i {
        0 => c(C_GET, NONE, vec![kk()]),
        1 => c(C_GET, [INT, BYTES][choice(2)], vec![kk()]),
        2 => c(C_TYPE, NONE, vec![kk()]),
        3 => c(C_EXISTS, NONE, vec![kk()]),
        4 => c(C_IS, [INT, LIST][choice(2)], vec![kk()]),
        5 => c(C_LENGTH, [BYTES, LIST, STRING, SET, MAP][choice(5)], vec![kk()]),
        6 => c(C_KEYS, MAP, vec![kk()]),
        _ => c(ECHO, NONE, vec![bytes(1)]),
    }
}
const READS: usize = 8;
const SOME: [u8; 4] = [INT, BYTES, LIST, STRING];

hs::harnesses! {
    /// integer counters of two threads
    fn conc_counters_int() {
        let m = start(&[INT, BYTES]);
        concurrently(m, vec![vec![counter(INT), counter(NONE)], vec![counter(INT)]], vec![kk()]);
    }
    /// integer counters: nothing is lost
    fn conc_counters_sum() {
        let x = sym_i64();
        let hop = M(vec![(kk(), V::Int(x))]).hop();
        let (a, b, d) = (sym_i64(), sym_i64(), sym_i64());
        let by = |n: i64| n.to_be_bytes().to_vec();
        run(&hop, &[
            vec![c(INCR_BY, NONE, vec![kk(), by(a)])],
            vec![c(DECR_BY, INT, vec![kk(), by(b)])],
            vec![c(INCR_BY, INT, vec![kk(), by(d)])],
        ]);
        let want = x.wrapping_add(a).wrapping_sub(b).wrapping_add(d);
        match hop.state().key_ref(&kk()) {
            Some(r) => check(V::Int(want).same(r.value()), "no amount is lost"),
            None => check(false, "the counter is there"),
        };
        cover("sum");
    }
    /// float counters of two threads
    fn conc_counters_float() {
        let m = start(&[FLOAT]);
        concurrently(m, vec![vec![counter(FLOAT)], vec![counter(FLOAT), counter(FLOAT)]], vec![kk()]);
    }
    /// counters while the key is replaced or removed
    fn conc_counters_set() {
        let m = start(&[INT]);
        let w = [write(3), write(4), write(6)][choice(3)].clone();
        concurrently(m, vec![vec![counter(INT)], vec![w, counter(NONE)]], vec![kk()]);
    }
    /// two writing commands
    fn conc_writes() {
        let m = start(&[SOME[choice(SOME.len())]]);
        let a = choice(WRITES);
        let b = range(a, WRITES - 1);
        concurrently(m, vec![vec![write(a)], vec![write(b)]], vec![kk()]);
    }
    /// a writing and a reading command
    fn conc_read_write() {
        let m = start(&[INT, BYTES, LIST, STRING, MAP, SET]);
        concurrently(m, vec![vec![write(choice(WRITES))], vec![read(choice(READS))]], vec![kk()]);
    }
    /// two reads during two writes
    fn conc_reads_writes() {
        let m = start(&[INT]);
        let w = |i: usize| [write(0), write(3), write(6), write(7)][i].clone();
        let r = |i: usize| [read(0), read(2), read(3)][i].clone();
        let (a, b) = (w(choice(4)), w(choice(4)));
        let (x, y) = (r(choice(3)), r(choice(3)));
        concurrently(m, vec![vec![a, b], vec![x, y]], vec![kk()]);
    }
    /// three threads
    fn conc_three() {
        let m = start(&[INT]);
        let t = |i: usize| [write(0), write(3), write(6), write(8), read(0), read(3)][i].clone();
        let a = choice(6);
        let b = range(a, 5);
        let d = range(b, 5);
        concurrently(m, vec![vec![t(a)], vec![t(b)], vec![t(d)]], vec![kk()]);
    }
    /// commands that look the type of the key up, next to others that keep it
    fn conc_untyped_same_type() {
        let (m, o) = match choice(3) {
            0 => (vec![(kk(), any_value_of(BYTES))], [write(4), write(7)][choice(2)].clone()),
            1 => (vec![(kk(), any_value_of(LIST))], [write(5), write(8)][choice(2)].clone()),
            _ => (vec![(kk(), V::Str(vec![b's']))], [write(9), write(10)][choice(2)].clone()),
        };
        let a = match choice(3) {
            0 => c(C_SET, NONE, vec![kk(), vec![b'v']]),
            1 => c(C_APPEND, NONE, vec![kk(), vec![b'w']]),
            _ => c(C_LENGTH, NONE, vec![kk()]),
        };
        concurrently(M(m), vec![vec![a], vec![o]], vec![kk()]);
    }
    /// a rename next to commands on its key, and reads of the new name
    fn conc_rename() {
        let m = start(&[INT]);
        let r = c(C_RENAME, NONE, vec![kk(), ll()]);
        let o = match choice(9) {
            0 => write(0),
            1 => write(4),
            2 => write(6),
            3 => write(7),
            4 => read(0),
            5 => c(C_GET, NONE, vec![ll()]),
            6 => c(C_DELETE, NONE, vec![ll()]),
            7 => c(C_EXISTS, NONE, vec![ll()]),
            _ => c(C_TYPE, NONE, vec![ll()]),
        };
        concurrently(m, vec![vec![r], vec![o]], vec![kk(), ll()]);
    }
    /// commands on different keys
    fn conc_two_keys() {
        let m = M(vec![(kk(), any_value_of(INT)), (ll(), any_value_of(BYTES))]);
        let mut x = write(choice(WRITES));
        x.args[0] = ll();
        concurrently(m, vec![vec![counter(INT)], vec![x]], vec![kk(), ll()]);
    }
    /// a rename can lose what another command stores at the new name meanwhile
    fn conc_known_rename_set() {
        let m = M(vec![(kk(), V::Int(1))]);
        let r = c(C_RENAME, NONE, vec![kk(), ll()]);
        let s = c(C_SET, INT, vec![ll(), 2i64.to_be_bytes().to_vec()]);
        concurrently(m, vec![vec![r], vec![s]], vec![kk(), ll()]);
    }
    /// set without a key type uses the type the key had a moment before
    fn conc_known_untyped_set() {
        let m = M(vec![(kk(), V::Bytes(vec![1]))]);
        let r = c(C_SET, NONE, vec![kk(), vec![b'1'; 8]]);
        let s = c(C_SET, INT, vec![kk(), vec![b'2'; 8]]);
        concurrently(m, vec![vec![r], vec![s]], vec![kk()]);
    }
    /// append without a key type uses the type the key had a moment before
    fn conc_known_untyped_append() {
        let m = M(vec![(kk(), V::Bytes(vec![1]))]);
        let r = c(C_APPEND, NONE, vec![kk(), vec![b'1'; 8]]);
        let s = c(C_SET, LIST, vec![kk(), vec![b'2'; 8]]);
        concurrently(m, vec![vec![r], vec![s]], vec![kk()]);
    }
    /// length without a key type uses the type the key had a moment before
    fn conc_known_untyped_length() {
        let m = M(vec![(kk(), V::Bytes(vec![1]))]);
        let r = c(C_LENGTH, NONE, vec![kk()]);
        let s = c(C_SET, LIST, vec![kk(), vec![b'2'; 8]]);
        concurrently(m, vec![vec![r], vec![s]], vec![kk()]);
    }
    /// keys without a key type uses the type the key had a moment before
    fn conc_untyped_keys() {
        let m = M(vec![(kk(), V::Bytes(vec![1]))]);
        let r = c(C_KEYS, NONE, vec![kk()]);
        let s = c(C_SET, MAP, vec![kk(), vec![b'2'], vec![b'3']]);
        concurrently(m, vec![vec![r], vec![s]], vec![kk()]);
    }
}
