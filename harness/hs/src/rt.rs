//! Native runtime: inputs and schedule come from a file.
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::{Condvar, Mutex};

struct G {
    inputs: Vec<(u32, u64)>,
    pos: usize,
    sched: Vec<u8>,
    spos: usize,
    cur: usize,
    threads: usize,
    done: Vec<bool>,
    blocked: Vec<bool>,
    flags: HashMap<u64, u64>,
    notes: Vec<u64>,
    // instead of a schedule: which thread goes on at which scheduling point
    switches: Option<Vec<(usize, usize)>>,
    yields: usize,
}
static G: Mutex<Option<G>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
thread_local!(static ME: Cell<usize> = const { Cell::new(0) });
// while positive, atomic operations are not scheduling points
thread_local!(static OFF: Cell<usize> = const { Cell::new(1) });

struct Off;
impl Off {
    fn new() -> Off {
        OFF.with(|o| o.set(o.get() + 1));
        Off
    }
}
impl Drop for Off {
    fn drop(&mut self) {
        OFF.with(|o| o.set(o.get() - 1));
    }
}
fn on(yes: bool) {
    OFF.with(|o| o.set(!yes as usize));
}
/// With `harness/hs/tsan.c`: called before every atomic operation.
#[no_mangle]
extern "C" fn hs_atomic_point() {
    if OFF.with(|o| o.get()) == 0 {
        hs_yield();
    }
}

fn with<T>(f: impl FnOnce(&mut G) -> T) -> T {
    let _off = Off::new();
    let mut g = G.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().unwrap())
}

fn finish(code: i32, what: &str) -> ! {
    let _off = Off::new();
    let g = G.lock().unwrap_or_else(|e| e.into_inner());
    let n: Vec<String> = g.as_ref().unwrap().notes.iter().map(|x| x.to_string()).collect();
    println!("NOTES {}", n.join(" "));
    println!("YIELDS {}", g.as_ref().unwrap().yields);
    println!("{}", what);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc_exit(code) }
}
extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}

/// `FILE` lines: `inputs w:v ...` and `sched t ...`.
/// Exit codes: 0 completed, 10 violated, 11 assumption false, 12 diverged.
pub fn main(tables: &[&[(&'static str, extern "C" fn())]]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let f = tables
        .iter()
        .flat_map(|t| t.iter())
        .find(|e| e.0 == a[1])
        .unwrap_or_else(|| panic!("no harness {}", a[1]))
        .1;
    let text = std::fs::read_to_string(&a[2]).expect("input file");
    let mut g = G {
        inputs: vec![],
        pos: 0,
        sched: vec![],
        spos: 0,
        cur: 0,
        threads: 1,
        done: vec![false],
        blocked: vec![false],
        flags: HashMap::new(),
        notes: vec![],
        switches: None,
        yields: 0,
    };
    for l in text.lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("inputs") => {
                for x in w {
                    let (b, v) = x.split_once(':').unwrap();
                    g.inputs.push((b.parse().unwrap(), v.parse().unwrap()));
                }
            }
            Some("deep") => {
                g.flags.insert(100, 1);
            }
            Some("switches") => {
                g.switches = Some(
                    w.map(|x| {
                        let (k, t) = x.split_once(':').unwrap();
                        (k.parse().unwrap(), t.parse().unwrap())
                    })
                    .collect(),
                )
            }
            Some("sched") => g.sched = w.map(|x| x.parse().unwrap()).collect(),
            _ => {}
        }
    }
    *G.lock().unwrap() = Some(g);
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let l = i.location().map(|l| l.to_string()).unwrap_or_default();
        finish(10, &format!("VIOLATED panic {} @ {}", m.replace('\n', " "), l));
    }));
    on(true);
    f();
    on(false);
    finish(0, "DONE");
}

fn me() -> usize {
    ME.with(|m| m.get())
}
fn wait_turn(i: usize) {
    let _off = Off::new();
    let mut g = G.lock().unwrap();
    while g.as_ref().unwrap().cur != i {
        g = CV.wait(g).unwrap();
    }
}
fn pass() {
    let _off = Off::new();
    let (next, bad) = with(|g| {
        g.yields += 1;
        if let Some(w) = &g.switches {
            let (n, c) = (g.threads, g.cur);
            let to = w.iter().find(|x| x.0 == g.yields).map(|x| x.1);
            let ok = |t: &usize| *t < n && !g.done[*t] && !g.blocked[*t];
            return match to.filter(ok).or_else(|| (0..n).map(|k| (c + k) % n).find(ok)) {
                Some(t) => {
                    g.cur = t;
                    (t, false)
                }
                None => (usize::MAX, false),
            };
        }
        let t = g.sched.get(g.spos).copied();
        g.spos += 1;
        match t {
            Some(t) if ((t & 0x7f) as usize) < g.threads && !g.done[(t & 0x7f) as usize] => {
                g.cur = (t & 0x7f) as usize;
                g.blocked[g.cur] = false;
                (g.cur, false)
            }
            Some(_) => (0, true),
            None => {
                // beyond the recorded schedule (the counterexample ended here):
                // continue with any thread that can run, if there is one
                let n = g.threads;
                let c = g.cur;
                match (0..n).map(|k| (c + k) % n).find(|&t| !g.done[t] && !g.blocked[t]) {
                    Some(t) => {
                        g.cur = t;
                        (t, false)
                    }
                    None => (usize::MAX, false),
                }
            }
        }
    });
    if bad {
        finish(12, "DIVERGED schedule");
    }
    if next == usize::MAX {
        finish(10, "VIOLATED deadlock no thread can make progress");
    }
    CV.notify_all();
}

#[no_mangle]
extern "C" fn hs_sym(bits: u32) -> u64 {
    let r = with(|g| {
        let r = g.inputs.get(g.pos).copied();
        g.pos += 1;
        r
    });
    match r {
        Some((w, v)) if w == bits => v,
        None => 0,
        _ => finish(12, "DIVERGED inputs"),
    }
}
#[no_mangle]
extern "C" fn hs_choice(n: u64) -> u64 {
    let v = hs_sym(16);
    if v >= n {
        finish(12, "DIVERGED choice");
    }
    v
}
#[no_mangle]
extern "C" fn hs_assume(c: bool) {
    if !c {
        finish(11, "ASSUMPTION");
    }
}
#[no_mangle]
extern "C" fn hs_assert(c: bool, msg: *const u8, len: usize) {
    if !c {
        let m = String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(msg, len) }).to_string();
        finish(10, &format!("VIOLATED assert {}", m));
    }
}
#[no_mangle]
extern "C" fn hs_cover(_: *const u8, _: usize) {}
#[no_mangle]
extern "C" fn hs_bound(_: *const u8, _: usize, _: u64) {}
#[no_mangle]
extern "C" fn hs_note(v: u64) {
    with(|g| g.notes.push(v))
}
#[no_mangle]
extern "C" fn hs_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn hs_known(c: bool) -> bool {
    c
}
#[no_mangle]
extern "C" fn hs_is_symbolic() -> bool {
    false
}
#[no_mangle]
extern "C" fn hs_spawn(f: extern "C" fn(usize), arg: usize) {
    let _off = Off::new();
    let id = with(|g| {
        g.threads += 1;
        g.done.push(false);
        g.blocked.push(false);
        g.threads - 1
    });
    std::thread::spawn(move || {
        ME.with(|m| m.set(id));
        wait_turn(id);
        on(true);
        f(arg);
        on(false);
        with(|g| {
            g.done[id] = true;
            g.blocked[0] = false; // it may wait for the threads to end
        });
        pass();
    });
}
#[no_mangle]
extern "C" fn hs_yield() {
    let many = with(|g| g.threads > 1 && g.done.iter().filter(|d| !**d).count() > 1);
    if many {
        pass();
        wait_turn(me());
    }
}
#[no_mangle]
extern "C" fn hs_block() {
    with(|g| {
        let c = g.cur;
        g.blocked[c] = true;
    });
    pass();
    wait_turn(me());
}
#[no_mangle]
extern "C" fn hs_wake() {
    with(|g| g.blocked.iter_mut().for_each(|b| *b = false))
}
#[no_mangle]
extern "C" fn hs_join() {
    loop {
        let wait = with(|g| {
            let c = g.cur;
            (0..g.threads).any(|i| i != c && !g.done[i])
        });
        if !wait {
            return;
        }
        with(|g| {
            let c = g.cur;
            g.blocked[c] = g.switches.is_some() || g.spos >= g.sched.len();
        });
        pass();
        wait_turn(me());
        with(|g| g.blocked[0] = false);
    }
}
#[no_mangle]
extern "C" fn hs_thread() -> u64 {
    me() as u64
}
#[no_mangle]
extern "C" fn hs_set_flag(k: u64, v: u64) {
    with(|g| {
        g.flags.insert(k, v);
    })
}
#[no_mangle]
extern "C" fn hs_flag(k: u64) -> u64 {
    with(|g| g.flags.get(&k).copied().unwrap_or(0))
}
