//! Lines of the command line interface: the requests they stand for, and what
//! comes out of them.
use super::m::*;
use super::mem::{client, now};
use super::u::*;
use hop::backend::MemoryBackend;
use hop_cli::{parse, process, ParseError, ProcessError};
use hs::*;

const NAMES: [(&str, u8); 16] = [
    ("append", 20),
    ("decrement:by", 3),
    ("decrement", 1),
    ("delete", 12),
    ("echo", 100),
    ("exists", 13),
    ("get", 11),
    ("increment:by", 2),
    ("increment", 0),
    ("is", 14),
    ("keys", 22),
    ("length", 21),
    ("rename", 15),
    ("set", 10),
    ("stats", 101),
    ("type", 16),
];
const TYPES: [(&str, u8); 11] = [
    ("boolean", BOOL),
    ("bool", BOOL),
    ("bytes", BYTES),
    ("float", FLOAT),
    ("integer", INT),
    ("int", INT),
    ("list", LIST),
    ("map", MAP),
    ("set", SET),
    ("string", STRING),
    ("str", STRING),
];
const TYPE_NAMES: [&str; 8] = ["bytes", "bool", "float", "int", "str", "list", "map", "set"];
const FLOATS: [(&str, f64); 10] = [
    ("1", 1.0),
    ("1.5", 1.5),
    ("-2.25", -2.25),
    ("+1e3", 1000.0),
    (".5", 0.5),
    ("0.1", 0.1),
    ("-0", -0.0),
    ("inf", f64::INFINITY),
    ("1e400", f64::INFINITY),
    ("123456789.125", 123456789.125),
];

fn name_of(w: &[u8]) -> Option<u8> {
    NAMES.iter().find(|n| eq(n.0.as_bytes(), w)).map(|n| n.1)
}
fn type_of(w: &[u8]) -> Option<u8> {
    TYPES.iter().find(|n| eq(n.0.as_bytes(), w)).map(|n| n.1)
}
/// A command and maybe a type, as they are written.
fn command_of(w: &[u8]) -> Option<(u8, u8)> {
    if let Some(c) = name_of(w) {
        return Some((c, NONE));
    }
    let mut i = w.len();
    while i > 0 {
        i -= 1;
        if w[i] == b':' {
            return Some((name_of(&w[..i])?, type_of(&w[i + 1..])?));
        }
    }
    None
}
fn words(line: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for b in line {
        if *b == b' ' {
            v.push(vec![]);
        } else {
            v.last_mut().unwrap().push(*b);
        }
    }
    v
}
fn integer(w: &[u8]) -> Option<i64> {
    let (neg, d) = match w.first() {
        Some(b'-') => (true, &w[1..]),
        Some(b'+') => (false, &w[1..]),
        _ => (false, w),
    };
    if d.is_empty() {
        return None;
    }
    let mut n = 0i128;
    for x in d {
        if !(*x >= b'0' && *x <= b'9') {
            return None;
        }
        n = n * 10 + (*x - b'0') as i128;
    }
    let n = if neg { -n } else { n };
    if n < i64::MIN as i128 || n > i64::MAX as i128 {
        return None;
    }
    Some(n as i64)
}

pub enum Line {
    NoCommand,
    BadCommand(Vec<u8>),
    BadArgument(Vec<u8>, u8),
    NoKey,
    Incomplete(Vec<u8>),
    Unbuildable,
    Request(u8, u8, Args),
}
/// What a line is. A word that is to be a float is one of `FLOATS`, or none.
fn line_of(line: &[u8]) -> Line {
    let w = words(line);
    if w[0].is_empty() {
        return Line::NoCommand;
    }
    let (cmd, kt) = match command_of(&w[0]) {
        Some(x) => x,
        None => return Line::BadCommand(w[0].clone()),
    };
    let t = if kt != NONE {
        kt
    } else if cmd == INCR_BY || cmd == DECR_BY {
        INT
    } else {
        BYTES
    };
    let w = &w[1..];
    let keys = match cmd {
        ECHO | STATS => 0,
        C_RENAME => 2,
        C_EXISTS | C_IS => w.len(),
        _ => 1,
    };
    if w.is_empty() {
        return Line::Request(cmd, kt, vec![]);
    }
    if w.len() < keys {
        return Line::NoKey;
    }
    let mut args: Args = w[..keys].to_vec();
    for (i, x) in w.iter().enumerate().skip(keys) {
        let bad = Line::BadArgument(x.clone(), t);
        match t {
            BOOL => {
                if eq(x, b"true") {
                    args.push(vec![1]);
                } else if eq(x, b"false") {
                    args.push(vec![0]);
                } else {
                    return bad;
                }
            }
            INT => match integer(x) {
                Some(n) => args.push(n.to_be_bytes().to_vec()),
                None => return bad,
            },
            FLOAT => match FLOATS.iter().find(|f| eq(f.0.as_bytes(), x)) {
                Some(f) => args.push(f.1.to_be_bytes().to_vec()),
                None => return bad,
            },
            _ => {
                if t == MAP && i + 1 == w.len() && (i - keys) % 2 == 0 {
                    return Line::Incomplete(x.clone());
                }
                args.push(x.clone());
            }
        }
    }
    if args.iter().any(|a| a.is_empty()) || args.len() > 255 || (cmd == STATS && !args.is_empty()) {
        return Line::Unbuildable;
    }
    Line::Request(cmd, kt, args)
}

fn text(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}
fn check_line(line: &[u8]) {
    let got = parse(text(line));
    match (line_of(line), got) {
        (Line::Request(cmd, kt, args), Ok(r)) => {
            let cmd = concretize(cmd as u64) as u8;
            let kt = concretize(kt as u64) as u8;
            check_request(&r, cmd, kt, &args, &wire(cmd, kt, &args));
            note_bytes(r.as_bytes());
            cover("request");
        }
        (Line::NoCommand, Err(ParseError::NoCommandProvided)) => cover("no command"),
        (Line::BadCommand(w), Err(ParseError::InvalidCommandType { provided_name })) => {
            check(eq(provided_name.as_bytes(), &w), "the error has the name");
            cover("bad command");
        }
        (Line::BadArgument(w, t), Err(ParseError::ArgumentInvalid { argument, key_type })) => {
            check(eq(argument.as_bytes(), &w), "the error has the argument");
            check(key_type as u8 == t, "the error has the type");
            cover("bad argument");
        }
        (Line::NoKey, Err(ParseError::KeyUnspecified)) => cover("no key"),
        (Line::Incomplete(w), Err(ParseError::MapIncomplete { key })) => {
            check(eq(key.as_bytes(), &w), "the error has the key");
            cover("incomplete map");
        }
        (Line::Unbuildable, Err(ParseError::BuildingRequest { .. })) => cover("not built"),
        (_, Ok(_)) => check(false, "a line that is no command is refused"),
        (Line::Request(..), Err(_)) => check(false, "a command is a request"),
        (_, Err(_)) => check(false, "the error is what is wrong"),
    }
}
/// Up to `n` characters.
fn chars(lo: usize, hi: usize, size: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..range(lo, hi) {
        v.extend(any_char(size));
    }
    v
}
pub fn word(lo: usize, hi: usize) -> Vec<u8> {
    let v = chars(lo, hi, 2);
    for b in &v {
        assume(*b != b' ');
    }
    v
}
pub fn line(parts: &[&[u8]]) -> Vec<u8> {
    parts.join(&b' ')
}
/// A command as it is written.
fn written(cmd: usize, t: usize) -> Vec<u8> {
    let mut v = NAMES[cmd].0.as_bytes().to_vec();
    if t > 0 {
        v.push(b':');
        v.extend_from_slice(TYPES[t - 1].0.as_bytes());
    }
    v
}

/// Commands to a client with a store, and what comes out.
pub fn out(c: &'static hop::Client<MemoryBackend>, l: &[u8]) -> Option<Vec<u8>> {
    match now(process(c, text(l))) {
        Ok(t) => Some(t.as_bytes().to_vec()),
        Err(ProcessError::ParsingInput { .. }) => None,
        Err(_) => {
            check(false, "the error is of the line");
            None
        }
    }
}
fn lossy(b: &[u8]) -> Vec<u8> {
    String::from_utf8_lossy(b).into_owned().into_bytes()
}
/// The lines that a value is printed as, and whether their order is free.
fn printed(v: &V) -> (Vec<Vec<u8>>, bool) {
    match v {
        V::Bytes(b) | V::Str(b) => (vec![lossy(b)], false),
        V::Bool(b) => (vec![b.to_string().into_bytes()], false),
        V::Int(i) => (vec![decimal(*i)], false),
        V::Float(x) => (vec![f64::from_bits(*x).to_string().into_bytes()], false),
        V::List(l) => (l.iter().map(|x| lossy(x)).collect(), false),
        V::Set(l) => (l.iter().map(|x| lossy(x)).collect(), true),
        V::Map(l) => (l.iter().map(|(k, v)| [&lossy(k)[..], b"=", &lossy(v)].concat()).collect(), true),
    }
}
fn decimal(i: i64) -> Vec<u8> {
    let mut v = vec![];
    let mut n = (i as i128).unsigned_abs() as u64;
    loop {
        v.insert(0, b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    if i < 0 {
        v.insert(0, b'-');
    }
    v
}
fn check_lines(want: &(Vec<Vec<u8>>, bool), got: &[u8]) {
    let w = &want.0;
    let mut ok = eq(got, &w.join(&b'\n'));
    if want.1 && w.len() == 2 {
        ok |= eq(got, &[&w[1][..], b"\n", &w[0]].concat());
    } else if want.1 && w.len() > 2 {
        // (lines of known length without line feeds, each another one)
        let g: Vec<&[u8]> = got.split(|b| *b == b'\n').collect();
        ok = g.len() == w.len();
        for x in w {
            ok &= g.iter().any(|y| eq(x, y));
        }
    }
    check(ok, "the value is printed");
}
const E_BUILD: u16 = 1 << 12;
const MESSAGES: [(u16, &str); 9] = [
    (E_BUILD, "Building the request failed, such as due to too many arguments."),
    (E_ARG, "Too few arguments were provided for this command."),
    (E_NO_KEY, "Specifying a key is required."),
    (E_DIFFERENT, "The type of the key is different than specified by the command."),
    (E_UNEXPECTED, "A key type was specified when the command can't be given one."),
    (E_PRECONDITION, "A precondition failed, such as the key not existing."),
    (E_MISSING, "The specified key does not exist."),
    (E_REQUIRED, "A key type was required but one was not specified."),
    (E_INVALID, "A key type was provided that isn't supported by the command."),
];
fn check_message(mask: u16, got: &[u8]) {
    let mut ok = false;
    for (m, t) in MESSAGES {
        if mask & m != 0 {
            ok |= eq(got, t.as_bytes());
        }
    }
    if mask & E_NO_KEY != 0 {
        for t in ["The destination key name is required.", "The source key name is required.", "A minimum of at least one key or more is required."] {
            ok |= eq(got, t.as_bytes());
        }
    }
    check(ok, "it says what is wrong");
}
/// What a command does when it is given as a line.
fn run(m: &mut M, cmd: u8, kt: u8, args: &[Vec<u8>]) -> Out {
    let typed = kt != NONE;
    match cmd {
        // the type is only used where it matters
        INCR | DECR | INCR_BY | DECR_BY if typed && kt != INT && kt != FLOAT && !args.is_empty() => return Out::Err(E_INVALID),
        C_LENGTH if kt == INT || kt == FLOAT || kt == BOOL => return Out::Err(if args.is_empty() { E_INVALID | E_NO_KEY } else { E_INVALID }),
        C_APPEND if (kt == BOOL || kt == INT || kt == FLOAT || kt == MAP || kt == SET) && args.len() > 1 => return Out::Err(E_INVALID),
        C_APPEND | C_SET => {
            if args.is_empty() {
                return Out::Err(E_NO_KEY);
            }
            // a list may be appended to with nothing, but nothing is no value
            if args.len() == 1 && !(cmd == C_APPEND && kt == LIST) {
                return Out::Err(if cmd == C_SET && kt >= LIST && typed { E_ARG | E_BUILD } else { E_ARG });
            }
            // an untyped value is bytes
            return apply(m, cmd, if typed { kt } else { BYTES }, args);
        }
        C_EXISTS | C_IS if args.is_empty() => return Out::Err(E_NO_KEY | E_ARG | E_REQUIRED),
        _ => {}
    }
    apply(m, cmd, kt, args)
}
fn check_out_line(m: &mut M, c: &'static hop::Client<MemoryBackend>, l: &[u8]) {
    let got = out(c, l);
    match (line_of(l), got) {
        (Line::Request(cmd, kt, args), Some(got)) => {
            let cmd = concretize(cmd as u64) as u8;
            let kt = concretize(kt as u64) as u8;
            note(got.len() as u64);
            if cmd == ECHO {
                let mut all = vec![];
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        all.push(b' ');
                    }
                    all.extend_from_slice(a);
                }
                check(eq(&got, &lossy(&all)), "the words are printed");
                cover("echo");
                return;
            }
            match run(m, cmd, kt, &args) {
                Out::Ok(V::Int(n)) if cmd == C_TYPE => check(eq(&got, TYPE_NAMES[(n & 7) as usize].as_bytes()), "the type is printed"),
                Out::Ok(v) => check_lines(&printed(&v), &got),
                Out::Sum(k, a, b) => {
                    m.put(&k, V::Float((a + b).to_bits()));
                    check_lines(&printed(&V::Float((a + b).to_bits())), &got)
                }
                Out::Any(l) => check_lines(&(l, true), &got),
                Out::Err(mask) => {
                    check_message(mask, &got);
                    cover("message");
                    return;
                }
                Out::Stats => {}
            }
            cover("printed");
        }
        (Line::Request(..), None) => check(false, "a command is run"),
        (_, Some(_)) => check(false, "a line that is no command is refused"),
        (_, None) => cover("refused"),
    }
}
fn check_after(m: &M, c: &'static hop::Client<MemoryBackend>) {
    for (k, v) in &m.0 {
        match now(c.get(k)) {
            Ok(x) => check(v.same(&x), "a key holds its value"),
            Err(_) => check(false, "a key is there"),
        }
    }
    let probe = bytes(1);
    let mut there = false;
    for (k, _) in &m.0 {
        there |= eq(k, &probe);
    }
    check(matches!(now(c.exists().key(&probe)), Ok(x) if x == there), "no other key is there");
}
fn index(cmd: u8) -> usize {
    NAMES.iter().position(|n| n.1 == cmd).unwrap()
}
const INTS: [i64; 7] = [0, 7, -1, 99, -100, i64::MAX, i64::MIN];

/// A value that can be printed.
fn plain(kind: u8) -> V {
    let w = || word(1, 1);
    match kind {
        BYTES => V::Bytes(w()),
        STRING => V::Str(w()),
        BOOL => V::Bool(sym_bool()),
        INT => V::Int(INTS[choice(INTS.len())]),
        FLOAT => V::Float(FLOATS[choice(5)].1.to_bits()),
        LIST => V::List(if choice(2) == 0 { vec![w()] } else { vec![w(), w()] }),
        MAP => V::Map(vec![(w(), w())]),
        _ => V::Set(vec![w()]),
    }
}
/// A line for a command, on a store with maybe a key of one of these kinds.
fn one_line(cmds: &[u8], types: &[usize], kinds: &[u8]) {
    let c = client();
    let mut m = M(vec![]);
    let k = word(1, 1);
    let i = choice(kinds.len() + 1);
    if i > 0 {
        let v = plain(kinds[i - 1]);
        check(now(c.set(&k).value(v.value())).is_ok(), "a value is set");
        m.0.push((k.clone(), v));
    }
    let cmd = index(cmds[choice(cmds.len())]);
    let t = types[choice(types.len())];
    let mut l = written(cmd, t);
    let keys = match NAMES[cmd].1 {
        C_RENAME => 2,
        _ => 1,
    };
    let n = [0, keys, keys + 1, keys + 2][choice(if deep() { 4 } else { 3 })];
    for i in 0..n {
        l.push(b' ');
        if i == 0 {
            l.extend_from_slice(&k);
        } else if i < keys {
            l.extend(word(0, 1));
        } else {
            match if t > 0 { TYPES[t - 1].1 } else { NONE } {
                FLOAT => l.extend_from_slice([FLOATS[choice(6)].0, "x"][choice(2)].as_bytes()),
                BOOL => l.extend_from_slice(["true", "false", "1"][choice(3)].as_bytes()),
                // printing a sum of unknown digits is for cli_print_int
                t if NAMES[cmd].1 == INCR_BY || NAMES[cmd].1 == DECR_BY => {
                    let _ = t;
                    l.extend_from_slice([&b"1"[..], b"-8", b"42", b"9223372036854775807", b"1.5", b"x"][choice(6)])
                }
                INT => {
                    let mut w = word(1, 1);
                    if choice(2) == 0 {
                        w.insert(0, b'-');
                    }
                    l.extend(w)
                }
                _ => l.extend(word(1, 1)),
            }
        }
    }
    // what appending more than one word does to what isn't a list is open
    if NAMES[cmd].1 == C_APPEND && n > 2 && (t == 0 || TYPES[t - 1].1 != LIST) {
        return;
    }
    check_out_line(&mut m, c, &l);
    check_after(&m, c);
}

harnesses! {
    fn parse_any() {
        check_line(&chars(0, if deep() { 5 } else { 4 }, 2));
    }
    fn parse_names() {
        // every name, and what is close to one
        let n = choice(16);
        let mut l = NAMES[n].0.as_bytes().to_vec();
        match choice(4) {
            0 => {}
            1 => {
                let i = choice(l.len());
                l[i] = sym_u8() & 0x7f;
            }
            2 => l.push(sym_u8() & 0x7f),
            _ => {
                l.pop();
            }
        }
        check_line(&l);
    }
    fn parse_types() {
        let n = choice(16);
        let t = 1 + choice(11);
        let mut l = written(n, t);
        match choice(4) {
            0 => {}
            1 => {
                let i = NAMES[n].0.len() + choice(l.len() - NAMES[n].0.len());
                l[i] = sym_u8() & 0x7f;
            }
            2 => l.push(sym_u8() & 0x7f),
            _ => {
                l.pop();
            }
        }
        check_line(&l);
    }
    fn parse_words() {
        // every command and type with words
        let mut l = written(choice(16), [0, 3, 7, 8, 9, 10][choice(6)]);
        for _ in 0..range(0, if deep() { 4 } else { 3 }) {
            l.push(b' ');
            l.extend(word(0, 1));
        }
        check_line(&l);
    }
    fn parse_integers() {
        let name = [written(7, 0), written(1, 0), written(7, 6), written(13, 5), written(4, 6)][choice(5)].clone();
        let w = match choice(5) {
            0 => word(0, 2 + deep() as usize),
            1 => [&b"922337203685477580"[..], &word(1, 2)].concat(),
            2 => [&b"-922337203685477580"[..], &word(1, 2)].concat(),
            3 => [&b"+"[..], &word(0, 2)].concat(),
            _ => [&b"00000000000000000000"[..], &word(0, 1)].concat(),
        };
        let l = if NAMES[4].0.as_bytes() == &name[..4] { line(&[&name, &w]) } else { line(&[&name, b"k", &w]) };
        check_line(&l);
    }
    fn parse_booleans() {
        let w = match choice(4) {
            0 => word(0, 2),
            1 => [&b"tru"[..], &word(0, 2)].concat(),
            2 => [&b"fals"[..], &word(0, 2)].concat(),
            _ => [&word(1, 1)[..], b"rue"].concat(),
        };
        check_line(&line(&[&written(13, 1 + choice(2)), b"k", &w]));
    }
    fn parse_floats() {
        let name = [written(7, 4), written(1, 4), written(13, 4)][choice(3)].clone();
        let w = match choice(2) {
            0 => FLOATS[choice(FLOATS.len())].0.as_bytes(),
            _ => ["", "x", "1,5", "1.5.2", "e", "--1", "1_0", "0x10"][choice(8)].as_bytes(),
        };
        check_line(&line(&[&name, b"k", w]));
    }
    fn parse_many() {
        // as many words as fit
        let n = [254usize, 255, 256, 300][choice(4)];
        let mut l = written([4, 5, 13][choice(3)], [0, 7][choice(2)]);
        for i in 0..n {
            l.push(b' ');
            l.push(if i == n - 1 { (sym_u8() & 0x3f) | 0x40 } else { b'a' });
        }
        check_line(&l);
    }
    fn cli_counter() { one_line(&[INCR, DECR], &[0, 4, 6, 11], &[INT, FLOAT, STRING]); }
    fn cli_amount() { one_line(&[INCR_BY, DECR_BY], &[0, 4, 6, 11], &[INT, FLOAT, LIST]); }
    fn cli_set() { one_line(&[C_SET], &[0, 2, 3, 4, 6, 7, 8, 9, 11], &[INT]); }
    fn cli_append() { one_line(&[C_APPEND], &[0, 3, 6, 7, 11], &[BYTES, STRING, LIST, INT]); }
    fn cli_get() { one_line(&[C_GET, C_TYPE, C_DELETE, C_KEYS], &[0], &KINDS); }
    fn cli_length() { one_line(&[C_LENGTH], &[0, 3, 5, 7, 8, 9, 10], &KINDS); }
    fn cli_keys() { one_line(&[C_RENAME, C_EXISTS], &[0], &[INT, STRING]); }
    fn cli_is() { one_line(&[C_IS], &[0, 6, 10], &[INT, STRING]); }
    fn cli_echo() { one_line(&[ECHO], &[0, 11], &[]); }
    fn cli_print_int() {
        // numbers of any size
        let c = client();
        let n = match choice(4) {
            0 => {
                let n = sym_i64();
                assume(n >= 0 && n < if deep() { 10_000 } else { 100 });
                n
            }
            1 => i64::MIN + (sym_u8() & if deep() { 7 } else { 1 }) as i64,
            2 => i64::MAX - (sym_u8() & if deep() { 7 } else { 1 }) as i64,
            _ => {
                let n = sym_i64();
                assume(n < 0 && n > if deep() { -1000 } else { -10 });
                n
            }
        };
        check(now(c.set("k").int(n)).is_ok(), "a value is set");
        match out(c, b"get k") {
            Some(t) => {
                check(integer(&t) == Some(n), "the number is printed");
                check(t[0] != b'+' && (t.len() == 1 || t[0] != b'0'), "the number is printed as usual");
                note_bytes(&t);
            }
            None => check(false, "a command is run"),
        }
        cover("printed");
    }
    fn cli_print_bytes() {
        // bytes that aren't text
        let c = client();
        let b = bytes(range(1, 2));
        check(now(c.set("k").bytes(&b[..])).is_ok(), "a value is set");
        match out(c, b"get k") {
            Some(t) => {
                if core::str::from_utf8(&b).is_ok() {
                    check(eq(&t, &b), "text is printed as it is");
                    cover("text");
                } else {
                    check(core::str::from_utf8(&t).is_ok(), "what is printed is text");
                    check(t.len() >= 3, "what isn't text is replaced");
                    cover("replaced");
                }
            }
            None => check(false, "a command is run"),
        }
    }
    /// Lines of many words, and values of many items.
    fn cli_many() {
        let c = client();
        let mut m = M(vec![]);
        let (cmd, t) = [(C_SET, LIST), (C_SET, SET), (C_SET, MAP), (C_APPEND, LIST), (C_EXISTS, NONE), (C_IS, BYTES), (ECHO, NONE), (C_SET, BYTES)][choice(8)];
        let n = [128usize, 254, 255, 256, 16, 99, 100, 101, 253][choice(if deep() { 9 } else { 4 })];
        let mut l = written(index(cmd), if t == NONE { 0 } else { 1 + TYPES.iter().position(|x| x.1 == t).unwrap() });
        let odd = [0, 1, n - 1][choice(3)];
        let ch = (sym_u8() & 0x3f) | 0x40;
        let name = |i: usize| {
            let mut w = vec![b'a' + (i % 26) as u8, b'0' + (i / 26) as u8];
            if i == odd {
                w.insert(0, ch);
            }
            w
        };
        let asks = cmd == C_EXISTS || cmd == C_IS;
        if asks {
            // all of them are there, or all but one
            let missing = [n, 0, 1, n - 1][choice(4)];
            for i in (0..n).rev() {
                if i != missing {
                    check(now(c.set(&name(i)[..]).bytes(&b"x"[..])).is_ok(), "a value is set");
                    m.0.push((name(i), V::Bytes(b"x".to_vec())));
                }
            }
        }
        for i in 0..n {
            l.push(b' ');
            l.extend(name(i));
        }
        check_out_line(&mut m, c, &l);
        if !asks && cmd != ECHO {
            for l in [&b"get"[..], b"length", b"keys", b"get:x"] {
                check_out_line(&mut m, c, &line(&[l, &name(0)]));
            }
            if let Some((k, v)) = m.0.first() {
                check(matches!(now(c.get(k)), Ok(x) if v.same(&x)), "the key holds its value");
            }
        }
        cover("many");
    }
    fn cli_stats() {
        let c = client();
        let mut n = [0u64; 2];
        for _ in 0..range(0, 3) {
            match choice(3) {
                0 => {
                    check(out(c, b"increment a").is_some(), "a command is run");
                    n[0] += 1;
                }
                1 => {
                    check(out(c, b"get b").is_some(), "a command is run");
                    n[1] += 1;
                }
                _ => check(out(c, b"increment:by a x").is_none(), "a line that is no command is refused"),
            }
        }
        let want = format!("Commands successful: {}\nCommands errored: {}\nSessions started: 0\nSessions ended: 0", n[0], n[1]);
        match out(c, b"stats") {
            Some(t) => check(eq(&t, want.as_bytes()), "the stats are printed"),
            None => check(false, "a command is run"),
        }
        cover("stats");
    }
    fn cli_history() {
        let c = client();
        let mut m = M(vec![]);
        let k = word(1, 1);
        for _ in 0..if deep() { 4 } else { 3 } {
            let w = word(1, 1);
            let l = match choice(5) {
                0 => line(&[b"set:str", &k, &w]),
                1 => line(&[b"append:str", &k, &w]),
                2 => line(&[b"rename", &k, &w]),
                3 => line(&[b"increment", &k]),
                _ => line(&[b"delete", &k]),
            };
            check_out_line(&mut m, c, &l);
        }
        check_after(&m, c);
        cover("history");
    }
}
