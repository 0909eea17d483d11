//! Response encoding and decoding.
use super::u::*;
use hop_engine::command::request::ParseError as ReqError;
use hop_engine::command::response::{Context, Instruction, ParseError};
use hop_engine::command::*;
use hop_engine::state::Value;
use hs::*;

fn any_reply(n: usize) -> R {
    match choice(10) {
        8 => R::Dispatch(choice(8) as u8),
        9 => R::Parse(choice(2) as u8),
        k => R::Val(any_value(k as u8, n)),
    }
}
pub fn response(r: &R) -> Response {
    const D: [DispatchError; 8] = [
        DispatchError::ArgumentRetrieval,
        DispatchError::KeyUnspecified,
        DispatchError::KeyTypeDifferent,
        DispatchError::KeyTypeUnexpected,
        DispatchError::PreconditionFailed,
        DispatchError::KeyNonexistent,
        DispatchError::KeyTypeRequired,
        DispatchError::KeyTypeInvalid,
    ];
    match r {
        R::Val(v) => Response::Value(v.value()),
        R::Dispatch(c) => Response::DispatchError(D[*c as usize]),
        R::Parse(0) => Response::ParseError(ReqError::CommandIdInvalid),
        R::Parse(_) => Response::ParseError(ReqError::KeyTypeInvalid),
    }
}
fn ordered(r: &R) -> bool {
    !matches!(r, R::Val(V::Map(_)) | R::Val(V::Set(_)))
}

fn encode_and_decode(r: &R) {
    let resp = response(r);
    let raw = resp.as_bytes();
    note_response(&raw);
    let want = frame(r);
    check(raw.len() == want.len(), "the frame has the length of its content");
    check(eq(&raw[..5], &want[..5]), "the frame starts with its length and type");
    if ordered(r) {
        check(eq(&raw, &want), "the frame is the wire format");
    }
    let junk = sym_u8();
    let mut out = vec![junk, 1];
    resp.copy_to(&mut out);
    check(out[0] == junk && out[1] == 1 && eq(&out[2..], &raw), "a frame is appended to what is there");
    match Context::new().feed(&raw) {
        Ok(Instruction::Concluded(got)) => {
            check(same_response(r, &got), "the response decodes to itself");
            cover("decoded");
        }
        _ => check(false, "a frame decodes"),
    }
    match Context::new().feed(&want) {
        Ok(Instruction::Concluded(got)) => check(same_response(r, &got), "the wire format decodes to the response"),
        _ => check(false, "a frame of the wire format decodes"),
    }
}

/// Feed the prefix; it isn't complete. Returns how much is asked for.
fn partial(ctx: &mut Context, f: &[u8], at: usize) -> usize {
    match ctx.feed(&f[..at]) {
        Ok(Instruction::ReadBytes(n)) => {
            check(n > 0, "an incomplete frame needs more bytes");
            check(n <= f.len() - at, "no more bytes are asked for than the frame has");
            n
        }
        Ok(Instruction::Concluded(_)) => {
            check(false, "an incomplete frame isn't concluded");
            1
        }
        Err(_) => {
            check(false, "a part of a valid frame isn't rejected");
            1
        }
    }
}
fn complete(ctx: &mut Context, r: &R, f: &[u8]) {
    match ctx.feed(f) {
        Ok(Instruction::Concluded(got)) => {
            check(same_response(r, &got), "the assembled response is the response");
            note(f.len() as u64);
            cover("assembled");
        }
        _ => check(false, "a complete frame concludes"),
    }
}

pub enum Ref {
    Incomplete,
    /// the inner lengths disagree with the length of the frame
    Odd,
    BadType,
    BadDispatch,
    BadParse,
    BadText,
    Done(R),
}
pub fn reference(b: &[u8]) -> Ref {
    if b.len() < 4 {
        return Ref::Incomplete;
    }
    let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
    if b.len() - 4 < n {
        return Ref::Incomplete;
    }
    let n = concretize(n as u64) as usize;
    if n == 0 {
        return Ref::Odd;
    }
    let p = &b[5..4 + n];
    let u16at = |i: usize| {
        if i + 2 > p.len() {
            None
        } else {
            Some(u16::from_be_bytes([p[i], p[i + 1]]) as usize)
        }
    };
    let u32at = |i: usize| {
        if i + 4 > p.len() {
            None
        } else {
            Some(u32::from_be_bytes([p[i], p[i + 1], p[i + 2], p[i + 3]]) as usize)
        }
    };
    macro_rules! odd {
        ($e:expr) => {
            match $e {
                Some(x) => x,
                None => return Ref::Odd,
            }
        };
    }
    let take = |i: usize, l: usize| {
        if l > p.len() - i {
            None
        } else {
            Some(p[i..i + concretize(l as u64) as usize].to_vec())
        }
    };
    let k = b[4];
    if k > 9 {
        return Ref::BadType;
    }
    let (r, end) = match concretize(k as u64) {
        0 => {
            if p.is_empty() {
                return Ref::Odd;
            }
            (V::Bool(p[0] != 0), 1)
        }
        1 => {
            let l = odd!(u32at(0));
            let d = odd!(take(4, l));
            let e = 4 + d.len();
            (V::Bytes(d), e)
        }
        t @ 2 | t @ 3 => {
            if p.len() < 8 {
                return Ref::Odd;
            }
            let x = u64::from_be_bytes([p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]]);
            (if t == 2 { V::Float(x) } else { V::Int(x as i64) }, 8)
        }
        t @ 4 | t @ 6 => {
            let c = odd!(u16at(0));
            let mut i = 2;
            let mut l: Args = Vec::new();
            let mut j = 0;
            while j < c {
                let len;
                if t == 4 {
                    len = odd!(u32at(i));
                    i += 4;
                } else {
                    len = odd!(u16at(i));
                    i += 2;
                }
                let x = odd!(take(i, len));
                i += x.len();
                j += 1;
                if t == 6 && l.iter().any(|y| eq(y, &x)) {
                    continue;
                }
                l.push(x);
            }
            (if t == 4 { V::List(l) } else { V::Set(l) }, i)
        }
        5 => {
            let c = odd!(u16at(0));
            let mut i = 2;
            let mut l: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
            let mut j = 0;
            while j < c {
                if i >= p.len() {
                    return Ref::Odd;
                }
                let k = odd!(take(i + 1, p[i] as usize));
                i += 1 + k.len();
                let n = odd!(u32at(i));
                let v = odd!(take(i + 4, n));
                i += 4 + v.len();
                j += 1;
                match l.iter_mut().find(|e| eq(&e.0, &k)) {
                    Some(e) => e.1 = v,
                    None => l.push((k, v)),
                }
            }
            (V::Map(l), i)
        }
        7 => {
            let l = odd!(u32at(0));
            let d = odd!(take(4, l));
            if core::str::from_utf8(&d).is_err() {
                return Ref::BadText;
            }
            let e = 4 + d.len();
            (V::Str(d), e)
        }
        t => {
            if p.is_empty() {
                return Ref::Odd;
            }
            if p[0] > if t == 9 { 7 } else { 1 } {
                return if t == 9 { Ref::BadDispatch } else { Ref::BadParse };
            }
            let c = p[0];
            if p.len() != 1 {
                return Ref::Odd;
            }
            return Ref::Done(if t == 9 { R::Dispatch(c) } else { R::Parse(c) });
        }
    };
    if end != p.len() {
        return Ref::Odd;
    }
    Ref::Done(R::Val(r))
}

/// Returns whether the decoder is done with this frame.
fn same_outcome(want: &Ref, got: Result<Instruction, ParseError>) -> bool {
    match (want, got) {
        (Ref::Incomplete, Ok(Instruction::ReadBytes(n))) => {
            check(n > 0, "an incomplete frame needs more bytes");
            cover("incomplete");
            false
        }
        (Ref::Odd, Ok(Instruction::ReadBytes(n))) => {
            check(n > 0, "at least one more byte is asked for");
            cover("odd");
            false
        }
        (Ref::Odd, _) => true,
        (Ref::BadType, Err(ParseError::ResponseTypeInvalid)) => {
            cover("unknown type");
            true
        }
        (Ref::BadDispatch, Err(ParseError::DispatchErrorInvalid)) => {
            cover("unknown dispatch error");
            true
        }
        (Ref::BadParse, Err(ParseError::ParseErrorInvalid)) => {
            cover("unknown parse error");
            true
        }
        (Ref::BadText, Err(ParseError::StringInvalid)) => {
            cover("invalid text");
            true
        }
        (Ref::Done(r), Ok(Instruction::Concluded(got))) => {
            check(same_response(r, &got), "the response is what the frame says");
            cover("complete");
            true
        }
        (Ref::Done(_), _) => {
            check(false, "a complete frame concludes");
            true
        }
        (Ref::Incomplete, _) => {
            check(false, "an incomplete frame isn't concluded or rejected");
            true
        }
        _ => {
            check(false, "a malformed frame is rejected with its reason");
            true
        }
    }
}

/// An arbitrary frame whose payload has `n` bytes, with type `k`.
fn any_frame(k: u8, n: usize) -> Vec<u8> {
    let mut f = ((n + 1) as u32).to_be_bytes().to_vec();
    f.push(k);
    f.extend_from_slice(&bytes(n));
    f
}

hs::harnesses! {
/// every kind of response, small
fn resp_round_trip() {
    any_iteration_order();
    let r = any_reply(if deep() { 3 } else { 2 });
    encode_and_decode(&r);
}
/// text of every shape of characters
fn resp_round_trip_text() {
    let mut s = vec![];
    for _ in 0..range(1, if deep() { 3 } else { 2 }) {
        s.extend_from_slice(&any_char(4));
    }
    encode_and_decode(&R::Val(V::Str(s)));
}
/// lengths at which the length fields change their shape
fn resp_round_trip_long() {
    let n = [127, 128, 255, 256, 65535, 65536][choice(6)];
    let mut b = vec![b'x'; n];
    let c = sym_u8();
    assume(c < 0x80);
    b[0] = c;
    b[n - 1] = b'y';
    let short = bytes(1);
    let r = match choice(7) {
        0 => V::Bytes(b),
        1 => V::Str(b),
        2 => V::List(vec![short, b, vec![]]),
        3 => V::List(vec![vec![c]; n.min(600)]),
        4 => {
            if n > 65535 { return; }
            V::Set(vec![b, vec![]])
        }
        5 => V::Map(vec![(short, b)]),
        _ => {
            if n > 255 { return; }
            V::Map(vec![(b, short)])
        }
    };
    encode_and_decode(&R::Val(r));
}
/// bigger maps and sets
fn resp_round_trip_items() {
    any_iteration_order();
    let n = if deep() { 9 } else { 6 };
    let x = sym_u8();
    let r = if choice(2) == 0 {
        V::Set((0..n).map(|i| vec![i as u8, x]).collect())
    } else {
        V::Map((0..n).map(|i| (vec![x, i as u8], vec![x; i])).collect())
    };
    encode_and_decode(&R::Val(r));
}
/// in up to three pieces cut anywhere
fn resp_pieces() {
    let r = any_reply(2);
    let f = frame(&r);
    let mut ctx = Context::new();
    let a = range(0, f.len() - 1);
    partial(&mut ctx, &f, a);
    let b = range(a, f.len() - 1);
    partial(&mut ctx, &f, b);
    complete(&mut ctx, &r, &f);
}
/// byte by byte, and the next one with the same decoder
fn resp_bytewise() {
    let mut ctx = Context::new();
    for _ in 0..2 {
        let r = any_reply(if deep() { 2 } else { 1 });
        let f = frame(&r);
        for i in 0..f.len() {
            partial(&mut ctx, &f, i);
        }
        complete(&mut ctx, &r, &f);
    }
}
/// reading what is asked for gets through exactly
fn resp_follow_hints() {
    let r = any_reply(if deep() { 3 } else { 2 });
    let f = frame(&r);
    let mut ctx = Context::new();
    let mut at = 0;
    while at < f.len() {
        at += partial(&mut ctx, &f, at);
    }
    complete(&mut ctx, &r, &f);
}
/// reads that return less than what was asked for
fn resp_follow_hints_short() {
    let r = any_reply(1);
    let f = frame(&r);
    let mut ctx = Context::new();
    let mut at = 0;
    while at < f.len() {
        let n = partial(&mut ctx, &f, at);
        at += [n, 1, (n + 1) / 2][choice(3)];
    }
    complete(&mut ctx, &r, &f);
}
/// a frame with the beginning of the next one behind it
fn resp_with_rest() {
    let r = any_reply(2);
    let mut f = frame(&r);
    f.extend_from_slice(&bytes(range(1, 6)));
    let mut ctx = Context::new();
    complete(&mut ctx, &r, &f);
    let r = any_reply(1);
    let f = frame(&r);
    complete(&mut ctx, &r, &f);
}
/// long frames
fn resp_pieces_long() {
    let n = [300usize, 65536][choice(2)];
    let mut b = vec![b'a'; n];
    b[n - 1] = sym_u8() & 0x7f;
    let r = R::Val(match choice(5) {
        0 => V::Bytes(b),
        1 => V::Str(b),
        2 => V::List(vec![b, bytes(1)]),
        3 => V::Map(vec![(vec![b'k'; 255], b), (bytes(1), vec![])]),
        _ => {
            if n > 65535 { return; }
            V::Set(vec![b, bytes(1)])
        }
    });
    let f = frame(&r);
    let mut ctx = Context::new();
    let mut at = [0, 5, 9, 270, f.len() - 1][choice(5)];
    while at < f.len() {
        let n = partial(&mut ctx, &f, at);
        at += if choice(2) == 0 { n } else { f.len() - at };
    }
    complete(&mut ctx, &r, &f);
}
/// frames of any announced length: nothing but the missing bytes is asked for
fn resp_announced() {
    let k = [1u8, 7, 4, 5, 6][choice(5)];
    let len = sym_u32();
    let head = match k {
        1 | 7 => 5u32,
        4 => 7,
        5 => 9,
        _ => 5,
    };
    assume(len >= head + 4);
    let rest = len - head;
    let mut f = len.to_be_bytes().to_vec();
    f.push(k);
    match k {
        1 | 7 => f.extend_from_slice(&rest.to_be_bytes()),
        4 => {
            f.extend_from_slice(&[0, 1]);
            f.extend_from_slice(&rest.to_be_bytes());
        }
        5 => {
            f.extend_from_slice(&[0, 1, 1, b'k']);
            f.extend_from_slice(&rest.to_be_bytes());
        }
        _ => {
            assume(rest <= 65535);
            f.extend_from_slice(&[0, 1]);
            f.extend_from_slice(&(rest as u16).to_be_bytes());
        }
    }
    let x = sym_u8();
    assume(x < 0x80);
    f.extend_from_slice(&[x, x]);
    let mut ctx = Context::new();
    let mut at = range(0, f.len());
    loop {
        match ctx.feed(&f[..at]) {
            Ok(Instruction::ReadBytes(n)) => {
                check(n > 0, "something is asked for");
                check(n as u64 <= len as u64 + 4 - at as u64, "no more is asked for than is missing");
                cover("asked");
            }
            Ok(_) => check(false, "an incomplete frame isn't concluded"),
            Err(_) => check(false, "an incomplete frame isn't rejected"),
        }
        if at == f.len() {
            return;
        }
        at = [at + 1, f.len()][choice(2)];
    }
}
/// any bytes at all
fn resp_any_bytes() {
    let b = bytes(range(0, if deep() { 14 } else { 12 }));
    let want = reference(&b);
    same_outcome(&want, Context::new().feed(&b));
}
/// any bytes of a frame of each type, longer
fn resp_any_frame() {
    let k = choice(10) as u8;
    let n = match k {
        BOOL..=3 => range(0, 10),
        7 => range(4, if deep() { 8 } else { 7 }),
        _ => range(0, if deep() { 14 } else { 11 }),
    };
    let f = any_frame(k, n);
    let want = reference(&f);
    same_outcome(&want, Context::new().feed(&f));
}
/// in pieces, the outcome is the one of the whole
fn resp_any_pieces() {
    let n = if deep() { 10 } else { 8 };
    let k = choice(11) as u8;
    let f = any_frame(k, n);
    let mut ctx = Context::new();
    let a = range(0, f.len());
    if same_outcome(&reference(&f[..a]), ctx.feed(&f[..a])) {
        return;
    }
    same_outcome(&reference(&f), ctx.feed(&f));
}
/// after an error, the decoder starts afresh
fn resp_after_error() {
    let n = range(1, 6);
    let b = any_frame([6u8, 7, 8, 9, 10, 200][choice(6)], n);
    let mut ctx = Context::new();
    let at = range(4, b.len());
    match ctx.feed(&b[..at]) {
        Err(_) => cover("error"),
        Ok(Instruction::Concluded(_)) => cover("concluded"),
        Ok(_) => match ctx.feed(&b) {
            Ok(Instruction::ReadBytes(_)) => return,
            _ => cover("second"),
        },
    }
    let r = any_reply(1);
    let f = frame(&r);
    if choice(2) == 1 {
        partial(&mut ctx, &f, 5);
    }
    complete(&mut ctx, &r, &f);
}
}

// the value types are converted the same way one by one
#[allow(dead_code)]
fn _types(v: Value) -> Response {
    Response::Value(v)
}
