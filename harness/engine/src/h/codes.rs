//! Wire codes and names.
use super::u::*;
use core::convert::TryFrom;
use core::str::FromStr;
use hop_engine::command::request::ParseError as ReqError;
use hop_engine::command::response::ResponseType;
use hop_engine::command::*;
use hop_engine::state::{KeyType, Value};
use hs::*;

const NAMES: [(&str, u8); 16] = [
    ("increment", 0),
    ("decrement", 1),
    ("increment:by", 2),
    ("decrement:by", 3),
    ("set", 10),
    ("get", 11),
    ("delete", 12),
    ("exists", 13),
    ("is", 14),
    ("rename", 15),
    ("type", 16),
    ("append", 20),
    ("length", 21),
    ("keys", 22),
    ("echo", 100),
    ("stats", 101),
];

fn name_of(c: CommandId) -> &'static str {
    NAMES.iter().find(|n| n.1 == c as u8).map(|n| n.0).unwrap_or("")
}
fn named(s: &[u8]) -> Option<u8> {
    let mut r = None;
    for (n, c) in NAMES.iter() {
        if eq(n.as_bytes(), s) {
            r = Some(*c);
        }
    }
    r
}
fn by_name(s: &[u8]) {
    let want = named(s);
    let t = match core::str::from_utf8(s) {
        Ok(t) => t,
        Err(_) => return,
    };
    let a = CommandId::from_str(t);
    let b = CommandId::try_from(t);
    match (want, a, b) {
        (None, Err(_), Err(_)) => cover("no name"),
        (Some(c), Ok(a), Ok(b)) => {
            check((a as u8 == c) & (b as u8 == c), "a name means its command");
            check(eq(a.name().as_bytes(), s), "a command has its name");
            cover("name");
        }
        (None, _, _) => check(false, "no other text is a command"),
        _ => check(false, "every name is a command"),
    }
}

hs::harnesses! {
fn code_command() {
    let b = sym_u8();
    let known = COMMANDS.iter().any(|c| c.1 == b);
    match CommandId::try_from(b) {
        Ok(c) => {
            check(known, "an unknown command code is rejected");
            check(c as u8 == b, "a command has its code");
            let want = COMMANDS.iter().find(|x| x.1 == b);
            check(want.map_or(false, |w| w.0 == c), "a command code is stable");
            check(c.is_simple() == (b == STATS), "only stats has no argument list");
            cover("command");
        }
        Err(_) => {
            check(!known, "every command has a code");
            cover("no command");
        }
    }
}
fn code_key_type() {
    let b = sym_u8();
    match KeyType::try_from(b) {
        Ok(k) => {
            check(b < 8, "an unknown key type code is rejected");
            check(k as u8 == b, "a key type has its code");
            check(KEY_TYPES[(b & 7) as usize] == k, "a key type code is stable");
            cover("key type");
        }
        Err(_) => {
            check(b >= 8, "every key type has a code");
            cover("no key type");
        }
    }
    let k = choice(8);
    check(any_value(k as u8, 1).value().kind() == KEY_TYPES[k], "a value has its type");
}
fn code_response_type() {
    let b = sym_u8();
    match ResponseType::try_from(b) {
        Ok(k) => {
            check(b < 10, "an unknown response type code is rejected");
            check(k as u8 == b, "a response type has its code");
            const T: [ResponseType; 10] = [
                ResponseType::Boolean, ResponseType::Bytes, ResponseType::Float, ResponseType::Integer,
                ResponseType::List, ResponseType::Map, ResponseType::Set, ResponseType::String,
                ResponseType::ParseError, ResponseType::DispatchError,
            ];
            check(T[b as usize % 10] == k, "a response type code is stable");
            cover("response type");
        }
        Err(_) => {
            check(b >= 10, "every response type has a code");
            cover("no response type");
        }
    }
}
fn code_errors() {
    let b = sym_u8();
    match DispatchError::try_from(b) {
        Ok(e) => {
            check(b < 8, "an unknown dispatch error code is rejected");
            check(e as u8 == b, "a dispatch error has its code");
            const T: [DispatchError; 8] = [
                DispatchError::ArgumentRetrieval, DispatchError::KeyUnspecified, DispatchError::KeyTypeDifferent,
                DispatchError::KeyTypeUnexpected, DispatchError::PreconditionFailed, DispatchError::KeyNonexistent,
                DispatchError::KeyTypeRequired, DispatchError::KeyTypeInvalid,
            ];
            check(T[b as usize % 8] == e, "a dispatch error code is stable");
            cover("dispatch error");
        }
        Err(_) => {
            check(b >= 8, "every dispatch error has a code");
            cover("no dispatch error");
        }
    }
    match ReqError::try_from(b) {
        Ok(e) => {
            check(b < 2, "an unknown parse error code is rejected");
            check(e as u8 == b, "a parse error has its code");
            check((e == ReqError::CommandIdInvalid) == (b == 0), "a parse error code is stable");
            cover("parse error");
        }
        Err(_) => {
            check(b >= 2, "every parse error has a code");
            cover("no parse error");
        }
    }
}
/// the names, with any one byte changed
fn code_names() {
    let (n, c) = NAMES[choice(16)];
    check(name_of(command(c)).len() == n.len() && command(c).name() == n, "a command has its name");
    let mut s = n.as_bytes().to_vec();
    match choice(4) {
        0 => {}
        1 => {
            let i = choice(s.len());
            s[i] = sym_u8();
        }
        2 => s.push(sym_u8()),
        _ => {
            s.pop();
        }
    }
    by_name(&s);
}
/// any short text
fn code_texts() {
    let s = bytes(range(0, if deep() { 12 } else { 8 }));
    let mut ascii = true;
    for x in &s {
        ascii &= *x < 0x80;
    }
    assume(ascii);
    by_name(&s);
}
}
