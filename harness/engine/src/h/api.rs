//! The engine as a library: the store, values and configured engines.
use super::m::*;
use super::u::*;
use hop_engine::hop::{Builder, Config};
use hop_engine::metrics::Metric;
use hop_engine::state::{State, Value};
use hop_engine::Hop;
use hs::*;

const ALL: [u8; 8] = [BYTES, BOOL, FLOAT, INT, STRING, LIST, MAP, SET];

/// Whatever is asked about a key is what the model says.
fn check_entry(s: &State, k: &[u8], want: Option<&V>) {
    check(s.contains_key(k) == want.is_some(), "a key is there exactly if it was put there");
    check(s.key_type(k).map(|t| t as u8) == want.map(|v| v.kind()), "the type is that of the value");
    match (s.key_ref(k), want) {
        (Some(r), Some(w)) => {
            check(eq(r.key(), k), "an entry has its key");
            check(w.same(r.value()), "a key has the last value it was given");
        }
        (None, None) => {}
        _ => check(false, "a key is there exactly if it was put there"),
    }
    match (s.key_mut(k), want) {
        (Some(r), Some(w)) => check(eq(r.key(), k) && w.same(r.value()), "a key has the last value it was given"),
        (None, None) => {}
        _ => check(false, "a key is there exactly if it was put there"),
    }
}
fn a_value(i: u8) -> V {
    any_value([BYTES, INT, LIST][(i % 3) as usize], 1)
}
fn operate(s: &State, m: &mut M, k: &[u8], i: u8) {
    let before = m.get(k).cloned();
    match choice(4) {
        0 => {
            let v = a_value(i);
            let old = s.insert(k.to_vec(), v.value());
            match (&old, &before) {
                (Some(o), Some(b)) => check(b.same(o), "inserting returns the value that was replaced"),
                (None, None) => {}
                _ => check(false, "inserting returns the value that was replaced"),
            }
            m.put(k, v);
            cover("insert");
        }
        1 => {
            let old = s.remove(k);
            match (&old, &before) {
                (Some((n, o)), Some(b)) => check(eq(n, k) && b.same(o), "removing returns what was removed"),
                (None, None) => {}
                _ => check(false, "removing returns what was removed"),
            }
            if let Some(i) = m.find(k) {
                m.0.remove(i);
            }
            cover("remove");
        }
        2 => {
            let v = a_value(i);
            let r = s.key_or_insert_with(k, || v.value());
            let want = before.clone().unwrap_or_else(|| v.clone());
            check(eq(r.key(), k) && want.same(r.value()), "the value is the one there was, or else the given one");
            drop(r);
            m.put(k, want);
            cover("or insert");
        }
        _ => {
            let v = a_value(i);
            let r = s.key_mut(k);
            check(r.is_some() == before.is_some(), "a key is there exactly if it was put there");
            if let Some(mut r) = r {
                *r.value_mut() = v.value();
                drop(r);
                m.put(k, v);
                cover("write");
            }
        }
    }
}
fn count(h: &Hop) -> u64 {
    h.metrics().counter(&Metric::CommandsSuccessful).unwrap_or(0)
}

harnesses! {
    fn api_store() {
        // any operations on two keys, that may be the same
        let s = State::new();
        let other = s.clone();
        let mut m = M(vec![]);
        let k = [bytes(1), bytes(1)];
        for i in 0..if deep() { 4 } else { 3 } {
            let which = choice(2);
            operate(if i % 2 == 0 { &s } else { &other }, &mut m, &k[which], i);
        }
        for k in &k {
            check_entry(&s, k, m.get(k));
            check_entry(&other, k, m.get(k));
        }
    }
    fn api_store_values() {
        // every type of value replaced by every other
        let s = State::default();
        let a = any_value(ALL[choice(8)], range(0, 1));
        let b = any_value(ALL[choice(8)], range(0, 2));
        let k = bytes(1);
        check_entry(&s, &k, None);
        check(s.insert(k.clone(), a.value()).is_none(), "there was no value");
        check_entry(&s, &k, Some(&a));
        match s.insert(k.clone(), b.value()) {
            Some(o) => check(a.same(&o), "inserting returns the value that was replaced"),
            None => check(false, "inserting returns the value that was replaced"),
        }
        check_entry(&s, &k, Some(&b));
        match s.remove(&k) {
            Some((n, o)) => check(eq(&n, &k) && b.same(&o), "removing returns what was removed"),
            None => check(false, "removing returns what was removed"),
        }
        check_entry(&s, &k, None);
        cover("values");
    }
    fn api_values() {
        // a value is of exactly one type
        let kind = ALL[choice(8)];
        let w = any_value(kind, range(0, 2));
        let mut v = w.value();
        check(v.kind() as u8 == kind, "a value has its type");
        let is = [v.is_bytes(), v.is_boolean(), v.is_float(), v.is_integer(), v.is_string(), v.is_list(), v.is_map(), v.is_set()];
        let r = [
            v.as_bytes_ref().is_some(), v.as_boolean_ref().is_some(), v.as_float_ref().is_some(), v.as_integer_ref().is_some(),
            v.as_string_ref().is_some(), v.as_list_ref().is_some(), v.as_map_ref().is_some(), v.as_set_ref().is_some(),
        ];
        let mt = [
            v.as_bytes_mut().is_some(), v.as_boolean_mut().is_some(), v.as_float_mut().is_some(), v.as_integer_mut().is_some(),
            v.as_string_mut().is_some(), v.as_list_mut().is_some(), v.as_map_mut().is_some(), v.as_set_mut().is_some(),
        ];
        for (i, t) in KEY_TYPES.iter().enumerate() {
            let me = *t as u8 == kind;
            check(is[i] == me, "a value is of its type and no other");
            check(r[i] == me && mt[i] == me, "a value can be had as its type and no other");
        }
        let same = match &w {
            V::Bytes(b) => v.as_bytes_ref().map_or(false, |x| eq(x, b)),
            V::Bool(b) => v.as_boolean_ref() == Some(b),
            V::Float(x) => v.as_float_ref().map_or(false, |y| y.to_bits() == *x),
            V::Int(i) => v.as_integer_ref() == Some(i),
            V::Str(t) => v.as_string_ref().map_or(false, |x| eq(x.as_bytes(), t)),
            V::List(l) => v.as_list_ref().map_or(false, |x| eqs(x, l)),
            V::Map(l) => v.as_map_ref().map_or(false, |x| {
                x.len() == l.len() && l.iter().all(|(k, v)| x.get(k).map_or(false, |e| eq(e.value(), v)))
            }),
            V::Set(l) => v.as_set_ref().map_or(false, |x| x.len() == l.len() && l.iter().all(|k| x.contains(k))),
        };
        check(same, "a value is what it was made from");
        // what is written to it is what it is then
        let n = any_value(kind, 1);
        match (&n, &mut v) {
            (V::Bytes(b), v) => *v.as_bytes_mut().unwrap() = b.clone(),
            (V::Bool(b), v) => *v.as_boolean_mut().unwrap() = *b,
            (V::Float(x), v) => *v.as_float_mut().unwrap() = f64::from_bits(*x),
            (V::Int(i), v) => *v.as_integer_mut().unwrap() = *i,
            (V::Str(t), v) => {
                let s = v.as_string_mut().unwrap();
                s.clear();
                s.push_str(unsafe { core::str::from_utf8_unchecked(t) });
            }
            (V::List(l), v) => *v.as_list_mut().unwrap() = l.clone(),
            (V::Map(l), v) => {
                let m = v.as_map_mut().unwrap();
                m.clear();
                for (a, b) in l {
                    m.insert(a.clone(), b.clone());
                }
            }
            (V::Set(l), v) => {
                let m = v.as_set_mut().unwrap();
                m.clear();
                for a in l {
                    m.insert(a.clone());
                }
            }
        }
        check(n.same(&v), "what is written to a value is what it is then");
        cover("value");
    }
    fn api_values_from() {
        // conversions, and the values keys start with
        let (got, want) = match choice(16) {
            0 => (Value::bytes(), V::Bytes(vec![])),
            1 => (Value::boolean(), V::Bool(false)),
            2 => (Value::float(), V::Float(0)),
            3 => (Value::integer(), V::Int(0)),
            4 => (Value::string(), V::Str(vec![])),
            5 => (Value::list(), V::List(vec![])),
            6 => (Value::map(), V::Map(vec![])),
            7 => (Value::set(), V::Set(vec![])),
            n => {
                let w = any_value(n as u8 - 8, 2);
                let v = match w.value() {
                    Value::Bytes(x) => x.into(),
                    Value::Boolean(x) => x.into(),
                    Value::Float(x) => x.into(),
                    Value::Integer(x) => x.into(),
                    Value::String(x) => x.into(),
                    Value::List(x) => x.into(),
                    Value::Map(x) => x.into(),
                    Value::Set(x) => x.into(),
                };
                (v, w)
            }
        };
        check(want.same(&got), "a value is what it was made from");
        cover("from");
    }
    fn api_config() {
        // the last setting of each kind, or the default
        let mut b = if choice(2) == 0 { Builder::new() } else { Hop::builder() };
        let (mut p, mut n) = (true, usize::MAX);
        for _ in 0..range(0, 3) {
            if choice(2) == 0 {
                p = sym_bool();
                b.pubsub_enabled(p);
            } else {
                n = sym_u64() as usize;
                b.sessions_active_max(n);
            }
        }
        let copy = b.clone();
        b.sessions_active_max(7);
        let h: Hop = if choice(2) == 0 { copy.build() } else { copy.into() };
        let seen = |c: &Config| both(c.pubsub_enabled() == p, c.sessions_active_max() == n);
        check(seen(h.config()), "an engine has the configuration it was built with");
        check(seen(h.clone().config()), "an engine has the configuration it was built with");
        let d = Hop::new();
        check(d.config().pubsub_enabled(), "the default is pubsub and any number of sessions");
        check(d.config().sessions_active_max() == usize::MAX, "the default is pubsub and any number of sessions");
        let c = Config::default();
        check(c.pubsub_enabled() && c.sessions_active_max() == usize::MAX, "the default is pubsub and any number of sessions");
        cover("config");
    }
    fn api_engines() {
        // clones of an engine are the same engine, others are others
        let mut b = Builder::new();
        if choice(2) == 0 {
            b.pubsub_enabled(false);
        }
        let one = b.clone().build();
        let same = one.clone();
        let other = if choice(2) == 0 { b.build() } else { Hop::new() };
        let k = bytes(1);
        let mut m = M(vec![]);
        let mut mo = M(vec![]);
        let (mut n, mut no) = (0, 0);
        for _ in 0..if deep() { 4 } else { 3 } {
            let v = bytes(1);
            match choice(3) {
                0 => {
                    step(&one, &mut m, C_SET, BYTES, &[k.clone(), v]);
                    n += 1;
                }
                1 => {
                    step(&same, &mut m, C_APPEND, BYTES, &[k.clone(), v]);
                    n += 1;
                }
                _ => {
                    step(&other, &mut mo, C_APPEND, BYTES, &[k.clone(), v]);
                    no += 1;
                }
            }
        }
        check_store(&one, &m);
        check_store(&same, &m);
        check_store(&other, &mo);
        check(count(&one) == n && count(&same) == n, "clones count together");
        check(count(&other) == no, "other engines count on their own");
        let id = super::misc::sid(sym_u32());
        let sub = one.pubsub().subscribe(k.clone(), id);
        check(sub.is_some(), "a session subscribes");
        check(same.pubsub().get(&k, id).is_some(), "clones have the same subscriptions");
        check(other.pubsub().get(&k, id).is_none(), "other engines have subscriptions of their own");
        check(!other.pubsub().unsubscribe(&k, id), "other engines have subscriptions of their own");
        check(same.pubsub().unsubscribe(&k, id), "clones have the same subscriptions");
        cover("engines");
    }
}
