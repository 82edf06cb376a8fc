//! Operations applied to the library's objects and to the model side by side.

use crate::gen;
use crate::model::*;
use crate::mon::{lib, Violation};
use crate::rng::Rng;
use kdbx_rs::database::{Entry, Field, Otp};
use uuid::Uuid;

type Res<T> = Result<T, Violation>;

/// Where texts and keys come from
pub trait Source {
    fn value(&mut self, rng: &mut Rng, protected: bool) -> String;
    fn key(&mut self, rng: &mut Rng) -> String;
}

pub struct Random(pub gen::TextOpts);

pub const KEYS: &[&str] = &["Title", "UserName", "Password", "URL", "otp", "Notes", "title", "password", "OTP", "Url", "Title ", "X", "x", "Pass", "Passwords", "\u{fc}", "U\u{308}"];

impl Source for Random {
    fn value(&mut self, rng: &mut Rng, protected: bool) -> String {
        let o = if protected { gen::TextOpts { invalid: true, cr: true, long: self.0.long } } else { self.0 };
        gen::text(rng, o)
    }
    fn key(&mut self, rng: &mut Rng) -> String {
        if rng.chance(9, 10) {
            (*rng.pick(KEYS)).to_string()
        } else {
            let k = gen::text(rng, gen::VALID);
            if k.is_empty() {
                "k".into()
            } else {
                k
            }
        }
    }
}

fn some_key(rng: &mut Rng, m: &MEntry, src: &mut dyn Source) -> String {
    if !m.fields.is_empty() && rng.chance(2, 3) {
        m.fields[rng.below(m.fields.len())].key.clone()
    } else {
        src.key(rng)
    }
}

/// Base32 text, as one-time-password secrets are written
pub fn base32(rng: &mut Rng) -> String {
    let n = *rng.pick(&[0usize, 1, 8, 16, 26, 32, 103]);
    let mut s: String = (0..n).map(|_| *rng.pick(&b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[..]) as char).collect();
    if rng.chance(1, 3) {
        for _ in 0..rng.range(1, 6) {
            s.push('=');
        }
    }
    s
}

fn field_op(rng: &mut Rng, m: &mut MField, f: &mut Field, src: &mut dyn Source) -> Res<String> {
    Ok(match rng.below(6) {
        0 | 1 => {
            let v = if rng.chance(1, 12) { String::new() } else { src.value(rng, m.protected) };
            lib("set_value", || f.set_value(&v))?;
            m.value = v;
            "set_value".into()
        }
        2 => {
            lib("clear", || f.clear())?;
            m.value.clear();
            ensure!(f.value().unwrap_or("").is_empty(), "a cleared field still has a value");
            "clear".into()
        }
        3 => {
            // unprotected values are limited to what XML can hold
            let p = rng.chance(1, 2) || m.value.chars().any(|c| !is_xml_char(c));
            lib("set_protected", || f.set_protected(p))?;
            m.protected = p;
            format!("set_protected {p}")
        }
        4 => {
            lib("set_protected", || f.set_protected(m.protected))?;
            "set_protected to the same".into()
        }
        _ => {
            let k = src.key(rng);
            lib("set_key", || f.set_key(&k))?;
            m.key = k;
            "set_key".into()
        }
    })
}

fn put(m: &mut MEntry, key: &str, value: &str, protect: bool) {
    match m.fields.iter_mut().find(|f| f.key == key) {
        Some(f) => {
            f.value = value.into();
            f.protected |= protect;
        }
        None => m.fields.push(MField { key: key.into(), value: value.into(), protected: protect }),
    }
}

fn is_protected(m: &MEntry, key: &str) -> bool {
    m.fields.iter().find(|f| f.key == key).map(|f| f.protected).unwrap_or(false)
}

/// One random operation on an entry, applied to both; returns what was done
pub fn entry_op(rng: &mut Rng, m: &mut MEntry, e: &mut Entry, src: &mut dyn Source, level: usize) -> Res<String> {
    Ok(match rng.below(22) {
        0 | 1 => {
            let key = src.key(rng);
            let protected = rng.chance(1, 2);
            let value = src.value(rng, protected);
            let f = MField { key, value, protected };
            lib("add_field", || e.add_field(lib_field(&f)))?;
            m.fields.push(f);
            "add_field".into()
        }
        2 => {
            let k = some_key(rng, m, src);
            lib("remove_field", || e.remove_field(&k))?;
            let n = m.fields.len();
            m.fields.retain(|f| f.key != k);
            format!("remove_field of {}", n - m.fields.len())
        }
        3 | 4 => {
            lib("new_version", || e.new_version())?;
            let mut c = m.clone();
            c.history.clear();
            m.history.push(c);
            "new_version".into()
        }
        5..=7 => {
            let k = some_key(rng, m, src);
            let f = lib("find_mut", || e.find_mut(&k))?;
            match (m.fields.iter_mut().find(|f| f.key == k), f) {
                (Some(mf), Some(f)) => format!("find_mut, {}", field_op(rng, mf, f, src)?),
                (None, None) => "find_mut of nothing".into(),
                (a, b) => violate!("find_mut({k:?}) found {}, expected {}", b.is_some(), a.is_some()),
            }
        }
        8 | 9 if !m.fields.is_empty() => {
            let i = rng.below(m.fields.len());
            let f = lib("fields_mut", || e.fields_mut().nth(i))?;
            match f {
                Some(f) => format!("fields_mut, {}", field_op(rng, &mut m.fields[i], f, src)?),
                None => violate!("fields_mut has no field {i} of {}", m.fields.len()),
            }
        }
        10 => {
            let v = src.value(rng, is_protected(m, "Title"));
            lib("set_title", || e.set_title(&v))?;
            put(m, "Title", &v, false);
            "set_title".into()
        }
        11 => {
            let v = src.value(rng, is_protected(m, "UserName"));
            lib("set_username", || e.set_username(&v))?;
            put(m, "UserName", &v, false);
            "set_username".into()
        }
        12 => {
            let v = src.value(rng, is_protected(m, "URL"));
            lib("set_url", || e.set_url(&v))?;
            put(m, "URL", &v, false);
            "set_url".into()
        }
        13 | 14 => {
            let v = src.value(rng, true);
            lib("set_password", || e.set_password(&v))?;
            put(m, "Password", &v, true);
            "set_password".into()
        }
        15 => {
            let (s, p, d) = (base32(rng), rng.u32() >> rng.below(32), rng.u32() >> rng.below(32));
            lib("set_otp", || e.set_otp(Otp::new(&s, p, d)))?;
            match lib("otp", || e.otp().map(|o| (o.secret().map(str::to_string), o.period(), o.digits())))? {
                Some(got) => ensure!(got == (Some(s.clone()), Some(p), Some(d)), "one-time password {s:?}, {p}, {d} reads back as {got:?}"),
                None => violate!("no one-time password after set_otp"),
            }
            // the text it is stored as is not specified, take it over
            let stored = lib("find", || e.find("otp").and_then(|f| f.value().map(str::to_string)))?.unwrap_or_default();
            put(m, "otp", &stored, true);
            "set_otp".into()
        }
        16 if level > 0 => {
            let mut h = gen::entry(rng, &gen::Shape { text: gen::TextOpts { long: false, ..gen::VALID }, max_fields: 2, ..gen::SMALL }, 1);
            for f in &mut h.fields {
                f.value = src.value(rng, f.protected);
            }
            for o in &mut h.history {
                for f in &mut o.fields {
                    f.value = src.value(rng, f.protected);
                }
            }
            let l = lib_entry(&h);
            lib("history push", || e.history_mut().push(l))?;
            m.history.push(h);
            "history push".into()
        }
        17 if !m.history.is_empty() => {
            let i = rng.below(m.history.len());
            let r = lib("history remove", || e.history_mut().remove(i))?;
            let want = m.history.remove(i);
            if let Some(d) = diff_entry("removed version", &want, &model_entry(&r)) {
                violate!("{d}");
            }
            "history remove".into()
        }
        18 | 19 if !m.history.is_empty() && level > 0 => {
            let i = rng.below(m.history.len());
            let how = rng.below(3);
            let h = lib("history", || match how {
                0 => e.history_mut().get_mut(i),
                1 => e.history_mut().entries_mut().nth(i),
                _ => Some(&mut e.history_mut()[i]),
            })?;
            match h {
                Some(h) => format!("in history: {}", entry_op(rng, &mut m.history[i], h, src, level - 1)?),
                None => violate!("no version {i} of {}", m.history.len()),
            }
        }
        20 => {
            let u = gen::uuid(rng);
            lib("set_uuid", || e.set_uuid(Uuid::from_bytes(u)))?;
            m.uuid = u;
            "set_uuid".into()
        }
        _ => {
            let t = gen::times(rng);
            let l = lib_times(&t);
            lib("times_mut", || *e.times_mut() = l)?;
            m.times = t;
            "times".into()
        }
    })
}

/// Everything an entry can be asked, compared with the model
pub fn look_at_entry(m: &MEntry, e: &Entry, rng: &mut Rng) -> Res<()> {
    if let Some(d) = diff_entry("entry", m, &lib("reading an entry", || model_entry(e))?) {
        violate!("{d}");
    }
    let val = |k: &str| m.fields.iter().find(|f| f.key == k).map(|f| f.value.as_str()).unwrap_or("");
    for (what, got, want) in [
        ("title", lib("title", || e.title())?, val("Title")),
        ("username", lib("username", || e.username())?, val("UserName")),
        ("url", lib("url", || e.url())?, val("URL")),
        ("password", lib("password", || e.password())?, val("Password")),
    ] {
        ensure!(got.unwrap_or("") == want, "{what} is {got:?} instead of {want:?}");
    }
    for _ in 0..3 {
        let k = if !m.fields.is_empty() && rng.chance(1, 2) { m.fields[rng.below(m.fields.len())].key.clone() } else { (*rng.pick(KEYS)).to_string() };
        let want = m.fields.iter().find(|f| f.key == k);
        let got = lib("find", || e.find(&k).map(model_field))?;
        ensure!(got.as_ref() == want, "find({k:?}) gives {got:?} instead of {want:?}");
    }
    let h = e.history();
    ensure!(lib("len", || h.len())? == m.history.len(), "history has {} versions instead of {}", h.len(), m.history.len());
    ensure!(lib("is_empty", || h.is_empty())? == m.history.is_empty(), "history emptiness wrong");
    ensure!(lib("get", || h.get(m.history.len()).is_none())?, "history yields a version past its end");
    for (i, want) in m.history.iter().enumerate() {
        let got = lib("get", || h.get(i))?;
        match got {
            Some(g) => {
                ensure!(model_entry(g) == *want, "history version {i} differs");
                ensure!(lib("index", || &h[i] == g)?, "history[{i}] differs from get({i})");
            }
            None => violate!("history has no version {i} of {}", m.history.len()),
        }
    }
    Ok(())
}
