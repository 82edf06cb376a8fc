use crate::gen;
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, DEFAULT};
use crate::ops;
use kdbx_rs::database::{Entry, Field, Otp};

pub static PROP: Prop = Prop {
    id: "C14",
    run,
    quick: 200_000,
    thorough: 4_000_000,
    rule: "distinct entry states reached by an operation history and compared with the model",
    required: &[
        "add_field", "remove_field of 0", "remove_field of 1", "remove_field of 2", "new_version", "find_mut, set_value", "find_mut, clear", "find_mut, set_protected true",
        "find_mut, set_protected false", "find_mut, set_protected to the same", "find_mut, set_key", "find_mut of nothing", "fields_mut, set_value", "fields_mut, clear", "set_title", "set_username",
        "set_url", "set_password", "set_otp", "history push", "history remove", "in history: new_version", "set_uuid", "times", "clone kept apart", "setter on a protected field", "set after clear",
        "foreign one-time password", "long history",
    ],
    assumptions: &["a field without a value and one with an empty value are the same", "one-time-password secrets are base32 text"],
    ..DEFAULT
};

/// Field life cycle in isolation: key, value and protection are three independent things
fn field_life(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    let (k, v) = (gen::text(&mut rng, gen::ANY), gen::text(&mut rng, gen::ANY));
    let mut protected = rng.chance(1, 2);
    let mut f = lib("new", || if protected { Field::new_protected(&k, &v) } else { Field::new(&k, &v) })?;
    let (mut key, mut value) = (k, v);
    let mut cleared = false;
    for _ in 0..rng.range(1, 12) {
        match rng.below(5) {
            0 => {
                value = gen::text(&mut rng, gen::ANY);
                lib("set_value", || f.set_value(&value))?;
                if cleared {
                    c.event("set after clear");
                }
                cleared = false;
            }
            1 => {
                lib("clear", || f.clear())?;
                value.clear();
                cleared = true;
            }
            2 => {
                protected = rng.chance(1, 2);
                lib("set_protected", || f.set_protected(protected))?;
            }
            3 => {
                key = gen::text(&mut rng, gen::ANY);
                lib("set_key", || f.set_key(&key))?;
            }
            _ => {
                let g = lib("clone", || f.clone())?;
                ensure!(g == f, "clone of a field differs");
                f = g;
            }
        }
        let got = (f.key(), f.value().unwrap_or(""), f.protected());
        ensure!(got == (&key[..], &value[..], protected), "field is {got:?} instead of {:?}", (&key, &value, protected));
        c.eval();
    }
    c.distinct(&[key.as_bytes(), value.as_bytes(), &[protected as u8]]);
    Ok(())
}

/// One-time-password addresses written by other programs: parameters in any order
fn foreign_otp(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    let secret = ops::base32(&mut rng);
    let (period, digits) = (rng.u32() >> rng.below(32), rng.u32() >> rng.below(32));
    let mut params = vec![format!("secret={secret}"), format!("period={period}"), format!("digits={digits}")];
    for extra in ["issuer=Example", "algorithm=SHA1", "encoder=steam", "image="] {
        if rng.chance(1, 3) {
            params.push(extra.to_string());
        }
    }
    rng.shuffle(&mut params);
    let skip = rng.below(6);
    if skip < 3 {
        let p = ["secret=", "period=", "digits="][skip];
        params.retain(|x| !x.starts_with(p));
    }
    let url = format!("otpauth://totp/Some%20Label:user?{}", params.join("&"));
    let mut e = Entry::default();
    e.add_field(if rng.chance(1, 2) { Field::new_protected("otp", &url) } else { Field::new("otp", &url) });
    let got = lib("otp", || e.otp().map(|o| (o.secret().map(str::to_string), o.period(), o.digits())))?;
    let want = ((skip != 0).then_some(secret), (skip != 1).then_some(period), (skip != 2).then_some(digits));
    ensure!(got == Some(want.clone()), "{url} reads as {got:?} instead of {want:?}");
    c.event("foreign one-time password");
    c.eval();
    let o = Otp::new("ABC", 30, 6);
    lib("clone", || ensure_otp(&o))??;
    Ok(())
}

fn ensure_otp(o: &Otp) -> Verdict {
    ensure!((o.secret(), o.period(), o.digits()) == (Some("ABC"), Some(30), Some(6)), "one-time password reads back wrong");
    Ok(())
}

/// Every version stays, however many there are
fn long_history(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    let mut e = Entry::default();
    let n = rng.range(20, 400);
    for i in 0..n {
        e.set_title(format!("version {i}"));
        lib("new_version", || e.new_version())?;
    }
    let got: Vec<String> = e.history().entries().map(|h| h.title().unwrap_or("").to_string()).collect();
    let want: Vec<String> = (0..n).map(|i| format!("version {i}")).collect();
    ensure!(got == want && e.history().len() == n, "{n} versions were made, the history has {}: {:?} ...", e.history().len(), &got[..got.len().min(3)]);
    for i in [0, n / 2, n - 1] {
        ensure!(e.history().get(i).map(|h| h.history().len()) == Some(0), "version {i} carries a history");
    }
    c.event("long history");
    c.max("versions", n as u64);
    c.eval();
    Ok(())
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    if c.idx % 8 == 0 {
        field_life(c)?;
        return foreign_otp(c);
    }
    if c.idx % 512 == 3 {
        return long_history(c);
    }
    let text = gen::TextOpts { long: c.idx % 64 == 1, ..gen::VALID };
    let mut src = ops::Random(text);
    let mut m = if rng.chance(1, 3) {
        let e = Entry::default();
        let m = model_entry(&e);
        ensure!(m.fields.is_empty() && m.history.is_empty(), "a new entry is not empty");
        m
    } else {
        gen::entry(&mut rng, &gen::Shape { text, ..gen::SMALL }, 2)
    };
    let mut e = lib_entry(&m);
    let mut log = Vec::new();
    let mut aside: Option<(MEntry, Entry)> = None;
    for _ in 0..rng.range(1, 40) {
        let was: Vec<(String, bool, bool)> = m.fields.iter().map(|f| (f.key.clone(), f.protected, f.value.is_empty())).collect();
        let what = ops::entry_op(&mut rng, &mut m, &mut e, &mut src, 2)?;
        log.push(what.clone());
        if let Some(k) = match what.as_str() {
            "set_title" => Some("Title"),
            "set_username" => Some("UserName"),
            "set_url" => Some("URL"),
            "set_password" => Some("Password"),
            _ => None,
        } {
            if was.iter().find(|w| w.0 == k).is_some_and(|w| w.1) {
                c.event("setter on a protected field");
            }
        }
        ops::look_at_entry(&m, &e, &mut rng).map_err(|mut v| {
            v.msg = format!("after {}: {}", log.join("; "), v.msg);
            v
        })?;
        c.event(what);
        c.eval();
        c.max("history length", m.history.len() as u64);
        c.distinct(&[format!("{m:?}").as_bytes()]);
        if rng.chance(1, 20) {
            match aside.take() {
                None => {
                    let copy = lib("clone", || e.clone())?;
                    ensure!(copy == e, "clone of an entry differs");
                    aside = Some((m.clone(), copy));
                }
                Some((am, ae)) => {
                    ensure!(model_entry(&ae) == am, "a cloned entry changed with the original");
                    c.event("clone kept apart");
                }
            }
        }
    }
    c.sample(|| log.join("; "));
    Ok(())
}
