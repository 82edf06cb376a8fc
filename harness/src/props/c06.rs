use super::common::*;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::rng::Rng;

pub static PROP: Prop = Prop {
    id: "C06",
    run,
    quick: 4000,
    thorough: 60_000,
    rule: "distinct (file, attempted credentials) pairs whose acceptance was judged",
    required: &["wrong credentials refused v4", "wrong credentials refused v3", "right credentials after failures", "independent decoder agrees", "no credentials", "password and key file"],
    assumptions: &["a password and a key file with the same bytes are the same credential, as the format defines"],
    ..DEFAULT
};

fn near_misses(c: &Creds, rng: &mut Rng) -> Vec<Creds> {
    let mut out = Vec::new();
    let mut pws: Vec<Option<String>> = vec![None, Some(String::new()), Some("kdbxrs".into()), Some("\0".into())];
    if let Some(p) = &c.pw {
        let mut add = |s: String| pws.push(Some(s));
        add(format!("{p} "));
        add(format!(" {p}"));
        add(format!("{p}\0"));
        add(format!("{p}\n"));
        add(format!("{p}\r\n"));
        add(format!("{p}\t"));
        add(format!("{p}x"));
        add(format!("{p}{p}"));
        add(p.to_uppercase());
        add(p.to_lowercase());
        add(p.trim().to_string());
        add(p.chars().rev().collect());
        let n = p.chars().count();
        for k in [n.saturating_sub(1), n / 2, 8, 16, 32, 64, 72, 128, 255, 256, 1024, 4096, 65535] {
            add(p.chars().take(k).collect());
        }
        add(p.chars().skip(1).collect());
        if let Some(i) = p.find('\0') {
            add(p[..i].to_string());
        }
        if n > 0 {
            // one character changed, at the front, at the end, anywhere
            for i in [0, n - 1, rng.below(n)] {
                let s: String = p.chars().enumerate().map(|(j, ch)| if i == j { if ch == 'q' { 'r' } else { 'q' } } else { ch }).collect();
                add(s);
            }
        }
        add(p.replace('\u{e9}', "e\u{301}"));
        add(p.replace("e\u{301}", "\u{e9}"));
        add(p.chars().filter(char::is_ascii).collect());
    }
    let mut kfs: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(vec![0])];
    if let Some(k) = &c.keyfile {
        let mut v = k.clone();
        v.push(0);
        kfs.push(Some(v));
        let mut v = k.clone();
        v.push(b'\n');
        kfs.push(Some(v));
        for end in [&b"\r\n"[..], b" ", b"\r"] {
            kfs.push(Some([k, end].concat()));
        }
        kfs.push(Some([b"\xef\xbb\xbf", &k[..]].concat()));
        for n in [k.len().saturating_sub(1), k.len() / 2, 32, 64, 1024, 4096] {
            kfs.push(Some(k[..n.min(k.len())].to_vec()));
        }
        if !k.is_empty() {
            for i in [0, k.len() - 1, rng.below(k.len())] {
                let mut v = k.clone();
                v[i] ^= 1 << rng.below(8);
                kfs.push(Some(v));
            }
            kfs.push(Some(k[1..].to_vec()));
        }
        let mut v = k.clone();
        v.reverse();
        kfs.push(Some(v));
        kfs.push(Some(sha256(k).to_vec()));
        if let Ok(p) = String::from_utf8(k.clone()) {
            pws.push(Some(p));
        }
    }
    for p in &pws {
        out.push(Creds { pw: p.clone(), keyfile: c.keyfile.clone() });
    }
    for k in &kfs {
        out.push(Creds { pw: c.pw.clone(), keyfile: k.clone() });
    }
    // both parts altered, swapped, merged
    for _ in 0..4 {
        out.push(Creds { pw: rng.pick(&pws).clone(), keyfile: rng.pick(&kfs).clone() });
    }
    if let (Some(p), Some(k)) = (&c.pw, &c.keyfile) {
        out.push(Creds { pw: Some(String::from_utf8_lossy(k).into_owned()), keyfile: Some(p.clone().into_bytes()) });
        let mut both = p.clone().into_bytes();
        both.extend_from_slice(k);
        out.push(Creds { pw: None, keyfile: Some(both) });
    }
    out.push(gen::creds(rng));
    out
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.clone();
    let mut text = gen::VALID;
    text.long = false;
    let m = gen::db(&mut rng, &gen::Shape { text, max_entries: 2, max_groups: 1, max_depth: 2, ..gen::SMALL });
    let creds = gen::creds(&mut rng);
    match (&creds.pw, &creds.keyfile) {
        (None, None) => c.event("no credentials"),
        (Some(_), Some(_)) => c.event("password and key file"),
        (None, Some(_)) => c.event("key file"),
        (Some(_), None) => c.event("password"),
    }
    let mode = c.idx % 3;
    let v4 = mode != 2;
    let s = if v4 { gen::settings(&mut rng) } else { settings3(&mut rng) };
    let file = match mode {
        0 => {
            // other programs agree on the credentials
            let f = save(&archive(lib_db(&m), &s, &creds)?)?;
            c.eval();
            decode4(&f, &creds).map_err(|e| Violation::new(format!("independent decoder does not accept the credentials the file was saved with: {e}")).with("file", &f))?;
            c.event("independent decoder agrees");
            f
        }
        1 => foreign4(&m, &s, &creds, &mut rng).1,
        _ => foreign3(&m, &s, &creds, &mut rng, true).1,
    };
    let right = composite(&creds);
    let mut k = open(&file)?;
    let mut tries = near_misses(&creds, &mut rng);
    rng.shuffle(&mut tries);
    tries.truncate(if c.thorough { 60 } else { 24 });
    let mut failures = 0;
    for t in tries {
        let same = composite(&t) == right;
        let before = k;
        match lib("unlock", || before.unlock(&t.lib()))? {
            Ok(u) => {
                if !same {
                    return Err(Violation::new(format!("archive saved with {creds:?} unlocked with {t:?}")).with("file", &file));
                }
                ensure!(diff_db(&m, &model_db(u.database())).is_none(), "unlocked content differs");
                k = open(&file)?;
            }
            Err(f) => {
                ensure!(!same, "archive saved with {creds:?} did not unlock with the equivalent {t:?}: {}", f.1);
                let kd = kind(&f.1);
                let ok = if v4 { kd == "HmacInvalid" } else { kd == "StartBytesInvalid" || kd == "Decrypt" };
                ensure!(ok, "wrong credentials reported as {kd}: {}", f.1);
                k = f.0;
                failures += 1;
                c.event(format!("wrong credentials refused v{}", if v4 { 4 } else { 3 }));
            }
        }
        c.eval();
        c.distinct(&[&file, format!("{t:?}").as_bytes()]);
    }
    let back = write_locked(&k)?;
    ensure!(back == file, "archive changed by failed attempts");
    match lib("unlock", || k.unlock(&creds.lib()))? {
        Ok(u) => {
            if let Some(d) = diff_db(&m, &model_db(u.database())) {
                violate!("after {failures} failed attempts: {d}");
            }
        }
        Err(f) => violate!("right credentials refused after {failures} failed attempts: {}", f.1),
    }
    c.eval();
    c.event("right credentials after failures");
    c.sample(|| format!("{creds:?} after {failures} failures"));
    Ok(())
}
