use super::common::*;
use crate::attack;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::rng::Rng;
use crate::xmlref;
use kdbx_rs::binary::{Locked, Unlocked};
use kdbx_rs::Kdbx;

pub static PROP: Prop = Prop {
    id: "C17",
    run,
    quick: 10_000,
    thorough: 300_000,
    rule: "distinct archives passed through or re-saved and compared",
    required: &[
        "passed through v4", "passed through v3", "passed through after a wrong key v4", "passed through after a wrong key v3", "passed through, unsupported", "passed through, damaged", "passed through, hostile", "re-saved",
        "re-saved after an edit", "re-saved twice", "unknown outer field kept", "repeated outer field kept", "public custom data kept", "binary kept", "unknown inner field kept", "large field kept", "empty field kept", "header alike v4", "header alike v3",
        "newer minor version kept", "unlocked after the file was changed on the way out",
    ],
    assumptions: &[
        "fields of different kinds may be written in another order, fields of one kind may not",
        "parameters a known key derivation function does not use are not kept",
        "the AES key derivation of KDBX 3.1 and of KDBX 4 is the same function under two identifiers",
    ],
    ..DEFAULT
};

fn version(k: &Kdbx<Locked>) -> (u16, u16) {
    (k.major_version(), k.minor_version())
}

/// Fields that are neither encryption settings nor the end marker, fields of one kind in their order
fn others(fields: &FieldList, known: &[u8]) -> FieldList {
    let mut v: FieldList = fields.iter().filter(|f| !known.contains(&f.0)).cloned().collect();
    v.sort_by_key(|f| f.0);
    v
}

fn same_fields(what: &str, want: &FieldList, got: &FieldList) -> Verdict {
    if want != got {
        let show = |l: &FieldList| l.iter().map(|f| format!("{}:{}", f.0, f.1.len())).collect::<Vec<_>>().join(" ");
        violate!("{what} fields were [{}], are now [{}]", show(want), show(got));
    }
    Ok(())
}

/// A locked archive writes out what was read, also after failed attempts to unlock it
fn pass(c: &mut Case, data: &[u8], wrong: &[Creds], tag: &'static str) -> Res<Option<Kdbx<Locked>>> {
    let Ok(mut k) = try_open(data)? else { return Ok(None) };
    let v3 = k.major_version() < 4;
    let out = write_locked(&k)?;
    if out != data {
        return Err(Violation::new(format!("a locked archive of {} bytes was written as {} other bytes", data.len(), out.len())).with("file", data).with("written", &out));
    }
    c.event(if tag.is_empty() { if v3 { "passed through v3" } else { "passed through v4" } } else { tag });
    c.eval();
    c.distinct(&[data]);
    if !affordable(k.header()) {
        return Ok(Some(k));
    }
    for w in wrong {
        k = match lib("unlock", || k.unlock(&w.lib()))? {
            Ok(_) => return Ok(None),
            Err(f) => f.0,
        };
        let out = write_locked(&k)?;
        ensure!(out == data, "after a failed attempt a locked archive of {} bytes was written as {} other bytes", data.len(), out.len());
        if tag.is_empty() {
            c.event(if v3 { "passed through after a wrong key v3" } else { "passed through after a wrong key v4" });
        }
        c.eval();
    }
    Ok(Some(k))
}

fn wrong(rng: &mut Rng, right: &Creds) -> Vec<Creds> {
    let n = rng.below(3);
    (0..n).map(|_| gen::creds(rng)).filter(|w| composite(w) != composite(right)).collect()
}

fn resave(c: &mut Case, f: &File4, data: &[u8], s: &Settings, creds: &Creds, m: &MDb, rng: &mut Rng) -> Verdict {
    let Some(locked) = pass(c, data, &wrong(rng, creds), "")? else { violate!("conforming file could not be opened") };
    let reference = open(data)?;
    ensure!(locked.header() == reference.header(), "failed attempts changed the header");
    let mut u: Kdbx<Unlocked> = match lib("unlock", || locked.unlock(&creds.lib()))? {
        Ok(u) => u,
        Err(e) => violate!("conforming file could not be unlocked: {}", e.1),
    };
    let mut creds = creds.clone();
    let mut m = m.clone();
    let known = [0u8, 2, 3, 4, 7, 11];
    let outer = others(&f.fields, &known);
    let inner = others(&f.inner_fields, &[0, 1, 2]);
    let rounds = rng.range(1, 3);
    for i in 0..rounds {
        ensure!(u.header() == reference.header(), "unlocked archive reports another header than the locked one");
        ensure!((u.major_version(), u.minor_version()) == version(&reference), "unlocked archive reports another version");
        c.event("header alike v4");
        if rng.chance(1, 2) {
            m.name = gen::text(rng, gen::VALID);
            lib("set_name", || u.set_name(&m.name))?;
            c.event("re-saved after an edit");
        }
        if rng.chance(1, 4) {
            creds = gen::creds(rng);
            lib("set_key", || u.set_key(creds.lib()))?.map_err(|e| Violation::new(format!("set_key: {e}")))?;
        }
        let out = save(&u)?;
        c.eval();
        let d = match decode4(&out, &creds) {
            Ok(d) => d,
            Err(e) => violate!("re-saved file is not conforming: {e}"),
        };
        ensure!(out[8..12] == data[8..12], "version {:?} became {:?}", &data[8..12], &out[8..12]);
        let got = Settings { cipher: d.cipher, gzip: d.gzip, kdf: d.kdf, inner: d.inner, inner_key: d.inner_key, seed: d.seed, iv: d.iv };
        ensure!(got == *s, "re-saved under settings {got:?} instead of {s:?}");
        same_fields("outer", &outer, &others(&d.fields, &known))?;
        same_fields("inner", &inner, &others(&d.inner_fields, &[0, 1, 2]))?;
        let mut st = inner_stream(s.inner, &s.inner_key);
        match xmlref::interpret(&d.xml, st.as_mut()) {
            Ok(x) => {
                if let Some(d) = diff_db(&m, &x.db) {
                    violate!("re-saved content differs: {d}");
                }
            }
            Err(e) => violate!("re-saved content can not be read: {e}"),
        }
        c.event(if i == 0 { "re-saved" } else { "re-saved twice" });
        c.distinct(&[&out]);
        let again = open(&out)?;
        ensure!(again.header() == reference.header(), "re-saved file reports another header");
        ensure!(version(&again) == version(&reference), "re-saved file reports another version");
        let o2 = write_locked(&again)?;
        ensure!(o2 == out, "re-saved file is not passed through unchanged");
        let next = unlock(&out, &creds)?;
        ensure!(next.inner_header() == u.inner_header(), "re-saved file reports another inner header");
        u = next;
    }
    for (fs, name) in [(&outer, "outer"), (&inner, "inner")] {
        for x in fs.iter() {
            match (name, x.0) {
                ("outer", 12) => c.event("public custom data kept"),
                ("outer", _) => c.event("unknown outer field kept"),
                ("inner", 3) => c.event("binary kept"),
                _ => c.event("unknown inner field kept"),
            }
            if x.1.len() > 65_000 {
                c.event("large field kept");
            }
            if x.1.is_empty() {
                c.event("empty field kept");
            }
        }
    }
    if outer.windows(2).any(|w| w[0].0 == w[1].0) {
        c.event("repeated outer field kept");
    }
    if f.minor > 1 {
        c.event("newer minor version kept");
    }
    Ok(())
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    let creds = gen::creds(&mut rng);
    match c.idx % 8 {
        0 | 1 => {
            // KDBX 3.1 can only be passed through
            let s = settings3(&mut rng);
            let m = varied_db(&mut rng, gen::VALID);
            let hash = rng.chance(2, 3);
            let (_, data, _) = foreign3(&m, &s, &creds, &mut rng, hash);
            let Some(k) = pass(c, &data, &wrong(&mut rng, &creds), "")? else { violate!("conforming file could not be opened") };
            let reference = open(&data)?;
            let v = version(&k);
            ensure!(k.header() == reference.header(), "failed attempts changed the header");
            match lib("unlock", || k.unlock(&creds.lib()))? {
                Ok(u) => {
                    ensure!(u.header() == reference.header() && v == (u.major_version(), u.minor_version()), "unlocked archive reports another header or version than the locked one");
                    c.event("header alike v3");
                }
                Err(e) => violate!("conforming file could not be unlocked: {}", e.1),
            }
        }
        2 => {
            // damaged beyond the header, unsupported settings, hostile content: still passed through
            let s = gen::settings(&mut rng);
            let m = varied_db(&mut rng, gen::VALID);
            let (mut f, _, _) = foreign4(&m, &s, &creds, &mut rng);
            match rng.below(3) {
                0 => f.fields.iter_mut().filter(|x| x.0 == 2).for_each(|x| x.1 = gen::uuid(&mut rng).to_vec()),
                1 => f.fields.iter_mut().filter(|x| x.0 == 3).for_each(|x| x.1 = 7u32.to_le_bytes().to_vec()),
                _ => f.fields.iter_mut().filter(|x| x.0 == 11).for_each(|x| x.1 = dict_bytes(0x0100, &[item(0x42, "$UUID", gen::uuid(&mut rng).to_vec()), item(0x18, "p", b"q".to_vec())])),
            }
            let data = f.bytes(&mut rng);
            if pass(c, &data, &[creds.clone()], "passed through, unsupported")?.is_none() {
                violate!("file with unsupported settings could not be opened, or was unlocked");
            }
            let mut data = data;
            let from = f.header().len() + 64;
            match rng.below(3) {
                0 => {
                    let n = rng.range(from, data.len());
                    data.truncate(n);
                }
                1 => {
                    let n = rng.range(1, 100);
                    data.extend(rng.bytes(n));
                }
                _ => {
                    let i = rng.range(from, data.len() - 1);
                    data[i] ^= 1 << rng.below(8);
                }
            }
            pass(c, &data, &[creds], "passed through, damaged")?;
        }
        3 => {
            let class = rng.below(attack::CLASSES);
            let a = attack::file(&mut rng, class);
            pass(c, &a.data, &[], "passed through, hostile")?;
        }
        _ => {
            let s = gen::settings(&mut rng);
            let m = varied_db(&mut rng, gen::VALID);
            let (f, data, _) = foreign4(&m, &s, &creds, &mut rng);
            resave(c, &f, &data, &s, &creds, &m, &mut rng)?;
            // what is passed through is a copy of its own
            let k = open(&data)?;
            let mut out = write_locked(&k)?;
            out.fill(0);
            if let Err(e) = lib("unlock", || k.unlock(&creds.lib()))? {
                violate!("archive can no longer be unlocked after it was written out: {}", e.1);
            }
            c.event("unlocked after the file was changed on the way out");
            c.sample(|| format!("{} bytes, {} outer and {} inner fields, {}", data.len(), f.fields.len(), f.inner_fields.len(), s.class()));
        }
    }
    Ok(())
}
