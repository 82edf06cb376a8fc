use super::common::*;
use crate::attack;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::hostile::{FragReader, FragWriter};
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::rng::Rng;
use kdbx_rs::binary::Locked;
use kdbx_rs::errors::OpenError;
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::Kdbx;

pub static PROP: Prop = Prop {
    id: "C09",
    run,
    quick: 10_000,
    thorough: 200_000,
    rule: "distinct (data, chunking) pairs whose outcome was compared with the in-memory run",
    required: &[
        "opened alike v4", "opened alike v3", "refused alike", "unlocked alike", "parsed alike", "parse refused alike", "one byte at a time", "interrupted reads", "interrupted writes",
        "locked write alike", "save alike", "XML write alike", "path alike", "path refused alike", "large file",
    ],
    assumptions: &["saved archives are compared by decoding them, since parameter order and compression time stamps may differ between two saves"],
    ..DEFAULT
};

fn chunk(rng: &mut Rng) -> (usize, bool) {
    (*rng.pick(&[1usize, 1, 2, 3, 5, 8, 13, 16, 17, 33, 64, 100, 1000, 4096, 70_000]), rng.chance(1, 2))
}

fn note(c: &mut Case, max: usize, intr: bool, write: bool) {
    if max == 1 {
        c.event("one byte at a time");
    }
    if intr {
        c.event(if write { "interrupted writes" } else { "interrupted reads" });
    }
}

type Open = Result<Kdbx<Locked>, OpenError>;

/// Compare two results of opening the same bytes; the archive if both opened
fn same_open(a: Open, b: Open, how: &str) -> Res<Option<(Kdbx<Locked>, Kdbx<Locked>)>> {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            ensure!(a.header() == b.header(), "{how}: header differs");
            ensure!((a.major_version(), a.minor_version()) == (b.major_version(), b.minor_version()), "{how}: version differs");
            let (x, y) = (write_locked(&a)?, write_locked(&b)?);
            ensure!(x == y, "{how}: archive holds {} bytes instead of {}", y.len(), x.len());
            Ok(Some((a, b)))
        }
        (Err(a), Err(b)) => {
            ensure!(format!("{a}") == format!("{b}"), "{how}: refused with \"{b}\" instead of \"{a}\"");
            Ok(None)
        }
        (Ok(_), Err(e)) => violate!("{how}: refused with \"{e}\", opens from memory"),
        (Err(e), Ok(_)) => violate!("{how}: opens, refused from memory with \"{e}\""),
    }
}

fn compare_unlock(c: &mut Case, a: Kdbx<Locked>, b: Kdbx<Locked>, creds: &Creds, content: bool) -> Verdict {
    if !affordable(a.header()) {
        return Ok(());
    }
    let key = creds.lib();
    match (lib("unlock", || a.unlock(&key))?, lib("unlock", || b.unlock(&key))?) {
        (Ok(a), Ok(b)) => {
            ensure!(a.raw_xml() == b.raw_xml(), "decrypted XML differs");
            ensure!(a.inner_header() == b.inner_header(), "inner header differs");
            if content {
                if let Some(d) = diff_db(&model_db(a.database()), &model_db(b.database())) {
                    violate!("content differs: {d}");
                }
            }
            c.event("unlocked alike");
        }
        (Err(a), Err(b)) => {
            ensure!(kind(&a.1) == kind(&b.1), "unlocking failed with {} instead of {}", kind(&b.1), kind(&a.1));
        }
        (Ok(_), Err(e)) => violate!("unlocking failed: {}", e.1),
        (Err(_), Ok(_)) => violate!("unlocked, but not when read from memory"),
    }
    Ok(())
}

fn reading(c: &mut Case, data: &[u8], creds: &Creds, valid: bool, rng: &mut Rng) -> Verdict {
    for i in 0..3 {
        let (max, intr) = chunk(rng);
        let mem = try_open(data)?;
        let mut r = FragReader::new(data, rng.fork(), max, intr);
        let got = lib("from_reader", || kdbx_rs::from_reader(&mut r))?;
        let how = format!("pieces of up to {max} bytes{}", if intr { ", interrupted" } else { "" });
        let v3 = data.get(10) == Some(&3);
        match same_open(mem, got, &how)? {
            Some((a, b)) => {
                c.event(if v3 { "opened alike v3" } else { "opened alike v4" });
                if i == 0 {
                    compare_unlock(c, a, b, creds, valid)?;
                }
            }
            None => c.event("refused alike"),
        }
        note(c, max, intr, false);
        c.eval();
        c.distinct(&[data, &[max as u8, intr as u8, i]]);
    }
    Ok(())
}

fn documents(c: &mut Case, xml: &[u8], valid: bool, s: &Settings, rng: &mut Rng) -> Verdict {
    for i in 0..2 {
        let (max, intr) = chunk(rng);
        let mut st = inner_stream(s.inner, &s.inner_key);
        let mem = lib("parse_xml", || kdbx_rs::xml::parse_xml(xml, st.as_mut()))?;
        let mut st = inner_stream(s.inner, &s.inner_key);
        let mut r = FragReader::new(xml, rng.fork(), max, intr);
        let got = lib("parse_xml", || kdbx_rs::xml::parse_xml(&mut r, st.as_mut()))?;
        match (mem, got) {
            (Ok(a), Ok(b)) => {
                if valid {
                    if let Some(d) = diff_db(&model_db(&a), &model_db(&b)) {
                        violate!("XML read in pieces of up to {max} bytes (interrupted {intr}) differs: {d}");
                    }
                }
                c.event("parsed alike");
            }
            (Err(a), Err(b)) => {
                ensure!(format!("{a}") == format!("{b}"), "XML refused with \"{b}\" instead of \"{a}\"");
                c.event("parse refused alike");
            }
            (Ok(_), Err(e)) => violate!("XML read in pieces of up to {max} bytes (interrupted {intr}) refused: {e}"),
            (Err(e), Ok(_)) => violate!("XML read in pieces of up to {max} bytes accepted, refused from memory: {e}"),
        }
        note(c, max, intr, false);
        c.eval();
        c.distinct(&[xml, &[max as u8, intr as u8, i]]);
    }
    Ok(())
}

fn writing(c: &mut Case, m: &MDb, s: &Settings, creds: &Creds, rng: &mut Rng) -> Verdict {
    let k = archive(lib_db(m), s, creds)?;
    let plain = match try_save(&k)? {
        Ok(d) => d,
        Err(e) => {
            let (max, intr) = chunk(rng);
            let mut w = FragWriter::new(rng.fork(), max, intr);
            let r = lib("write", || k.write(&mut w))?;
            ensure!(r.is_err(), "saving in pieces works, saving to memory fails: {e}");
            return Ok(());
        }
    };
    let want = decode4(&plain, creds).map_err(|e| Violation::new(format!("saved file can not be decoded: {e}")).with("file", &plain))?;
    let lock = open(&plain)?;
    for i in 0..2u8 {
        let (max, intr) = chunk(rng);
        // unlocked
        let mut w = FragWriter::new(rng.fork(), max, intr);
        lib("write", || k.write(&mut w))?.map_err(|e| Violation::new(format!("saving in pieces of up to {max} bytes (interrupted {intr}) failed: {e}")))?;
        let got = decode4(&w.out, creds).map_err(|e| Violation::new(format!("file saved in pieces can not be decoded: {e}")).with("file", &w.out))?;
        ensure!(got.xml == want.xml, "XML saved in pieces differs");
        ensure!(got.inner_fields == want.inner_fields, "inner header saved in pieces differs");
        ensure!(fields_sorted(&got.fields) == fields_sorted(&want.fields), "header saved in pieces differs");
        c.event("save alike");
        c.distinct(&[&plain, &[max as u8, intr as u8, i]]);
        // locked
        let mut w = FragWriter::new(rng.fork(), max, intr);
        lib("write", || lock.write(&mut w))?.map_err(|e| Violation::new(format!("writing in pieces failed: {e}")))?;
        ensure!(w.out == plain, "locked archive written in pieces of up to {max} bytes (interrupted {intr}) differs");
        c.event("locked write alike");
        // XML
        let mut mem = Vec::new();
        let a = lib("write_xml", || kdbx_rs::xml::write_xml(&mut mem, k.database(), &mut NullStreamCipher))?;
        let mut w = FragWriter::new(rng.fork(), max, intr);
        let b = lib("write_xml", || kdbx_rs::xml::write_xml(&mut w, k.database(), &mut NullStreamCipher))?;
        match (a, b) {
            (Ok(()), Ok(())) => {
                ensure!(mem == w.out, "XML written in pieces of up to {max} bytes (interrupted {intr}) differs");
                c.event("XML write alike");
            }
            (Err(_), Err(_)) => {}
            (a, b) => violate!("XML written to memory: {a:?}, in pieces: {b:?}"),
        }
        note(c, max, intr, true);
        c.eval();
    }
    Ok(())
}

/// Header fields with the parameter dictionary in a fixed order
fn fields_sorted(f: &[(u8, Vec<u8>)]) -> Vec<(u8, Vec<u8>)> {
    f.iter()
        .map(|(id, d)| {
            if *id == 11 {
                let mut items = parse_dict(d).unwrap_or_default();
                items.sort_by(|a, b| a.key.cmp(&b.key));
                (*id, dict_bytes(0x100, &items))
            } else {
                (*id, d.clone())
            }
        })
        .collect()
}

fn paths(c: &mut Case, data: &[u8], rng: &mut Rng) -> Verdict {
    let p = c.dir.join(format!("c09-{}.kdbx", c.idx));
    std::fs::write(&p, data).unwrap();
    let got = lib("open", || kdbx_rs::open(&p));
    let after = std::fs::read(&p).unwrap();
    std::fs::remove_file(&p).unwrap();
    let got = got?;
    ensure!(after == data, "opening a file changed it");
    match same_open(try_open(data)?, got, "opened by path")? {
        Some(_) => c.event("path alike"),
        None => c.event("path refused alike"),
    }
    if rng.chance(1, 10) {
        let r = lib("open", || kdbx_rs::open(c.dir.join("no such file")))?;
        ensure!(matches!(r, Err(OpenError::Io(_))), "missing file not reported as an I/O error");
        let r = lib("open", || kdbx_rs::open(c.dir))?;
        ensure!(r.is_err(), "a directory was opened as an archive");
    }
    c.eval();
    Ok(())
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.clone();
    let s = attack::cheap_settings(&mut rng);
    let creds = gen::creds(&mut rng);
    match c.idx % 10 {
        0..=2 => {
            let m = varied_db(&mut rng, gen::VALID);
            let (_, mut data, w) = if c.idx % 2 == 0 {
                let (_, d, w) = foreign4(&m, &s, &creds, &mut rng);
                ((), d, w)
            } else {
                let mut s3 = settings3(&mut rng);
                s3.kdf = attack::cheap_kdf(s3.kdf);
                let (_, d, w) = foreign3(&m, &s3, &creds, &mut rng, true);
                ((), d, w)
            };
            let mut valid = true;
            if rng.chance(1, 4) {
                let n = rng.below(data.len());
                data.truncate(n);
                valid = false;
            }
            reading(c, &data, &creds, valid, &mut rng).map_err(|v| v.with("file", &data))?;
            paths(c, &data, &mut rng).map_err(|v| v.with("file", &data))?;
            if c.idx % 2 == 0 {
                documents(c, &w.xml, true, &s, &mut rng).map_err(|v| v.with("xml", &w.xml))?;
            }
            c.sample(|| format!("file of {} bytes, valid {valid}", data.len()));
        }
        3 | 4 => {
            let which = rng.below(attack::CLASSES);
            let a = attack::file(&mut rng, which);
            reading(c, &a.data, &a.creds, false, &mut rng).map_err(|v| v.with("file", &a.data))?;
            paths(c, &a.data, &mut rng).map_err(|v| v.with("file", &a.data))?;
        }
        5 => {
            let (_, x) = attack::hostile_xml(&mut rng, &s, false);
            documents(c, &x, false, &s, &mut rng).map_err(|v| v.with("xml", &x))?;
        }
        6 if c.idx % 100 == 6 => {
            let n = rng.range(1_000_000, 2_400_000);
            let mut m = gen::db(&mut rng, &gen::SMALL);
            m.desc = gen::ascii(&mut rng, n);
            writing(c, &m, &s, &creds, &mut rng)?;
            c.event("large file");
        }
        _ => {
            let m = varied_db(&mut rng, gen::ANY);
            writing(c, &m, &s, &creds, &mut rng)?;
        }
    }
    Ok(())
}
