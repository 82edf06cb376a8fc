use super::common::*;
use crate::attack;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::hostile::{FailReader, FailWriter, WriteFault};
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::rng::Rng;
use kdbx_rs::binary::{Locked, Unlocked};
use kdbx_rs::Kdbx;
use std::io::{BufWriter, ErrorKind};

pub static PROP: Prop = Prop {
    id: "C10",
    run,
    quick: 1_200,
    thorough: 30_000,
    level: "fault_enumeration",
    rule: "distinct (document, operation, fault position, fault kind) tuples in which the fault struck",
    required: &[
        "read fault v4", "read fault v3", "read ended early", "fault in locked write", "fault in save", "fault in XML write", "flush fault", "accepts nothing", "fails once",
        "fault behind a buffer", "retry complete", "repeated faults then retry", "every offset of a locked file", "every offset of a save", "every offset of an XML text", "read fault in XML", "success was flushed",
    ],
    assumptions: &["interrupted calls are no failures and are covered by C09"],
    ..DEFAULT
};

const KINDS: [ErrorKind; 10] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionReset,
];

fn fault(rng: &mut Rng, i: usize) -> WriteFault {
    let k = KINDS[rng.below(KINDS.len())];
    match i % 4 {
        0 | 1 => WriteFault::Error(k),
        2 => WriteFault::Zero,
        _ => WriteFault::Once(k),
    }
}

fn piece(rng: &mut Rng) -> usize {
    *rng.pick(&[1usize, 7, 64, 4096, usize::MAX, usize::MAX])
}

fn fault_event(c: &mut Case, f: WriteFault) {
    match f {
        WriteFault::Flush => c.event("flush fault"),
        WriteFault::Zero => c.event("accepts nothing"),
        WriteFault::Once(_) => c.event("fails once"),
        WriteFault::Error(k) => c.event(format!("error {k:?}")),
    }
}

/// One write with a fault: success must mean that everything arrived and was flushed
fn strike<E: std::fmt::Display>(c: &mut Case, what: &str, id: &[u8], at: usize, f: WriteFault, max: usize, write: impl FnOnce(&mut FailWriter) -> Result<(), E>) -> Verdict {
    let mut w = FailWriter::new(at, f, max);
    let r = lib(what, || write(&mut w))?;
    c.eval();
    if r.is_ok() {
        ensure!(w.failed == 0, "{what} reported success although the writer failed ({f:?} after {at} bytes)");
        ensure!(w.flushed_at == Some(w.out.len()), "{what} reported success with {} bytes written but {:?} flushed", w.out.len(), w.flushed_at);
        c.event("success was flushed");
    } else {
        ensure!(w.failed > 0, "{what} failed although the writer did not ({f:?} after {at} bytes)");
        c.event(format!("fault in {what}"));
        fault_event(c, f);
        c.distinct(&[id, what.as_bytes(), &at.to_le_bytes(), format!("{f:?}").as_bytes()]);
    }
    Ok(())
}

/// Offsets to fail at: all of them for short data, otherwise the interesting ones
fn offsets(c: &mut Case, rng: &mut Rng, len: usize, limit: usize, all: &str, edges: &[usize]) -> Vec<usize> {
    if len <= limit {
        c.event(all);
        return (0..len).collect();
    }
    let limit = limit.min(400);
    let mut v = vec![0, 1, len / 2, len - 1];
    for e in edges {
        v.extend([e.saturating_sub(1), *e, e + 1]);
    }
    while v.len() < limit {
        v.push(rng.below(len));
    }
    v.retain(|o| *o < len);
    v.sort_unstable();
    v.dedup();
    v
}

fn check_saved(data: &[u8], want: &MDb, want_xml: &[u8], creds: &Creds) -> Verdict {
    let d = decode4(data, creds).map_err(|e| Violation::new(format!("file saved after a failed attempt is damaged: {e}")).with("file", data))?;
    ensure!(d.xml == want_xml, "file saved after a failed attempt has different XML");
    let k = unlock(data, creds)?;
    if let Some(d) = diff_db(want, &model_db(k.database())) {
        violate!("content saved after a failed attempt differs: {d}");
    }
    Ok(())
}

fn saving(c: &mut Case, k: &Kdbx<Unlocked>, m: &MDb, creds: &Creds, rng: &mut Rng) -> Verdict {
    let good = save(k)?;
    let d = decode4(&good, creds).map_err(|e| Violation::new(format!("saved file can not be decoded: {e}")).with("file", &good))?;
    let edges: Vec<usize> = [12, d.header_len, d.header_len + 32, d.header_len + 64].into_iter().chain(d.block_at.iter().flat_map(|b| [*b, *b + 32, *b + 36])).collect();
    let limit = if c.thorough || c.idx % 8 == 0 { 3500 } else { 60 };
    // the length of a save may vary a little with the compression time stamp, never with the fault
    let offs = offsets(c, rng, good.len(), limit, "every offset of a save", &edges);
    for (i, at) in offs.iter().enumerate() {
        let f = fault(rng, i);
        strike(c, "save", &good[..64], *at, f, piece(rng), |w| k.write(w))?;
        if rng.chance(1, 40) {
            for _ in 0..rng.range(0, 3) {
                let f = fault(rng, i + 1);
                strike(c, "save", &good[..64], rng.below(good.len()), f, piece(rng), |w| k.write(w))?;
                c.event("repeated faults then retry");
            }
            check_saved(&save(k)?, m, &d.xml, creds)?;
            c.event("retry complete");
        }
    }
    strike(c, "save", &good[..64], 0, WriteFault::Flush, piece(rng), |w| k.write(w))?;
    strike(c, "save", &good[..64], usize::MAX, WriteFault::Zero, piece(rng), |w| k.write(w))?;
    // an application's buffer in between: its own flush has to be requested and its result passed on
    for _ in 0..6 {
        let at = rng.below(good.len());
        let cap = *rng.pick(&[1usize, 16, 8192, 1 << 20]);
        let f = fault(rng, at);
        strike(c, "save", &good[..64], at, f, usize::MAX, |w| {
            let mut b = BufWriter::with_capacity(cap, w);
            let r = k.write(&mut b);
            let _ = b.into_parts();
            r
        })?;
        c.event("fault behind a buffer");
    }
    check_saved(&save(k)?, m, &d.xml, creds)?;
    c.event("retry complete");
    Ok(())
}

fn locked(c: &mut Case, k: &Kdbx<Locked>, data: &[u8], rng: &mut Rng) -> Verdict {
    let limit = if c.thorough || c.idx % 4 == 3 && c.idx % 16 == 3 { 20_000 } else { 400 };
    let offs = offsets(c, rng, data.len(), limit, "every offset of a locked file", &[]);
    for (i, at) in offs.iter().enumerate() {
        let f = fault(rng, i);
        strike(c, "locked write", &data[..data.len().min(200)], *at, f, piece(rng), |w| k.write(w))?;
    }
    strike(c, "locked write", data, 0, WriteFault::Flush, piece(rng), |w| k.write(w))?;
    strike(c, "locked write", data, usize::MAX, WriteFault::Zero, piece(rng), |w| k.write(w))?;
    for _ in 0..4 {
        let at = rng.below(data.len());
        let f = fault(rng, at);
        strike(c, "locked write", data, at, f, usize::MAX, |w| {
            let mut b = BufWriter::with_capacity(8192, w);
            let r = k.write(&mut b);
            let _ = b.into_parts();
            r
        })?;
        c.event("fault behind a buffer");
    }
    ensure!(write_locked(k)? == data, "locked archive differs after failed writes");
    c.event("retry complete");
    Ok(())
}

fn xml(c: &mut Case, k: &Kdbx<Unlocked>, s: &Settings, rng: &mut Rng) -> Verdict {
    let emit = |w: &mut dyn std::io::Write| {
        let mut st = inner_stream(s.inner, &s.inner_key);
        kdbx_rs::xml::write_xml(w, k.database(), st.as_mut())
    };
    let mut good = Vec::new();
    lib("write_xml", || emit(&mut good))?.map_err(|e| Violation::new(format!("XML write failed: {e}")))?;
    let limit = if c.thorough || c.idx % 8 == 1 { 5000 } else { 60 };
    let offs = offsets(c, rng, good.len(), limit, "every offset of an XML text", &[good.len() - 13, good.len() - 21]);
    for (i, at) in offs.iter().enumerate() {
        let f = fault(rng, i);
        strike(c, "XML write", &good[..good.len().min(4000)], *at, f, piece(rng), |w| emit(w))?;
    }
    strike(c, "XML write", &good, 0, WriteFault::Flush, piece(rng), |w| emit(w))?;
    strike(c, "XML write", &good, usize::MAX, WriteFault::Zero, piece(rng), |w| emit(w))?;
    let mut again = Vec::new();
    lib("write_xml", || emit(&mut again))?.map_err(|e| Violation::new(format!("XML write failed: {e}")))?;
    ensure!(again == good, "XML text differs after failed writes");
    // reading it back from a failing or short source
    let body = good.windows(14).rposition(|w| w == b"</KeePassFile>").map(|p| p + 13).unwrap_or(good.len());
    for i in 0..(if limit > 100 { 400 } else { 40 }) {
        let at = if i == 0 { 0 } else { rng.below(body) };
        let mut st = inner_stream(s.inner, &s.inner_key);
        let mut r = FailReader { data: &good, pos: 0, at, kind: KINDS[rng.below(KINDS.len())], max: piece(rng), once: rng.chance(1, 2), failed: 0 };
        let kind = r.kind;
        let p = lib("parse_xml", || kdbx_rs::xml::parse_xml(&mut r, st.as_mut()))?;
        ensure!(p.is_err() || r.failed == 0, "XML accepted although its reader failed with {kind:?} after {at} of {} bytes", good.len());
        let mut st = inner_stream(s.inner, &s.inner_key);
        let p = lib("parse_xml", || kdbx_rs::xml::parse_xml(&good[..at], st.as_mut()))?;
        ensure!(p.is_err(), "XML accepted although it ended after {at} of {} bytes", good.len());
        c.event("read fault in XML");
        c.eval();
    }
    Ok(())
}

fn reading(c: &mut Case, data: &[u8], header: usize, creds: &Creds, rng: &mut Rng) -> Verdict {
    let v3 = data[10] == 3;
    let limit = if c.thorough || c.idx % 4 == 1 { 20_000 } else { 600 };
    let mut offs = offsets(c, rng, data.len(), limit, "every offset of a read", &[12, header, header + 32, header + 64]);
    offs.push(data.len());
    for at in offs {
        let kind = KINDS[rng.below(KINDS.len())];
        let mut r = FailReader { data, pos: 0, at, kind, max: piece(rng), once: rng.chance(1, 2), failed: 0 };
        let got = lib("from_reader", || kdbx_rs::from_reader(&mut r))?;
        c.eval();
        if r.failed > 0 {
            ensure!(got.is_err(), "opened although the reader failed with {kind:?} after {at} of {} bytes", data.len());
            c.event(if v3 { "read fault v3" } else { "read fault v4" });
            c.distinct(&[&data[..data.len().min(200)], b"read", &at.to_le_bytes(), format!("{kind:?}").as_bytes()]);
        }
    }
    for _ in 0..(if limit > 1000 { 60 } else { 12 }) {
        let n = match rng.below(4) {
            0 => data.len() - rng.range(1, data.len().min(64)),
            1 => rng.below(header.min(data.len())),
            _ => rng.below(data.len()),
        };
        if let Opened::Yes(_) = attempt(&data[..n], creds)? {
            violate!("unlocked although the file ended after {n} of {} bytes", data.len());
        }
        c.event("read ended early");
        c.eval();
    }
    unlock(data, creds)?;
    Ok(())
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.clone();
    let mut s = attack::cheap_settings(&mut rng);
    let creds = gen::creds(&mut rng);
    let mut text = gen::VALID;
    text.long = false;
    let mut m = gen::db(&mut rng, &gen::Shape { text, ..gen::SMALL });
    if rng.chance(2, 3) {
        m.root.groups.clear();
        m.root.entries.truncate(1);
    }
    if !representable(&m) {
        return Ok(());
    }
    match c.idx % 4 {
        0 | 2 => {
            if c.idx % 100 == 2 {
                let n = rng.range(1_000_000, 2_200_000);
                m.desc = gen::ascii(&mut rng, n);
                c.event("large file");
            }
            let k = archive(lib_db(&m), &s, &creds)?;
            saving(c, &k, &m, &creds, &mut rng)?;
            c.sample(|| format!("save of {:?}", s.class()));
        }
        1 => {
            let k = archive(lib_db(&m), &s, &creds)?;
            xml(c, &k, &s, &mut rng)?;
            let data = save(&k)?;
            let n = decode4(&data, &creds).map(|d| d.header_len).unwrap_or(100);
            reading(c, &data, n, &creds, &mut rng).map_err(|v| v.with("file", &data))?;
        }
        _ => {
            let (data, header) = if rng.chance(1, 2) {
                let (f, d, _) = foreign4(&m, &s, &creds, &mut rng);
                (d, f.header().len())
            } else {
                s = settings3(&mut rng);
                s.kdf = attack::cheap_kdf(s.kdf);
                let (f, d, _) = foreign3(&m, &s, &creds, &mut rng, true);
                (d, f.header().len())
            };
            reading(c, &data, header, &creds, &mut rng).map_err(|v| v.with("file", &data))?;
            let mut k = open(&data)?;
            if rng.chance(1, 2) {
                // a failed unlock must not take away from what is written later
                let wrong = Creds { pw: Some("not it".into()), keyfile: Some(vec![1, 2, 3]) };
                match lib("unlock", || k.unlock(&wrong.lib()))? {
                    Ok(_) => violate!("unlocked with a wrong key"),
                    Err(f) => k = f.0,
                }
            }
            locked(c, &k, &data, &mut rng).map_err(|v| v.with("file", &data))?;
        }
    }
    Ok(())
}
