use super::common::*;
use crate::gen;
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};

pub static PROP: Prop = Prop {
    id: "C04",
    run,
    quick: 12_000,
    thorough: 200_000,
    rule: "distinct KDBX 3.1 files from the reference encoder that were opened, unlocked and compared with the model",
    required: &["unlocked", "unknown elements", "unknown protected elements", "many blocks", "save refused", "without header hash"],
    assumptions: &[
        "carriage returns are spelled as character references, as XML requires",
        "encoding of the document is UTF-8",
    ],
    ..DEFAULT
};

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.clone();
    let s = settings3(&mut rng);
    let creds = gen::creds(&mut rng);
    let m = match c.idx % 30 {
        0 => {
            let n = rng.range(50, 200);
            gen::deep_db(&mut rng, n, 4)
        }
        1 if c.idx % 300 == 1 => gen::wide_db(&mut rng, 800, 100),
        2 if c.idx % 150 == 2 => {
            let mut m = varied_db(&mut rng, gen::VALID);
            let n = rng.range(200_000, 2_500_000);
            m.desc = gen::ascii(&mut rng, n);
            m
        }
        _ => varied_db(&mut rng, gen::VALID),
    };
    let hash = rng.chance(2, 3);
    if !hash {
        c.event("without header hash");
    }
    let (f, bytes, w) = foreign3(&m, &s, &creds, &mut rng, hash);
    let k = open(&bytes)?;
    c.eval();
    ensure!(k.major_version() == 3 && k.minor_version() == f.minor, "version 3.{} reported as {}.{}", f.minor, k.major_version(), k.minor_version());
    if let Some(d) = header_matches(k.header(), &s) {
        violate!("while locked: {d}");
    }
    ensure!(k.header().stream_start_bytes.as_deref() == Some(&f.start[..]), "stream start bytes reported wrong");
    let u = match lib("unlock", || k.unlock(&creds.lib()))? {
        Ok(u) => u,
        Err(e) => return Err(Violation::new(format!("conforming file could not be unlocked ({}): {}", s.class(), e.1)).with("file", &bytes).with("xml", &f.xml)),
    };
    let got = lib("inspecting", || model_db(u.database()))?;
    c.eval();
    if let Some(d) = diff_db(&m, &got) {
        return Err(Violation::new(format!("read from a conforming file ({}): {d}", s.class())).with("xml", &f.xml));
    }
    ensure!(u.raw_xml() == Some(&f.xml[..]), "decrypted XML exposed to the caller differs from the stored document");
    if let Some(d) = header_matches(u.header(), &s) {
        violate!("after unlocking: {d}");
    }
    ensure!(u.major_version() == 3 && u.minor_version() == f.minor, "version changed by unlocking");
    ensure!(u.inner_header().inner_stream_cipher == s.inner.lib(), "inner stream reported as {:?}", u.inner_header().inner_stream_cipher);
    ensure!(u.inner_header().inner_stream_key == s.inner_key, "inner stream key reported wrong");
    c.eval();
    match try_save(&u)? {
        Err(_) => c.event("save refused"),
        Ok(out) => return Err(Violation::new("saving a KDBX 3.1 archive reported success").with("output", &out)),
    }
    c.event("unlocked");
    c.event(format!("settings {}", s.class()));
    if w.unknown > 0 {
        c.events("unknown elements", w.unknown as u64);
    }
    if w.unknown_secrets > 0 {
        c.events("unknown protected elements", w.unknown_secrets as u64);
    }
    if f.cuts.len() > 10 {
        c.event("many blocks");
    }
    c.max("file bytes", bytes.len() as u64);
    c.distinct(&[&bytes]);
    c.sample(|| format!("{} bytes, {}, {} unknown elements, {} secrets", bytes.len(), s.class(), w.unknown, w.secrets));
    Ok(())
}
