use super::common::*;
use crate::gen;
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};

pub static PROP: Prop = Prop {
    id: "C03",
    run,
    quick: 12_000,
    thorough: 200_000,
    rule: "distinct KDBX 4 files from the reference encoder that were opened, unlocked and compared with the model",
    required: &["unlocked", "unknown elements", "unknown protected elements", "many blocks", "very many blocks"],
    assumptions: &[
        "carriage returns are spelled as character references, as XML requires",
        "key files have sizes that other programs hash as a whole (not 32 bytes, not 64 hex digits, not XML)",
        "encoding of the document is UTF-8",
    ],
    ..DEFAULT
};

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.clone();
    let s = gen::settings(&mut rng);
    let creds = gen::creds(&mut rng);
    let m = match c.idx % 30 {
        0 => {
            let n = rng.range(50, 200);
            gen::deep_db(&mut rng, n, 4)
        }
        1 if c.idx % 300 == 1 => gen::wide_db(&mut rng, 800, 100),
        2 if c.idx % 150 == 2 => {
            let mut m = varied_db(&mut rng, gen::VALID);
            let n = rng.range(200_000, 2_500_000);
            m.desc = gen::ascii(&mut rng, n);
            m
        }
        _ => varied_db(&mut rng, gen::VALID),
    };
    let (mut f, mut bytes, w) = foreign4(&m, &s, &creds, &mut rng);
    if c.idx % 150 == 2 && c.idx % 4500 == 2 {
        // more blocks than a 16-bit number counts
        f.cuts = vec![1; 70_000];
        bytes = f.bytes(&mut rng);
        c.event("very many blocks");
    }
    let k = open(&bytes)?;
    c.eval();
    ensure!(k.major_version() == 4 && k.minor_version() == f.minor, "version 4.{} reported as {}.{}", f.minor, k.major_version(), k.minor_version());
    if let Some(d) = header_matches(k.header(), &s) {
        return Err(Violation::new(format!("while locked: {d}")).with("file", &bytes));
    }
    let extra = f.fields.iter().filter(|x| !matches!(x.0, 0 | 2 | 3 | 4 | 7 | 11)).count();
    ensure!(k.header().other_headers.len() == extra, "{} other header fields reported, file has {extra}", k.header().other_headers.len());
    let u = match lib("unlock", || k.unlock(&creds.lib()))? {
        Ok(u) => u,
        Err(e) => return Err(Violation::new(format!("conforming file could not be unlocked ({}): {}", s.class(), e.1)).with("file", &bytes).with("xml", &f.xml)),
    };
    let got = lib("inspecting", || model_db(u.database()))?;
    c.eval();
    if let Some(d) = diff_db(&m, &got) {
        return Err(Violation::new(format!("read from a conforming file ({}): {d}", s.class())).with("xml", &f.xml));
    }
    ensure!(u.database().meta().generator == "Other Program", "generator {:?}", u.database().meta().generator);
    ensure!(u.raw_xml() == Some(&f.xml[..]), "decrypted XML exposed to the caller differs from the stored document");
    if let Some(d) = header_matches(u.header(), &s) {
        violate!("after unlocking: {d}");
    }
    let ih = u.inner_header();
    ensure!(ih.inner_stream_cipher == s.inner.lib(), "inner stream reported as {:?}", ih.inner_stream_cipher);
    ensure!(ih.inner_stream_key == s.inner_key, "inner stream key reported wrong");
    let extra = f.inner_fields.iter().filter(|x| !matches!(x.0, 0..=2)).count();
    ensure!(ih.other_headers.len() == extra, "{} other inner fields reported, file has {extra}", ih.other_headers.len());
    c.eval();
    c.event("unlocked");
    c.event(format!("settings {}", s.class()));
    c.events("secrets", w.secrets as u64);
    if w.unknown > 0 {
        c.events("unknown elements", w.unknown as u64);
    }
    if w.unknown_secrets > 0 {
        c.events("unknown protected elements", w.unknown_secrets as u64);
    }
    if f.cuts.len() > 10 {
        c.event("many blocks");
    }
    c.max("file bytes", bytes.len() as u64);
    c.distinct(&[&bytes]);
    c.sample(|| format!("{} bytes, {}, {} unknown elements, {} secrets", bytes.len(), s.class(), w.unknown, w.secrets));
    Ok(())
}
