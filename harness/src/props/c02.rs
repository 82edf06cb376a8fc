use super::common::*;
use crate::container::*;
use crate::gen;
use crate::model::*;
use crate::mon::{Case, Prop, Verdict, Violation, DEFAULT};
use crate::xmlref;

pub static PROP: Prop = Prop {
    id: "C02",
    run,
    quick: 8000,
    thorough: 120_000,
    rule: "distinct files written by the library and decoded by the independent strict decoder",
    required: &["decoded", "multi-block file", "from existing file", "protected values"],
    assumptions: &["the cipher, hash and Argon2 primitives of the published crates are correct"],
    ..DEFAULT
};

pub fn check(c: &mut Case, m: &MDb, s: &Settings, creds: &gen::Creds, file: &[u8]) -> Verdict {
    let d = decode4(file, creds).map_err(|e| Violation::new(format!("written file does not follow the format ({}): {e}", s.class())).with("file", file))?;
    c.eval();
    ensure!(d.cipher == s.cipher, "header announces {:?}, settings were {:?}", d.cipher, s.cipher);
    ensure!(d.gzip == s.gzip, "header announces gzip={}, settings were {}", d.gzip, s.gzip);
    ensure!(d.kdf == s.kdf, "header announces {:?}, settings were {:?}", d.kdf, s.kdf);
    ensure!(d.seed == s.seed, "header announces another master seed");
    ensure!(d.iv == s.iv, "header announces another IV");
    ensure!(d.inner == s.inner, "inner header announces {:?}, settings were {:?}", d.inner, s.inner);
    ensure!(d.inner_key == s.inner_key, "inner header announces another stream key");
    let mut stream = inner_stream(d.inner, &d.inner_key);
    let i = xmlref::interpret(&d.xml, stream.as_mut()).map_err(|e| Violation::new(format!("inner document: {e}")).with("xml", &d.xml))?;
    c.eval();
    if let Some(x) = diff_db(m, &i.db) {
        return Err(Violation::new(format!("decoded by the reference decoder ({}): {x}", s.class())).with("xml", &d.xml));
    }
    c.event("decoded");
    c.events("protected values", i.secrets.len() as u64);
    if d.blocks.len() > 1 {
        c.event("multi-block file");
    }
    c.max("blocks", d.blocks.len() as u64);
    c.max("file bytes", file.len() as u64);
    c.distinct(&[file]);
    c.sample(|| format!("{} blocks {:?}, {} secrets", s.class(), d.blocks, i.secrets.len()));
    Ok(())
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.clone();
    let s = gen::settings(&mut rng);
    let creds = gen::creds(&mut rng);
    let mut m = match c.idx % 20 {
        0 => {
            let n = rng.range(50, 200);
            gen::deep_db(&mut rng, n, 4)
        }
        1 if c.idx % 200 == 1 => gen::wide_db(&mut rng, 800, 100),
        _ => varied_db(&mut rng, gen::VALID),
    };
    if (2..=5).contains(&(c.idx % 20)) {
        let base = if c.idx % 100 == 2 {
            *rng.pick(&[1usize, 2]) * 1024 * 1024
        } else if c.idx % 100 == 3 {
            1024 * 1024
        } else {
            4096 + rng.below(4096)
        };
        let target = base - 40 + rng.below(72);
        if pad_to(&mut m, &s, target, &mut rng)? {
            c.event(format!("payload mod 16 = {:2}", target % 16));
        }
    }
    if c.idx % 10 == 6 {
        // content loaded from a foreign file, edited, and written by the library
        let (f, bytes, _) = foreign4(&m, &s, &creds, &mut rng);
        let mut k = unlock(&bytes, &creds)?;
        let name = gen::text(&mut rng, gen::VALID);
        k.database_mut().set_name(&name);
        m.name = name;
        let e = gen::entry(&mut rng, &gen::SMALL, 1);
        k.database_mut().add_entry(lib_entry(&e));
        m.root.entries.push(e);
        let out = save(&k)?;
        c.event("from existing file");
        let d = decode4(&out, &creds).map_err(|e| Violation::new(format!("written file does not follow the format: {e}")).with("file", &out))?;
        ensure!(d.minor == f.minor, "minor version {} became {}", f.minor, d.minor);
        return check(c, &m, &s, &creds, &out);
    }
    let mut db = lib_db(&m);
    vary_empty(&mut db, &mut rng);
    let k = archive(db, &s, &creds)?;
    let file = save(&k)?;
    check(c, &m, &s, &creds, &file)
}
