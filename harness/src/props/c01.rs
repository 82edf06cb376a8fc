use super::common::*;
use crate::gen;
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, DEFAULT};

/// Nesting up to this depth has to be savable
const MUST_SAVE_DEPTH: usize = 200;

pub static PROP: Prop = Prop {
    id: "C01",
    run,
    quick: 6000,
    thorough: 120_000,
    rule: "distinct (database, settings, credentials) triples saved by the library, reopened and compared field by field with the model",
    required: &["reopened", "save refused", "size target", "deep", "wide", "default settings", "settings ChaCha/gzip/argon2id/Salsa", "settings Twofish/plain/aes/ChaCha"],
    assumptions: &["key derivation costs are kept small except for the default settings"],
    ..DEFAULT
};

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.clone();
    let s = gen::settings(&mut rng);
    let creds = gen::creds(&mut rng);
    let class = c.idx % 40;
    let mut m = match class {
        0 => {
            let n = *rng.pick(&[100usize, 150, 200, 254, 255, 256, 257, 300]);
            let h = rng.below(8);
            c.event("deep");
            gen::deep_db(&mut rng, n, h)
        }
        1 => {
            c.event("deep");
            let n = *rng.pick(&[50usize, 100, 190, 250, 260]);
            gen::deep_db(&mut rng, 3, n)
        }
        2 if c.idx % 400 == 2 => {
            c.event("wide");
            let (e, g) = (rng.range(200, 1500), rng.range(0, 200));
            gen::wide_db(&mut rng, e, g)
        }
        3..=6 => gen::db(&mut rng, &gen::Shape { text: gen::ANY, ..gen::SMALL }),
        _ => varied_db(&mut rng, gen::VALID),
    };
    if (7..=16).contains(&class) {
        let base = match class {
            7 if c.idx % 80 == 7 => *rng.pick(&[1usize, 2, 3]) * 1024 * 1024,
            8 if c.idx % 80 == 8 => 1024 * 1024,
            9 => 65536,
            10 => 8192,
            11 => 4096,
            _ => 2048 + rng.below(4096),
        };
        let target = base - 40 + rng.below(72);
        if pad_to(&mut m, &s, target, &mut rng)? {
            c.event("size target");
            c.max("payload bytes", target as u64);
            c.event(format!("payload mod 16 = {:2}", target % 16));
        }
    }
    let mut db = lib_db(&m);
    vary_empty(&mut db, &mut rng);
    vary_subsecond(&mut db, &mut rng);
    ensure!(diff_db(&m, &model_db(&db)).is_none(), "database built through the interface differs: {}", diff_db(&m, &model_db(&db)).unwrap_or_default());
    let default_settings = c.idx % 500 == 499;
    let k = if default_settings {
        c.event("default settings");
        let mut k = lib("from_database", || kdbx_rs::Kdbx::from_database(db))?;
        let r = lib("set_key", || k.set_key(creds.lib()))?;
        ensure!(r.is_ok(), "set_key failed with default settings");
        k
    } else {
        archive(db, &s, &creds)?
    };
    let d = depth(&m.root);
    c.max("depth", d as u64);
    let file = match try_save(&k)? {
        Ok(f) => f,
        Err(e) => {
            c.event("save refused");
            c.eval();
            ensure!(!representable(&m) || d > MUST_SAVE_DEPTH, "saving a representable database failed: {e} ({m:?})");
            return Ok(());
        }
    };
    c.event(format!("settings {}", s.class()));
    c.max("file bytes", file.len() as u64);
    let again = unlock(&file, &creds)?;
    let got = lib("inspecting the reopened database", || model_db(again.database()))?;
    c.eval();
    if let Some(d) = diff_db(&m, &got) {
        violate!("saved and reopened with {}: {d}", s.class());
    }
    c.event("reopened");
    c.distinct(&[format!("{m:?}{s:?}{creds:?}").as_bytes()]);
    c.sample(|| format!("{} bytes, {}, depth {d}, name {:?}", file.len(), s.class(), m.name));
    // saving the reopened archive changes nothing
    let file2 = save(&again)?;
    let third = unlock(&file2, &creds)?;
    let got = model_db(third.database());
    c.eval();
    if let Some(d) = diff_db(&m, &got) {
        violate!("saved a second time with {}: {d}", s.class());
    }
    ensure!(third.database() == again.database(), "database changed by saving it again");
    Ok(())
}
