use super::common::*;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::hostile::{FailWriter, WriteFault};
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, DEFAULT};
use crate::ops;
use crate::rng::Rng;
use crate::xmlref;
use kdbx_rs::binary::{Cipher, CompressionType, InnerStreamCipherAlgorithm, KdfParams, Unlocked};
use kdbx_rs::errors::WriteError;
use kdbx_rs::Kdbx;
use uuid::Uuid;

pub static PROP: Prop = Prop {
    id: "C15",
    run,
    quick: 10_000,
    thorough: 400_000,
    rule: "distinct saved states, each judged by an independent decoder and by reopening",
    required: &[
        "new archive", "opened KDBX 4", "opened KDBX 3", "set_key accepted", "set_key refused", "key replaced", "same key again", "settings changed after the key", "key derivation changed after the key", "bad cipher", "bad IV",
        "bad compression", "bad key derivation", "bad inner stream", "edit", "saved", "saved under changed key derivation", "saved without setting the key", "missing key reported", "bad settings reported", "saved after a refused key",
        "saved after refused settings", "failed write", "earlier key refused", "refused candidate does not open", "reopened", "reopened after a wrong key", "KDBX 3 save refused",
    ],
    assumptions: &["settings known to be unusable are those the file format or the key derivation function does not allow"],
    ..DEFAULT
};

/// What is expected of the archive
struct Model {
    db: MDb,
    s: Settings,
    /// parts of the settings that are unusable at the moment
    bad: [bool; 5],
    key: Option<Creds>,
    /// settings the key was accepted under
    key_kdf: Option<Kdf>,
    earlier: Vec<Creds>,
    major: u16,
    refused_key: bool,
    refused_settings: bool,
    key_set: bool,
}

const CIPHER: usize = 0;
const IV: usize = 1;
const COMPRESSION: usize = 2;
const KDF: usize = 3;
const INNER: usize = 4;

pub fn bad_kdf(rng: &mut Rng) -> KdfParams {
    let mut k = gen::kdf(rng);
    if rng.chance(1, 5) {
        return KdfParams::Unknown { uuid: Uuid::from_bytes(gen::uuid(rng)), params: Default::default() };
    }
    let mut i = false;
    match &mut k {
        Kdf::Aes { salt, .. } => {
            let n = *rng.pick(&[0usize, 1, 16, 24, 31, 33, 64]);
            *salt = rng.bytes(n);
        }
        Kdf::Argon2 { memory, iterations, lanes, version, salt, .. } => match rng.below(7) {
            0 => *memory = *rng.pick(&[0u64, 1, 1023, 1024, 1024 * 8 * u64::from(*lanes) - 1]),
            1 => *memory = *rng.pick(&[1u64 << 42, u64::MAX]),
            2 => *iterations = *rng.pick(&[0u64, 1 << 32, u64::MAX]),
            3 => *lanes = *rng.pick(&[0u32, 1 << 24, u32::MAX]),
            4 => *version = *rng.pick(&[0u32, 1, 0x11, 0x12, 0x14, 0x1300, u32::MAX]),
            5 => *salt = rng.bytes(7),
            _ => i = true,
        },
    }
    let mut p = k.lib();
    if let (true, KdfParams::Argon2 { variant, .. }) = (i, &mut p) {
        *variant = argon2::Variant::Argon2i;
    }
    p
}

fn start(c: &mut Case, rng: &mut Rng) -> Res<(Kdbx<Unlocked>, Model)> {
    let mut db = varied_db(rng, gen::TextOpts { long: false, ..gen::VALID });
    let s;
    let mut key = None;
    let mut major = 4;
    let k = match rng.below(6) {
        0..=2 => {
            s = gen::settings(rng);
            let mut k = lib("from_database", || Kdbx::from_database(lib_db(&db)))?;
            s.apply(&mut k);
            c.event("new archive");
            k
        }
        3 | 4 => {
            s = gen::settings(rng);
            let creds = gen::creds(rng);
            let (_, data, w) = foreign4(&db, &s, &creds, rng);
            let _ = w;
            let k = unlock(&data, &creds)?;
            db = model_db(k.database());
            key = Some(creds);
            c.event("opened KDBX 4");
            k
        }
        _ => {
            s = settings3(rng);
            let creds = gen::creds(rng);
            let (_, data, _) = foreign3(&db, &s, &creds, rng, true);
            let k = unlock(&data, &creds)?;
            db = model_db(k.database());
            key = Some(creds);
            major = 3;
            c.event("opened KDBX 3");
            k
        }
    };
    let key_kdf = key.as_ref().map(|_| s.kdf.clone());
    Ok((k, Model { db, s, bad: [false; 5], key, key_kdf, earlier: Vec::new(), major, refused_key: false, refused_settings: false, key_set: false }))
}

pub fn edit(rng: &mut Rng, m: &mut MDb, k: &mut Kdbx<Unlocked>) -> Res<()> {
    let mut src = ops::Random(gen::TextOpts { long: false, ..gen::VALID });
    match rng.below(6) {
        0 => {
            m.name = gen::text(rng, gen::VALID);
            lib("set_name", || k.set_name(&m.name))?;
        }
        1 => {
            m.desc = gen::text(rng, gen::VALID);
            lib("set_description", || k.database_mut().set_description(&m.desc))?;
        }
        2 => {
            let e = gen::entry(rng, &gen::Shape { text: gen::VALID, ..gen::SMALL }, 1);
            lib("add_entry", || k.database_mut().root_mut().add_entry(lib_entry(&e)))?;
            m.root.entries.push(e);
        }
        3 => {
            // the entry must not be the one an identifier finds elsewhere first
            if let Some(e) = m.root.entries.first() {
                let u = Uuid::from_bytes(e.uuid);
                lib("remove_entry", || k.root_mut().remove_entry(u))?;
                let all = m.root.entries.clone();
                let p = all.iter().position(|x| x.uuid == *u.as_bytes()).unwrap();
                m.root.entries.remove(p);
                // removal of repeated identifiers is judged elsewhere
                m.root = model_group(k.database().root());
            }
        }
        _ => {
            if m.root.entries.is_empty() {
                return Ok(());
            }
            let i = rng.below(m.root.entries.len());
            let e = lib("entries_mut", || k.root_mut().entries_mut().nth(i))?;
            match e {
                Some(e) => {
                    ops::entry_op(rng, &mut m.root.entries[i], e, &mut src, 1)?;
                }
                None => violate!("no entry {i}"),
            }
        }
    }
    Ok(())
}

fn change(c: &mut Case, rng: &mut Rng, m: &mut Model, k: &mut Kdbx<Unlocked>) {
    let spoil = rng.chance(1, 4);
    if m.key.is_some() {
        c.event("settings changed after the key");
    }
    let h = k.header_mut();
    match (rng.below(6), spoil) {
        (0, false) => {
            let n = gen::settings(rng);
            (m.s.cipher, m.s.iv) = (n.cipher, n.iv);
            (h.cipher, h.encryption_iv) = (m.s.cipher.lib(), m.s.iv.clone());
            (m.bad[CIPHER], m.bad[IV]) = (false, false);
        }
        (0, true) => {
            if rng.chance(1, 2) {
                h.cipher = if rng.chance(1, 2) { Cipher::Aes128 } else { Cipher::Unknown(Uuid::from_bytes(gen::uuid(rng))) };
                m.bad[CIPHER] = true;
                c.event("bad cipher");
            } else {
                let n = *rng.pick(&[0usize, 1, 8, 11, 13, 15, 17, 32]);
                h.encryption_iv = rng.bytes(n);
                m.bad[IV] = true;
                c.event("bad IV");
            }
        }
        (1, false) => {
            m.s.gzip = !m.s.gzip;
            h.compression_type = if m.s.gzip { CompressionType::Gzip } else { CompressionType::None };
            m.bad[COMPRESSION] = false;
        }
        (1, true) => {
            h.compression_type = CompressionType::Unknown(*rng.pick(&[2u32, 3, 255, 256, u32::MAX]));
            m.bad[COMPRESSION] = true;
            c.event("bad compression");
        }
        (2 | 3, false) => {
            // often back to the settings the key was set under
            m.s.kdf = match &m.key_kdf {
                Some(x) if rng.chance(1, 3) => x.clone(),
                _ => {
                    let mut x = gen::kdf(rng);
                    if rng.chance(1, 3) {
                        x = tweak(&m.s.kdf, rng);
                    }
                    x
                }
            };
            h.kdf_params = m.s.kdf.lib();
            m.bad[KDF] = false;
            if m.key.is_some() {
                c.event("key derivation changed after the key");
            }
        }
        (2 | 3, true) => {
            h.kdf_params = bad_kdf(rng);
            m.bad[KDF] = true;
            c.event("bad key derivation");
        }
        (4, _) => {
            let n = if rng.chance(3, 4) { 32 } else { *rng.pick(&[0usize, 1, 16, 31, 33, 64, 100]) };
            m.s.seed = rng.bytes(n);
            if n != 32 {
                c.event("unusual seed");
            }
            h.master_seed = m.s.seed.clone();
        }
        (_, false) => {
            let n = gen::settings(rng);
            (m.s.inner, m.s.inner_key) = (n.inner, n.inner_key);
            let i = k.inner_header_mut();
            (i.inner_stream_cipher, i.inner_stream_key) = (m.s.inner.lib(), m.s.inner_key.clone());
            m.bad[INNER] = false;
        }
        (_, true) => {
            let i = k.inner_header_mut();
            i.inner_stream_cipher = *rng.pick(&[InnerStreamCipherAlgorithm::ArcFour, InnerStreamCipherAlgorithm::Unknown(0), InnerStreamCipherAlgorithm::Unknown(4), InnerStreamCipherAlgorithm::Unknown(u32::MAX)]);
            m.bad[INNER] = true;
            c.event("bad inner stream");
        }
    }
}

/// Change a single parameter
pub fn tweak(k: &Kdf, rng: &mut Rng) -> Kdf {
    let mut k = k.clone();
    match &mut k {
        Kdf::Aes { rounds, salt } => {
            if rng.chance(1, 2) {
                *rounds += 1;
            } else {
                salt[rng.below(32)] ^= 1;
            }
        }
        Kdf::Argon2 { id, memory, iterations, lanes, version, salt } => match rng.below(6) {
            0 => *id = !*id,
            1 => *memory += 1024,
            2 => *iterations = 1 + *iterations % 4,
            3 => *lanes = 1,
            4 => *version = if *version == 0x13 { 0x10 } else { 0x13 },
            _ => {
                let n = salt.len();
                salt[rng.below(n)] ^= 0x80;
            }
        },
    }
    k
}

fn set_key(c: &mut Case, rng: &mut Rng, m: &mut Model, k: &mut Kdbx<Unlocked>) -> Verdict {
    let again = rng.chance(1, 6);
    let creds = match (&m.key, again) {
        (Some(x), true) => x.clone(),
        _ if !m.earlier.is_empty() && rng.chance(1, 4) => rng.pick(&m.earlier).clone(),
        _ => gen::creds(rng),
    };
    match lib("set_key", || k.set_key(creds.lib()))? {
        Ok(()) => {
            ensure!(!m.bad[KDF], "set_key accepted a key under settings that can not be used: {:?}", k.header().kdf_params);
            match m.key.replace(creds.clone()) {
                Some(old) if composite(&old) == composite(&creds) => c.event("same key again"),
                Some(old) => {
                    m.earlier.push(old);
                    c.event("key replaced");
                }
                None => (),
            }
            m.key_kdf = Some(m.s.kdf.clone());
            m.key_set = true;
            m.refused_key = false;
            c.event("set_key accepted");
        }
        Err(e) => {
            ensure!(m.bad[KDF], "set_key refused usable settings {:?}: {e}", m.s.kdf);
            m.earlier.push(creds);
            m.refused_key = true;
            c.event("set_key refused");
        }
    }
    unchanged(m, k)
}

fn unchanged(m: &Model, k: &Kdbx<Unlocked>) -> Verdict {
    if let Some(d) = diff_db(&m.db, &model_db(k.database())) {
        violate!("the content changed: {d}");
    }
    Ok(())
}

fn try_saving(c: &mut Case, rng: &mut Rng, m: &mut Model, k: Kdbx<Unlocked>) -> Res<Kdbx<Unlocked>> {
    if rng.chance(1, 6) {
        let mut w = FailWriter::new(rng.below(600), WriteFault::Error(std::io::ErrorKind::Other), 100);
        let r = lib("Kdbx::write", || k.write(&mut w))?;
        if w.failed > 0 {
            ensure!(r.is_err(), "a failed write was reported as a success");
            c.event("failed write");
        }
    }
    let r = try_save(&k)?;
    let data = match r {
        Err(e) => {
            unchanged(m, &k)?;
            if m.major < 4 {
                c.event("KDBX 3 save refused");
                return Ok(k);
            }
            if m.key.is_none() {
                if !m.bad.contains(&true) {
                    ensure!(matches!(e, WriteError::MissingKeys), "saving without a key is reported as \"{e}\"");
                    c.event("missing key reported");
                }
                return Ok(k);
            }
            if m.bad.contains(&true) {
                m.refused_settings = true;
                c.event("bad settings reported");
                return Ok(k);
            }
            // a seed of another size than usual may be refused
            ensure!(!representable(&m.db) || m.s.seed.len() != 32, "saving failed: {e} (settings {:?})", m.s);
            return Ok(k);
        }
        Ok(d) => d,
    };
    ensure!(m.major >= 4, "a KDBX 3 archive was saved");
    let Some(key) = m.key.clone() else { violate!("saved without a key") };
    ensure!(!m.bad.contains(&true), "saved under settings that can not be used: {:?} {:?}", k.header(), k.inner_header().inner_stream_cipher);
    // by the independent decoder
    match decode4(&data, &key) {
        Ok(d) => {
            let got = Settings { cipher: d.cipher, gzip: d.gzip, kdf: d.kdf, inner: d.inner, inner_key: d.inner_key, seed: d.seed, iv: d.iv };
            ensure!(got == m.s, "saved under settings {got:?} instead of {:?}", m.s);
            let mut st = inner_stream(m.s.inner, &m.s.inner_key);
            match xmlref::interpret(&d.xml, st.as_mut()) {
                Ok(i) => {
                    if let Some(d) = diff_db(&m.db, &i.db) {
                        violate!("saved content differs: {d}");
                    }
                }
                Err(e) => violate!("saved content can not be read: {e}"),
            }
        }
        Err(e) => violate!("the file does not open with the last key accepted ({key:?}): {e}"),
    }
    c.event("saved");
    c.distinct(&[&data]);
    if !m.key_set {
        c.event("saved without setting the key");
    }
    if m.key_kdf.as_ref() != Some(&m.s.kdf) {
        c.event("saved under changed key derivation");
    }
    if m.refused_key {
        c.event("saved after a refused key");
    }
    if m.refused_settings {
        c.event("saved after refused settings");
    }
    // no earlier key, and no key that was refused
    let mut locked = open(&data)?;
    let mut wrong = 0;
    rng.shuffle(&mut m.earlier);
    for old in m.earlier.iter().take(4) {
        if composite(old) == composite(&key) {
            continue;
        }
        locked = match lib("unlock", || locked.unlock(&old.lib()))? {
            Ok(_) => violate!("the file also opens with the earlier key {old:?}"),
            Err(f) => f.0,
        };
        wrong += 1;
        c.event("earlier key refused");
        if m.refused_key {
            c.event("refused candidate does not open");
        }
    }
    let u = match lib("unlock", || locked.unlock(&key.lib()))? {
        Ok(u) => u,
        Err(f) => violate!("the file does not open with its key after {wrong} wrong ones: {}", f.1),
    };
    unchanged(m, &u)?;
    if rng.chance(1, 2) {
        c.event("reopened");
        if wrong > 0 {
            c.event("reopened after a wrong key");
        }
        m.key_set = false;
        m.key_kdf = Some(m.s.kdf.clone());
        m.refused_key = false;
        m.refused_settings = false;
        return Ok(u);
    }
    Ok(k)
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    let (mut k, mut m) = start(c, &mut rng)?;
    let steps = rng.range(4, 24);
    let mut log = Vec::new();
    for i in 0..=steps {
        if i == steps {
            // end on a state that can be saved
            let s = m.s.clone();
            s.apply(&mut k);
            m.bad = [false; 5];
            if m.key.is_none() {
                set_key(c, &mut rng, &mut m, &mut k)?;
            }
        }
        match if i == steps { 9 } else { rng.below(10) } {
            0 | 1 => {
                set_key(c, &mut rng, &mut m, &mut k)?;
                log.push('k');
            }
            2..=5 => {
                change(c, &mut rng, &mut m, &mut k);
                log.push('s');
            }
            6 => {
                edit(&mut rng, &mut m.db, &mut k)?;
                c.event("edit");
                log.push('e');
            }
            _ => {
                k = try_saving(c, &mut rng, &mut m, k)?;
                log.push('w');
            }
        }
        c.eval();
    }
    c.max("steps in one history", steps as u64);
    c.sample(|| format!("{} [{}] major {}, {} keys", log.iter().collect::<String>(), m.s.class(), m.major, m.earlier.len() + 1));
    Ok(())
}
