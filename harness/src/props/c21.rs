use super::c15::bad_kdf;
use super::common::*;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::rng::Rng;
use crate::{argon2ref, xmlref};
use kdbx_rs::binary::KdfParams;
use kdbx_rs::errors::{UnlockError, WriteError};
use kdbx_rs::Kdbx;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::Mutex;

pub static PROP: Prop = Prop {
    id: "C21",
    run,
    quick: 24_000,
    thorough: 120_000,
    rule: "distinct key derivation settings whose resulting keys were compared with an independent derivation, or whose refusal was confirmed",
    required: &[
        "opened a file keyed by the reference", "saved file keyed as recorded", "one parameter changed", "refused setting a key", "refused saving", "refused unlocking", "argon2d", "argon2id", "aes", "argon2 version 16", "memory not a whole KiB",
        "many lanes", "many iterations", "many rounds", "long salt", "large memory", "beyond 32 bits, unlocking", "beyond 32 bits, setting a key", "beyond available memory", "v3 rounds",
    ],
    assumptions: &[
        "the AES block function and SHA-256 are taken from the same crates the library uses",
        "costs above what can be computed here are judged by whether an answer arrives faster, or in less memory, than an honest derivation can give one",
    ],
    ..DEFAULT
};

/// Only one derivation with much memory at a time
static LARGE: Mutex<()> = Mutex::new(());

fn kdf(c: &mut Case, rng: &mut Rng) -> Kdf {
    let mut k = gen::kdf(rng);
    match &mut k {
        Kdf::Aes { rounds, .. } => {
            *rounds = match rng.below(8) {
                0 => rng.below(300) as u64,
                1 => *rng.pick(&[255u64, 256, 257, 4095, 4096, 65535, 65536, 65537]),
                2 => rng.range(1000, 20_000) as u64,
                3 if rng.chance(1, 4) => *rng.pick(&[100_000u64, 999_999, 1_000_001, 1_048_577]),
                _ => *rounds,
            };
            if *rounds > 60_000 {
                c.event("many rounds");
            }
        }
        Kdf::Argon2 { memory, iterations, lanes, salt, .. } => {
            match rng.below(10) {
                0 => {
                    *lanes = *rng.pick(&[5u32, 8, 15, 16, 17, 64, 255, 256, 257]);
                    *memory = 1024 * (8 * u64::from(*lanes) + rng.below(40) as u64);
                    *iterations = 1;
                    c.event("many lanes");
                }
                1 => {
                    *lanes = rng.range(1, 2) as u32;
                    *memory = 1024 * 8 * u64::from(*lanes);
                    *iterations = *rng.pick(&[255u64, 256, 257, 300, 1000]);
                    if rng.chance(1, 30) {
                        *iterations = *rng.pick(&[65536u64, 65537]);
                    }
                    c.event("many iterations");
                }
                2 => {
                    let n = *rng.pick(&[65usize, 127, 128, 129, 255, 256, 257, 1000, 70_000]);
                    *salt = rng.bytes(n);
                    c.event("long salt");
                }
                3 => *memory = 1024 * rng.range(8 * *lanes as usize, 2000) as u64 + rng.below(1024) as u64,
                _ => (),
            }
            if *memory % 1024 != 0 {
                c.event("memory not a whole KiB");
            }
        }
    }
    k
}

fn note(c: &mut Case, k: &Kdf) {
    c.event(k.class());
    if let Kdf::Argon2 { version: 0x10, .. } = k {
        c.event("argon2 version 16");
    }
    c.eval();
    c.distinct(&[format!("{k:?}").as_bytes()]);
    c.sample(|| format!("{k:?}"));
}

/// A minimal file with the settings recorded in it, but the keys of other settings
fn forged(recorded: &Kdf, keyed: &Kdf, creds: &Creds, rng: &mut Rng) -> Vec<u8> {
    let mut s = gen::settings(rng);
    s.kdf = keyed.clone();
    let m = gen::db(rng, &gen::Shape { text: gen::VALID, ..gen::SMALL });
    let mut st = inner_stream(s.inner, &s.inner_key);
    let w = xmlref::write(&m, xmlref::PLAIN, rng.fork(), st.as_mut(), None);
    let mut f = File4::plain(&s, creds, w.xml);
    for x in f.fields.iter_mut().filter(|x| x.0 == 11) {
        x.1 = dict_bytes(0x0100, &kdf_items(recorded));
    }
    f.bytes(rng)
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    match c.idx % 200 {
        0 if c.idx == 0 && !argon2ref::self_test() => panic!("reference Argon2 fails its test vectors"),
        1..=3 if c.idx < 2000 || c.thorough => beyond(c, &mut rng),
        4 if c.idx < 800 || c.thorough => large(c, &mut rng),
        n if n % 4 == 1 => refused(c, &mut rng),
        n if n % 4 == 2 => changed(c, &mut rng),
        n if n % 20 == 3 => old(c, &mut rng),
        _ => honoured(c, &mut rng),
    }
}

fn honoured(c: &mut Case, rng: &mut Rng) -> Verdict {
    let k = kdf(c, rng);
    let creds = gen::creds(rng);
    let m = gen::db(rng, &gen::Shape { text: gen::VALID, ..gen::SMALL });
    if rng.chance(1, 2) {
        let mut s = gen::settings(rng);
        s.kdf = k.clone();
        let (_, data, _) = foreign4(&m, &s, &creds, rng);
        unlock(&data, &creds).map_err(|v| Violation::new(format!("file keyed with {k:?}: {}", v.msg)))?;
        c.event("opened a file keyed by the reference");
        note(c, &k);
        return Ok(());
    }
    // set the key first and the parameters later, or the other way round
    let mut a = lib("from_database", || Kdbx::from_database(lib_db(&m)))?;
    if rng.chance(1, 3) {
        a.header_mut().kdf_params = gen::kdf(rng).lib();
        if let Err(e) = lib("set_key", || a.set_key(creds.lib()))? {
            violate!("supported settings refused: {e}");
        }
        a.header_mut().kdf_params = k.lib();
    } else {
        a.header_mut().kdf_params = k.lib();
        if let Err(e) = lib("set_key", || a.set_key(creds.lib()))? {
            violate!("supported settings {k:?} refused: {e}");
        }
    }
    let data = save(&a)?;
    match decode4(&data, &creds) {
        Ok(d) => ensure!(d.kdf == k, "settings {k:?} recorded as {:?}", d.kdf),
        Err(e) => return Err(Violation::new(format!("file saved with {k:?} is not keyed with them: {e}")).with("file", &data)),
    }
    c.event("saved file keyed as recorded");
    note(c, &k);
    Ok(())
}

/// KDBX 3.1 records the rounds and salt in fields of their own
fn old(c: &mut Case, rng: &mut Rng) -> Verdict {
    let creds = gen::creds(rng);
    let m = gen::db(rng, &gen::Shape { text: gen::VALID, ..gen::SMALL });
    let mut s = settings3(rng);
    let rounds = *rng.pick(&[0u64, 1, 255, 256, 257, 6000, 65535, 65536, 65537, 100_000]);
    s.kdf = Kdf::Aes { rounds, salt: rng.bytes(32) };
    let (mut f, data, _) = foreign3(&m, &s, &creds, rng, false);
    unlock(&data, &creds).map_err(|v| Violation::new(format!("3.1 file with {rounds} rounds: {}", v.msg)))?;
    note(c, &s.kdf);
    // other rounds recorded than used
    for x in f.fields.iter_mut().filter(|x| x.0 == 6) {
        x.1 = (rounds ^ 1).to_le_bytes().to_vec();
    }
    if let Opened::Yes(_) = attempt(&f.bytes(rng), &creds)? {
        violate!("3.1 file opened although it records {} rounds and was keyed with {rounds}", rounds ^ 1);
    }
    c.event("v3 rounds");
    c.eval();
    Ok(())
}

/// One parameter differs between what is recorded and what the keys were made with
fn changed(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut k = gen::kdf(rng);
    // without any round the salt plays no part
    if let Kdf::Aes { rounds, .. } = &mut k {
        *rounds = (*rounds).max(1);
    }
    let creds = gen::creds(rng);
    let mut o = k.clone();
    match &mut o {
        Kdf::Aes { rounds, salt } => match rng.below(4) {
            0 => *rounds += 1,
            1 => *rounds += 256,
            2 => *rounds += 65536,
            _ => {
                let i = rng.below(32);
                salt[i] ^= 1 << rng.below(8);
            }
        },
        Kdf::Argon2 { id, memory, iterations, lanes, version, salt } => match rng.below(9) {
            0 => *id = !*id,
            1 => *memory = (*memory / 1024 + rng.range(1, 4) as u64) * 1024,
            2 => *iterations += 1,
            3 => *iterations += 256,
            4 => {
                *lanes += 1;
                *memory = (*memory).max(1024 * 8 * u64::from(*lanes));
            }
            5 => {
                *version = if *version == 0x13 { 0x10 } else { 0x13 };
                *iterations = (*iterations).max(2);
            }
            6 => {
                let n = salt.len();
                let i = rng.below(n);
                salt[i] ^= 1 << rng.below(8);
            }
            7 => salt.push(0),
            _ => *memory += 1024 * 1024,
        },
    }
    let (recorded, keyed) = if rng.chance(1, 2) { (&k, &o) } else { (&o, &k) };
    let data = forged(recorded, keyed, &creds, rng);
    match attempt(&data, &creds)? {
        Opened::Yes(_) => return Err(Violation::new(format!("file that records {recorded:?} opened although it was keyed with {keyed:?}")).with("file", &data)),
        Opened::NotOpened(e) => violate!("file with supported settings could not be opened: {e}"),
        Opened::NotUnlocked(..) => (),
    }
    c.event("one parameter changed");
    note(c, recorded);
    c.distinct(&[format!("{recorded:?} {keyed:?}").as_bytes()]);
    Ok(())
}

fn refused(c: &mut Case, rng: &mut Rng) -> Verdict {
    let bad = bad_kdf(rng);
    let creds = gen::creds(rng);
    let m = gen::db(rng, &gen::Shape { text: gen::VALID, ..gen::SMALL });
    c.distinct(&[format!("{bad:?}").as_bytes()]);
    match rng.below(3) {
        0 => {
            let mut a = lib("from_database", || Kdbx::from_database(lib_db(&m)))?;
            a.header_mut().kdf_params = bad.clone();
            if lib("set_key", || a.set_key(creds.lib()))?.is_ok() {
                violate!("set_key accepted {bad:?}");
            }
            // and no key is left behind
            match try_save(&a)? {
                Err(_) => (),
                Ok(_) => violate!("saving worked after set_key refused {bad:?}"),
            }
            c.event("refused setting a key");
        }
        1 => {
            let mut s = gen::settings(rng);
            s.kdf = gen::kdf(rng);
            let mut a = archive(lib_db(&m), &s, &creds)?;
            a.header_mut().kdf_params = bad.clone();
            match try_save(&a)? {
                Ok(_) => violate!("an archive was saved with {bad:?}"),
                Err(WriteError::KeyGen(_)) | Err(_) => (),
            }
            c.event("refused saving");
        }
        _ => {
            let good = gen::kdf(rng);
            let items = match &bad {
                KdfParams::Aes { rounds, salt } => kdf_items(&Kdf::Aes { rounds: *rounds, salt: salt.clone() }),
                KdfParams::Argon2 { variant, memory_bytes, version, salt, lanes, iterations } => kdf_items(&Kdf::Argon2 {
                    id: *variant == argon2::Variant::Argon2id,
                    memory: *memory_bytes,
                    iterations: *iterations,
                    lanes: *lanes,
                    version: if *variant == argon2::Variant::Argon2i { 0x14 } else { *version },
                    salt: salt.clone(),
                }),
                KdfParams::Unknown { uuid, .. } => {
                    let mut i = kdf_items(&good);
                    i[0].val = uuid.as_bytes().to_vec();
                    i
                }
            };
            // keyed with what a careless implementation could fall back to
            let mut s = gen::settings(rng);
            s.kdf = good;
            let mut st = inner_stream(s.inner, &s.inner_key);
            let w = xmlref::write(&m, xmlref::PLAIN, rng.fork(), st.as_mut(), None);
            let mut f = File4::plain(&s, &creds, w.xml);
            for x in f.fields.iter_mut().filter(|x| x.0 == 11) {
                x.1 = dict_bytes(0x0100, &items);
            }
            let data = f.bytes(rng);
            match attempt(&data, &creds)? {
                Opened::Yes(_) => return Err(Violation::new(format!("a file recording {bad:?} was unlocked")).with("file", &data)),
                Opened::NotUnlocked(_, UnlockError::KeyGen(_)) | Opened::NotOpened(_) => (),
                Opened::NotUnlocked(_, e) => {
                    return Err(Violation::new(format!("a file recording {bad:?} was not refused for its key derivation settings but derived some other key: {e}")).with("file", &data))
                }
            }
            c.event("refused unlocking");
        }
    }
    c.eval();
    Ok(())
}

/// Memory of realistic size and above
fn large(c: &mut Case, rng: &mut Rng) -> Verdict {
    let _one = LARGE.lock().unwrap_or_else(|e| e.into_inner());
    let mib = if c.idx < 200 { 260 } else { *rng.pick(&[16u64, 64, 65, 128, 129]) };
    let k = Kdf::Argon2 { id: rng.chance(1, 2), memory: (mib << 20) + 1024 * rng.below(9) as u64, iterations: 1, lanes: rng.range(1, 4) as u32, version: 0x13, salt: rng.bytes(32) };
    let creds = gen::creds(rng);
    let data = forged(&k, &k, &creds, rng);
    unlock(&data, &creds).map_err(|v| Violation::new(format!("file keyed with {k:?}: {}", v.msg)))?;
    c.event("large memory");
    note(c, &k);
    Ok(())
}

/// Costs that can not be paid here: any answer other than a refusal means they were not honoured
fn beyond(c: &mut Case, rng: &mut Rng) -> Verdict {
    let pw = gen::ascii(rng, 8);
    let creds = Creds { pw: Some(pw.clone()), keyfile: None };
    let turn = c.idx / 200 * 3 + c.idx % 200 - 1;
    let (aes, memory, set) = (turn % 3 == 0, turn % 3 == 1, turn / 3 % 2 == 1);
    let mut small = gen::kdf(rng);
    while aes != matches!(small, Kdf::Aes { .. }) {
        small = gen::kdf(rng);
    }
    let mut big = small.clone();
    let wide = *rng.pick(&[1u64 << 32, 1 << 33, 1 << 40, 1 << 48, 1 << 63]);
    match &mut big {
        Kdf::Aes { rounds, .. } => *rounds = if rng.chance(1, 5) { u64::MAX } else { *rounds + wide },
        Kdf::Argon2 { memory: m, .. } if memory => *m += if rng.chance(1, 3) { 1 << 42 } else { *rng.pick(&[1u64 << 32, 1 << 33, 1 << 40]) },
        Kdf::Argon2 { iterations, .. } => *iterations = *rng.pick(&[*iterations + wide, *iterations + (1 << 31), u64::from(u32::MAX), u64::MAX]),
    }
    let data = forged(&big, &small, &creds, rng);
    let path = c.dir.join(format!("c21-{}", c.idx));
    std::fs::write(&path, &data).unwrap();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["probe", if set { "set" } else { "unlock" }]).arg(&path).arg(&pw).stdin(Stdio::null()).stderr(Stdio::null()).stdout(Stdio::piped());
    unsafe {
        cmd.pre_exec(|| {
            let set = |what, n| {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(what, &l);
            };
            set(libc::RLIMIT_CPU, 3);
            set(libc::RLIMIT_AS, 2 << 30);
            set(libc::RLIMIT_CORE, 0);
            Ok(())
        });
    }
    let out = cmd.output().expect("probe");
    let _ = std::fs::remove_file(&path);
    let said = String::from_utf8_lossy(&out.stdout).into_owned();
    let said = said.lines().find_map(|l| l.strip_prefix("PROBE ")).unwrap_or("").to_string();
    match said.as_str() {
        "refused" => c.event("refused as too costly"),
        "" => {
            ensure!(out.status.signal().is_some(), "probe ended without an answer: {:?}", out.status);
            c.event("derivation still running at the limit");
        }
        s => return Err(Violation::new(format!("{big:?}: {s} with less than 3 s of CPU time and 2 GiB, so these settings were not honoured")).with("file", &data)),
    }
    c.event(if memory { "beyond available memory" } else if set { "beyond 32 bits, setting a key" } else { "beyond 32 bits, unlocking" });
    c.eval();
    c.distinct(&[format!("{big:?}").as_bytes()]);
    Ok(())
}

/// Entry point of the probe process
pub fn probe(mode: &str, file: &str, pw: &str) {
    let k = match kdbx_rs::open(file) {
        Ok(k) => k,
        Err(_) => {
            println!("PROBE refused");
            return;
        }
    };
    let key = kdbx_rs::CompositeKey::from_password(pw);
    let answer = if mode == "set" {
        let mut a = Kdbx::from_database(kdbx_rs::Database::default());
        a.header_mut().kdf_params = k.header().kdf_params.clone();
        match a.set_key(key) {
            Ok(()) => "key set",
            Err(_) => "refused",
        }
    } else {
        match k.unlock(&key) {
            Ok(_) => "unlocked",
            Err(f) => match f.1 {
                UnlockError::KeyGen(_) => "refused",
                _ => "derived a different key",
            },
        }
    };
    println!("PROBE {answer}");
}
