use super::common::*;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::hostile::{FailReader, FailWriter, WriteFault};
use crate::model::*;
use crate::mon::{lib, memory, stage, Case, Obs, Prop, Verdict, Violation, DEFAULT, SANITIZER};
use crate::rng::Rng;
use crate::{attack, b64, ops, xmlref};
use kdbx_rs::binary::{Unlocked, VariantDictValue};
use kdbx_rs::database::{Entry, Group};
use kdbx_rs::{Database, Kdbx};

pub static PROP: Prop = Prop {
    id: "C19",
    run,
    quick: 2_000,
    thorough: 60_000,
    stages: &[("asan", 720, 30_000), ("msan", 720, 30_000), ("miri", 24, 320)],
    rule: "distinct scenarios (build, kind of use, repetition) run to their end under the memory monitors",
    required: &[
        "no sanitizer", "AddressSanitizer", "MemorySanitizer", "Miri", "memory returned", "texts checked", "invalid UTF-8 refused", "use: reading KDBX 4", "use: reading KDBX 3", "use: wrong key", "use: damaged file", "use: hostile file",
        "use: hostile XML", "use: failing reader", "use: failing writer", "use: writing while locked", "use: creating and saving", "use: editing", "use: text that is not UTF-8", "use: key changes", "use: dropping early",
        "workload C01", "workload C02", "workload C03", "workload C04", "workload C05", "workload C06", "workload C07", "workload C08", "workload C10", "workload C11", "workload C13", "workload C14", "workload C15", "workload C16", "workload C17",
        "workload C20", "workload C22",
    ],
    assumptions: &["memory that every operation keeps is a leak, memory kept by the first few is not", "what the workloads of other properties compare is judged by their own checks"],
    ..DEFAULT
};

/// Which of the other checks' workloads run here, and how many of their cases
const OTHERS: &[(&str, u64)] = &[
    ("C01", 12), ("C02", 12), ("C03", 12), ("C04", 12), ("C05", 1), ("C06", 6), ("C07", 30), ("C08", 6), ("C10", 1), ("C11", 20), ("C13", 20), ("C14", 40), ("C15", 10), ("C16", 20), ("C17", 12), ("C20", 4), ("C22", 20),
];

fn utf8(what: &str, s: &str, seen: &mut u64) -> Verdict {
    *seen += 1;
    // not the type's promise but the bytes themselves
    let b: &[u8] = std::hint::black_box(s.as_bytes());
    ensure!(std::str::from_utf8(b).is_ok(), "{what} is a text that is not UTF-8: {b:02x?}");
    Ok(())
}

fn entry_texts(e: &Entry, seen: &mut u64) -> Verdict {
    for f in e.fields() {
        utf8("a field's name", f.key(), seen)?;
        utf8("a field's value", f.value().unwrap_or(""), seen)?;
    }
    for x in [e.title(), e.username(), e.password(), e.url()].into_iter().flatten() {
        utf8("a field's value", x, seen)?;
    }
    for h in e.history().entries() {
        entry_texts(h, seen)?;
    }
    Ok(())
}

fn group_texts(g: &Group, seen: &mut u64) -> Verdict {
    utf8("a group's name", g.name(), seen)?;
    for e in g.entries() {
        entry_texts(e, seen)?;
    }
    for g in g.groups() {
        group_texts(g, seen)?;
    }
    Ok(())
}

/// Every text the database gives out
fn texts(db: &Database, seen: &mut u64) -> Verdict {
    lib("inspecting", || {
        utf8("the name", db.name(), seen)?;
        utf8("the description", db.description(), seen)?;
        group_texts(db.root(), seen)?;
        utf8("Debug", &format!("{db:?}"), seen)
    })?
}

fn try_all(data: &[u8], creds: &Creds, seen: &mut u64) -> Res<Option<Kdbx<Unlocked>>> {
    match try_open(data)? {
        Err(e) => {
            utf8("an error", &format!("{e} {e:?}"), seen)?;
            Ok(None)
        }
        Ok(k) => {
            lib("inspecting", || {
                if let kdbx_rs::binary::KdfParams::Unknown { params, .. } = &k.header().kdf_params {
                    for (n, v) in params {
                        utf8("a parameter's name", n, seen)?;
                        if let VariantDictValue::String(s) = v {
                            utf8("a parameter's value", s, seen)?;
                        }
                    }
                }
                utf8("Debug", &format!("{:?}", k.header()), seen)
            })??;
            if !affordable(k.header()) {
                return Ok(None);
            }
            match lib("unlock", || k.unlock(&creds.lib()))? {
                Ok(u) => {
                    texts(u.database(), seen)?;
                    Ok(Some(u))
                }
                Err(e) => {
                    utf8("an error", &format!("{} {:?}", e.1, e.1), seen)?;
                    Ok(None)
                }
            }
        }
    }
}

/// Looks at the buffers it is given, as a reader may, before filling them
struct Looking<'a>(&'a [u8], usize);

impl std::io::Read for Looking<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let odd = b.iter().filter(|x| **x % 2 == 1).count();
        let n = b.len().min(self.0.len()).min(1 + (self.1 + odd) % 900);
        self.1 += 7;
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn small(rng: &mut Rng) -> MDb {
    varied_db(rng, gen::TextOpts { long: false, ..gen::VALID })
}

/// Bytes that are not UTF-8
fn not_utf8(rng: &mut Rng) -> Vec<u8> {
    let mut v = gen::ascii(rng, 12).into_bytes();
    let bad: &[u8] = *rng.pick(&[&b"\xff"[..], b"\xc3", b"\x80", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf", b"\xf0\x9f\x98"]);
    let at = rng.below(v.len() + 1);
    v.splice(at..at, bad.iter().copied());
    v
}

const KINDS: u64 = 15;

/// One use of the library. Nothing it creates outlives it.
fn scenario(kind: u64, rng: &mut Rng, seen: &mut u64) -> Res<&'static str> {
    let creds = gen::creds(rng);
    let s = attack::cheap_settings(rng);
    Ok(match kind {
        0 => {
            let (_, d, _) = foreign4(&small(rng), &s, &creds, rng);
            try_all(&d, &creds, seen)?;
            let _ = lib("from_reader", || kdbx_rs::from_reader(Looking(&d, 0)).is_ok())?;
            "reading KDBX 4"
        }
        1 => {
            let (_, d, _) = foreign3(&small(rng), &settings3(rng), &creds, rng, true);
            try_all(&d, &creds, seen)?;
            let _ = lib("from_reader", || kdbx_rs::from_reader(Looking(&d, 0)).is_ok())?;
            "reading KDBX 3"
        }
        2 => {
            let (_, d, _) = if rng.chance(1, 2) {
                let (_, d, w) = foreign4(&small(rng), &s, &creds, rng);
                ((), d, w)
            } else {
                let (_, d, w) = foreign3(&small(rng), &settings3(rng), &creds, rng, true);
                ((), d, w)
            };
            let other = Creds { pw: Some("another".into()), keyfile: None };
            try_all(&d, &other, seen)?;
            "wrong key"
        }
        3 => {
            let (_, mut d, _) = foreign4(&small(rng), &s, &creds, rng);
            for _ in 0..20 {
                let i = rng.below(d.len());
                let x = 1 << rng.below(8);
                d[i] ^= x;
                try_all(&d, &creds, seen)?;
                d[i] ^= x;
                let n = rng.below(d.len());
                try_all(&d[..n], &creds, seen)?;
            }
            "damaged file"
        }
        4 => {
            for class in 0..attack::CLASSES {
                let a = attack::file(rng, class);
                if let Some(u) = try_all(&a.data, &a.creds, seen)? {
                    let _ = try_save(&u)?;
                }
            }
            "hostile file"
        }
        5 => {
            for _ in 0..10 {
                let v3 = rng.chance(1, 2);
                let (_, x) = attack::hostile_xml(rng, &s, v3);
                let r = lib("parse_xml", || kdbx_rs::xml::parse_xml(Looking(&x, 0), &mut kdbx_rs::utils::NullStreamCipher))?;
                match r {
                    Ok(db) => texts(&db, seen)?,
                    Err(e) => utf8("an error", &format!("{e} {e:?}"), seen)?,
                }
                try_all(&File4::plain(&s, &creds, x).bytes(rng), &creds, seen)?;
            }
            "hostile XML"
        }
        6 => {
            let (_, d, _) = foreign4(&small(rng), &s, &creds, rng);
            for _ in 0..10 {
                let r = FailReader { data: &d, pos: 0, at: rng.below(d.len()), kind: std::io::ErrorKind::Other, once: false, max: rng.range(1, 200), failed: 0 };
                let _ = lib("from_reader", || kdbx_rs::from_reader(r).is_ok())?;
            }
            "failing reader"
        }
        7 => {
            let k = archive(lib_db(&small(rng)), &s, &creds)?;
            for _ in 0..10 {
                let mut w = FailWriter::new(rng.below(2000), WriteFault::Error(std::io::ErrorKind::Other), rng.range(1, 500));
                let _ = lib("write", || k.write(&mut w).is_ok())?;
            }
            "failing writer"
        }
        8 => {
            let (_, d, _) = foreign4(&small(rng), &s, &creds, rng);
            let k = open(&d)?;
            for _ in 0..3 {
                ensure!(write_locked(&k)?.len() == d.len(), "locked archive written with another length");
            }
            "writing while locked"
        }
        9 => {
            let mut k = lib("from_database", || Kdbx::from_database(lib_db(&small(rng))))?;
            k.header_mut().kdf_params = s.kdf.lib();
            if let Err(e) = lib("set_key", || k.set_key(creds.lib()))? {
                violate!("set_key: {e}");
            }
            let d = save(&k)?;
            try_all(&d, &creds, seen)?;
            "creating and saving"
        }
        10 => {
            let m = small(rng);
            let mut k = archive(lib_db(&m), &s, &creds)?;
            let mut m = model_db(k.database());
            for _ in 0..30 {
                super::c15::edit(rng, &mut m, &mut k)?;
                if rng.chance(1, 8) {
                    let d = lib("clone", || k.database().clone())?;
                    texts(&d, seen)?;
                }
            }
            texts(k.database(), seen)?;
            "editing"
        }
        11 => {
            // in a protected value, in the plain XML, and in the settings
            for which in 0..5 {
                let bad = not_utf8(rng);
                let mut f = match which {
                    0 | 1 => {
                        let mut b = bad.clone();
                        inner_stream(s.inner, &s.inner_key).apply_keystream(&mut b);
                        let tag = if which == 0 { "Value" } else { "Key" };
                        let other = if which == 0 { "<Key>Password</Key>" } else { "<Value>x</Value>" };
                        let x = format!("<KeePassFile><Root><Group><Entry><String>{other}<{tag} Protected=\"True\">{}</{tag}></String></Entry></Group></Root></KeePassFile>", b64::encode(&b));
                        File4::plain(&s, &creds, x.into_bytes())
                    }
                    2 => {
                        let mut x = b"<KeePassFile><Meta><DatabaseName>".to_vec();
                        x.extend_from_slice(&bad);
                        x.extend_from_slice(b"</DatabaseName></Meta><Root><Group/></Root></KeePassFile>");
                        File4::plain(&s, &creds, x)
                    }
                    _ => File4::plain(&s, &creds, b"<KeePassFile><Root><Group/></Root></KeePassFile>".to_vec()),
                };
                if which >= 3 {
                    let mut items = kdf_items(&s.kdf);
                    items[0].val = gen::uuid(rng).to_vec();
                    let i = items.len();
                    items.push(item(0x18, "SomeText", bad.clone()));
                    let mut d = dict_bytes(0x100, &items);
                    if which == 4 {
                        // the name instead of the value
                        items[i] = item(0x18, "ABCDEFGH", b"x".to_vec());
                        d = dict_bytes(0x100, &items);
                        let p = d.windows(8).position(|w| w == b"ABCDEFGH").unwrap();
                        d[p + rng.below(8)] = 0xff;
                    }
                    for x in f.fields.iter_mut().filter(|x| x.0 == 11) {
                        x.1 = d.clone();
                    }
                }
                if let Some(u) = try_all(&f.bytes(rng), &creds, seen)? {
                    let _ = try_save(&u)?;
                }
            }
            "text that is not UTF-8"
        }
        12 => {
            let mut k = archive(lib_db(&small(rng)), &s, &creds)?;
            for _ in 0..4 {
                let s = attack::cheap_settings(rng);
                s.apply(&mut k);
                let c = gen::creds(rng);
                let _ = lib("set_key", || k.set_key(c.lib()))?;
                k.header_mut().kdf_params = super::c15::bad_kdf(rng);
                if affordable(k.header()) {
                    let _ = lib("set_key", || k.set_key(c.lib()))?;
                    let _ = try_save(&k)?;
                }
            }
            "key changes"
        }
        13 => {
            let m = small(rng);
            let (_, d, _) = foreign4(&m, &s, &creds, rng);
            drop(open(&d)?);
            let k = open(&d)?;
            let mut u = match lib("unlock", || k.unlock(&creds.lib()))? {
                Ok(u) => u,
                Err(e) => violate!("unlock: {}", e.1),
            };
            let g = lib("take", || std::mem::replace(u.database_mut().root_mut(), Group::new("other")))?;
            let mut it = g.recursive_entries();
            it.next();
            drop(it);
            drop(u);
            let mut seen2 = 0;
            group_texts(&g, &mut seen2)?;
            *seen += seen2;
            "dropping early"
        }
        _ => {
            let mut m = gen::entry(rng, &gen::Shape { text: gen::VALID, ..gen::SMALL }, 1);
            let mut e = lib_entry(&m);
            let mut src = ops::Random(gen::TextOpts { long: false, ..gen::ANY });
            for _ in 0..60 {
                ops::entry_op(rng, &mut m, &mut e, &mut src, 1)?;
            }
            entry_texts(&e, seen)?;
            let mut out = Vec::new();
            let mut db = Database::default();
            db.root_mut().add_entry(e);
            let _ = lib("write_xml", || kdbx_rs::xml::write_xml(&mut out, &db, &mut kdbx_rs::utils::NullStreamCipher).is_ok())?;
            let _ = xmlref::parse(&out);
            "editing"
        }
    })
}

fn overflow(v: &Violation) -> bool {
    v.msg.contains("with overflow") || v.msg.contains("attempt to shift") || v.msg.contains("unsafe precondition")
}

/// A tiny database: the interpreter is thousands of times slower than the machine
fn tiny(rng: &mut Rng) -> MDb {
    let t = gen::TextOpts { long: false, ..gen::VALID };
    let s = gen::Shape { text: t, max_entries: 1, max_groups: 1, max_fields: 1, max_depth: 1, history: false, ..gen::SMALL };
    let mut m = gen::db(rng, &s);
    m.custom.truncate(1);
    m.root.groups.truncate(1);
    m.root.entries.truncate(1);
    if m.root.entries.is_empty() {
        let mut e = gen::entry(rng, &s, 0);
        e.fields.push(MField { key: "Password".into(), value: gen::ascii(rng, 20), protected: true });
        m.root.entries.push(e);
    }
    m
}

/// The smallest of some, where size costs time
fn smallest<T>(rng: &mut Rng, mut f: impl FnMut(&mut Rng) -> T, size: impl Fn(&T) -> usize) -> T {
    (0..8).map(|_| f(rng)).min_by_key(size).unwrap()
}

struct Script(Vec<u8>);

impl Script {
    fn part(&mut self, d: &[u8]) {
        self.0.extend_from_slice(&(d.len() as u32).to_le_bytes());
        self.0.extend_from_slice(d);
    }
    fn option(&mut self, d: Option<&[u8]>) {
        self.part(&d.map_or(Vec::new(), |d| [b"+", d].concat()));
    }
    fn file(&mut self, data: &[u8], creds: &Creds, how: &str) {
        self.0.push(b'F');
        self.option(creds.pw.as_ref().map(|s| s.as_bytes()));
        self.option(creds.keyfile.as_deref());
        self.part(how.as_bytes());
        self.part(data);
    }
    fn xml(&mut self, x: &[u8]) {
        self.0.push(b'X');
        self.part(x);
    }
}

fn miri(c: &mut Case, rng: &mut Rng) -> Verdict {
    let creds = gen::creds(rng);
    let mut s = attack::cheap_settings(rng);
    s.cipher = [CipherK::ChaCha, CipherK::Aes, CipherK::Twofish][c.idx as usize % 3];
    s.iv = rng.bytes(if s.cipher == CipherK::ChaCha { 12 } else { 16 });
    s.gzip = c.idx / 3 % 2 == 0;
    if rng.chance(3, 4) {
        s.kdf = Kdf::Aes { rounds: rng.below(3) as u64, salt: rng.bytes(32) };
    } else {
        s.kdf = Kdf::Argon2 { id: rng.chance(1, 2), memory: 8192, iterations: 1, lanes: 1, version: 0x13, salt: rng.bytes(16) };
    }
    let m = tiny(rng);
    let mut t = Script(Vec::new());
    let kind = c.idx % 8;
    match kind {
        0 | 1 => {
            let (_, d, _) = smallest(rng, |r| foreign4(&m, &s, &creds, r), |x| x.2.xml.len() + x.1.len());
            t.file(&d, &creds, if kind == 0 { "e" } else { "s" });
        }
        2 => {
            let mut s3 = settings3(rng);
            s3.kdf = Kdf::Aes { rounds: 1, salt: rng.bytes(32) };
            let (_, d, _) = smallest(rng, |r| foreign3(&m, &s3, &creds, r, true), |x| x.2.xml.len() + x.1.len());
            t.file(&d, &creds, "");
        }
        3 => {
            // several blocks, cut inside and between them
            let (mut f, _, _) = smallest(rng, |r| foreign4(&m, &s, &creds, r), |x| x.2.xml.len() + x.1.len());
            f.cuts = vec![1, 15, 16, 17, 31, 100, 4];
            let d = f.bytes(rng);
            let n = rng.range(d.len() / 2, d.len() - 1);
            t.file(&d[..n], &creds, "");
            let mut d = d;
            let i = rng.range(f.header().len(), d.len() - 1);
            d[i] ^= 4;
            t.file(&d, &creds, "");
        }
        4 => {
            // authenticated, but not what it should be inside
            let a = loop {
                let which = rng.below(attack::CLASSES);
                let a = attack::file(rng, which);
                if a.data.len() < 2500 && a.plain < 5000 {
                    break a;
                }
            };
            t.file(&a.data, &a.creds, "s");
        }
        5 => {
            for which in 0..2 {
                let mut items = kdf_items(&s.kdf);
                items[0].val = gen::uuid(rng).to_vec();
                items.push(item(0x18, "SomeText", if which == 0 { b"text".to_vec() } else { not_utf8(rng) }));
                for (ty, n) in [(4u8, 4), (5, 8), (8, 1), (0xc, 4), (0xd, 8), (0x42, 9), (0x77, 3)] {
                    items.push(item(ty, &format!("k{ty}"), rng.bytes(n)));
                }
                let mut f = File4::plain(&s, &creds, Vec::new());
                for x in f.fields.iter_mut().filter(|x| x.0 == 11) {
                    x.1 = dict_bytes(0x100, &items);
                }
                t.file(&f.bytes(rng), &creds, "");
            }
            let mut b = not_utf8(rng);
            inner_stream(s.inner, &s.inner_key).apply_keystream(&mut b);
            let x = format!("<KeePassFile><Root><Group><Entry><String><Key>k</Key><Value Protected=\"True\">{}</Value></String></Entry></Group></Root></KeePassFile>", b64::encode(&b));
            t.file(&File4::plain(&s, &creds, x.into_bytes()).bytes(rng), &creds, "s");
        }
        6 => {
            let w = smallest(rng, |r| xmlref::write(&m, xmlref::Spell::random(r), r.fork(), &mut kdbx_rs::utils::NullStreamCipher, None), |x| x.xml.len());
            t.xml(&w.xml);
        }
        _ => {
            for _ in 0..4 {
                let (_, x) = attack::hostile_xml(rng, &s, false);
                if x.len() < 1500 {
                    t.xml(&x);
                }
            }
        }
    }
    let base = std::env::var("KDBXMON_BASE").unwrap_or_else(|_| "/verif".into());
    let path = c.dir.join(format!("miri-{}", c.idx));
    std::fs::write(&path, &t.0).unwrap();
    let t0 = std::time::Instant::now();
    let out = std::process::Command::new("timeout")
        .args(["--signal=KILL", if c.thorough { "900" } else { "200" }, "cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--manifest-path"])
        .arg(format!("{base}/miri/Cargo.toml"))
        .arg("--")
        .arg(&path)
        .env("CARGO_TARGET_DIR", format!("{base}/target/miri"))
        .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks")
        .output()
        .unwrap();
    let _ = std::fs::remove_file(&path);
    let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
    let stderr = String::from_utf8_lossy(&out.stderr).into_owned();
    if let Some(i) = stderr.find("Undefined Behavior") {
        let text: String = stderr[i..].chars().take(1500).collect();
        return Err(Violation::new(format!("Miri reports {text}")).with("script", &t.0));
    }
    c.event("Miri");
    for l in stdout.lines() {
        // the numbers only prove that the bytes were looked at
        let what: Vec<&str> = l.split(' ').take_while(|w| !w.starts_with(|c: char| c.is_ascii_digit())).collect();
        c.event(format!("Miri {}", what.join(" ")));
        c.eval();
    }
    if !stdout.contains("saw: end") {
        // too slow, a panic, or something the interpreter does not support: no verdict from this run
        c.event(if out.status.success() { "Miri without an end" } else { "Miri inconclusive" });
        c.sample(|| format!("Miri inconclusive: {}", stderr.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>()));
    }
    c.max(format!("seconds under Miri, kind {kind}"), t0.elapsed().as_secs());
    c.distinct(&[b"miri", &t.0]);
    Ok(())
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.clone();
    if stage() == "miri" {
        return miri(c, &mut rng);
    }
    c.event(SANITIZER.unwrap_or("no sanitizer"));
    let own = if SANITIZER.is_none() { c.idx % 8 != 7 } else { c.idx % 2 == 0 };
    if !own {
        let i = (c.idx / if SANITIZER.is_none() { 8 } else { 2 }) as usize;
        let (id, n) = OTHERS[i % OTHERS.len()];
        let p = super::ALL.iter().find(|p| p.id == id).unwrap();
        // not more than the check itself would run
        let n = if SANITIZER.is_some() { n } else { 1 };
        for k in 0..n {
            let sub = ((i / OTHERS.len()) as u64 * n + k) % p.quick;
            let mut obs = Obs::default();
            let r = (p.run)(&mut Case { idx: sub, seed: c.seed, thorough: false, rng: Rng::for_case(c.seed, id, sub), obs: &mut obs, dir: c.dir });
            match r {
                Err(v) if overflow(&v) => return Err(v),
                Err(_) => c.event("judged elsewhere"),
                Ok(()) => (),
            }
            c.event(format!("workload {id}"));
            c.obs.evaluations += obs.evaluations;
            c.distinct(&[SANITIZER.unwrap_or("").as_bytes(), id.as_bytes(), &sub.to_le_bytes()]);
        }
        return Ok(());
    }
    let kind = (c.idx / if SANITIZER.is_none() { 1 } else { 2 }) % KINDS;
    // under a sanitizer the point is variety, otherwise also the memory kept
    let reps = if SANITIZER.is_none() { 12 } else { 3 };
    let mut kept = Vec::new();
    let mut seen = 0;
    let mut name = "";
    for _ in 0..reps {
        let (r, m) = memory(|| match scenario(kind, &mut rng, &mut seen) {
            Ok(n) => Ok(n),
            // what else is wrong is for the other checks
            Err(v) if overflow(&v) || v.msg.contains("not UTF-8") => Err(v),
            Err(_) => Ok(""),
        });
        name = r?;
        kept.push(m.kept);
        c.eval();
    }
    if name.is_empty() {
        c.event("judged elsewhere");
        return Ok(());
    }
    if SANITIZER.is_none() {
        let tail = &kept[4..];
        if tail.iter().all(|k| *k > 0) {
            violate!("{name}: every operation keeps memory after everything it gave was dropped: {kept:?} bytes");
        }
        c.event("memory returned");
    }
    c.event(format!("use: {name}"));
    if kind == 11 {
        c.event("invalid UTF-8 refused");
    }
    c.events("texts checked", seen);
    c.distinct(&[SANITIZER.unwrap_or("").as_bytes(), &c.idx.to_le_bytes(), name.as_bytes()]);
    c.sample(|| format!("{name}: {reps} repetitions, kept {kept:?} bytes, {seen} texts"));
    Ok(())
}
