use super::common::*;
use crate::gen;
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::os;
use crate::rng::Rng;
use kdbx_rs::binary::{Cipher, KdbxHeader, KdbxInnerHeader, KdfParams};
use kdbx_rs::database::{Database, Entry, Group};
use kdbx_rs::Kdbx;
use std::collections::HashMap;
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};
use std::sync::Barrier;

pub static PROP: Prop = Prop {
    id: "C12",
    run,
    quick: 3_000,
    thorough: 60_000,
    rule: "distinct archives, headers and identifiers whose random values were examined",
    required: &[
        "archive drawn from the operating system", "header drawn from the operating system", "inner header drawn from the operating system", "archives in threads", "archives in processes", "archives after a fork",
        "identifiers examined", "bias examined", "saved file carries its own values", "identifier for an item without one", "archive of the same database", "after unlocking another archive",
    ],
    assumptions: &["values count as drawn from the operating system if they are among the bytes it delivered during the call, or if it delivered enough bytes"],
    ..DEFAULT
};

/// The random values of one archive
#[derive(Clone, Debug, PartialEq, Eq)]
struct Values {
    seed: Vec<u8>,
    iv: Vec<u8>,
    salt: Vec<u8>,
    inner: Vec<u8>,
}

impl Values {
    fn parts(&self) -> [(&'static str, &Vec<u8>); 4] {
        [("master seed", &self.seed), ("IV", &self.iv), ("salt", &self.salt), ("inner stream key", &self.inner)]
    }
    fn all(&self) -> Vec<u8> {
        self.parts().iter().flat_map(|p| p.1.clone()).collect()
    }
}

fn salt(h: &KdbxHeader) -> Vec<u8> {
    match &h.kdf_params {
        KdfParams::Argon2 { salt, .. } => salt.clone(),
        KdfParams::Aes { salt, .. } => salt.clone(),
        _ => Vec::new(),
    }
}

fn values(h: &KdbxHeader, i: &KdbxInnerHeader) -> Values {
    Values { seed: h.master_seed.clone(), iv: h.encryption_iv.clone(), salt: salt(h), inner: i.inner_stream_key.clone() }
}

fn lengths(v: &Values, cipher: &Cipher) -> Verdict {
    let iv = if *cipher == Cipher::ChaCha20 { 12 } else { 16 };
    ensure!(v.seed.len() == 32, "the master seed has {} bytes", v.seed.len());
    ensure!(v.iv.len() == iv, "the IV has {} bytes", v.iv.len());
    ensure!(v.salt.len() >= 32, "the salt has {} bytes", v.salt.len());
    ensure!(v.inner.len() >= 32, "the inner stream key has {} bytes", v.inner.len());
    Ok(())
}

/// The values came out of the bytes drawn, each from bytes of its own
fn drawn(parts: &[(&'static str, &Vec<u8>)], stream: &[u8]) -> Verdict {
    let mut used = vec![false; stream.len()];
    let mut missing = None;
    for (name, v) in parts {
        let at = (0..stream.len().saturating_sub(v.len() - 1)).find(|i| stream[*i..*i + v.len()] == v[..] && !used[*i..*i + v.len()].iter().any(|u| *u));
        match at {
            Some(i) => used[i..i + v.len()].fill(true),
            None => missing = Some(*name),
        }
    }
    let need: usize = parts.iter().map(|p| p.1.len()).sum();
    if let Some(name) = missing {
        ensure!(stream.len() >= need, "the {name} was not drawn from the operating system: {} bytes drawn, {need} needed", stream.len());
    }
    Ok(())
}

/// Windows of all values seen: none may come up again, in any archive or field
#[derive(Default)]
struct Seen {
    win: HashMap<[u8; 8], (usize, &'static str)>,
    n: usize,
}

impl Seen {
    fn add(&mut self, v: &Values) -> Verdict {
        let id = self.n;
        self.n += 1;
        for (name, p) in v.parts() {
            for w in p.windows(8) {
                let w: [u8; 8] = w.try_into().unwrap();
                if let Some((other, what)) = self.win.insert(w, (id, name)) {
                    violate!("the {name} of archive {id} shares bytes with the {what} of archive {other}");
                }
                ensure!(w.iter().any(|b| *b != w[0]), "the {name} contains a run of equal bytes");
            }
        }
        Ok(())
    }
}

/// Every position takes many values, and every bit is set about half of the time
fn bias(what: &str, rows: &[Vec<u8>], fixed: &[(usize, u8)]) -> Verdict {
    let n = rows.len();
    assert!(n >= 300);
    for i in 0..rows[0].len() {
        let free = fixed.iter().find(|f| f.0 == i).map(|f| f.1).unwrap_or(0xff);
        let mut seen = [false; 256];
        for r in rows {
            seen[usize::from(r[i])] = true;
        }
        let d = seen.iter().filter(|s| **s).count();
        // 300 fair draws show 177 of 256 values on average, fewer than 130 never
        let least = match free.count_ones() {
            8 => 130,
            6 => 40,
            _ => 10,
        };
        ensure!(d >= least, "byte {i} of the {what} takes only {d} values in {n} draws");
        for b in 0..8 {
            if free >> b & 1 == 0 {
                continue;
            }
            let ones = rows.iter().filter(|r| r[i] >> b & 1 == 1).count() as f64;
            let dev = (ones - n as f64 / 2.0).abs() / (n as f64 / 4.0).sqrt();
            ensure!(dev < 8.0, "bit {b} of byte {i} of the {what} is set {ones} times in {n} draws");
        }
    }
    Ok(())
}

fn create(db: &Database) -> Result<(Values, Cipher), Violation> {
    let copy = db.clone();
    let (k, stream) = os::recorded(|| lib("from_database", || Kdbx::from_database(copy)));
    let k = k?;
    let v = values(k.header(), k.inner_header());
    lengths(&v, &k.header().cipher)?;
    drawn(&v.parts(), &stream)?;
    Ok((v, k.header().cipher.clone()))
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Entry point of the helper process: create archives before and after a fork, print their values
pub fn fresh(n: usize) {
    let show = |tag: &str, n: usize| {
        for _ in 0..n {
            let k = Kdbx::from_database(Database::default());
            let v = values(k.header(), k.inner_header());
            let u = [Entry::default().uuid(), Group::default().uuid(), Group::new("x").uuid()];
            let line = format!("FRESH {tag} {} {} {} {} {} {} {}\n", hex(&v.seed), hex(&v.iv), hex(&v.salt), hex(&v.inner), hex(u[0].as_bytes()), hex(u[1].as_bytes()), hex(u[2].as_bytes()));
            unsafe { libc::write(1, line.as_ptr().cast(), line.len()) };
        }
    };
    show("start", n);
    let pid = unsafe { libc::fork() };
    show(if pid == 0 { "child" } else { "parent" }, n);
    if pid == 0 {
        unsafe { libc::_exit(0) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
}

fn helper(n: usize) -> Vec<(String, Values, Vec<Vec<u8>>)> {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["fresh", &n.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut out = Vec::new();
    for line in BufReader::new(child.stdout.take().unwrap()).lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split_ascii_whitespace().collect();
        if f.first() == Some(&"FRESH") && f.len() == 9 {
            let b = |i: usize| unhex(f[i]);
            out.push((f[1].to_string(), Values { seed: b(2), iv: b(3), salt: b(4), inner: b(5) }, vec![b(6), b(7), b(8)]));
        }
    }
    child.wait().unwrap();
    out
}

fn check_uuid(u: &[u8]) -> Verdict {
    ensure!(u[6] >> 4 == 4, "identifier {} is not version 4", hex(u));
    ensure!(u[8] >> 6 == 2, "identifier {} has the wrong variant", hex(u));
    Ok(())
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    let mut seen = Seen::default();
    let mut rows = Vec::new();
    let m = gen::db(&mut rng, &gen::SMALL);
    let db = lib_db(&m);
    let other = lib_db(&gen::db(&mut rng, &gen::SMALL));
    // one after another, of the same and of different databases
    for i in 0..240 {
        let (v, cipher) = create(if i % 3 == 0 { &other } else { &db })?;
        seen.add(&v)?;
        c.distinct(&[&v.all()]);
        c.event(if i % 3 == 0 { "archive of another database" } else { "archive of the same database" });
        c.event("archive drawn from the operating system");
        rows.push(v);
        let _ = cipher;
        if i % 60 == 0 {
            interlude(c, &mut rng, &mut seen)?;
        }
        c.eval();
    }
    // in threads that start together
    let threads = 6;
    let bar = Barrier::new(threads);
    let got: Vec<Result<Vec<Values>, Violation>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                s.spawn(|| {
                    bar.wait();
                    (0..20).map(|_| create(&db).map(|v| v.0)).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for g in got {
        for v in g? {
            seen.add(&v)?;
            c.distinct(&[&v.all()]);
            rows.push(v);
            c.event("archives in threads");
        }
    }
    // identifiers of new items
    let mut ids = Vec::new();
    for _ in 0..110 {
        let e = lib("Entry::default", Entry::default)?;
        let g = lib("Group::new", || Group::new("g"))?;
        let h = lib("Group::default", Group::default)?;
        let d = lib("Database::default", Database::default)?;
        for u in [e.uuid(), g.uuid(), h.uuid(), d.root().uuid()] {
            ids.push(u.as_bytes().to_vec());
        }
    }
    // items read without an identifier
    let xml = b"<KeePassFile><Meta/><Root><Group><Name>a</Name><Entry/><Entry/><Group/></Group></Root></KeePassFile>";
    if let Ok(p) = lib("parse_xml", || kdbx_rs::xml::parse_xml(&xml[..], &mut kdbx_rs::utils::NullStreamCipher))? {
        let r = p.root();
        ids.push(r.uuid().as_bytes().to_vec());
        ids.extend(r.entries().map(|e| e.uuid().as_bytes().to_vec()));
        ids.extend(r.groups().map(|g| g.uuid().as_bytes().to_vec()));
        c.event("identifier for an item without one");
    }
    // in other processes
    if c.idx % 4 == 0 {
        let (a, b) = std::thread::scope(|s| {
            let a = s.spawn(|| helper(10));
            let b = helper(10);
            (a.join().unwrap(), b)
        });
        for (tag, v, u) in a.into_iter().chain(b) {
            seen.add(&v)?;
            rows.push(v);
            ids.extend(u);
            c.event(if tag == "start" { "archives in processes" } else { "archives after a fork" });
        }
    }
    let n: usize = ids.len();
    for u in &ids {
        check_uuid(u)?;
    }
    let mut win: HashMap<[u8; 7], usize> = HashMap::new();
    for (i, u) in ids.iter().enumerate() {
        // 7 bytes on either side of the fixed bits
        for w in [&u[9..16], &[u[0], u[1], u[2], u[3], u[4], u[5], u[7]][..]] {
            if let Some(j) = win.insert(w.try_into().unwrap(), i) {
                violate!("new items {j} and {i} of {n} have identifiers with equal parts");
            }
        }
        c.distinct(&[u]);
    }
    bias("identifier", &ids, &[(6, 0x0f), (8, 0x3f)])?;
    c.events("identifiers examined", n as u64);
    for i in 0..4 {
        let r: Vec<Vec<u8>> = rows.iter().map(|v| v.parts()[i].1.clone()).collect();
        bias(rows[0].parts()[i].0, &r, &[])?;
    }
    c.event("bias examined");
    c.max("archives in one case", rows.len() as u64);
    c.sample(|| format!("{} archives, {n} identifiers; first seed {}", rows.len(), hex(&rows[0].seed)));
    Ok(())
}

/// Things that happen between creating archives, none of which may influence the next one
fn interlude(c: &mut Case, rng: &mut Rng, seen: &mut Seen) -> Verdict {
    // stand-alone headers
    let (h, stream) = os::recorded(|| lib("KdbxHeader::from_os_random", KdbxHeader::from_os_random));
    let h = h?;
    let s = salt(&h);
    drawn(&[("master seed", &h.master_seed), ("IV", &h.encryption_iv), ("salt", &s)], &stream)?;
    c.event("header drawn from the operating system");
    let (i, stream) = os::recorded(|| lib("KdbxInnerHeader::from_os_random", KdbxInnerHeader::from_os_random));
    let i = i?;
    drawn(&[("inner stream key", &i.inner_stream_key)], &stream)?;
    c.event("inner header drawn from the operating system");
    let v = values(&h, &i);
    lengths(&v, &h.cipher)?;
    seen.add(&v)?;
    // what is saved is what was drawn, and reading it back does not feed into the next archive
    let creds = gen::creds(rng);
    let mut k = lib("from_database", || Kdbx::from_database(Database::default()))?;
    let v = values(k.header(), k.inner_header());
    seen.add(&v)?;
    if let KdfParams::Argon2 { memory_bytes, iterations, lanes, .. } = &mut k.header_mut().kdf_params {
        (*memory_bytes, *iterations, *lanes) = (8192, 1, 1);
    }
    lib("set_key", || k.set_key(creds.lib()))?.map_err(|e| Violation::new(format!("set_key failed: {e}")))?;
    let data = save(&k)?;
    match crate::container::decode4(&data, &creds) {
        Ok(d) => {
            let salt = match d.kdf {
                crate::container::Kdf::Aes { salt, .. } | crate::container::Kdf::Argon2 { salt, .. } => salt,
            };
            ensure!((&d.seed, &d.iv, &salt, &d.inner_key) == (&v.seed, &v.iv, &v.salt, &v.inner), "the saved file carries other random values than the archive");
            c.event("saved file carries its own values");
        }
        Err(e) => violate!("saved file can not be decoded: {e}"),
    }
    unlock(&data, &creds)?;
    c.event("after unlocking another archive");
    Ok(())
}
