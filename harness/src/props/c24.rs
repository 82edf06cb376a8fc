use super::common::*;
use crate::attack;
use crate::b64;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::os;
use crate::rng::Rng;
use kdbx_rs::binary::{Cipher, CompressionType, InnerStreamCipherAlgorithm, KdfParams};
use kdbx_rs::errors::{Error, UnlockError};
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::Kdbx;
use std::io::{self, ErrorKind, Read, Write};

type Dyn = dyn std::error::Error + 'static;

pub static PROP: Prop = Prop {
    id: "C24",
    run,
    quick: 4_000,
    thorough: 100_000,
    rule: "distinct errors: operation, what went wrong, and the error's text",
    required: &[
        "cause: reading a header", "cause: reading on", "cause: saving", "cause: flushing", "cause: writing while locked", "cause: writing XML", "cause: parsing XML", "cause: missing file", "cause: directory",
        "secrets: wrong credentials v4", "secrets: wrong credentials v3", "secrets: damaged file", "secrets: damaged content v4", "secrets: damaged content v3", "secrets: damaged inner header", "secrets: undecodable value",
        "secrets: text refused on saving", "secrets: settings refused on saving", "secrets: key refused", "secrets: key missing", "secrets: KDBX 3 not saved", "secrets: parsing XML", "output seen", "XML refused: damaged content v3", "XML refused: damaged content v4", "XML refused: undecodable value",
    ],
    assumptions: &["secrets are random texts of at least 12 letters; a chance match of 10 of them is ruled out"],
    ..DEFAULT
};

// ---------------------------------------------------------------- what must not be told

/// Letters and digits only, in lower case
fn squash(t: &str) -> String {
    t.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect()
}

#[derive(Default)]
struct Secrets {
    /// name, and the ways it could be spelled
    list: Vec<(String, Vec<String>)>,
}

impl Secrets {
    fn add(&mut self, name: &str, s: &[u8]) {
        if s.len() < 12 {
            return;
        }
        let s = &s[..s.len().min(40)];
        let mut forms = Vec::new();
        for w in s.windows(10) {
            if let Ok(t) = std::str::from_utf8(w) {
                forms.push(t.to_string());
            }
            // as lists of numbers, with or without anything in between
            forms.push(w.iter().map(|b| format!("{b:02x}")).collect());
            forms.push(w.iter().map(|b| format!("{b:x}")).collect());
            forms.push(w.iter().map(|b| format!("0x{b:02x}")).collect());
            forms.push(w.iter().map(|b| format!("{b}")).collect());
        }
        for shift in 0..3 {
            let mut v = vec![0u8; shift];
            v.extend_from_slice(s);
            let e = b64::encode(&v);
            if e.len() > 22 {
                forms.push(e[4..e.len() - 4][..14].to_string());
            }
        }
        let forms = forms.iter().map(|f| squash(f)).filter(|f| f.len() > 9).collect();
        self.list.push((name.to_string(), forms));
    }

    fn scan(&self, what: &str, text: &str) -> Verdict {
        let flat = squash(text);
        for (name, forms) in &self.list {
            if let Some(f) = forms.iter().find(|f| flat.contains(f.as_str())) {
                violate!("{what}: the error tells {name} ({f:?}): {}", text.chars().take(600).collect::<String>());
            }
        }
        Ok(())
    }

    fn credentials(&mut self, name: &str, c: &Creds, s: &Settings) {
        if let Some(p) = &c.pw {
            self.add(&format!("the password {name}"), p.as_bytes());
            self.add(&format!("the hash of the password {name}"), &sha256(p.as_bytes()));
        }
        if let Some(k) = &c.keyfile {
            self.add(&format!("the key file {name}"), k);
            self.add(&format!("the hash of the key file {name}"), &sha256(k));
        }
        let comp = composite(c);
        self.add("the composite key", &comp);
        if let Some(m) = s.kdf.derive(&comp) {
            self.add("the derived key", &m);
            self.add("the cipher key", &cipher_key(&s.seed, &m));
            self.add("the HMAC key", &hmac_base(&s.seed, &m));
        }
    }

    fn database(&mut self, m: &MDb) {
        let mut n = 0;
        for_each_field(m, &mut |f| {
            if f.protected && n < 12 {
                n += 1;
                self.add("a protected value", f.value.as_bytes());
            }
        });
    }
}

/// All that an error says, and all that its causes say
fn told(e: &Dyn) -> Res<Vec<String>> {
    let mut out = Vec::new();
    let mut at = Some(e);
    let mut n = 0;
    while let Some(x) = at {
        let (a, b, c) = lib("formatting an error", || (format!("{x}"), format!("{x:?}"), format!("{x:#?}")))?;
        ensure!(!a.trim().is_empty(), "an error without a text: {b}");
        out.extend([a, b, c]);
        at = lib("Error::source", || x.source())?;
        n += 1;
        ensure!(n < 50, "the causes of an error do not end");
    }
    Ok(out)
}

fn kinds(e: &Dyn) -> Vec<ErrorKind> {
    let mut out = Vec::new();
    let mut at = Some(e);
    while let Some(x) = at {
        if let Some(i) = x.downcast_ref::<io::Error>() {
            out.push(i.kind());
        }
        at = x.source();
    }
    out
}

/// One failure: its cause, if it came from outside, must be found in it, and no secret
fn judge(c: &mut Case, what: &str, e: &Dyn, cause: Option<(ErrorKind, &str)>, secrets: &Secrets) -> Verdict {
    let texts = told(e)?;
    c.eval();
    if let Some((kind, token)) = cause {
        let plain = io::Error::from(kind).to_string();
        let token = if token.is_empty() { plain.as_str() } else { token };
        let named = texts.iter().any(|t| t.contains(token));
        ensure!(named || kinds(e).contains(&kind), "{what}: the error does not tell what went wrong ({kind:?}, {token:?}): {:?}", texts[0]);
        c.event(format!("cause: {what}"));
    } else {
        c.event(format!("secrets: {what}"));
    }
    for t in &texts {
        secrets.scan(what, t)?;
    }
    c.distinct(&[what.as_bytes(), texts[0].as_bytes()]);
    Ok(())
}

/// The error itself, and the same as the library's general error
fn both<E: std::error::Error + Into<Error> + 'static>(c: &mut Case, what: &str, e: E, cause: Option<(ErrorKind, &str)>, secrets: &Secrets) -> Verdict {
    judge(c, what, &e, cause, secrets)?;
    let g: Error = lib("conversion of an error", || e.into())?;
    judge(c, what, &g, cause, secrets)
}

// ---------------------------------------------------------------- faults

const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::StorageFull,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
    ErrorKind::NotConnected,
];

struct Faulty<'a> {
    data: &'a [u8],
    left: usize,
    kind: ErrorKind,
    token: &'a str,
    flush: bool,
    struck: bool,
}

impl<'a> Faulty<'a> {
    fn new(data: &'a [u8], left: usize, kind: ErrorKind, token: &'a str) -> Faulty<'a> {
        Faulty { data, left, kind, token, flush: false, struck: false }
    }
    fn fail(&mut self) -> io::Error {
        self.struck = true;
        if self.token.is_empty() {
            self.kind.into()
        } else {
            io::Error::new(self.kind, self.token)
        }
    }
}

impl Read for Faulty<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.left == 0 {
            return Err(self.fail());
        }
        let n = buf.len().min(self.left).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.left -= n;
        Ok(n)
    }
}

impl Write for Faulty<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.left == 0 {
            return Err(self.fail());
        }
        let n = buf.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush {
            return Err(self.fail());
        }
        Ok(())
    }
}

fn token(rng: &mut Rng) -> String {
    format!("T{}", gen::ascii(rng, 20).chars().map(|c| if c.is_ascii_alphanumeric() { c } else { 'z' }).collect::<String>())
}

fn dress_entry(e: &mut MEntry, rng: &mut Rng) {
    for f in &mut e.fields {
        if f.protected || rng.chance(1, 2) {
            f.value = token(rng);
        }
    }
    for h in &mut e.history {
        dress_entry(h, rng);
    }
}

fn dress_group(g: &mut MGroup, rng: &mut Rng) {
    for e in &mut g.entries {
        dress_entry(e, rng);
    }
    for s in &mut g.groups {
        dress_group(s, rng);
    }
}

struct Subject {
    m: MDb,
    s: Settings,
    creds: Creds,
    v3: bool,
    data: Vec<u8>,
    xml: Vec<u8>,
    secrets: Secrets,
    /// all that the file holds, which an error may tell but the terminal may not
    content: Secrets,
}

fn subject(rng: &mut Rng, v3: bool) -> Subject {
    let mut m = gen::db(rng, &gen::Shape { text: gen::TextOpts { long: false, ..gen::VALID }, ..gen::SMALL });
    let mut e = gen::entry(rng, &gen::Shape { text: gen::TextOpts { long: false, ..gen::VALID }, ..gen::SMALL }, 0);
    e.fields.push(MField { key: "Password".into(), value: token(rng), protected: true });
    e.fields.push(MField { key: "Notes".into(), value: token(rng), protected: true });
    m.root.entries.insert(0, e);
    dress_group(&mut m.root, rng);
    for f in m.custom.iter_mut().filter(|f| f.protected) {
        f.value = token(rng);
    }
    let mut s = if v3 { settings3(rng) } else { gen::settings(rng) };
    s.kdf = match s.kdf {
        Kdf::Aes { salt, .. } => Kdf::Aes { rounds: 1, salt },
        k => attack::cheap_kdf(k),
    };
    let creds = Creds { pw: rng.chance(3, 4).then(|| token(rng)), keyfile: rng.chance(1, 2).then(|| token(rng).into_bytes()) };
    let (data, xml) = if v3 {
        let (_, d, w) = foreign3(&m, &s, &creds, rng, true);
        (d, w.xml)
    } else {
        let (_, d, w) = foreign4(&m, &s, &creds, rng);
        (d, w.xml)
    };
    let mut secrets = Secrets::default();
    secrets.credentials("of the file", &creds, &s);
    secrets.database(&m);
    let mut content = Secrets::default();
    content.credentials("of the file", &creds, &s);
    content.add("the XML", b"<String><Key>Password</Key>");
    for_each_field(&m, &mut |f| {
        if f.value.starts_with('T') && f.value.len() > 20 {
            content.add("a value", f.value.as_bytes());
        }
    });
    Subject { m, s, creds, v3, data, xml, secrets, content }
}

fn faults(c: &mut Case, rng: &mut Rng, t: &Subject) -> Verdict {
    let tok = if rng.chance(1, 3) { String::new() } else { token(rng) };
    let kind = *rng.pick(&KINDS);
    let cause = Some((kind, tok.as_str()));
    // reading
    for at in [rng.below(300).min(t.data.len() - 1), rng.below(t.data.len()), *rng.pick(&[0usize, 3, 4, 8, 11, 12, 13])] {
        let mut r = Faulty::new(&t.data, at, kind, &tok);
        if let Err(e) = lib("from_reader", || kdbx_rs::from_reader(&mut r))? {
            if r.struck {
                both(c, if at < 100 { "reading a header" } else { "reading on" }, e, cause, &t.secrets)?;
            }
        }
    }
    let at = rng.below(t.xml.len());
    let mut r = Faulty::new(&t.xml, at, kind, &tok);
    if let Err(e) = lib("parse_xml", || kdbx_rs::xml::parse_xml(&mut r, inner_stream(t.s.inner, &t.s.inner_key).as_mut()))? {
        if r.struck {
            both(c, "parsing XML", e, cause, &t.secrets)?;
        }
    }
    // writing
    let locked = open(&t.data)?;
    let mut w = Faulty::new(&[], rng.below(t.data.len()), kind, &tok);
    match lib("write", || locked.write(&mut w))? {
        Ok(()) => violate!("a failed write was reported as success"),
        Err(e) => both(c, "writing while locked", e, cause, &t.secrets)?,
    }
    let u = match attempt(&t.data, &t.creds)? {
        Opened::Yes(u) => u,
        _ => violate!("a good file was refused"),
    };
    if t.v3 {
        match try_save(&u)? {
            Ok(_) => violate!("a KDBX 3 file was saved"),
            Err(e) => both(c, "KDBX 3 not saved", e, None, &t.secrets)?,
        }
    } else {
        let n = save(&u)?.len();
        for at in [rng.below(n), rng.below(n), n - 1, n - 20, 0, 300.min(n - 1)] {
            let mut w = Faulty::new(&[], at, kind, &tok);
            match lib("write", || u.write(&mut w))? {
                // a file may come out a few bytes shorter another time
                Ok(()) => ensure!(!w.struck, "a failed save was reported as success"),
                Err(e) => both(c, "saving", e, cause, &t.secrets)?,
            }
        }
        let mut w = Faulty::new(&[], usize::MAX, kind, &tok);
        w.flush = true;
        match lib("write", || u.write(&mut w))? {
            Ok(()) => ensure!(!w.struck, "a failed flush was reported as success"),
            Err(e) => both(c, "flushing", e, cause, &t.secrets)?,
        }
    }
    let db = lib_db(&t.m);
    let mut all = Vec::new();
    if lib("write_xml", || kdbx_rs::xml::write_xml(&mut all, &db, &mut NullStreamCipher))?.is_ok() {
        let mut w = Faulty::new(&[], rng.below(all.len()), kind, &tok);
        match lib("write_xml", || kdbx_rs::xml::write_xml(&mut w, &db, &mut NullStreamCipher))? {
            Ok(()) => violate!("a failed write of XML was reported as success"),
            Err(e) => both(c, "writing XML", e, cause, &t.secrets)?,
        }
    }
    // paths
    let p = c.dir.join(format!("missing-{}", token(rng)));
    match lib("open", || kdbx_rs::open(&p))? {
        Ok(_) => violate!("a missing file was opened"),
        Err(e) => both(c, "missing file", e, Some((ErrorKind::NotFound, "")), &t.secrets)?,
    }
    let dir = c.dir.to_path_buf();
    match lib("open", || kdbx_rs::open(&dir))? {
        Ok(_) => violate!("a directory was opened"),
        Err(e) => both(c, "directory", e, Some((ErrorKind::IsADirectory, "")), &t.secrets)?,
    }
    Ok(())
}

/// A failed unlock: the error and the general error
fn refused(c: &mut Case, what: &str, data: &[u8], creds: &Creds, secrets: &Secrets) -> Verdict {
    let k = match try_open(data)? {
        Err(e) => return both(c, what, e, None, secrets),
        Ok(k) => k,
    };
    if !affordable(k.header()) {
        return Ok(());
    }
    if let Err(f) = lib("unlock", || k.unlock(&creds.lib()))? {
        if let UnlockError::InvalidXml(_) = f.1 {
            c.event(format!("XML refused: {what}"));
        }
        judge(c, what, &f.1, None, secrets)?;
        let g = lib("conversion of an error", || Error::from(f))?;
        judge(c, what, &g, None, secrets)?;
    }
    Ok(())
}

fn contents(c: &mut Case, rng: &mut Rng, t: &Subject) -> Verdict {
    // wrong credentials, which are secret too
    let wrong = Creds { pw: Some(token(rng)), keyfile: rng.chance(1, 2).then(|| token(rng).into_bytes()) };
    let mut s = Secrets::default();
    s.credentials("tried", &wrong, &t.s);
    s.list.extend(t.secrets.list.iter().cloned());
    refused(c, if t.v3 { "wrong credentials v3" } else { "wrong credentials v4" }, &t.data, &wrong, &s)?;
    // damage without the key
    for _ in 0..3 {
        let mut d = t.data.clone();
        attack::mutate(&mut d, rng);
        refused(c, "damaged file", &d, &t.creds, &s)?;
    }
    // damage with the key: everything but the content is right
    for k in 0..6 {
        let mut xml = t.xml.clone();
        let mut inner = File4::plain(&t.s, &t.creds, Vec::new()).inner_fields;
        let what = match k {
            0 if !t.v3 => {
                let i = rng.below(inner.len());
                match rng.below(3) {
                    0 => drop(inner.remove(i)),
                    1 => inner[i].1.push(0),
                    _ => inner[i].1.truncate(1),
                }
                "damaged inner header"
            }
            1 => {
                // values that decrypt to something that is no text
                let text = String::from_utf8_lossy(&xml).into_owned();
                let mut parts: Vec<&str> = text.split("</Value>").collect();
                let i = rng.below(parts.len());
                let extra = format!("{}{}", parts[i], *rng.pick(&["AAAA", "=", "!", "/w==", "////"]));
                parts[i] = &extra;
                xml = parts.join("</Value>").into_bytes();
                "undecodable value"
            }
            2 => {
                let text = String::from_utf8_lossy(&xml).into_owned();
                let (a, b) = *rng.pick(&[("<UUID>", "<UUID>!"), ("<UsageCount>", "<UsageCount>x"), ("Time>", "Time>%"), ("</Entry>", "</Entri>"), ("<Key>", "<Key/><Key>"), ("</Value>", "&nosuch;</Value>")]);
                xml = text.replacen(a, b, rng.range(1, 3)).into_bytes();
                if t.v3 { "damaged content v3" } else { "damaged content v4" }
            }
            3 => {
                xml.truncate(rng.below(xml.len()));
                if t.v3 { "damaged content v3" } else { "damaged content v4" }
            }
            _ => {
                attack::mutate(&mut xml, rng);
                if t.v3 { "damaged content v3" } else { "damaged content v4" }
            }
        };
        let d = if t.v3 {
            File3::plain(&t.s, &t.creds, rng.bytes(32).try_into().unwrap(), xml.clone()).bytes(rng)
        } else {
            let mut f = File4::plain(&t.s, &t.creds, xml.clone());
            f.inner_fields = inner;
            f.bytes(rng)
        };
        refused(c, what, &d, &t.creds, &s)?;
        if let Err(e) = lib("parse_xml", || kdbx_rs::xml::parse_xml(&xml[..], inner_stream(t.s.inner, &t.s.inner_key).as_mut()))? {
            both(c, "parsing XML", e, None, &s)?;
        }
    }
    Ok(())
}

fn saving(c: &mut Case, rng: &mut Rng, t: &Subject) -> Verdict {
    // no key
    let k = lib("from_database", || Kdbx::from_database(lib_db(&t.m)))?;
    match try_save(&k)? {
        Ok(_) => violate!("an archive without a key was saved"),
        Err(e) => both(c, "key missing", e, None, &t.secrets)?,
    }
    let mut s = t.s.clone();
    if t.v3 {
        s = gen::settings(rng);
        s.kdf = Kdf::Aes { rounds: 1, salt: rng.bytes(32) };
    }
    let mut sec = Secrets::default();
    sec.credentials("of the archive", &t.creds, &s);
    sec.database(&t.m);
    // texts that can not be saved
    let mut m = t.m.clone();
    let bad = match rng.below(3) {
        0 => MField { key: String::new(), value: token(rng), protected: true },
        1 => MField { key: "a\u{1}".into(), value: token(rng), protected: true },
        _ => MField { key: "a".into(), value: format!("{}\u{b}", token(rng)), protected: false },
    };
    if bad.protected {
        sec.add("a protected value", bad.value.as_bytes());
    }
    m.root.entries[0].fields.push(bad);
    let k = archive(lib_db(&m), &s, &t.creds)?;
    match try_save(&k)? {
        Ok(_) => (),
        Err(e) => both(c, "text refused on saving", e, None, &sec)?,
    }
    // settings that can not be used
    let mut k = archive(lib_db(&t.m), &s, &t.creds)?;
    match rng.below(5) {
        0 => k.header_mut().cipher = Cipher::Unknown(uuid::Uuid::from_bytes([7; 16])),
        1 => k.header_mut().compression_type = CompressionType::Unknown(77),
        2 => k.header_mut().encryption_iv = rng.bytes(5),
        3 => k.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::Unknown(77),
        _ => k.header_mut().kdf_params = KdfParams::Aes { rounds: 1, salt: rng.bytes(31) },
    }
    if let Err(e) = try_save(&k)? {
        both(c, "settings refused on saving", e, None, &sec)?;
    }
    for bad in [
        KdfParams::Aes { rounds: 1, salt: rng.bytes(7) },
        argon(rng.bytes(4), 1, 8192, 1, 0x13),
        argon(rng.bytes(32), 0, 8192, 1, 0x13),
        argon(rng.bytes(32), 1, 1024, 1, 0x13),
        argon(rng.bytes(32), 1, 8192, 0, 0x13),
        argon(rng.bytes(32), 1, 8192, 1, 0x77),
        argon(rng.bytes(32), 1 << 40, 8192, 1, 0x13),
    ] {
        k.header_mut().kdf_params = bad.clone();
        match lib("set_key", || k.set_key(t.creds.lib()))? {
            Ok(()) => violate!("a key was accepted with {bad:?}"),
            Err(e) => both(c, "key refused", e, None, &sec)?,
        }
        let mut l = open(&t.data)?;
        l.header_mut().kdf_params = bad;
        if let Err(f) = lib("unlock", || l.unlock(&t.creds.lib()))? {
            judge(c, "key refused", &f.1, None, &t.secrets)?;
            let g = lib("conversion of an error", || Error::from(f))?;
            judge(c, "key refused", &g, None, &t.secrets)?;
        }
    }
    Ok(())
}

fn argon(salt: Vec<u8>, iterations: u64, memory_bytes: u64, lanes: u32, version: u32) -> KdfParams {
    KdfParams::Argon2 { variant: argon2::Variant::Argon2d, salt, iterations, memory_bytes, lanes, version }
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    let v3 = rng.chance(1, 3);
    let t = subject(&mut rng, v3);
    let (r, printed) = os::written(|| {
        // shows that what is written is seen at all
        if let Ok(mut sink) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
            let _ = std::io::Write::write_all(&mut sink, b"tap works");
        }
        match c.idx % 3 {
            0 => faults(c, &mut rng, &t),
            1 => contents(c, &mut rng, &t),
            _ => saving(c, &mut rng, &t),
        }
    });
    // what was written to the terminal, or to any file, meanwhile
    let printed = String::from_utf8_lossy(&printed).into_owned();
    c.eval();
    if printed.contains("tap works") {
        c.event("output seen");
    }
    let r = r.and_then(|()| t.content.scan("written by the process", &printed));
    r.map_err(|v: Violation| v.with("file", &t.data))
}
