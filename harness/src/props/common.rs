use crate::container::*;
use crate::gen::{self, Creds};
use crate::model::*;
use crate::mon::{lib, Violation};
use crate::rng::Rng;
use crate::xmlref;
use kdbx_rs::binary::{Locked, Unlocked};
use kdbx_rs::database::{Database, Entry, Group};
use kdbx_rs::errors::{OpenError, UnlockError, WriteError};
use kdbx_rs::Kdbx;

pub type Res<T> = Result<T, Violation>;

pub fn archive(db: Database, s: &Settings, c: &Creds) -> Res<Kdbx<Unlocked>> {
    let mut k = lib("Kdbx::from_database", || Kdbx::from_database(db))?;
    s.apply(&mut k);
    match lib("set_key", || k.set_key(c.lib()))? {
        Ok(()) => Ok(k),
        Err(e) => Err(Violation::new(format!("set_key refused supported settings {s:?}: {e}"))),
    }
}

pub fn try_save(k: &Kdbx<Unlocked>) -> Res<Result<Vec<u8>, WriteError>> {
    let mut out = Vec::new();
    Ok(lib("Kdbx::write", || k.write(&mut out))?.map(|()| out))
}

pub fn save(k: &Kdbx<Unlocked>) -> Res<Vec<u8>> {
    try_save(k)?.map_err(|e| Violation::new(format!("saving failed: {e}")))
}

pub fn try_open(data: &[u8]) -> Res<Result<Kdbx<Locked>, OpenError>> {
    lib("from_reader", || kdbx_rs::from_reader(data))
}

pub fn open(data: &[u8]) -> Res<Kdbx<Locked>> {
    try_open(data)?.map_err(|e| Violation::new(format!("file could not be opened: {e}")).with("file", data))
}

#[allow(clippy::large_enum_variant)]
pub enum Opened {
    Yes(Kdbx<Unlocked>),
    NotOpened(OpenError),
    NotUnlocked(Kdbx<Locked>, UnlockError),
}

pub fn attempt(data: &[u8], c: &Creds) -> Res<Opened> {
    Ok(match try_open(data)? {
        Err(e) => Opened::NotOpened(e),
        Ok(k) => match lib("unlock", || k.unlock(&c.lib()))? {
            Ok(u) => Opened::Yes(u),
            Err(f) => Opened::NotUnlocked(f.0, f.1),
        },
    })
}

pub fn unlock(data: &[u8], c: &Creds) -> Res<Kdbx<Unlocked>> {
    match attempt(data, c)? {
        Opened::Yes(u) => Ok(u),
        Opened::NotOpened(e) => Err(Violation::new(format!("file could not be opened: {e}")).with("file", data)),
        Opened::NotUnlocked(_, e) => Err(Violation::new(format!("file could not be unlocked: {e}")).with("file", data)),
    }
}

pub fn write_locked(k: &Kdbx<Locked>) -> Res<Vec<u8>> {
    let mut out = Vec::new();
    lib("Kdbx<Locked>::write", || k.write(&mut out))?.map_err(|e| Violation::new(format!("writing a locked archive failed: {e}")))?;
    Ok(out)
}

/// Replace fields without text by fields that were emptied explicitly, at random
pub fn vary_empty(db: &mut Database, rng: &mut Rng) {
    fn entry(e: &mut Entry, rng: &mut Rng) {
        for f in e.fields_mut() {
            if f.value() == Some("") && rng.chance(1, 2) {
                f.clear();
            } else if rng.chance(1, 20) {
                let v = f.value().unwrap_or("").to_string();
                f.clear();
                if !v.is_empty() {
                    f.set_value(&v);
                }
            }
        }
        for h in e.history_mut().entries_mut() {
            entry(h, rng);
        }
    }
    fn group(g: &mut Group, rng: &mut Rng) {
        for e in g.entries_mut() {
            entry(e, rng);
        }
        for s in g.groups_mut() {
            group(s, rng);
        }
    }
    group(db.root_mut(), rng);
}

/// Add a fraction of a second to some times; only whole seconds are kept in files
pub fn vary_subsecond(db: &mut Database, rng: &mut Rng) {
    fn group(g: &mut Group, rng: &mut Rng) {
        for e in g.entries_mut() {
            let t = e.times_mut();
            if from_date(t.creation_time) >= 0 && rng.chance(1, 4) {
                let n = *rng.pick(&[1i64, 499_999_999, 500_000_000, 999_999_999]);
                t.creation_time = t.creation_time.checked_add_signed(chrono::Duration::nanoseconds(n)).unwrap_or(t.creation_time);
            }
        }
        for s in g.groups_mut() {
            group(s, rng);
        }
    }
    group(db.root_mut(), rng);
}

/// Length of the inner payload (before compression) the library produces for a database
pub fn payload_len(db: &Database, s: &Settings) -> Res<usize> {
    let mut out = Vec::new();
    let r = lib("write_xml", || kdbx_rs::xml::write_xml(&mut out, db, &mut kdbx_rs::utils::NullStreamCipher))?;
    match r {
        Ok(()) => Ok(out.len() + 9 + 5 + s.inner_key.len() + 5),
        Err(_) => Ok(0),
    }
}

/// Pad the description so that the payload gets exactly `target` bytes, if it is not longer already
pub fn pad_to(m: &mut MDb, s: &Settings, target: usize, rng: &mut Rng) -> Res<bool> {
    m.desc = "x".into();
    let n = payload_len(&lib_db(m), s)?;
    if n == 0 || n > target {
        return Ok(false);
    }
    m.desc = gen::ascii(rng, target - n + 1);
    Ok(true)
}

/// Outcome class without the parts of messages that may legitimately differ
pub fn kind(e: &UnlockError) -> &'static str {
    match e {
        UnlockError::HmacInvalid => "HmacInvalid",
        UnlockError::StartBytesInvalid => "StartBytesInvalid",
        UnlockError::KeyGen(_) => "KeyGen",
        UnlockError::Decrypt(_) => "Decrypt",
        UnlockError::InvalidInnerHeader(_) => "InvalidInnerHeader",
        UnlockError::InnerStream(_) => "InnerStream",
        UnlockError::InvalidXml(_) => "InvalidXml",
    }
}

/// Build a KDBX 4 file with the reference encoder, spelling chosen at random
pub fn foreign4(m: &MDb, s: &Settings, c: &Creds, rng: &mut Rng) -> (File4, Vec<u8>, xmlref::Written) {
    let sp = xmlref::Spell::random(rng);
    let mut stream = inner_stream(s.inner, &s.inner_key);
    let w = xmlref::write(m, sp, rng.fork(), stream.as_mut(), None);
    let mut f = File4::plain(s, c, w.xml.clone());
    f.minor = *rng.pick(&[0u16, 1, 0, 1, 2, 0xffff]);
    // outer header: extra fields, any order
    let end = f.fields.pop().unwrap();
    for _ in 0..rng.below(4) {
        let id = *rng.pick(&[1u8, 12, 13, 100, 0xfe, 0xff]);
        let data = if id == 12 {
            dict_bytes(0x0100, &[item(0x18, "k", b"v".to_vec()), item(0x08, "b", vec![1]), item(0x0C, "i", 7i32.to_le_bytes().to_vec())])
        } else {
            let n = field_size(rng);
            rng.bytes(n)
        };
        f.fields.push((id, data));
    }
    // KDF dictionary: extra parameters, any order
    let mut items = kdf_items(&s.kdf);
    if let Kdf::Aes { .. } = s.kdf {
        if rng.chance(1, 3) {
            items[0].val = KDF_AES3_UUID.to_vec();
        }
    }
    for _ in 0..rng.below(3) {
        let n = rng.range(0, 9);
        items.push(match rng.below(6) {
            0 => item(0x04, "x4", rng.u32().to_le_bytes().to_vec()),
            1 => item(0x0D, "x8", rng.u64().to_le_bytes().to_vec()),
            2 => item(0x08, "flag", vec![0]),
            3 => item(0x18, "text", "\u{e9}".as_bytes().to_vec()),
            4 => item(0x42, "bytes", rng.bytes(n)),
            _ => item(0x77, "future", rng.bytes(n)),
        });
    }
    rng.shuffle(&mut items);
    for fld in f.fields.iter_mut().filter(|x| x.0 == 11) {
        fld.1 = dict_bytes(*rng.pick(&[0x0100u16, 0x0100, 0x0101]), &items);
    }
    if rng.chance(2, 3) {
        rng.shuffle(&mut f.fields);
    }
    f.fields.push((0, if rng.chance(1, 2) { end.1 } else { Vec::new() }));
    // inner header: binaries, unknown fields, any order
    f.inner_fields.pop();
    for _ in 0..rng.below(4) {
        let id = *rng.pick(&[3u8, 3, 3, 4, 0x80]);
        let n = field_size(rng);
        let mut d = rng.bytes(n);
        if id == 3 && !d.is_empty() {
            d[0] = rng.below(2) as u8;
        }
        f.inner_fields.push((id, d));
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut f.inner_fields);
    }
    f.inner_fields.push((0, if rng.chance(1, 6) { rng.bytes(3) } else { Vec::new() }));
    f.cuts = cuts(rng);
    let bytes = f.bytes(rng);
    (f, bytes, w)
}

/// Mostly small; sometimes around the sizes where a narrower length would wrap
fn field_size(rng: &mut Rng) -> usize {
    if rng.chance(1, 40) {
        return *rng.pick(&[65535usize, 65536, 65537, 70_000, 140_000, 1 << 20]);
    }
    *rng.pick(&[0usize, 1, 2, 5, 32, 100, 255, 256, 300, 4000])
}

pub fn cuts(rng: &mut Rng) -> Vec<usize> {
    match rng.below(6) {
        0 => Vec::new(),
        1 => vec![1; 400],
        2 => (0..200).map(|_| rng.range(1, 40)).collect(),
        3 => vec![16; 300],
        4 => vec![*rng.pick(&[15usize, 17, 31, 33, 255, 256, 1024, 4095, 4096, 8192]); 300],
        _ => (0..20).map(|_| rng.range(1, 3000)).collect(),
    }
}

pub fn settings3(rng: &mut Rng) -> Settings {
    let mut s = gen::settings(rng);
    s.cipher = *rng.pick(&[CipherK::Aes, CipherK::Twofish]);
    s.iv = rng.bytes(16);
    s.kdf = Kdf::Aes { rounds: *rng.pick(&[0u64, 1, 2, 10, 100, 1000]), salt: rng.bytes(32) };
    if rng.chance(1, 2) {
        s.inner_key = rng.bytes(32);
    }
    s
}

/// Build a KDBX 3.1 file with the reference encoder
pub fn foreign3(m: &MDb, s: &Settings, c: &Creds, rng: &mut Rng, hash: bool) -> (File3, Vec<u8>, xmlref::Written) {
    let mut sp = xmlref::Spell::random(rng);
    sp.iso_dates = true;
    let start: [u8; 32] = rng.bytes(32).try_into().unwrap();
    let mut f = File3::plain(s, c, start, Vec::new());
    f.minor = *rng.pick(&[1u16, 1, 1, 0]);
    let end = f.fields.pop().unwrap();
    for _ in 0..rng.below(3) {
        let id = *rng.pick(&[1u8, 13, 100, 0xfe, 0xff]);
        let n = field_size(rng).min(65535);
        f.fields.push((id, rng.bytes(n)));
    }
    if rng.chance(2, 3) {
        rng.shuffle(&mut f.fields);
    }
    f.fields.push((0, if rng.chance(2, 3) { end.1 } else { Vec::new() }));
    let h = if hash { Some(sha256(&f.header())) } else { None };
    let mut stream = inner_stream(s.inner, &s.inner_key);
    let w = xmlref::write(m, sp, rng.fork(), stream.as_mut(), h);
    f.xml = w.xml.clone();
    f.cuts = cuts(rng);
    let bytes = f.bytes(rng);
    (f, bytes, w)
}

/// Header settings the library reports, compared with those expected
pub fn header_matches(h: &kdbx_rs::binary::KdbxHeader, s: &Settings) -> Option<String> {
    if h.cipher != s.cipher.lib() {
        return Some(format!("cipher {:?} reported as {:?}", s.cipher, h.cipher));
    }
    let gz = match h.compression_type {
        kdbx_rs::binary::CompressionType::None => Some(false),
        kdbx_rs::binary::CompressionType::Gzip => Some(true),
        _ => None,
    };
    if gz != Some(s.gzip) {
        return Some(format!("compression gzip={} reported as {:?}", s.gzip, h.compression_type));
    }
    if h.kdf_params != s.kdf.lib() {
        return Some(format!("key derivation {:?} reported as {:?}", s.kdf, h.kdf_params));
    }
    if h.master_seed != s.seed {
        return Some("master seed reported wrong".into());
    }
    if h.encryption_iv != s.iv {
        return Some("IV reported wrong".into());
    }
    None
}

/// A mostly small but varied database
pub fn varied_db(rng: &mut Rng, text: gen::TextOpts) -> MDb {
    match rng.below(12) {
        0 => gen::db(rng, &gen::Shape { text, max_entries: 0, max_groups: 0, ..gen::SMALL }),
        1 => gen::db(rng, &gen::Shape { text, max_entries: 8, max_groups: 4, max_depth: 3, ..gen::SMALL }),
        2 => gen::db(rng, &gen::Shape { text, protected: 100, ..gen::SMALL }),
        3 => gen::stretched_db(rng, text),
        _ => gen::db(rng, &gen::Shape { text, ..gen::SMALL }),
    }
}

/// Whether key derivation with these settings fits in a test
pub fn affordable(h: &kdbx_rs::binary::KdbxHeader) -> bool {
    use kdbx_rs::binary::KdfParams;
    match &h.kdf_params {
        KdfParams::Aes { rounds, .. } => *rounds <= 20_000,
        KdfParams::Argon2 { memory_bytes, iterations, lanes, .. } => {
            *lanes <= 64 && *memory_bytes <= 4 << 20 && *iterations <= 64 && memory_bytes.saturating_mul(*iterations) <= 4 << 20
        }
        _ => true,
    }
}
