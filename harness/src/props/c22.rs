use super::common::*;
use crate::b64;
use crate::container::*;
use crate::gen;
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::rng::Rng;
use crate::xmlref;
use kdbx_rs::binary::{Cipher, CompressionType, InnerHeaderId, InnerStreamCipherAlgorithm, KdfAlgorithm, KdfParams, OuterHeaderId};
use kdbx_rs::errors::{HeaderError, OpenError, UnlockError, WriteError};
use uuid::Uuid;

pub static PROP: Prop = Prop {
    id: "C22",
    run,
    quick: 40_000,
    thorough: 600_000,
    rule: "distinct files or settings, each with one unsupported, malformed or unknown part, whose refusal or acceptance was judged",
    required: &[
        "not KeePass", "not KDBX", "major version", "field missing", "field of wrong size", "field undecodable", "checksum", "v3 field missing", "v3 field of wrong size", "v3 header hash wrong", "inner field missing", "inner field of wrong size", "cipher", "compression",
        "key derivation", "inner stream", "v3 cipher", "v3 compression", "v3 inner stream", "saving with an unknown cipher", "saving with an unknown compression", "saving with an unknown key derivation", "saving with an unknown inner stream",
        "accepted newer minor version", "accepted unknown field", "accepted unknown parameter", "identifier tables",
    ],
    assumptions: &["one part of the file is wrong at a time; which error wins when several are wrong is not judged", "master seeds of unusual length are not judged"],
    ..DEFAULT
};

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    if c.idx == 0 {
        tables(c)?;
    }
    match c.idx % 17 {
        16 => old_hash(c, &mut rng),
        0 => signature(c, &mut rng),
        1 => version(c, &mut rng),
        2 | 3 => outer_field(c, &mut rng),
        4 => dictionary(c, &mut rng),
        5 => checksum(c, &mut rng),
        6 => old_field(c, &mut rng),
        7 => inner_field(c, &mut rng),
        8 | 9 => unknown4(c, &mut rng),
        10 => unknown3(c, &mut rng),
        11..=13 => saving(c, &mut rng),
        _ => accepted(c, &mut rng),
    }
}

fn tables(c: &mut Case) -> Verdict {
    for i in 0..=255u8 {
        let o: u8 = lib("OuterHeaderId", || OuterHeaderId::from(i).into())?;
        let n: u8 = lib("InnerHeaderId", || InnerHeaderId::from(i).into())?;
        ensure!(o == i && n == i, "header field {i} reported as {:?} / {:?}", OuterHeaderId::from(i), InnerHeaderId::from(i));
    }
    for i in (0..2000u32).chain([u32::MAX, 1 << 31, 0x0100_0000, 0x0300_0000]) {
        let s: u32 = InnerStreamCipherAlgorithm::from(i).into();
        let z: u32 = CompressionType::from(i).into();
        ensure!(s == i && z == i, "identifier {i} reported as {s} / {z}");
        ensure!(matches!(CompressionType::from(i), CompressionType::Unknown(_)) == (i > 1), "compression {i} known as {:?}", CompressionType::from(i));
        ensure!(matches!(InnerStreamCipherAlgorithm::from(i), InnerStreamCipherAlgorithm::Unknown(_)) == !(1..=3).contains(&i), "inner stream {i} known as {:?}", InnerStreamCipherAlgorithm::from(i));
    }
    for (id, want) in [(AES128_UUID, Cipher::Aes128), (AES256_UUID, Cipher::Aes256), (TWOFISH_UUID, Cipher::TwoFish), (CHACHA_UUID, Cipher::ChaCha20)] {
        let u = Uuid::from_bytes(id);
        ensure!(Cipher::from(u) == want && Uuid::from(want) == u, "cipher {u} is reported as {:?}, {want:?} as {}", Cipher::from(u), Uuid::from(want));
    }
    let kdfs = [(KDF_AES3_UUID, KdfAlgorithm::Aes256_Kdbx3_1), (KDF_AES4_UUID, KdfAlgorithm::Aes256_Kdbx4), (KDF_ARGON2D_UUID, KdfAlgorithm::Argon2d), (KDF_ARGON2ID_UUID, KdfAlgorithm::Argon2id)];
    for (id, want) in kdfs {
        let u = Uuid::from_bytes(id);
        ensure!(KdfAlgorithm::from(u) == want && Uuid::from(want) == u, "key derivation {u} is reported as {:?}", KdfAlgorithm::from(u));
    }
    c.event("identifier tables");
    Ok(())
}

struct Base {
    s: Settings,
    creds: gen::Creds,
    m: MDb,
}

fn base(rng: &mut Rng) -> Base {
    Base { s: gen::settings(rng), creds: gen::creds(rng), m: gen::db(rng, &gen::Shape { text: gen::VALID, ..gen::SMALL }) }
}

fn file4(b: &Base, rng: &mut Rng) -> File4 {
    if rng.chance(1, 2) {
        foreign4(&b.m, &b.s, &b.creds, rng).0
    } else {
        let mut st = inner_stream(b.s.inner, &b.s.inner_key);
        let w = xmlref::write(&b.m, xmlref::PLAIN, rng.fork(), st.as_mut(), None);
        File4::plain(&b.s, &b.creds, w.xml)
    }
}

fn bad(msg: String, data: &[u8]) -> Verdict {
    Err(Violation::new(msg).with("file", data))
}

fn done(c: &mut Case, what: &'static str, data: &[u8]) -> Verdict {
    c.event(what);
    c.eval();
    c.distinct(&[data]);
    c.sample(|| format!("{what}, file of {} bytes", data.len()));
    Ok(())
}

fn signature(c: &mut Case, rng: &mut Rng) -> Verdict {
    let b = base(rng);
    let mut f = file4(&b, rng);
    let first = rng.chance(1, 2);
    let at = if first { 0 } else { 4 };
    match rng.below(4) {
        0 => f.sig[at + rng.below(4)] ^= 1 << rng.below(8),
        1 => f.sig[at..at + 4].reverse(),
        2 if !first => f.sig[4] = *rng.pick(&[0x65u8, 0x66, 0x68]),
        _ => {
            let r = rng.bytes(4);
            f.sig[at..at + 4].copy_from_slice(&r);
        }
    }
    // what follows may be wrong as well, the first reason counts
    if first && rng.chance(1, 3) {
        let r = rng.bytes(4);
        f.sig[4..].copy_from_slice(&r);
    }
    if f.sig[at..at + 4] == SIG[at..at + 4] {
        return Ok(());
    }
    if rng.chance(1, 4) {
        f.major = rng.u32() as u16;
    }
    let data = f.bytes(rng);
    match (first, try_open(&data)?) {
        (true, Err(OpenError::NonKeepassFormat)) => done(c, "not KeePass", &data),
        (false, Err(OpenError::UnsupportedFileFormat)) => done(c, "not KDBX", &data),
        (_, r) => bad(format!("signature {:02x?}: {}", f.sig, r.map_or_else(|e| format!("refused with {e:?}"), |_| "opened".into())), &data),
    }
}

fn version(c: &mut Case, rng: &mut Rng) -> Verdict {
    let b = base(rng);
    let mut f = file4(&b, rng);
    f.major = match rng.below(3) {
        0 => rng.u32() as u16,
        1 => *rng.pick(&[0u16, 1, 2, 5, 6, 0x0104, 0x0400, 0x0300, 0x0103, 0xff04, u16::MAX]),
        _ => rng.below(300) as u16,
    };
    f.minor = *rng.pick(&[0u16, 1, 3, 4, rng.clone().u32() as u16]);
    if (3..=4).contains(&f.major) {
        return Ok(());
    }
    let data = f.bytes(rng);
    match try_open(&data)? {
        Err(OpenError::UnsupportedMajorVersion(v)) if v == f.major => done(c, "major version", &data),
        r => bad(format!("version {}.{}: {}", f.major, f.minor, r.map_or_else(|e| format!("refused with {e:?}"), |_| "opened".into())), &data),
    }
}

/// Refused, on opening or unlocking, as a problem of the header
fn header_refused(what: &str, data: &[u8], creds: &gen::Creds, field: Option<u8>) -> Verdict {
    let e = match attempt(data, creds)? {
        Opened::Yes(_) => return bad(format!("{what}: unlocked"), data),
        Opened::NotOpened(OpenError::InvalidHeader(e)) => e,
        Opened::NotUnlocked(_, UnlockError::InvalidInnerHeader(e)) => e,
        Opened::NotOpened(e) => return bad(format!("{what}: refused for another reason, {e:?}"), data),
        Opened::NotUnlocked(_, e) => return bad(format!("{what}: refused for another reason, {e:?}"), data),
    };
    if let (Some(f), HeaderError::MissingRequiredField(id)) = (field, &e) {
        let id: u8 = (*id).into();
        // a 3.1 file without its own fields lacks the key derivation settings
        ensure!(id == f || (matches!(f, 5 | 6) && id == 11), "{what}: reported as lacking field {id}");
    }
    if let (Some(f), HeaderError::MalformedField(id, _)) = (field, &e) {
        let id: u8 = (*id).into();
        ensure!(id == f, "{what}: reported as field {id} malformed");
    }
    Ok(())
}

fn other_size(n: usize, rng: &mut Rng) -> usize {
    loop {
        let x = match rng.below(4) {
            0 => 0,
            1 => n + rng.range(1, 4),
            2 => rng.below(2 * n + 2),
            _ => n - 1,
        };
        if x != n {
            return x;
        }
    }
}

fn resize(d: &mut Vec<u8>, n: usize, rng: &mut Rng) {
    let fill = if rng.chance(1, 2) { 0 } else { rng.u32() as u8 };
    d.resize(n, fill);
}

fn outer_field(c: &mut Case, rng: &mut Rng) -> Verdict {
    let b = base(rng);
    let mut f = file4(&b, rng);
    if rng.chance(1, 2) {
        let id = *rng.pick(&[2u8, 3, 4, 7, 11]);
        f.fields.retain(|x| x.0 != id);
        let data = f.bytes(rng);
        header_refused(&format!("field {id} missing"), &data, &b.creds, Some(id))?;
        return done(c, "field missing", &data);
    }
    let (id, n) = *rng.pick(&[(2u8, 16usize), (3, 4), (7, b.s.iv.len())]);
    let size = other_size(n, rng);
    for x in f.fields.iter_mut().filter(|x| x.0 == id) {
        resize(&mut x.1, size, rng);
    }
    let data = f.bytes(rng);
    let what = format!("field {id} of {size} bytes instead of {n}");
    if id == 7 {
        // only the cipher knows which size is right
        match attempt(&data, &b.creds)? {
            Opened::Yes(_) => return bad(format!("{what}: unlocked"), &data),
            Opened::NotUnlocked(_, UnlockError::HmacInvalid | UnlockError::InvalidXml(_) | UnlockError::KeyGen(_)) => return bad(format!("{what}: refused for another reason"), &data),
            _ => (),
        }
    } else {
        header_refused(&what, &data, &b.creds, Some(id))?;
    }
    done(c, "field of wrong size", &data)
}

/// Key derivation settings that can not be decoded
fn dictionary(c: &mut Case, rng: &mut Rng) -> Verdict {
    let b = base(rng);
    let mut f = file4(&b, rng);
    let mut items = kdf_items(&b.s.kdf);
    let i = rng.below(items.len());
    let name = String::from_utf8_lossy(&items[i].key).into_owned();
    let mut version = 0x0100u16;
    let mut cut = None;
    let what = match rng.below(8) {
        0 => {
            items.remove(i);
            format!("parameter {name} missing")
        }
        1 => {
            items[i].key = match rng.below(3) {
                0 => name.to_lowercase().into_bytes(),
                1 => format!("{name} ").into_bytes(),
                _ => Vec::new(),
            };
            if items[i].key == name.as_bytes() {
                return Ok(());
            }
            format!("parameter {name} under another name")
        }
        2 => {
            // numbers of a known type and right size, but not the documented one
            let fits: &[u8] = match items[i].val.len() {
                4 => &[0x04, 0x0C, 0x18, 0x42],
                8 => &[0x05, 0x0D, 0x42, 0x77],
                _ => &[0x77, 0x43],
            };
            let ty = *rng.pick(fits);
            if ty == items[i].ty || (ty == 0x18 && String::from_utf8(items[i].val.clone()).is_err()) {
                return Ok(());
            }
            items[i].ty = ty;
            format!("parameter {name} of type {ty:#x}")
        }
        3 => {
            let x = rng.below(items.len());
            if items[x].ty == 0x42 && items[x].key != b"$UUID" {
                return Ok(());
            }
            let n = other_size(items[x].val.len(), rng);
            resize(&mut items[x].val, n, rng);
            format!("parameter {} of {n} bytes", String::from_utf8_lossy(&items[x].key))
        }
        4 => {
            items.push(DictItem { ty: 0x18, key: b"text".to_vec(), val: vec![0xff, 0xfe] });
            "text parameter that is not UTF-8".into()
        }
        5 => {
            items.push(DictItem { ty: 0x42, key: vec![0xc3], val: vec![] });
            "parameter name that is not UTF-8".into()
        }
        6 => {
            version = *rng.pick(&[0x0200u16, 0x0201, 0x0300, 0xff00]);
            format!("dictionary version {version:#x}")
        }
        _ => {
            let n = dict_bytes(version, &items).len();
            cut = Some(rng.below(n));
            format!("dictionary of {n} bytes cut off at {}", cut.unwrap())
        }
    };
    let mut d = dict_bytes(version, &items);
    if let Some(n) = cut {
        d.truncate(n);
    }
    for x in f.fields.iter_mut().filter(|x| x.0 == 11) {
        x.1 = d.clone();
    }
    let data = f.bytes(rng);
    match try_open(&data)? {
        Err(OpenError::InvalidHeader(_)) => done(c, "field undecodable", &data),
        Err(e) => bad(format!("{what}: refused for another reason, {e:?}"), &data),
        Ok(_) => bad(format!("{what}: opened"), &data),
    }
}

fn checksum(c: &mut Case, rng: &mut Rng) -> Verdict {
    let b = base(rng);
    let f = file4(&b, rng);
    let mut data = f.bytes(rng);
    let n = f.header().len();
    match rng.below(3) {
        0 => data[n + rng.below(32)] ^= 1 << rng.below(8),
        1 => data[n..n + 32].fill(0),
        _ => {
            // another header under the same checksum
            let mut g = f.clone();
            g.minor ^= 1;
            let h = g.header();
            data[..n].copy_from_slice(&h);
        }
    }
    match try_open(&data)? {
        Err(OpenError::InvalidHeader(HeaderError::ChecksumFailed)) => done(c, "checksum", &data),
        Err(e) => bad(format!("header with a wrong checksum: refused for another reason, {e:?}"), &data),
        Ok(_) => bad("header with a wrong checksum: opened".into(), &data),
    }
}

/// KDBX 3.1 files keep the hash of their header inside the payload
fn old_hash(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut b = base(rng);
    b.s = settings3(rng);
    let start: [u8; 32] = rng.bytes(32).try_into().unwrap();
    let mut f = File3::plain(&b.s, &b.creds, start, Vec::new());
    let right = sha256(&f.header());
    let mut st = inner_stream(b.s.inner, &b.s.inner_key);
    let mut sp = xmlref::PLAIN;
    sp.iso_dates = true;
    let xml = String::from_utf8(xmlref::write(&b.m, sp, rng.fork(), st.as_mut(), Some(right)).xml).unwrap();
    let told = b64::encode(&right);
    if xml.matches(&told).count() != 1 {
        return Ok(());
    }
    let mut wrong = right.to_vec();
    let text = match rng.below(9) {
        0 => {
            wrong[rng.below(32)] ^= 1 << rng.below(8);
            b64::encode(&wrong)
        }
        1 => {
            wrong.truncate(rng.range(1, 31));
            b64::encode(&wrong)
        }
        2 => {
            let more = rng.range(1, 40);
            wrong.extend(rng.bytes(more));
            b64::encode(&wrong)
        }
        3 => b64::encode(&[0; 32]),
        4 => {
            let n = rng.range(1, 64);
            b64::encode(&rng.bytes(n))
        }
        5 => b64::encode(&sha256(&right)),
        6 => {
            // hash of a header that differs in a single field
            let mut g = f.clone();
            let i = rng.below(g.fields.len());
            g.fields[i].1.push(0);
            b64::encode(&sha256(&g.header()))
        }
        7 => {
            let mut t = told.clone();
            t.insert(rng.below(told.len()), *rng.pick(&['!', '-', '_', '.', '=']));
            t
        }
        _ => {
            // the whole header without its last field, as if the hash ended too early
            let h = f.header();
            b64::encode(&sha256(&h[..h.len() - rng.range(1, 7)]))
        }
    };
    f.xml = xml.clone().into_bytes();
    let good = f.bytes(rng);
    if !matches!(attempt(&good, &b.creds)?, Opened::Yes(_)) {
        return bad(format!("3.1 file with its header hash refused"), &good);
    }
    f.xml = xml.replace(&told, &text).into_bytes();
    let data = f.bytes(rng);
    if let Opened::Yes(_) = attempt(&data, &b.creds)? {
        return bad(format!("3.1 file with header hash {text} instead of {told}: unlocked"), &data);
    }
    done(c, "v3 header hash wrong", &data)
}

fn old_field(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut b = base(rng);
    b.s = settings3(rng);
    let (mut f, _, _) = foreign3(&b.m, &b.s, &b.creds, rng, false);
    if rng.chance(1, 2) {
        let id = rng.range(2, 10) as u8;
        f.fields.retain(|x| x.0 != id);
        let data = f.bytes(rng);
        header_refused(&format!("3.1 field {id} missing"), &data, &b.creds, Some(id))?;
        return done(c, "v3 field missing", &data);
    }
    let (id, n) = *rng.pick(&[(2u8, 16usize), (3, 4), (5, 32), (6, 8), (7, 16), (9, 32), (10, 4)]);
    let size = other_size(n, rng);
    for x in f.fields.iter_mut().filter(|x| x.0 == id) {
        resize(&mut x.1, size, rng);
    }
    let data = f.bytes(rng);
    let what = format!("3.1 field {id} of {size} bytes instead of {n}");
    if matches!(id, 5 | 7 | 9) {
        if let Opened::Yes(_) = attempt(&data, &b.creds)? {
            return bad(format!("{what}: unlocked"), &data);
        }
    } else {
        header_refused(&what, &data, &b.creds, Some(id))?;
    }
    done(c, "v3 field of wrong size", &data)
}

fn inner_field(c: &mut Case, rng: &mut Rng) -> Verdict {
    let b = base(rng);
    let mut f = file4(&b, rng);
    let what;
    if rng.chance(1, 2) {
        let id = rng.range(1, 2) as u8;
        f.inner_fields.retain(|x| x.0 != id);
        what = "inner field missing";
    } else {
        let size = other_size(4, rng);
        for x in f.inner_fields.iter_mut().filter(|x| x.0 == 1) {
            resize(&mut x.1, size, rng);
        }
        what = "inner field of wrong size";
    }
    let data = f.bytes(rng);
    match attempt(&data, &b.creds)? {
        Opened::NotUnlocked(_, UnlockError::InvalidInnerHeader(_)) => done(c, what, &data),
        Opened::NotUnlocked(_, e) => bad(format!("{what}: refused for another reason, {e:?}"), &data),
        Opened::NotOpened(e) => bad(format!("{what}: refused for another reason, {e:?}"), &data),
        Opened::Yes(_) => bad(format!("{what}: unlocked"), &data),
    }
}

/// An identifier that is not known, often close to one that is
fn strange_uuid(rng: &mut Rng, known: &[[u8; 16]]) -> [u8; 16] {
    loop {
        let mut u = *rng.pick(known);
        match rng.below(6) {
            0 => u = gen::uuid(rng),
            1 => u = [0; 16],
            2 => u[rng.below(16)] ^= 1 << rng.below(8),
            3 => {
                // the little endian spelling of a GUID
                u[..4].reverse();
                u[4..6].reverse();
                u[6..8].reverse();
            }
            4 => u.reverse(),
            _ => u[8..].fill(rng.u32() as u8),
        }
        if !known.contains(&u) {
            return u;
        }
    }
}

const CIPHERS: [[u8; 16]; 4] = [AES128_UUID, AES256_UUID, TWOFISH_UUID, CHACHA_UUID];
const KDFS: [[u8; 16]; 4] = [KDF_AES3_UUID, KDF_AES4_UUID, KDF_ARGON2D_UUID, KDF_ARGON2ID_UUID];

fn strange_id(rng: &mut Rng, known: std::ops::RangeInclusive<u32>) -> u32 {
    loop {
        let x = match rng.below(4) {
            0 => rng.u32(),
            1 => rng.below(12) as u32,
            2 => rng.below(4) as u32 + *rng.pick(&[1u32 << 8, 1 << 16, 1 << 24, 1 << 31]),
            _ => u32::MAX - rng.below(4) as u32,
        };
        if !known.contains(&x) {
            return x;
        }
    }
}

fn unknown4(c: &mut Case, rng: &mut Rng) -> Verdict {
    let b = base(rng);
    let mut f = file4(&b, rng);
    let kind = rng.below(4);
    let set = |f: &mut File4, id: u8, d: Vec<u8>| f.fields.iter_mut().filter(|x| x.0 == id).for_each(|x| x.1 = d.clone());
    let u = strange_uuid(rng, if kind == 2 { &KDFS } else { &CIPHERS });
    let z = strange_id(rng, 0..=1);
    let mut items = kdf_items(&b.s.kdf);
    match kind {
        0 => set(&mut f, 2, u.to_vec()),
        1 => set(&mut f, 3, z.to_le_bytes().to_vec()),
        2 => {
            items[0].val = u.to_vec();
            items.push(item(0x18, "note", b"text".to_vec()));
            set(&mut f, 11, dict_bytes(0x0100, &items));
        }
        _ => {
            let id = if rng.chance(1, 4) { 1 } else { strange_id(rng, 1..=3) };
            f.inner_fields.iter_mut().filter(|x| x.0 == 1).for_each(|x| x.1 = id.to_le_bytes().to_vec());
        }
    }
    // the payload may not be encrypted at all
    let data = if kind == 0 && rng.chance(1, 4) { f.frame(&f.inner_plain()) } else { f.bytes(rng) };
    let k = open(&data)?;
    let h = k.header();
    match kind {
        0 => ensure!(h.cipher == Cipher::Unknown(Uuid::from_bytes(u)), "cipher {u:02x?} reported as {:?}", h.cipher),
        1 => ensure!(h.compression_type == CompressionType::Unknown(z), "compression {z} reported as {:?}", h.compression_type),
        2 => match &h.kdf_params {
            KdfParams::Unknown { uuid, params } => {
                ensure!(*uuid.as_bytes() == u, "key derivation {u:02x?} reported as {uuid}");
                for i in &items[1..] {
                    let key = String::from_utf8_lossy(&i.key).into_owned();
                    ensure!(params.contains_key(&key), "parameter {key} of an unknown key derivation is not reported");
                }
                ensure!(params.get("note") == Some(&kdbx_rs::binary::VariantDictValue::String("text".into())), "parameter reported as {:?}", params.get("note"));
            }
            o => violate!("key derivation {u:02x?} reported as {o:?}"),
        },
        _ => (),
    }
    let what = ["cipher", "compression", "key derivation", "inner stream"][kind];
    match (kind, lib("unlock", || k.unlock(&b.creds.lib()))?.map_err(|f| f.1)) {
        (_, Ok(_)) => bad(format!("file with an unknown {what} was unlocked"), &data),
        (0 | 1, Err(UnlockError::Decrypt(_))) | (2, Err(UnlockError::KeyGen(_))) | (3, Err(UnlockError::InnerStream(_))) => done(c, what, &data),
        (_, Err(e)) => bad(format!("file with an unknown {what} was refused for another reason: {e:?}"), &data),
    }
}

fn unknown3(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut b = base(rng);
    b.s = settings3(rng);
    let (mut f, _, _) = foreign3(&b.m, &b.s, &b.creds, rng, false);
    let kind = rng.below(3);
    let set = |f: &mut File3, id: u8, d: Vec<u8>| f.fields.iter_mut().filter(|x| x.0 == id).for_each(|x| x.1 = d.clone());
    let u = strange_uuid(rng, &CIPHERS);
    let z = strange_id(rng, 0..=1);
    match kind {
        0 => set(&mut f, 2, u.to_vec()),
        1 => set(&mut f, 3, z.to_le_bytes().to_vec()),
        _ => {
            let id = if rng.chance(1, 4) { 1 } else { strange_id(rng, 1..=3) };
            set(&mut f, 10, id.to_le_bytes().to_vec());
        }
    }
    let data = f.bytes(rng);
    let k = open(&data)?;
    let h = k.header();
    match kind {
        0 => ensure!(h.cipher == Cipher::Unknown(Uuid::from_bytes(u)), "cipher {u:02x?} reported as {:?}", h.cipher),
        1 => ensure!(h.compression_type == CompressionType::Unknown(z), "compression {z} reported as {:?}", h.compression_type),
        _ => (),
    }
    let what = ["v3 cipher", "v3 compression", "v3 inner stream"][kind];
    match (kind, lib("unlock", || k.unlock(&b.creds.lib()))?.map_err(|f| f.1)) {
        (_, Ok(_)) => bad(format!("file with an unknown {what} was unlocked"), &data),
        (0 | 1, Err(UnlockError::Decrypt(_))) | (2, Err(UnlockError::InnerStream(_))) => done(c, what, &data),
        (_, Err(e)) => bad(format!("file with an unknown {what} was refused for another reason: {e:?}"), &data),
    }
}

fn saving(c: &mut Case, rng: &mut Rng) -> Verdict {
    let b = base(rng);
    let mut a = archive(lib_db(&b.m), &b.s, &b.creds)?;
    let kind = rng.below(4);
    let what = ["saving with an unknown cipher", "saving with an unknown compression", "saving with an unknown key derivation", "saving with an unknown inner stream"][kind];
    match kind {
        0 => a.header_mut().cipher = Cipher::Unknown(Uuid::from_bytes(strange_uuid(rng, &CIPHERS))),
        1 => a.header_mut().compression_type = CompressionType::Unknown(strange_id(rng, 0..=1)),
        2 => a.header_mut().kdf_params = KdfParams::Unknown { uuid: Uuid::from_bytes(strange_uuid(rng, &KDFS)), params: Default::default() },
        _ => a.inner_header_mut().inner_stream_cipher = if rng.chance(1, 3) { InnerStreamCipherAlgorithm::ArcFour } else { InnerStreamCipherAlgorithm::Unknown(strange_id(rng, 1..=3)) },
    }
    let shown = format!("{:?} {:?} {:?} {:?}", a.header().cipher, a.header().compression_type, a.header().kdf_params, a.inner_header().inner_stream_cipher);
    match try_save(&a)? {
        Ok(d) => bad(format!("{what} worked: {shown}"), &d),
        Err(WriteError::MissingKeys) if kind != 2 => bad(format!("{what} was refused as lacking a key"), &[]),
        Err(_) => done(c, what, shown.as_bytes()),
    }
}

fn accepted(c: &mut Case, rng: &mut Rng) -> Verdict {
    let b = base(rng);
    let v3 = rng.chance(1, 4);
    let (data, major, minor, fields, s) = if v3 {
        let s = settings3(rng);
        let (mut f, _, _) = foreign3(&b.m, &s, &b.creds, rng, false);
        f.minor = if rng.chance(1, 2) { rng.u32() as u16 } else { f.minor };
        (f.bytes(rng), 3, f.minor, f.fields.clone(), s)
    } else {
        let (mut f, _, _) = foreign4(&b.m, &b.s, &b.creds, rng);
        f.minor = if rng.chance(1, 2) { rng.u32() as u16 } else { f.minor };
        (f.bytes(rng), 4, f.minor, f.fields.clone(), b.s.clone())
    };
    let u = unlock(&data, &b.creds).map_err(|v| Violation::new(format!("version {major}.{minor}: {}", v.msg)).with("file", &data))?;
    ensure!((u.major_version(), u.minor_version()) == (major, minor), "version {major}.{minor} reported as {}.{}", u.major_version(), u.minor_version());
    if let Some(e) = header_matches(u.header(), &s) {
        return bad(e, &data);
    }
    let strange = fields.iter().filter(|f| matches!(f.0, 1 | 12..)).count();
    if strange > 0 {
        ensure!(u.header().other_headers.len() >= strange, "{strange} optional fields in the file, {} reported", u.header().other_headers.len());
        c.event("accepted unknown field");
    }
    if minor > 1 {
        c.event("accepted newer minor version");
    }
    if fields.iter().any(|f| f.0 == 11 && f.1.len() > dict_bytes(0x0100, &kdf_items(&s.kdf)).len()) {
        c.event("accepted unknown parameter");
    }
    c.eval();
    c.distinct(&[&data]);
    Ok(())
}
