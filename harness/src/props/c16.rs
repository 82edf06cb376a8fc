use super::common::*;
use crate::b64;
use crate::container::*;
use crate::gen;
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::rng::Rng;
use crate::xmlref;
use cipher::StreamCipher;
use kdbx_rs::database::Database;
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::xml::{decode_datetime, decode_uuid, encode_datetime, encode_uuid, parse_xml, write_xml};
use uuid::Uuid;

pub static PROP: Prop = Prop {
    id: "C16",
    run,
    quick: 24_000,
    thorough: 500_000,
    stack: 64 << 20,
    rule: "distinct documents, identifiers, times and malformed texts whose conversion was judged",
    required: &[
        "written and parsed back", "written and read by the reference parser", "foreign document parsed", "no cipher", "Salsa20", "ChaCha20", "CDATA", "character references", "comments inside text", "white space value", "carriage return",
        "unknown protected element", "identifier identity", "time identity", "time before year 1", "time after year 9999", "ISO time with offset", "invalid identifier refused", "invalid time refused", "invalid number refused",
        "document cut off", "mismatched tag", "bad reference", "bad byte", "bad secret", "invalid text refused by the writer", "deep document", "item without identifier or times", "empty document parts",
    ],
    assumptions: &[
        "documents are UTF-8 without a document type declaration, with one root group and no elements inside values",
        "times in base64 that do not have 8 bytes are not judged: other programs accept them",
        "what follows the document element is not judged",
    ],
    ..DEFAULT
};

/// A stream for the library to use, and the name of its kind
fn lib_stream(s: &Settings, null: bool) -> Res<Box<dyn StreamCipher>> {
    if null {
        return Ok(Box::new(NullStreamCipher));
    }
    match lib("stream_cipher", || s.inner.lib().stream_cipher(&s.inner_key))? {
        Ok(c) => Ok(c),
        Err(e) => violate!("no stream cipher for {s:?}: {e}"),
    }
}

fn ref_stream(s: &Settings, null: bool) -> Box<dyn StreamCipher> {
    if null {
        Box::new(NullStreamCipher)
    } else {
        inner_stream(s.inner, &s.inner_key)
    }
}

fn parse(xml: &[u8], s: &Settings, null: bool) -> Res<Result<Database, String>> {
    let mut st = lib_stream(s, null)?;
    Ok(lib("parse_xml", || parse_xml(xml, st.as_mut()))?.map_err(|e| e.to_string()))
}

fn there_and_back(c: &mut Case, m: &MDb, s: &Settings, null: bool) -> Verdict {
    let db = lib_db(m);
    let mut xml = Vec::new();
    let mut st = lib_stream(s, null)?;
    let r = lib("write_xml", || write_xml(&mut xml, &db, st.as_mut()))?;
    c.eval();
    if let Err(e) = r {
        ensure!(!representable(m), "write_xml refused a database that can be represented: {e}");
        c.event("invalid text refused by the writer");
        return Ok(());
    }
    match parse(&xml, s, null)? {
        Ok(got) => {
            if let Some(d) = diff_db(m, &model_db(&got)) {
                return Err(Violation::new(format!("written and parsed back: {d}")).with("xml", &xml));
            }
        }
        Err(e) => return Err(Violation::new(format!("own document refused: {e}")).with("xml", &xml)),
    }
    c.event("written and parsed back");
    let mut st = ref_stream(s, null);
    match xmlref::interpret(&xml, st.as_mut()) {
        Ok(i) => {
            if let Some(d) = diff_db(m, &i.db) {
                return Err(Violation::new(format!("written document says something else: {d}")).with("xml", &xml));
            }
        }
        Err(e) => return Err(Violation::new(format!("written document is not conforming: {e}")).with("xml", &xml)),
    }
    c.event("written and read by the reference parser");
    c.distinct(&[&xml]);
    Ok(())
}

fn foreign(c: &mut Case, m: &MDb, s: &Settings, null: bool, rng: &mut Rng) -> Verdict {
    let sp = xmlref::Spell::random(rng);
    let mut st = ref_stream(s, null);
    let w = xmlref::write(m, sp, rng.fork(), st.as_mut(), None);
    match parse(&w.xml, s, null)? {
        Ok(got) => {
            if let Some(d) = diff_db(m, &model_db(&got)) {
                return Err(Violation::new(format!("parsed from a conforming document: {d}")).with("xml", &w.xml));
            }
        }
        Err(e) => return Err(Violation::new(format!("conforming document refused: {e}")).with("xml", &w.xml)),
    }
    c.eval();
    c.event("foreign document parsed");
    c.event(if null {
        "no cipher"
    } else {
        match s.inner {
            InnerK::Salsa => "Salsa20",
            InnerK::ChaCha => "ChaCha20",
        }
    });
    if w.unknown_secrets > 0 {
        c.event("unknown protected element");
    }
    for (what, pat) in [("CDATA", "<![CDATA["), ("character references", "&#"), ("comments inside text", "<!-- in text -->")] {
        if w.xml.windows(pat.len()).any(|x| x == pat.as_bytes()) {
            c.event(what);
        }
    }
    let mut space = false;
    let mut cr = false;
    for_each_field(m, &mut |f| {
        space |= !f.value.is_empty() && f.value.trim().is_empty();
        cr |= f.value.contains('\r') && !f.protected;
    });
    if space {
        c.event("white space value");
    }
    if cr {
        c.event("carriage return");
    }
    c.distinct(&[&w.xml]);
    Ok(())
}

/// Documents with parts left out take defaults for those parts only
fn sparse(c: &mut Case, rng: &mut Rng) -> Verdict {
    let e = gen::entry(rng, &gen::Shape { text: gen::VALID, protected: 0, ..gen::SMALL }, 0);
    let mut null = NullStreamCipher;
    let mut w = xmlref::W::new(xmlref::PLAIN, rng.fork(), &mut null);
    w.open("KeePassFile");
    let meta = rng.below(3);
    match meta {
        0 => (),
        1 => w.elem("Meta", ""),
        _ => {
            w.open("Meta");
            w.elem("DatabaseName", "n");
            w.close("Meta");
        }
    }
    w.open("Root");
    w.open("Group");
    if rng.chance(1, 2) {
        w.elem("Name", "g");
    }
    let ids = rng.chance(1, 2);
    w.open("Entry");
    if ids {
        w.elem("UUID", &b64::encode(&e.uuid));
    }
    for f in &e.fields {
        w.open("String");
        w.elem("Key", &f.key);
        if !f.value.is_empty() || rng.chance(1, 2) {
            w.elem("Value", &f.value);
        }
        w.close("String");
    }
    w.close("Entry");
    w.open("Group");
    w.close("Group");
    w.close("Group");
    w.close("Root");
    w.close("KeePassFile");
    let xml = w.out.into_bytes();
    let db = match lib("parse_xml", || parse_xml(&xml[..], &mut NullStreamCipher))? {
        Ok(d) => d,
        Err(e) => return Err(Violation::new(format!("document with parts left out refused: {e}")).with("xml", &xml)),
    };
    let got = model_db(&db);
    let bad = |what: &str| Err(Violation::new(format!("document with parts left out: {what}")).with("xml", &xml));
    if got.name != (if meta == 2 { "n" } else { "" }) || !got.custom.is_empty() || !got.desc.is_empty() {
        return bad("wrong metadata");
    }
    if got.root.entries.len() != 1 || got.root.groups.len() != 1 || !got.root.groups[0].entries.is_empty() {
        return bad("wrong structure");
    }
    let ge = &got.root.entries[0];
    if ge.fields != e.fields || !ge.history.is_empty() || (ids && ge.uuid != e.uuid) {
        return bad("wrong entry");
    }
    if !ids && (ge.uuid == [0; 16] || ge.uuid == got.root.uuid) {
        return bad("entry without an identifier did not receive one");
    }
    c.event("item without identifier or times");
    c.event("empty document parts");
    c.eval();
    Ok(())
}

fn codecs(c: &mut Case, rng: &mut Rng) -> Verdict {
    for _ in 0..20 {
        let u = gen::uuid(rng);
        let t = lib("encode_uuid", || encode_uuid(Uuid::from_bytes(u)))?;
        ensure!(t == b64::encode(&u), "identifier {u:02x?} encoded as {t:?}");
        let d = lib("decode_uuid", || decode_uuid(&t))?;
        ensure!(d == Some(Uuid::from_bytes(u)), "identifier {t:?} decoded as {d:?}");
        c.event("identifier identity");
        c.distinct(&[b"u", &u]);

        let (lo, hi) = date_limits();
        let secs = match rng.below(6) {
            0 => *rng.pick(&[0i64, 1, -1, 59, 86_399, 86_400, lo, hi, lo + 1, hi - 1, 62_135_596_800, 62_135_596_799, 315_537_897_599, 315_537_897_600]),
            1 => lo + (rng.u64() % (hi - lo) as u64) as i64,
            _ => gen::date(rng),
        };
        let date = to_date(secs);
        let t = lib("encode_datetime", || encode_datetime(date))?;
        ensure!(t == b64::encode(&secs.to_le_bytes()), "time {date} encoded as {t:?}");
        let d = lib("decode_datetime", || decode_datetime(&t))?;
        ensure!(d == Some(date), "time {t:?} decoded as {d:?} instead of {date}");
        c.event("time identity");
        if secs < 0 {
            c.event("time before year 1");
        }
        if secs > 315_537_897_599 {
            c.event("time after year 9999");
        }
        c.distinct(&[b"t", &secs.to_le_bytes()]);

        let secs = 86_400 * 2 + (rng.u64() % 315_537_000_000) as i64;
        let off = rng.range(0, 2 * 1439) as i32 - 1439;
        let text = xmlref::iso(secs, off, false);
        let d = lib("decode_datetime", || decode_datetime(&text))?;
        ensure!(d == Some(to_date(secs)), "time {text:?} decoded as {d:?} instead of {}", to_date(secs));
        c.event("ISO time with offset");
        c.distinct(&[text.as_bytes()]);
        c.eval();
    }
    for _ in 0..6 {
        let t = bad_uuid(rng);
        let d = lib("decode_uuid", || decode_uuid(&t))?;
        ensure!(d.is_none(), "{t:?} accepted as identifier {d:?}");
        c.event("invalid identifier refused");
        let t = bad_time(rng);
        let d = lib("decode_datetime", || decode_datetime(&t))?;
        ensure!(d.is_none(), "{t:?} accepted as time {d:?}");
        c.event("invalid time refused");
    }
    Ok(())
}

fn bad_uuid(rng: &mut Rng) -> String {
    match rng.below(5) {
        0 => {
            let n = *rng.pick(&[0usize, 1, 8, 15, 17, 32]);
            b64::encode(&rng.bytes(n))
        }
        1 => "AAECAwQFBgcICQoLDA0OD!==".into(),
        2 => "00010203-0405-0607-0809-0a0b0c0d0e0f".into(),
        3 => "AAECAwQFBgcICQoLDA0ODw".into(),
        _ => "not an identifier".into(),
    }
}

fn bad_time(rng: &mut Rng) -> String {
    (*rng.pick(&[
        "2020-13-01T00:00:00Z", "2020-00-01T00:00:00Z", "2020-02-30T00:00:00Z", "2021-02-29T00:00:00Z", "2020-01-01T24:00:00Z", "2020-01-01T00:60:00Z", "2020-01-01", "2020-01-01T00:00:00+25:00", "x-y", "yesterday", "!!!!", "A",
        "AAAAAAAAAAA", "2020-01-01T00:00", "--", "/////////38=", "AAAAAAAAAIA=", "2020-01-01T00:00:00ZZ", "20-01-01T00:00:00Z", "2020-1-1T00:00:00Z",
    ]))
    .to_string()
}

fn refused(c: &mut Case, what: &'static str, xml: &[u8], s: &Settings, null: bool, detail: &str) -> Verdict {
    c.eval();
    if parse(xml, s, null)?.is_ok() {
        return Err(Violation::new(format!("{what} accepted: {detail}")).with("xml", xml));
    }
    c.event(what);
    c.distinct(&[xml]);
    Ok(())
}

/// The parts of a document of the plain spelling between a tag and its end
fn texts(xml: &str, tags: &[&str]) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    for t in tags {
        let (o, e) = (format!("<{t}>"), format!("</{t}>"));
        let mut at = 0;
        while let Some(i) = xml[at..].find(&o) {
            let a = at + i + o.len();
            let Some(n) = xml[a..].find(&e) else { break };
            out.push((a, a + n));
            at = a + n;
        }
    }
    out
}

fn malformed(c: &mut Case, m: &MDb, s: &Settings, null: bool, rng: &mut Rng) -> Verdict {
    // no text that looks like a tag
    let mut m = m.clone();
    m.root.name = "g".into();
    let mut st = ref_stream(s, null);
    let w = xmlref::write(&m, xmlref::PLAIN, rng.fork(), st.as_mut(), None);
    let xml = String::from_utf8(w.xml).unwrap();
    let end = xml.rfind("</KeePassFile>").unwrap() + "</KeePassFile>".len();
    let with = |r: (usize, usize), t: &str| format!("{}{t}{}", &xml[..r.0], &xml[r.1..]).into_bytes();

    for _ in 0..8 {
        let at = rng.below(end);
        refused(c, "document cut off", &xml.as_bytes()[..at], s, null, &format!("at byte {at} of {end}"))?;
    }
    let r = *rng.pick(&texts(&xml, &["UUID"]));
    let t = bad_uuid(rng);
    refused(c, "invalid identifier refused", &with(r, &t), s, null, &t)?;
    let r = *rng.pick(&texts(&xml, &["LastModificationTime", "CreationTime", "LastAccessTime", "ExpiryTime", "LocationChanged"]));
    let t = bad_time(rng);
    refused(c, "invalid time refused", &with(r, &t), s, null, &t)?;
    let r = *rng.pick(&texts(&xml, &["UsageCount"]));
    let t = *rng.pick(&["-1", "4294967296", "99999999999999999999", "abc", "1.5", "0x10", "1 2", "\u{ff11}", "1e3", "1,000", "-", "- 1"]);
    refused(c, "invalid number refused", &with(r, t), s, null, t)?;
    // tags
    let ends: Vec<usize> = xml[..end].match_indices("</").map(|x| x.0).collect();
    let i = *rng.pick(&ends);
    let mut d = xml.clone().into_bytes();
    match rng.below(3) {
        0 => {
            d.insert(i + 2, b'X');
        }
        1 => {
            let n = xml[i..].find('>').unwrap() + 1;
            // without the end tag of the document nothing ends it either
            d.drain(i..i + n);
        }
        _ => {
            let n = xml[i..].find('>').unwrap();
            d.splice(i..i + n, *b"</Wrong");
        }
    }
    refused(c, "mismatched tag", &d, s, null, &format!("at {i}"))?;
    // references and characters
    let r = *rng.pick(&texts(&xml, &["Name", "DatabaseName", "Key", "Generator"]));
    let t = *rng.pick(&["&unknown;", "&", "&#xZZ;", "&#;", "&;", "&amp", "&#x110000;", "&#0;", "&#xD800;", "a & b", "<", "&#1114112;", "&lt"]);
    refused(c, "bad reference", &with(r, t), s, null, t)?;
    let mut d = with(r, "@@");
    let bad: &[u8] = *rng.pick(&[&b"\xff"[..], b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xe2\x82<", b"\x80", b"\x00", b"\x01", b"\x0b", b"\xef\xbf\xbe", b"\xef\xbf\xbf"]);
    d.splice(r.0..r.0 + 2, bad.iter().copied());
    refused(c, "bad byte", &d, s, null, &format!("{bad:02x?}"))?;
    // secrets
    let tag = "<Value Protected=\"True\">";
    let secrets: Vec<usize> = xml.match_indices(tag).map(|x| x.0 + tag.len()).collect();
    if !secrets.is_empty() {
        let a = *rng.pick(&secrets);
        let n = xml[a..].find('<').unwrap();
        let t = *rng.pick(&["!!!!", "A", "AAAAA", "=", "AA=A", "A\u{e9}AA", "AAA=AAAA"]);
        refused(c, "bad secret", &with((a, a + n), t), s, null, t)?;
        if null {
            let t = b64::encode(*rng.pick(&[&b"\xff"[..], b"ab\x80", b"\xc3", b"\xed\xa0\x80"]));
            refused(c, "bad secret", &with((a, a + n), &t), s, null, &t)?;
        }
    }
    Ok(())
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    let s = gen::settings(&mut rng);
    let null = rng.chance(1, 3);
    let text = if rng.chance(1, 5) { gen::ANY } else { gen::VALID };
    let m = match c.idx % 40 {
        0 => {
            let n = rng.range(50, 200);
            c.event("deep document");
            gen::deep_db(&mut rng, n, 4)
        }
        1 if c.idx % 400 == 1 => gen::wide_db(&mut rng, 500, 50),
        _ => varied_db(&mut rng, text),
    };
    there_and_back(c, &m, &s, null)?;
    let m = if representable(&m) { m } else { varied_db(&mut rng, gen::VALID) };
    if representable(&m) {
        foreign(c, &m, &s, null, &mut rng)?;
        foreign(c, &m, &s, !null, &mut rng)?;
        if depth(&m.root) < 20 {
            malformed(c, &m, &s, null, &mut rng)?;
        }
    }
    sparse(c, &mut rng)?;
    codecs(c, &mut rng)?;
    c.sample(|| format!("{} entries at the root, {}", m.root.entries.len(), s.class()));
    Ok(())
}
