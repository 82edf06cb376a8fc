//! Hostile inputs: files and documents that claim, repeat, omit and nest what they should not.

use crate::b64;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::props::common::*;
use crate::rng::Rng;
use crate::xmlref;

pub struct Attack {
    pub label: String,
    pub data: Vec<u8>,
    pub creds: Creds,
    /// bytes the payload decompresses to, as far as it can be reached
    pub plain: usize,
    /// elements of the document, each of which grows when it is saved
    pub elements: usize,
}

pub fn cheap_settings(rng: &mut Rng) -> Settings {
    let mut s = gen::settings(rng);
    s.kdf = cheap_kdf(s.kdf);
    s
}

pub fn cheap_kdf(k: Kdf) -> Kdf {
    match k {
        Kdf::Aes { salt, .. } => Kdf::Aes { rounds: 2, salt },
        Kdf::Argon2 { id, salt, version, .. } => Kdf::Argon2 { id, salt, version, memory: 8192, iterations: 1, lanes: 1 },
    }
}

fn small_xml(rng: &mut Rng, s: &Settings, v3: bool) -> Vec<u8> {
    let mut text = gen::VALID;
    text.long = false;
    let m = gen::db(rng, &gen::Shape { text, max_entries: 2, max_groups: 2, max_depth: 3, ..gen::SMALL });
    let mut st = inner_stream(s.inner, &s.inner_key);
    let mut sp = xmlref::Spell::random(rng);
    sp.bom = false;
    if v3 {
        sp.iso_dates = true;
    }
    xmlref::write(&m, sp, rng.fork(), st.as_mut(), None).xml
}

/// Change a few bytes anywhere
pub fn mutate(d: &mut Vec<u8>, rng: &mut Rng) {
    for _ in 0..*rng.pick(&[1usize, 1, 1, 2, 3, 8]) {
        if d.is_empty() {
            d.push(rng.u32() as u8);
            continue;
        }
        let p = rng.below(d.len());
        let e = (p + rng.range(1, 20)).min(d.len());
        match rng.below(9) {
            0 => d[p] ^= 1 << rng.below(8),
            1 => d[p] = rng.u32() as u8,
            2 => d[p] = *rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
            3 => {
                d.drain(p..e);
            }
            4 => {
                let n = rng.range(1, 30);
                let b = rng.bytes(n);
                d.splice(p..p, b);
            }
            5 => {
                let b = d[p..e].to_vec();
                d.splice(p..p, b);
            }
            6 => d.truncate(p),
            7 => {
                // something that looks like a length
                let v = *rng.pick(&[0u32, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fff0]);
                for (i, b) in v.to_le_bytes().iter().enumerate() {
                    if p + i < d.len() {
                        d[p + i] = *b;
                    }
                }
            }
            _ => d[p..e].fill(0),
        }
    }
}

const SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 1000];

fn odd_bytes(rng: &mut Rng) -> Vec<u8> {
    let n = *rng.pick(SIZES);
    match rng.below(3) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => rng.bytes(n),
    }
}

/// Malform a list of header fields
fn odd_fields(f: &mut FieldList, rng: &mut Rng, ids: &[u8]) -> &'static str {
    let n = f.len();
    let i = rng.below(n);
    match rng.below(8) {
        0 => {
            f[i].1 = odd_bytes(rng);
            "field replaced"
        }
        1 => {
            f.remove(i);
            "field missing"
        }
        2 => {
            let mut x = f[i].clone();
            if rng.chance(1, 2) {
                x.1 = odd_bytes(rng);
            }
            let j = rng.below(n);
            f.insert(j, x);
            "field repeated"
        }
        3 => {
            let x = (*rng.pick(ids), odd_bytes(rng));
            let j = rng.below(n);
            f.insert(j, x);
            "field added"
        }
        4 => {
            let k = rng.below(f[i].1.len() + 1);
            f[i].1.truncate(k);
            "field cut"
        }
        5 => {
            let k = rng.range(1, 9);
            let b = rng.bytes(k);
            f[i].1.extend_from_slice(&b);
            "field extended"
        }
        6 => {
            f.truncate(i);
            "end missing"
        }
        _ => {
            let mut d = std::mem::take(&mut f[i].1);
            mutate(&mut d, rng);
            f[i].1 = d;
            "field changed"
        }
    }
}

fn odd_dict(k: &Kdf, rng: &mut Rng) -> Vec<u8> {
    let mut items = kdf_items(k);
    for _ in 0..rng.range(1, 2) {
        let i = rng.below(items.len());
        match rng.below(7) {
            0 => {
                items.remove(i);
                if items.is_empty() {
                    break;
                }
            }
            1 => items[i].val = odd_bytes(rng),
            2 => items[i].ty = *rng.pick(&[0u8, 4, 5, 8, 0xC, 0xD, 0x18, 0x42, 0xff]),
            3 => {
                let x = items[i].clone();
                items.push(x);
            }
            4 => items[i].key = gen::text(rng, gen::ANY).into_bytes(),
            5 => {
                let v = *rng.pick(&[0u64, 1, 7, 1023, 8191, u32::MAX as u64, 1 << 32, 1 << 42, u64::MAX, i64::MAX as u64, 1 << 63]);
                let n = items[i].val.len().min(8);
                items[i].val[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            _ => items[i].key = "$UUID".into(),
        }
    }
    let mut d = dict_bytes(*rng.pick(&[0x0100u16, 0x0100, 0x0000, 0x0200, 0xffff]), &items);
    if rng.chance(1, 2) {
        mutate(&mut d, rng);
    }
    d
}

const TAGS: &[&str] = &[
    "KeePassFile", "Meta", "Generator", "DatabaseName", "DatabaseDescription", "MemoryProtection", "ProtectTitle", "ProtectURL",
    "CustomData", "Item", "Key", "Value", "Root", "Group", "UUID", "Name", "Times", "CreationTime", "LastModificationTime",
    "LastAccessTime", "ExpiryTime", "LocationChanged", "Expires", "UsageCount", "Entry", "String", "History", "Binary",
    "HeaderHash", "DeletedObjects", "X", "x:Y", "\u{e9}l\u{e9}ment",
];

fn odd_text(rng: &mut Rng) -> String {
    let b = odd_bytes(rng);
    match rng.below(16) {
        0 => b64::encode(&b),
        1 => b64::encode(&(rng.u64() as i64).to_le_bytes()),
        2 => b64::encode(&rng.pick(&[i64::MIN, i64::MAX, -1, 0, i64::MAX / 1000, i64::MIN / 1000, 8_210_298_326_400, -8_334_632_937_600]).to_le_bytes()),
        3 => (*rng.pick(&[
            "0000-00-00T00:00:00Z", "9999-12-31T23:59:60Z", "262142-12-31T23:59:59Z", "-262143-01-01T00:00:00Z", "2020-02-30T00:00:00Z",
            "2020-01-01T00:00:00+99:99", "0001-01-01T00:00:00+23:59", "9999-12-31T23:59:59-23:59", "2020-01-01", "--", "-", "2020-01-01T00:00:00.999999999999Z",
            "+262142-12-31T23:59:59-23:59", "-262143-01-01T00:00:00+23:59",
        ]))
        .to_string(),
        4 => (*rng.pick(&["-1", "4294967295", "4294967296", "99999999999999999999999", "0x10", "1e3", "", " ", "\u{663}", "+5", "NaN"])).to_string(),
        5 => (*rng.pick(&["True", "true", "TRUE", "False", "yes", "null", "\u{130}"])).to_string(),
        6 => "=".repeat(rng.range(1, 9)),
        7 => "A".repeat(rng.range(1, 40)),
        8 => "&undefined;".into(),
        9 => (*rng.pick(&["&#0;", "&#x110000;", "&#xD800;", "&#99999999999;", "&;", "&#;", "&#x;", "&amp", "&lt;&gt;"])).to_string(),
        10 => (*rng.pick(&["<![CDATA[", "]]>", "<!--", "-->", "<?", "?>", "<!DOCTYPE x [<!ENTITY a 'b'>]>", "<!-- -- -->"])).to_string(),
        _ => gen::text(rng, gen::VALID).replace(['&', '<'], "_"),
    }
}

fn odd_attrs(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 | 1 => " Protected=\"True\"".into(),
        2 => " Protected=\"False\"".into(),
        3 => " Protected=\"True\" Protected=\"True\"".into(),
        4 => " xmlns=\"u\" xmlns:x=\"v\"".into(),
        5 => " y:Protected=\"True\"".into(),
        6 => " a".into(),
        7 => format!(" a=\"{}\"", odd_text(rng).replace('"', "")),
        _ => String::new(),
    }
}

/// A document made of random tags and texts
fn soup(rng: &mut Rng) -> String {
    let mut o = String::new();
    let mut open: Vec<&str> = Vec::new();
    if rng.chance(1, 2) {
        o.push_str("<KeePassFile>");
        open.push("KeePassFile");
        if rng.chance(2, 3) {
            o.push_str("<Root><Group>");
            open.extend(["Root", "Group"]);
        }
    }
    for _ in 0..rng.range(1, 80) {
        match rng.below(10) {
            0..=3 => {
                let t = *rng.pick(TAGS);
                o.push_str(&format!("<{t}{}>", odd_attrs(rng)));
                open.push(t);
            }
            4..=6 => {
                if let Some(t) = open.pop() {
                    o.push_str(&format!("</{t}>"));
                }
            }
            7 => {
                let t = *rng.pick(TAGS);
                o.push_str(&format!("<{t}{}/>", odd_attrs(rng)));
            }
            8 => o.push_str(&odd_text(rng)),
            _ => {
                if rng.chance(1, 6) {
                    o.push_str(&format!("</{}>", rng.pick(TAGS)));
                } else {
                    o.push_str(&odd_text(rng));
                }
            }
        }
    }
    if rng.chance(2, 3) {
        while let Some(t) = open.pop() {
            o.push_str(&format!("</{t}>"));
        }
    }
    o
}

/// A document of the right shape with wrong texts in typed places
fn typed(rng: &mut Rng) -> String {
    let mut o = String::from("<KeePassFile>");
    let el = |o: &mut String, t: &str, rng: &mut Rng| {
        if rng.chance(4, 5) {
            let text = odd_text(rng);
            o.push_str(&format!("<{t}{}>{text}</{t}>", odd_attrs(rng)));
        }
    };
    o.push_str("<Meta>");
    for t in ["Generator", "DatabaseName", "HeaderHash", "DatabaseDescription"] {
        el(&mut o, t, rng);
    }
    o.push_str("<MemoryProtection>");
    el(&mut o, "ProtectTitle", rng);
    o.push_str("</MemoryProtection><CustomData><Item>");
    el(&mut o, "Key", rng);
    el(&mut o, "Value", rng);
    o.push_str("</Item></CustomData></Meta><Root><Group>");
    el(&mut o, "UUID", rng);
    el(&mut o, "Name", rng);
    for _ in 0..rng.below(3) {
        o.push_str("<Entry>");
        el(&mut o, "UUID", rng);
        o.push_str("<Times>");
        for t in ["CreationTime", "LastModificationTime", "LastAccessTime", "ExpiryTime", "LocationChanged", "Expires", "UsageCount"] {
            if rng.chance(1, 3) {
                el(&mut o, t, rng);
            }
        }
        o.push_str("</Times>");
        for _ in 0..rng.below(4) {
            o.push_str("<String>");
            el(&mut o, "Key", rng);
            el(&mut o, "Value", rng);
            o.push_str("</String>");
        }
        o.push_str("</Entry>");
    }
    o.push_str("</Group></Root></KeePassFile>");
    o
}

/// Documents that only differ in size; used to see how cost grows
pub fn bulk(rng: &mut Rng, which: usize, n: usize) -> (&'static str, Vec<u8>) {
    let wrap = |label, head: &str, unit: &str, tail: &str| -> (&'static str, Vec<u8>) {
        let mut o = String::from(head);
        let k = n / unit.len().max(1) + 1;
        for _ in 0..k {
            o.push_str(unit);
        }
        o.push_str(tail);
        (label, o.into_bytes())
    };
    let count = |label, head: &str, unit: &dyn Fn(usize) -> String, tail: &str| -> (&'static str, Vec<u8>) {
        let mut o = String::from(head);
        let mut i = 0;
        while o.len() < n {
            o.push_str(&unit(i));
            i += 1;
        }
        o.push_str(tail);
        (label, o.into_bytes())
    };
    const A: &str = "<KeePassFile><Root><Group>";
    const Z: &str = "</Group></Root></KeePassFile>";
    let nest = |label, head: &str, open: &str, close: &str, tail: &str, closed: bool| -> (&'static str, Vec<u8>) {
        let k = n / (open.len() + close.len()) + 1;
        let mut o = String::from(head);
        o.push_str(&open.repeat(k));
        if closed {
            o.push_str(&close.repeat(k));
            o.push_str(tail);
        }
        (label, o.into_bytes())
    };
    let closed = rng.chance(2, 3);
    match which % BULK {
        0 => wrap("many entries", A, "<Entry/>", Z),
        1 => wrap("many groups", A, "<Group/>", Z),
        2 => wrap("many fields", &format!("{A}<Entry>"), "<String/>", &format!("</Entry>{Z}")),
        3 => wrap("many history entries", &format!("{A}<Entry><History>"), "<Entry/>", &format!("</History></Entry>{Z}")),
        4 => wrap("many histories", &format!("{A}<Entry>"), "<History><Entry/></History>", &format!("</Entry>{Z}")),
        5 => wrap("many items", "<KeePassFile><Meta><CustomData>", "<Item/>", "</CustomData></Meta></KeePassFile>"),
        6 => wrap("many roots", "<KeePassFile>", "<Root><Group/></Root>", "</KeePassFile>"),
        7 => wrap("many metas", "<KeePassFile>", "<Meta/>", "</KeePassFile>"),
        8 => wrap("long text", "<KeePassFile><Meta><DatabaseName>", "x", "</DatabaseName></Meta></KeePassFile>"),
        9 => wrap("many entities", "<KeePassFile><Meta><DatabaseName>", "&amp;", "</DatabaseName></Meta></KeePassFile>"),
        10 => wrap("many character references", "<KeePassFile><Meta><DatabaseName>", "&#65;", "</DatabaseName></Meta></KeePassFile>"),
        11 => wrap("many CDATA sections", "<KeePassFile><Meta><DatabaseName>", "<![CDATA[x]]>", "</DatabaseName></Meta></KeePassFile>"),
        12 => wrap("many comments", "<KeePassFile><Meta><DatabaseName>", "x<!---->", "</DatabaseName></Meta></KeePassFile>"),
        13 => wrap("many processing instructions", "<KeePassFile>", "<?p?>", "</KeePassFile>"),
        14 => wrap("long white space", "<KeePassFile>", " \n", "</KeePassFile>"),
        15 => wrap("long comment", "<KeePassFile><!--", "x", "--></KeePassFile>"),
        16 => wrap("long attribute", "<KeePassFile a=\"", "x", "\"></KeePassFile>"),
        17 => wrap("long element name", "<KeePassFile><", "x", "/></KeePassFile>"),
        18 => {
            let mut o = String::from("<KeePassFile><X");
            let mut i = 0;
            while o.len() < n {
                o.push_str(&format!(" a{i}=\"\""));
                i += 1;
            }
            o.push_str("/></KeePassFile>");
            ("many attributes", o.into_bytes())
        }
        19 => {
            let mut o = String::from("<KeePassFile>");
            let mut i = 0;
            while o.len() < n {
                o.push_str(&format!("<X xmlns:a{i}=\"u{i}\">"));
                i += 1;
                if i % 50 == 0 {
                    o.push_str(&"</X>".repeat(50));
                }
            }
            o.push_str(&"</X>".repeat(i % 50));
            o.push_str("</KeePassFile>");
            ("many namespaces", o.into_bytes())
        }
        20 => nest("deep groups", "<KeePassFile><Root>", "<Group>", "</Group>", "</Root></KeePassFile>", closed),
        21 => nest("deep history", A, "<Entry><History>", "</History></Entry>", Z, closed),
        22 => nest("deep unknown elements", A, "<X>", "</X>", Z, closed),
        23 => nest("deep in meta", "<KeePassFile><Meta>", "<X>", "</X>", "</Meta></KeePassFile>", closed),
        24 => nest("deep in a value", &format!("{A}<Entry><String><Value>"), "<X>", "</X>", &format!("</Value></String></Entry>{Z}"), closed),
        25 => nest("deep outside", "", "<X>", "</X>", "", closed),
        26 => nest("deep files", "", "<KeePassFile>", "</KeePassFile>", "", closed),
        27 => nest("deep times", &format!("{A}<Times>"), "<Times>", "</Times>", &format!("</Times>{Z}"), closed),
        28 => wrap("many empty protected values", &format!("{A}<Entry>"), "<String><Key>k</Key><Value Protected=\"True\"/></String>", &format!("</Entry>{Z}")),
        29 => wrap("long protected value", &format!("{A}<Entry><String><Key>k</Key><Value Protected=\"True\">"), "QUFB", &format!("</Value></String></Entry>{Z}")),
        30 => wrap("long identifier", &format!("{A}<UUID>"), "AAAA", &format!("</UUID>{Z}")),
        31 => wrap("long time", &format!("{A}<Times><CreationTime>"), "AAAA", &format!("</CreationTime></Times>{Z}")),
        32 => wrap("long number", &format!("{A}<Times><UsageCount>"), "0", &format!("</UsageCount></Times>{Z}")),
        33 => wrap("long boolean", &format!("{A}<Times><Expires>"), "\u{130}", &format!("</Expires></Times>{Z}")),
        34 => wrap("many times", A, "<Times/>", Z),
        35 => {
            // entities defined in terms of each other
            let mut o = String::from("<!DOCTYPE k [<!ENTITY a0 \"aaaaaaaaaa\">");
            for i in 1..rng.range(3, 12) {
                let r = format!("&a{};", i - 1).repeat(10);
                o.push_str(&format!("<!ENTITY a{i} \"{r}\">"));
            }
            o.push_str("]><KeePassFile><Meta><DatabaseName>&a9;&a5;&a2;</DatabaseName></Meta></KeePassFile>");
            ("nested entities", o.into_bytes())
        }
        36 => wrap("long doctype", "<!DOCTYPE k [", "<!ENTITY a 'b'>", "]><KeePassFile/>"),
        37 => wrap("text before the document", "", "x", "<KeePassFile/>"),
        38 => wrap("unclosed start tags", "", "<", ""),
        39 => wrap("ampersands", "<KeePassFile><Meta><DatabaseName>", "&", "</DatabaseName></Meta></KeePassFile>"),
        40 => wrap("long unknown protected value", &format!("{A}<X Protected=\"True\">"), "QUFB", &format!("</X>{Z}")),
        41 => wrap("protected value in pieces", &format!("{A}<X Protected=\"True\">"), "QUFB<!---->", &format!("</X>{Z}")),
        43 => wrap("text in pieces", "<KeePassFile><Meta><DatabaseName>", "xxxxxxxx<?p?>", "</DatabaseName></Meta></KeePassFile>"),
        44 => wrap("value in pieces", &format!("{A}<Entry><String><Key>k</Key><Value>"), "xxxxxxxx<?p?>", &format!("</Value></String></Entry>{Z}")),
        45 => wrap("protected value in many pieces", &format!("{A}<Entry><String><Key>k</Key><Value Protected=\"True\">"), "QUFB<?p?>", &format!("</Value></String></Entry>{Z}")),
        46 => count("different items", "<KeePassFile><Meta><CustomData>", &|i| format!("<Item><Key>k{i}</Key><Value>v</Value></Item>"), "</CustomData></Meta></KeePassFile>"),
        47 => count("different fields", &format!("{A}<Entry>"), &|i| format!("<String><Key>k{i}</Key><Value>v</Value></String>"), &format!("</Entry>{Z}")),
        48 => count("different entries", A, &|i| format!("<Entry><UUID>{}</UUID></Entry>", crate::b64::encode(&(i as u128).to_le_bytes())), Z),
        49 => count("different groups", A, &|i| format!("<Group><UUID>{}</UUID><Name>g{i}</Name></Group>", crate::b64::encode(&(i as u128).to_le_bytes())), Z),
        50 => count("different versions", &format!("{A}<Entry><History>"), &|i| format!("<Entry><UUID>{}</UUID></Entry>", crate::b64::encode(&(i as u128).to_le_bytes())), &format!("</History></Entry>{Z}")),
        51 => count("different protected values", &format!("{A}<Entry>"), &|i| format!("<String><Key>k{i}</Key><Value Protected=\"True\">{}</Value></String>", crate::b64::encode(&(i as u64).to_le_bytes())), &format!("</Entry>{Z}")),
        _ => wrap("protected parents", A, "<X Protected=\"True\">QUFB<Y/></X>", Z),
    }
}

pub const BULK: usize = 53;

pub fn hostile_xml(rng: &mut Rng, s: &Settings, v3: bool) -> (String, Vec<u8>) {
    match rng.below(10) {
        0 | 1 => ("random tags".into(), soup(rng).into_bytes()),
        2 | 3 => ("wrong texts".into(), typed(rng).into_bytes()),
        4..=6 => {
            let mut d = small_xml(rng, s, v3);
            mutate(&mut d, rng);
            ("changed document".into(), d)
        }
        7 => {
            let which = rng.below(BULK);
            let n = *rng.pick(&[10usize, 300, 3000, 20_000]);
            let (l, d) = bulk(rng, which, n);
            (l.into(), d)
        }
        8 => {
            let mut d = match rng.below(6) {
                0 => vec![0xff, 0xfe],
                1 => vec![0xfe, 0xff],
                2 => b"<?xml version=\"1.0\" encoding=\"utf-16\"?>".to_vec(),
                3 => b"<?xml version=\"1.1\" encoding=\"latin1\"?>".to_vec(),
                4 => vec![0xef, 0xbb, 0xbf],
                _ => vec![],
            };
            let x = small_xml(rng, s, v3);
            if rng.chance(1, 2) {
                d.extend(x.iter().flat_map(|b| [*b, 0]));
            } else {
                d.extend_from_slice(&x);
            }
            ("other encoding".into(), d)
        }
        _ => ("random bytes".into(), odd_bytes(rng)),
    }
}

fn odd_gzip(plain: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut z = gzip(plain, rng);
    match rng.below(7) {
        0 => {
            let n = rng.below(z.len());
            z.truncate(n);
        }
        1 => mutate(&mut z, rng),
        2 => {
            let b = odd_bytes(rng);
            z.extend_from_slice(&b);
        }
        3 => z = Vec::new(),
        4 => {
            let again = z.clone();
            z.extend_from_slice(&again);
        }
        5 => {
            let n = z.len();
            let k = n - 8 + rng.below(8);
            z[k] ^= 1 << rng.below(8);
        }
        _ => z[3] = rng.u32() as u8,
    }
    z
}

pub const CLASSES: usize = 12;

/// A hostile file of the given class
pub fn file(rng: &mut Rng, class: usize) -> Attack {
    let creds = gen::creds(rng);
    let v3 = rng.chance(1, 3);
    let s4 = cheap_settings(rng);
    let mut s3 = settings3(rng);
    s3.kdf = cheap_kdf(s3.kdf);
    let start: [u8; 32] = rng.bytes(32).try_into().unwrap();
    let s = if v3 { &s3 } else { &s4 };
    let xml = small_xml(rng, s, v3);
    let plain = xml.len() + 8000;
    let elements = xml.iter().filter(|b| **b == b'<').count();
    let mut f4 = File4::plain(&s4, &creds, xml.clone());
    let mut f3 = File3::plain(&s3, &creds, start, xml.clone());
    let at = |label: &str, data: Vec<u8>, plain: usize| Attack { label: label.to_string(), data, creds: creds.clone(), plain, elements };
    match class % CLASSES {
        0 => {
            let mut d = Vec::new();
            if rng.chance(2, 3) {
                d.extend_from_slice(&SIG[..rng.range(0, 8)]);
                if d.len() == 8 {
                    d.extend_from_slice(&[rng.below(3) as u8, 0, *rng.pick(&[2u8, 3, 4, 5]), 0]);
                }
            }
            let b = odd_bytes(rng);
            d.extend_from_slice(&b);
            at("random bytes", d, 0)
        }
        1 | 2 => {
            let mut d = if v3 { f3.bytes(rng) } else { f4.bytes(rng) };
            mutate(&mut d, rng);
            at("changed file", d, plain)
        }
        3 => {
            let l = if v3 {
                let l = odd_fields(&mut f3.fields, rng, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 200]);
                return at(&format!("v3 header: {l}"), f3.bytes(rng), plain);
            } else {
                odd_fields(&mut f4.fields, rng, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 200])
            };
            at(&format!("v4 header: {l}"), f4.bytes(rng), plain)
        }
        4 => {
            let d = odd_dict(&s4.kdf, rng);
            for x in f4.fields.iter_mut().filter(|x| x.0 == 11) {
                x.1 = d.clone();
            }
            at("key derivation parameters", f4.bytes(rng), plain)
        }
        5 => {
            let l = odd_fields(&mut f4.inner_fields, rng, &[1, 2, 3, 4, 200]);
            at(&format!("inner header: {l}"), f4.bytes(rng), plain)
        }
        6 => {
            // inner header lengths that claim too much
            let mut p = fields4(&f4.inner_fields);
            let n = p.len();
            let k = rng.below(n);
            let v = *rng.pick(&[0xffffu32, 0x00ff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
            for (i, b) in v.to_le_bytes().iter().enumerate() {
                if k + i < n {
                    p[k + i] = *b;
                }
            }
            p.extend_from_slice(&xml);
            let packed = if s4.gzip { gzip(&p, rng) } else { p };
            at("inner header: false lengths", f4.seal(&packed), plain)
        }
        7 => {
            let (l, x) = hostile_xml(rng, s, v3);
            let n = x.len() + 8000;
            let elements = x.iter().filter(|b| **b == b'<').count();
            let a = if v3 {
                f3.xml = x;
                at(&format!("document in v3: {l}"), f3.bytes(rng), n)
            } else {
                f4.xml = x;
                at(&format!("document in v4: {l}"), f4.bytes(rng), n)
            };
            Attack { elements, ..a }
        }
        8 => {
            if v3 {
                let z = odd_gzip(&xml, rng);
                for x in f3.fields.iter_mut().filter(|x| x.0 == 3) {
                    x.1 = vec![1, 0, 0, 0];
                }
                let mut p = start.to_vec();
                p.extend_from_slice(&f3.blocks(&z));
                at("compressed data in v3", f3.seal(&p), plain * 1100)
            } else {
                let z = odd_gzip(&f4.inner_plain(), rng);
                for x in f4.fields.iter_mut().filter(|x| x.0 == 3) {
                    x.1 = vec![1, 0, 0, 0];
                }
                at("compressed data in v4", f4.seal(&z), plain * 1100)
            }
        }
        9 => {
            // block framing
            if v3 {
                let mut p = start.to_vec();
                let z = if s3.gzip { gzip(&xml, rng) } else { xml.clone() };
                f3.cuts = cuts(rng);
                let mut b = f3.blocks(&z);
                match rng.below(4) {
                    0 => {
                        let v = *rng.pick(&[0u32, 1, 0x00ff_ffff, 0x7fff_ffff, 0xffff_ffff]);
                        b[36..40].copy_from_slice(&v.to_le_bytes());
                    }
                    1 => {
                        let n = rng.below(b.len());
                        b.truncate(n);
                    }
                    2 => mutate(&mut b, rng),
                    _ => b.clear(),
                }
                p.extend_from_slice(&b);
                at("blocks of v3", f3.seal(&p), plain)
            } else {
                f4.cuts = cuts(rng);
                let mut d = f4.bytes(rng);
                let h = f4.header().len() + 64;
                match rng.below(3) {
                    0 => {
                        let v = *rng.pick(&[0u32, 1, 0x00ff_ffff, 0x7fff_ffff, 0xffff_ffff]);
                        d[h + 32..h + 36].copy_from_slice(&v.to_le_bytes());
                    }
                    1 => {
                        let n = rng.range(h, d.len() - 1);
                        d.truncate(n);
                    }
                    _ => {
                        let mut t = d.split_off(h);
                        mutate(&mut t, rng);
                        d.extend_from_slice(&t);
                    }
                }
                at("blocks of v4", d, plain)
            }
        }
        10 => {
            // cipher data of any length, correctly authenticated
            let b = odd_bytes(rng);
            if v3 {
                let mut d = f3.header();
                d.extend_from_slice(&b);
                at("cipher data of v3", d, plain)
            } else {
                at("cipher data of v4", f4.frame(&b), plain)
            }
        }
        _ => {
            // lengths in the outer header that claim too much, checksum made right
            let f = if v3 { f3.header() } else { f4.header() };
            let mut h = f.clone();
            let p = rng.range(12, h.len() - 1);
            let v = *rng.pick(&[0xffffu32, 0x00ff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
            for (i, b) in v.to_le_bytes().iter().enumerate() {
                if p + i < h.len() {
                    h[p + i] = *b;
                }
            }
            if !v3 {
                let x = sha256(&h);
                h.extend_from_slice(&x);
            }
            let n = rng.below(3000);
            let b = rng.bytes(n);
            h.extend_from_slice(&b);
            at("header: false lengths", h, plain)
        }
    }
}
