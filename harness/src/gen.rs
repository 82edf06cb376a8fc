//! Workload generators: databases, texts, keys, settings.

use crate::container::{CipherK, InnerK, Kdf, Settings};
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy)]
pub struct TextOpts {
    /// characters XML can not hold may be generated
    pub invalid: bool,
    /// carriage returns may be generated
    pub cr: bool,
    pub long: bool,
}

pub const ANY: TextOpts = TextOpts { invalid: true, cr: true, long: true };
pub const VALID: TextOpts = TextOpts { invalid: false, cr: true, long: true };

const WORDS: &[&str] = &[
    "Title", "UserName", "Password", "URL", "Notes", "otp", "Key", "Value", "String", "Entry", "Group",
    "Root", "Meta", "True", "False", "null", "kdbxrs", "a", "Ab0", "hello world", "Recycle Bin", "0",
    "AAAAAAAAAAAAAAAAAAAAAA==", "2020-01-01T00:00:00Z", "-1", "1e9", "Item", "Binary", "KeePassFile",
];

const NASTY: &[&str] = &[
    "<", ">", "&", "\"", "'", "&amp;", "&lt;", "&#0;", "&#xD;", "&nosuch;", "]]>", "<![CDATA[x]]>",
    "<!-- c -->", "<?pi x?>", "</Value>", "</KeePassFile>", "<Value Protected=\"True\">", "&&", "a<b>c&d",
    "--", "%s%n", "\\", "\\n", "{REF:U@I:46C9}", "';--", "=cmd", "\u{FEFF}",
];

const SPACES: &[&str] = &[
    " ", "  ", "\t", "\n", "\n\n", " \t\n ", "\u{A0}", "\u{85}", "\u{2028}", "\u{2003}x\u{2003}", " x", "x ",
    "\tx", "x\n", "\nx\n", " a  b ", "a\tb\nc", "\u{3000}", "\u{200B}",
];

const CRS: &[&str] = &["\r", "\r\n", "a\r\nb", "\ra", "a\r", "\n\r", " \r ", "x\r\n\r\ny"];

const UNI: &[&str] = &[
    "\u{e9}", "e\u{301}", "\u{df}", "\u{130}", "\u{fb01}", "\u{4f60}\u{597d}", "\u{1F511}", "\u{10FFFF}", "\u{10000}",
    "\u{D7FF}", "\u{E000}", "\u{FFFD}", "\u{202E}abc", "\u{5D0}\u{5D1}", "\u{7F}", "\u{80}", "\u{FF}",
    "\u{100}", "\u{7FF}", "\u{800}", "\u{FFF0}", "\u{1F468}\u{200D}\u{1F469}", "\u{FDD0}", "\u{1FFFE}",
];

const BAD: &[&str] = &[
    "\0", "\u{1}", "\u{8}", "\u{B}", "\u{C}", "\u{E}", "\u{1F}", "\u{1B}[0m", "a\0b", "\u{FFFE}", "\u{FFFF}",
    "x\u{1f}y", "\0\0\0",
];

pub fn text(rng: &mut Rng, o: TextOpts) -> String {
    match rng.below(24) {
        0 => String::new(),
        1..=5 => (*rng.pick(WORDS)).to_string(),
        6..=8 => (*rng.pick(NASTY)).to_string(),
        9..=11 => (*rng.pick(SPACES)).to_string(),
        12..=13 => (*rng.pick(UNI)).to_string(),
        14 if o.cr => (*rng.pick(CRS)).to_string(),
        15 if o.invalid && rng.chance(1, 3) => (*rng.pick(BAD)).to_string(),
        16 if o.long => {
            let n = if rng.chance(1, 2) {
                *rng.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1000, 4096, 5000])
            } else {
                size(rng, 8, 9000)
            };
            ascii(rng, n)
        }
        17 if o.long && rng.chance(1, 20) => {
            let n = *rng.pick(&[32767usize, 32768, 65535, 65536, 65537, 100_000]);
            ascii(rng, n)
        }
        18..=19 => {
            let n = rng.range(1, 12);
            ascii(rng, n)
        }
        _ => {
            let mut s = String::new();
            for _ in 0..rng.range(1, 5) {
                let part = match rng.below(6) {
                    0 => *rng.pick(NASTY),
                    1 => *rng.pick(SPACES),
                    2 => *rng.pick(UNI),
                    3 if o.cr => *rng.pick(CRS),
                    _ => *rng.pick(WORDS),
                };
                s.push_str(part);
            }
            s
        }
    }
}

pub fn ascii(rng: &mut Rng, n: usize) -> String {
    (0..n)
        .map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,-_") as char)
        .collect()
}

/// A size between `lo` and `hi`, every order of magnitude equally likely
pub fn size(rng: &mut Rng, lo: usize, hi: usize) -> usize {
    let mut top = lo.max(1);
    let mut steps = 0;
    while top < hi {
        top *= 2;
        steps += 1;
    }
    let a = (lo.max(1) << rng.below(steps + 1)).min(hi);
    rng.range(a.min(hi), (2 * a).min(hi))
}

pub fn date(rng: &mut Rng) -> i64 {
    let (lo, hi) = date_limits();
    match rng.below(12) {
        0 => 0,
        1 => *rng.pick(&[1i64, -1, 59, 86399, 86400, 62135596800, 62135596799, 62135596801]),
        2 => *rng.pick(&[1i64 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, 1 << 33, 255, 256, 65535, 65536]),
        3 => *rng.pick(&[lo, hi, lo + 1, hi - 1, 315537897599, 315537897600, -62135596800]),
        4 => lo + (rng.u64() % ((hi - lo) as u64)) as i64,
        _ => 63_000_000_000 + (rng.u64() % 1_000_000_000) as i64,
    }
}

pub fn times(rng: &mut Rng) -> MTimes {
    let mut t = [0i64; 5];
    for x in t.iter_mut() {
        *x = date(rng);
    }
    MTimes {
        t,
        expires: rng.chance(1, 2),
        usage: match rng.below(6) {
            0 => 0,
            1 => u32::MAX,
            2 => *rng.pick(&[1u32, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1]),
            _ => rng.u32() % 1000,
        },
    }
}

pub fn uuid(rng: &mut Rng) -> [u8; 16] {
    let mut u = [0u8; 16];
    match rng.below(20) {
        0 => {}
        1 => u = [0xff; 16],
        2 => u[15] = 1,
        _ => u.copy_from_slice(&rng.bytes(16)),
    }
    u
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub text: TextOpts,
    pub max_entries: usize,
    pub max_groups: usize,
    pub max_fields: usize,
    pub max_depth: usize,
    pub history: bool,
    /// probability (out of 100) that a field is protected
    pub protected: usize,
}

pub const SMALL: Shape = Shape {
    text: VALID,
    max_entries: 3,
    max_groups: 2,
    max_fields: 5,
    max_depth: 4,
    history: true,
    protected: 35,
};

pub fn field(rng: &mut Rng, s: &Shape) -> MField {
    let protected = rng.chance(s.protected, 100);
    let mut key = if rng.chance(2, 3) {
        (*rng.pick(&["Title", "UserName", "Password", "URL", "Notes", "otp", "X", "x", "Key 1"])).to_string()
    } else {
        text(rng, s.text)
    };
    if key.is_empty() && !(s.text.invalid && rng.chance(1, 4)) {
        key = "k".into();
    }
    // protected values are stored encrypted, so they can hold any character
    let o = if protected { TextOpts { invalid: true, cr: true, long: s.text.long } } else { s.text };
    MField { key, value: text(rng, o), protected }
}

pub fn entry(rng: &mut Rng, s: &Shape, hist: usize) -> MEntry {
    let n = rng.range(0, s.max_fields);
    let fields = (0..n).map(|_| field(rng, s)).collect();
    let mut history = Vec::new();
    if s.history && hist > 0 && rng.chance(1, 3) {
        for _ in 0..rng.range(1, 3) {
            history.push(entry(rng, s, hist - 1));
        }
    }
    let id = uuid(rng);
    if rng.chance(1, 2) {
        // the way versions of one entry usually look
        history.iter_mut().for_each(|h| h.uuid = id);
    }
    MEntry { uuid: id, fields, times: times(rng), history }
}

pub fn group(rng: &mut Rng, s: &Shape, level: usize) -> MGroup {
    let ne = rng.range(0, s.max_entries);
    let ng = if level + 1 >= s.max_depth { 0 } else { rng.range(0, s.max_groups) };
    MGroup {
        uuid: uuid(rng),
        name: text(rng, s.text),
        times: times(rng),
        entries: (0..ne).map(|_| entry(rng, s, 2)).collect(),
        groups: (0..ng).map(|_| group(rng, s, level + 1)).collect(),
    }
}

pub fn db(rng: &mut Rng, s: &Shape) -> MDb {
    let nc = if rng.chance(1, 2) { rng.range(0, 3) } else { 0 };
    MDb {
        name: text(rng, s.text),
        desc: text(rng, s.text),
        custom: (0..nc).map(|_| field(rng, s)).collect(),
        protect: [
            rng.chance(1, 2),
            rng.chance(1, 2),
            rng.chance(1, 2),
            rng.chance(1, 2),
            rng.chance(1, 2),
        ],
        root: group(rng, s, 0),
    }
}

/// A small database with one dimension far larger than usual
pub fn stretched_db(rng: &mut Rng, text: TextOpts) -> MDb {
    let t = TextOpts { long: false, ..text };
    let s = Shape { text: t, max_entries: 2, max_groups: 1, max_fields: 3, max_depth: 3, ..SMALL };
    let tiny = Shape { max_fields: 2, max_entries: 1, max_groups: 0, history: false, ..s };
    let mut m = db(rng, &s);
    let n = size(rng, 6, 400);
    let mut e = entry(rng, &tiny, 0);
    match rng.below(7) {
        0 | 1 => e.history = (0..n).map(|_| entry(rng, &tiny, 0)).collect(),
        2 => e.fields = (0..n).map(|_| field(rng, &tiny)).collect(),
        3 => m.custom = (0..n).map(|_| field(rng, &tiny)).collect(),
        4 => m.root.entries.extend((0..n).map(|_| entry(rng, &tiny, 0))),
        5 => m.root.groups.extend((0..n).map(|_| group(rng, &tiny, 1))),
        _ => {
            // nested instead of side by side
            for _ in 0..n.min(150) {
                let mut outer = group(rng, &tiny, 1);
                outer.groups.push(std::mem::replace(&mut m.root, group(rng, &tiny, 1)));
                m.root = outer;
            }
        }
    }
    m.root.entries.push(e);
    m
}

/// A chain of groups `levels` deep, ending in an entry with nested history
pub fn deep_db(rng: &mut Rng, levels: usize, hist: usize) -> MDb {
    let s = Shape { max_entries: 0, max_groups: 0, max_fields: 2, history: false, ..SMALL };
    let mut e = entry(rng, &s, 0);
    for _ in 0..hist {
        let mut outer = entry(rng, &s, 0);
        outer.history.push(e);
        e = outer;
    }
    let mut g = group(rng, &s, 0);
    if hist > 0 {
        g.entries.push(e);
    }
    for _ in 1..levels {
        let mut outer = group(rng, &s, 0);
        outer.groups.push(g);
        g = outer;
    }
    let mut m = db(rng, &s);
    m.root = g;
    m
}

pub fn wide_db(rng: &mut Rng, entries: usize, groups: usize) -> MDb {
    let mut s = SMALL;
    s.text.long = false;
    s.max_fields = 3;
    let mut m = db(rng, &Shape { max_entries: 0, max_groups: 0, ..s });
    for _ in 0..entries {
        m.root.entries.push(entry(rng, &s, 1));
    }
    for _ in 0..groups {
        m.root.groups.push(group(rng, &Shape { max_groups: 0, max_entries: 1, ..s }, 1));
    }
    m
}

pub fn kdf(rng: &mut Rng) -> Kdf {
    if rng.chance(1, 2) {
        Kdf::Aes {
            rounds: *rng.pick(&[1u64, 2, 3, 10, 100, 0, 257, 1000]),
            salt: rng.bytes(32),
        }
    } else {
        let lanes = *rng.pick(&[1u32, 1, 2, 3, 4]);
        let n = *rng.pick(&[8usize, 16, 32, 32, 33, 64]);
        Kdf::Argon2 {
            id: rng.chance(1, 2),
            memory: 1024 * (8 * u64::from(lanes) + rng.below(64) as u64) + if rng.chance(1, 8) { rng.below(1024) as u64 } else { 0 },
            iterations: rng.range(1, 3) as u64,
            lanes,
            version: *rng.pick(&[0x13u32, 0x13, 0x10]),
            salt: rng.bytes(n),
        }
    }
}

pub fn settings(rng: &mut Rng) -> Settings {
    let cipher = *rng.pick(&[CipherK::Aes, CipherK::Twofish, CipherK::ChaCha]);
    let n = *rng.pick(&[64usize, 32, 44, 1, 0, 100]);
    let iv = rng.bytes(if cipher == CipherK::ChaCha { 12 } else { 16 });
    Settings {
        cipher,
        gzip: rng.chance(1, 2),
        kdf: kdf(rng),
        inner: *rng.pick(&[InnerK::Salsa, InnerK::ChaCha]),
        inner_key: rng.bytes(n),
        seed: rng.bytes(32),
        iv,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Creds {
    pub pw: Option<String>,
    pub keyfile: Option<Vec<u8>>,
}

impl Creds {
    pub fn lib(&self) -> kdbx_rs::CompositeKey {
        match (&self.pw, &self.keyfile) {
            // either way of making the same key
            (Some(p), None) if p.bytes().fold(0, u8::wrapping_add) % 2 == 0 => kdbx_rs::CompositeKey::from_password(p),
            _ => kdbx_rs::CompositeKey::new(self.pw.clone(), self.keyfile.clone()),
        }
    }
}

/// Key files are opaque bytes of sizes other programs do not treat specially
pub fn keyfile(rng: &mut Rng) -> Vec<u8> {
    let n = *rng.pick(&[0usize, 1, 16, 31, 33, 63, 65, 100, 1000, 5000]);
    rng.bytes(n)
}

pub fn creds(rng: &mut Rng) -> Creds {
    let pw = text(rng, ANY);
    match rng.below(8) {
        0 => Creds { pw: None, keyfile: Some(keyfile(rng)) },
        1 => Creds { pw: Some(pw), keyfile: Some(keyfile(rng)) },
        2 => Creds { pw: Some(String::new()), keyfile: None },
        3 if rng.chance(1, 3) => Creds { pw: None, keyfile: None },
        _ => Creds { pw: Some(pw), keyfile: None },
    }
}
