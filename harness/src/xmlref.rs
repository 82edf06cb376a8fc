//! Reference XML: a strict parser, the KeePass interpretation of a document, and a writer
//! that can spell the same document in many ways.

use crate::b64;
use crate::model::*;
use crate::rng::Rng;
use cipher::StreamCipher;

// ---------------------------------------------------------------- parser

#[derive(Clone, Debug, Default)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Elem>,
    /// all character data directly inside this element
    pub text: String,
    /// position in document order of the start tag
    pub order: usize,
}

struct P {
    s: Vec<char>,
    p: usize,
    order: usize,
}

type R<T> = Result<T, String>;

/// Parse a whole document as a conforming XML 1.0 processor would
pub fn parse(data: &[u8]) -> R<Elem> {
    let text = std::str::from_utf8(data).map_err(|e| format!("document is not UTF-8: {e}"))?;
    let text = text.strip_prefix('\u{FEFF}').unwrap_or(text);
    // end-of-line handling, XML 1.0 section 2.11
    let text = text.replace("\r\n", "\n").replace('\r', "\n");
    if let Some(c) = text.chars().find(|c| !is_xml_char(*c)) {
        return Err(format!("character {c:?} is not allowed in XML"));
    }
    let mut p = P { s: text.chars().collect(), p: 0, order: 0 };
    p.misc(true)?;
    if p.peek() != Some('<') {
        return Err("no document element".into());
    }
    let root = p.element()?;
    p.misc(false)?;
    if p.p != p.s.len() {
        return Err("text after the document element".into());
    }
    Ok(root)
}

impl P {
    fn peek(&self) -> Option<char> {
        self.s.get(self.p).copied()
    }
    fn at(&self, s: &str) -> bool {
        let mut i = self.p;
        for c in s.chars() {
            if self.s.get(i) != Some(&c) {
                return false;
            }
            i += 1;
        }
        true
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.at(s) {
            self.p += s.chars().count();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> bool {
        let start = self.p;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.p += 1;
        }
        self.p > start
    }
    fn until(&mut self, end: &str) -> R<String> {
        let mut out = String::new();
        while self.p < self.s.len() {
            if self.eat(end) {
                return Ok(out);
            }
            out.push(self.s[self.p]);
            self.p += 1;
        }
        Err(format!("{end:?} missing"))
    }
    fn misc(&mut self, prolog: bool) -> R<()> {
        if prolog && self.at("<?xml ") {
            self.until("?>")?;
        }
        loop {
            self.ws();
            if self.eat("<!--") {
                let c = self.until("-->")?;
                if c.contains("--") {
                    return Err("-- in comment".into());
                }
            } else if self.eat("<?") {
                self.until("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    fn name(&mut self) -> R<String> {
        let mut out = String::new();
        while let Some(c) = self.peek() {
            let ok = c.is_alphanumeric() || c == '_' || c == ':' || (!out.is_empty() && (c == '-' || c == '.'));
            if !ok {
                break;
            }
            out.push(c);
            self.p += 1;
        }
        if out.is_empty() || out.starts_with(|c: char| c.is_ascii_digit()) {
            Err(format!("name expected at {}", self.p))
        } else {
            Ok(out)
        }
    }
    fn reference(&mut self) -> R<char> {
        let r = self.until(";")?;
        let c = match r.as_str() {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = r.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = r.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                n.and_then(char::from_u32).filter(|c| is_xml_char(*c)).ok_or_else(|| format!("bad reference &{r};"))?
            }
        };
        Ok(c)
    }
    fn element(&mut self) -> R<Elem> {
        // iterative, so that deep documents do not exhaust our own stack
        let mut stack: Vec<Elem> = Vec::new();
        loop {
            if self.eat("<!--") {
                let c = self.until("-->")?;
                if c.contains("--") {
                    return Err("-- in comment".into());
                }
            } else if self.eat("<![CDATA[") {
                let t = self.until("]]>")?;
                stack.last_mut().ok_or("CDATA outside of the document element")?.text.push_str(&t);
            } else if self.eat("<?") {
                self.until("?>")?;
            } else if self.eat("</") {
                let n = self.name()?;
                self.ws();
                if !self.eat(">") {
                    return Err(format!("malformed end tag {n}"));
                }
                let e = stack.pop().ok_or("end tag without start")?;
                if e.name != n {
                    return Err(format!("<{}> closed by </{n}>", e.name));
                }
                match stack.last_mut() {
                    Some(parent) => parent.kids.push(e),
                    None => return Ok(e),
                }
            } else if self.eat("<") {
                let name = self.name()?;
                let mut e = Elem { name, order: self.order, ..Elem::default() };
                self.order += 1;
                let closed;
                loop {
                    let sp = self.ws();
                    if self.eat("/>") {
                        closed = true;
                        break;
                    }
                    if self.eat(">") {
                        closed = false;
                        break;
                    }
                    if !sp {
                        return Err(format!("malformed start tag {}", e.name));
                    }
                    let an = self.name()?;
                    self.ws();
                    if !self.eat("=") {
                        return Err("attribute without value".into());
                    }
                    self.ws();
                    let q = self.peek().filter(|c| *c == '"' || *c == '\'').ok_or("unquoted attribute")?;
                    self.p += 1;
                    let mut v = String::new();
                    loop {
                        match self.peek().ok_or("attribute not closed")? {
                            c if c == q => {
                                self.p += 1;
                                break;
                            }
                            '<' => return Err("< in attribute".into()),
                            '&' => {
                                self.p += 1;
                                v.push(self.reference()?);
                            }
                            c => {
                                self.p += 1;
                                v.push(c);
                            }
                        }
                    }
                    if e.attrs.iter().any(|a| a.0 == an) {
                        return Err("repeated attribute".into());
                    }
                    e.attrs.push((an, v));
                }
                if closed {
                    match stack.last_mut() {
                        Some(parent) => parent.kids.push(e),
                        None => return Ok(e),
                    }
                } else {
                    stack.push(e);
                }
            } else {
                let c = self.peek().ok_or("document ends inside an element")?;
                let top = stack.last_mut().ok_or("text outside of the document element")?;
                self.p += 1;
                if c == '&' {
                    let c = self.reference()?;
                    stack.last_mut().unwrap().text.push(c);
                } else {
                    if c == '>' && top.text.ends_with("]]") {
                        return Err("]]> in text".into());
                    }
                    top.text.push(c);
                }
            }
        }
    }
}

impl Elem {
    pub fn kid(&self, name: &str) -> R<Option<&Elem>> {
        let m: Vec<_> = self.kids.iter().filter(|k| k.name == name).collect();
        match m.as_slice() {
            [] => Ok(None),
            [one] => Ok(Some(one)),
            _ => Err(format!("<{}> repeated in <{}>", name, self.name)),
        }
    }
    pub fn req(&self, name: &str) -> R<&Elem> {
        self.kid(name)?.ok_or_else(|| format!("<{}> missing in <{}>", name, self.name))
    }
    fn txt(&self, name: &str) -> R<String> {
        Ok(self.kid(name)?.map(|e| e.text.clone()).unwrap_or_default())
    }
    pub fn is_protected(&self) -> bool {
        self.attrs.iter().any(|a| a.0 == "Protected" && a.1 == "True")
    }
}

/// A protected value found in a document: where its key stream starts, cipher text, plain text
#[derive(Clone, Debug)]
pub struct Secret {
    pub offset: usize,
    pub cipher: Vec<u8>,
    pub plain: Vec<u8>,
}

pub struct Interp {
    pub db: MDb,
    pub generator: String,
    pub secrets: Vec<Secret>,
}

/// Decrypt all protected values in document order
fn unprotect(root: &mut Elem, stream: &mut dyn StreamCipher, secrets: &mut Vec<Secret>, off: &mut usize) -> R<()> {
    if root.is_protected() {
        let raw = b64::decode(root.text.trim()).ok_or_else(|| format!("protected <{}> is not base64", root.name))?;
        let mut plain = raw.clone();
        stream.apply_keystream(&mut plain);
        secrets.push(Secret { offset: *off, cipher: raw, plain: plain.clone() });
        *off += plain.len();
        root.text = String::from_utf8(plain).map_err(|_| format!("protected <{}> decrypts to garbage", root.name))?;
    }
    for k in &mut root.kids {
        unprotect(k, stream, secrets, off)?;
    }
    Ok(())
}

fn bool_of(e: &Elem, name: &str) -> R<bool> {
    match e.req(name)?.text.trim() {
        "True" => Ok(true),
        "False" => Ok(false),
        x => Err(format!("<{name}> is {x:?}")),
    }
}

fn uuid_of(e: &Elem) -> R<[u8; 16]> {
    let t = &e.req("UUID")?.text;
    b64::decode(t.trim()).and_then(|v| v.try_into().ok()).ok_or_else(|| format!("UUID {t:?}"))
}

fn times_of(e: &Elem) -> R<MTimes> {
    let t = e.req("Times")?;
    let date = |n: &str| -> R<i64> {
        let s = &t.req(n)?.text;
        let b: [u8; 8] = b64::decode(s.trim()).and_then(|v| v.try_into().ok()).ok_or_else(|| format!("<{n}> is {s:?}, not base64 of 8 bytes"))?;
        Ok(i64::from_le_bytes(b))
    };
    Ok(MTimes {
        t: [
            date("LastModificationTime")?,
            date("CreationTime")?,
            date("LastAccessTime")?,
            date("ExpiryTime")?,
            date("LocationChanged")?,
        ],
        expires: bool_of(t, "Expires")?,
        usage: t.req("UsageCount")?.text.trim().parse().map_err(|_| "UsageCount".to_string())?,
    })
}

fn field_of(e: &Elem) -> R<MField> {
    let v = e.req("Value")?;
    Ok(MField {
        key: e.req("Key")?.text.clone(),
        value: v.text.clone(),
        protected: v.is_protected(),
    })
}

fn entry_of(e: &Elem) -> R<MEntry> {
    let mut history = Vec::new();
    if let Some(h) = e.kid("History")? {
        for k in h.kids.iter().filter(|k| k.name == "Entry") {
            history.push(entry_of(k)?);
        }
    }
    Ok(MEntry {
        uuid: uuid_of(e)?,
        fields: e.kids.iter().filter(|k| k.name == "String").map(field_of).collect::<R<_>>()?,
        times: times_of(e)?,
        history,
    })
}

fn group_of(e: &Elem) -> R<MGroup> {
    Ok(MGroup {
        uuid: uuid_of(e)?,
        name: e.txt("Name")?,
        times: times_of(e)?,
        entries: e.kids.iter().filter(|k| k.name == "Entry").map(entry_of).collect::<R<_>>()?,
        groups: e.kids.iter().filter(|k| k.name == "Group").map(group_of).collect::<R<_>>()?,
    })
}

/// Read a KDBX 4 inner document strictly
pub fn interpret(xml: &[u8], stream: &mut dyn StreamCipher) -> R<Interp> {
    let mut doc = parse(xml)?;
    if doc.name != "KeePassFile" {
        return Err(format!("document element is <{}>", doc.name));
    }
    let mut secrets = Vec::new();
    let mut off = 0;
    unprotect(&mut doc, stream, &mut secrets, &mut off)?;
    let meta = doc.req("Meta")?;
    let mut protect = [false; 5];
    if let Some(mp) = meta.kid("MemoryProtection")? {
        for (i, n) in ["ProtectTitle", "ProtectUserName", "ProtectPassword", "ProtectURL", "ProtectNotes"].iter().enumerate() {
            protect[i] = bool_of(mp, n)?;
        }
    }
    let mut custom = Vec::new();
    if let Some(cd) = meta.kid("CustomData")? {
        for k in cd.kids.iter().filter(|k| k.name == "Item") {
            custom.push(field_of(k)?);
        }
    }
    let root = doc.req("Root")?.req("Group")?;
    Ok(Interp {
        db: MDb {
            name: meta.txt("DatabaseName")?,
            desc: meta.txt("DatabaseDescription")?,
            custom,
            protect,
            root: group_of(root)?,
        },
        generator: meta.txt("Generator")?,
        secrets,
    })
}

// ---------------------------------------------------------------- writer

/// Spelling choices of the reference writer
#[derive(Clone, Copy, Debug)]
pub struct Spell {
    pub cdata: bool,
    pub char_refs: bool,
    pub comments: bool,
    pub unknown: bool,
    /// unknown elements may be protected
    pub unknown_secrets: bool,
    pub iso_dates: bool,
    pub reorder: bool,
    pub attrs: bool,
    pub indent: bool,
    pub bom: bool,
    pub decl: bool,
    /// true and false in any case
    pub cases: bool,
}

pub const PLAIN: Spell = Spell {
    cdata: false,
    char_refs: false,
    comments: false,
    unknown: false,
    unknown_secrets: false,
    iso_dates: false,
    reorder: false,
    attrs: false,
    indent: true,
    bom: false,
    decl: true,
    cases: false,
};

impl Spell {
    pub fn random(rng: &mut Rng) -> Spell {
        Spell {
            cdata: rng.chance(1, 2),
            char_refs: rng.chance(1, 2),
            comments: rng.chance(1, 2),
            unknown: rng.chance(2, 3),
            unknown_secrets: rng.chance(1, 2),
            iso_dates: rng.chance(1, 2),
            reorder: rng.chance(1, 2),
            attrs: rng.chance(1, 3),
            indent: rng.chance(1, 2),
            bom: rng.chance(1, 12),
            decl: rng.chance(3, 4),
            cases: rng.chance(1, 3),
        }
    }
}

pub struct W<'a> {
    pub out: String,
    pub rng: Rng,
    pub sp: Spell,
    pub stream: &'a mut dyn StreamCipher,
    pub secrets: usize,
    pub unknown_secrets: usize,
    pub unknown: usize,
    level: usize,
    counter: usize,
}

/// ISO 8601 in the given offset (minutes east)
pub fn iso(secs: i64, offset: i32, frac: bool) -> String {
    let local = to_date(secs + i64::from(offset) * 60);
    let f = if frac { ".5" } else { "" };
    let base = format!("{}{}", local.format("%Y-%m-%dT%H:%M:%S"), f);
    if offset == 0 {
        format!("{base}Z")
    } else {
        format!("{base}{}{:02}:{:02}", if offset < 0 { '-' } else { '+' }, offset.abs() / 60, offset.abs() % 60)
    }
}

impl<'a> W<'a> {
    pub fn new(sp: Spell, rng: Rng, stream: &'a mut dyn StreamCipher) -> W<'a> {
        W { out: String::new(), rng, sp, stream, secrets: 0, unknown_secrets: 0, unknown: 0, level: 0, counter: 0 }
    }

    fn nl(&mut self) {
        if self.sp.indent {
            self.out.push('\n');
            for _ in 0..self.level {
                self.out.push('\t');
            }
        } else if self.sp.comments && self.rng.chance(1, 12) {
            self.out.push(' ');
        }
    }

    fn noise(&mut self) {
        if self.sp.comments && self.rng.chance(1, 10) {
            self.nl();
            let n = *self.rng.pick(&[
                "<!-- a comment -->",
                "<!---->",
                "<!-- <Group><Name>no</Name></Group> & -->",
                "<?pi some data?>",
                "<!-- \u{1F511} ]]> -->",
            ]);
            self.out.push_str(n);
        }
    }

    fn attrs(&mut self) {
        if self.sp.attrs && self.rng.chance(1, 4) {
            self.counter += 1;
            let a = match self.rng.below(4) {
                0 => " ID=\"1\"".to_string(),
                1 => " xtra='a&lt;b'".to_string(),
                2 => " Protected=\"False\"".to_string(),
                _ => format!(" a{}=\"\"", self.counter),
            };
            self.out.push_str(&a);
        }
    }

    pub fn open(&mut self, name: &str) {
        self.noise();
        self.nl();
        self.out.push('<');
        self.out.push_str(name);
        self.attrs();
        if self.sp.comments && self.rng.chance(1, 20) {
            self.out.push_str("\n ");
        }
        self.out.push('>');
        self.level += 1;
    }

    pub fn close(&mut self, name: &str) {
        self.level -= 1;
        self.nl();
        self.out.push_str("</");
        self.out.push_str(name);
        if self.sp.comments && self.rng.chance(1, 20) {
            self.out.push(' ');
        }
        self.out.push('>');
    }

    /// Character data spelling the given text
    pub fn chars(&mut self, s: &str) {
        if self.sp.cdata && !s.contains('\r') && !s.is_empty() && self.rng.chance(1, 4) {
            self.out.push_str("<![CDATA[");
            self.out.push_str(&s.replace("]]>", "]]]]><![CDATA[>"));
            self.out.push_str("]]>");
            return;
        }
        let mut parts = 0;
        for c in s.chars() {
            if self.sp.comments && parts < 3 && self.rng.chance(1, 40) {
                parts += 1;
                let n = *self.rng.pick(&["<!-- in text -->", "<?p i?>", "<!---->"]);
                self.out.push_str(n);
            }
            match c {
                '<' => {
                    let n = *self.rng.pick(&["&lt;", "&#60;", "&#x3C;", "&#x3c;"]);
                    self.out.push_str(n)
                }
                '&' => {
                    let n = *self.rng.pick(&["&amp;", "&#38;", "&#x26;"]);
                    self.out.push_str(n)
                }
                '>' => self.out.push_str("&gt;"),
                '"' if self.sp.char_refs => self.out.push_str("&quot;"),
                '\'' if self.sp.char_refs => self.out.push_str("&apos;"),
                '\r' => {
                    let n = *self.rng.pick(&["&#xD;", "&#13;"]);
                    self.out.push_str(n)
                }
                c if self.sp.char_refs && self.rng.chance(1, 12) => {
                    let r = if self.rng.chance(1, 2) { format!("&#{};", c as u32) } else { format!("&#x{:X};", c as u32) };
                    self.out.push_str(&r);
                }
                c => self.out.push(c),
            }
        }
    }

    pub fn elem(&mut self, name: &str, text: &str) {
        self.noise();
        self.nl();
        self.out.push('<');
        self.out.push_str(name);
        self.attrs();
        if text.is_empty() && self.rng.chance(1, 2) {
            let n = *self.rng.pick(&["/>", " />"]);
            self.out.push_str(n);
            return;
        }
        self.out.push('>');
        self.chars(text);
        self.out.push_str("</");
        self.out.push_str(name);
        self.out.push('>');
    }

    /// An element whose surrounding white space does not matter
    fn token(&mut self, name: &str, text: &str) {
        if self.sp.comments && self.rng.chance(1, 15) {
            self.elem(name, &format!("\n  {text} "));
        } else {
            self.elem(name, text);
        }
    }

    fn protected(&mut self, name: &str, plain: &[u8]) {
        let mut b = plain.to_vec();
        self.stream.apply_keystream(&mut b);
        self.secrets += 1;
        self.noise();
        self.nl();
        let a = if self.sp.attrs {
            *self.rng.pick(&[" Protected=\"True\"", " Protected='True'", " x=\"1\" Protected=\"True\"", " Protected=\"True\" y=\"2\""])
        } else {
            " Protected=\"True\""
        };
        let a = a.replace("True", self.truth(true));
        if b.is_empty() && self.rng.chance(1, 2) {
            self.out.push_str(&format!("<{name}{a} />"));
            return;
        }
        self.out.push_str(&format!("<{name}{a}>"));
        let enc = b64::encode(&b);
        if self.sp.cdata && !enc.is_empty() && self.rng.chance(1, 6) {
            self.out.push_str(&format!("<![CDATA[{enc}]]>"));
        } else if self.sp.char_refs && self.rng.chance(1, 4) {
            for c in enc.chars() {
                if self.rng.chance(1, 8) {
                    self.out.push_str(&format!("&#{};", c as u32));
                } else {
                    self.out.push(c);
                }
            }
        } else if self.sp.comments && enc.len() > 4 && self.rng.chance(1, 6) {
            // in pieces, as a pretty printer or an editor may leave it
            let at = self.rng.range(1, enc.len() - 1);
            self.out.push_str(&enc[..at]);
            self.out.push_str(self.rng.pick(&["\n\t\t", " ", "<!-- note -->", "<?pi data?>", "<![CDATA[]]>"]));
            self.out.push_str(&enc[at..]);
        } else {
            self.out.push_str(&enc);
        }
        self.out.push_str(&format!("</{name}>"));
    }

    /// Elements the library does not model, as other programs write them
    fn unknown(&mut self, place: &str) {
        if !self.sp.unknown || !self.rng.chance(1, 3) {
            return;
        }
        self.unknown += 1;
        match (place, self.rng.below(7)) {
            (_, 0) => self.secret_elem(),
            ("entry", 1) => {
                self.elem("IconID", "0");
                self.elem("ForegroundColor", "");
                self.elem("Tags", "a;b <Name>");
            }
            ("entry", 2) => {
                self.open("AutoType");
                self.elem("Enabled", "True");
                self.elem("DefaultSequence", "{USERNAME}{TAB}");
                self.open("Association");
                self.elem("Window", "Target Window");
                self.elem("KeystrokeSequence", "");
                self.close("Association");
                self.close("AutoType");
            }
            ("entry", 3) => {
                self.open("Binary");
                self.elem("Key", "attachment.txt");
                self.noise();
                self.out.push_str("<Value Ref=\"0\"/>");
                self.close("Binary");
            }
            ("group", 1) => {
                self.elem("IconID", "48");
                self.elem("Notes", "group notes");
                self.elem("IsExpanded", "True");
                self.elem("EnableSearching", "null");
                self.elem("LastTopVisibleEntry", "AAAAAAAAAAAAAAAAAAAAAA==");
            }
            ("meta", 1) => {
                self.elem("SettingsChanged", "");
                self.elem("DefaultUserName", "someone");
                self.elem("RecycleBinEnabled", "True");
                self.elem("RecycleBinUUID", "AAAAAAAAAAAAAAAAAAAAAA==");
                self.elem("HistoryMaxItems", "10");
            }
            ("meta", 2) => {
                self.open("CustomIcons");
                self.open("Icon");
                self.elem("UUID", "AAECAwQFBgcICQoLDA0ODw==");
                self.elem("Data", "iVBORw0KGgo=");
                self.close("Icon");
                self.close("CustomIcons");
            }
            ("meta", 3) => {
                self.open("Binaries");
                if self.sp.unknown_secrets {
                    let n = self.rng.range(0, 80);
                    let b = self.rng.bytes(n);
                    self.unknown_secrets += 1;
                    self.protected("Binary", &b);
                } else {
                    self.elem("Binary", "H4sIAAAAAAAA");
                }
                self.close("Binaries");
            }
            ("root", 1) => {
                self.open("DeletedObjects");
                self.open("DeletedObject");
                self.elem("UUID", "AAECAwQFBgcICQoLDA0ODw==");
                self.elem("DeletionTime", "AAAAAAAAAAA=");
                self.close("DeletedObject");
                self.close("DeletedObjects");
            }
            ("entry", 4) | ("group", 4) => {
                self.open("CustomData");
                self.open("Item");
                self.elem("Key", "plugin");
                if self.sp.unknown_secrets {
                    self.unknown_secrets += 1;
                    let n = self.rng.range(0, 40);
                    let b = self.rng.bytes(n);
                    self.protected("Value", &b);
                } else {
                    self.elem("Value", "v");
                }
                self.close("Item");
                self.close("CustomData");
            }
            (_, 5) => {
                // names the library knows, at a place where they mean something else
                self.open("Extension");
                self.open("Group");
                self.elem("Name", "hidden");
                self.open("Entry");
                self.open("String");
                self.elem("Key", "Title");
                if self.sp.unknown_secrets {
                    self.unknown_secrets += 1;
                    let n = self.rng.range(1, 30);
                    let b = self.rng.bytes(n);
                    self.protected("Value", &b);
                } else {
                    self.elem("Value", "no");
                }
                self.close("String");
                self.close("Entry");
                self.close("Group");
                self.close("Extension");
            }
            (_, 6) if self.rng.chance(1, 3) => {
                // plugin data nested as deep as it likes, with secrets at any level
                let deep = if self.rng.chance(1, 8) { self.rng.range(10, 60) } else { self.rng.range(2, 9) };
                for i in 0..deep {
                    self.open(["Nested", "Entry", "Level", "String"][i % 4]);
                    if self.rng.chance(1, 5) {
                        self.secret_elem();
                    }
                }
                self.secret_elem();
                for i in (0..deep).rev() {
                    self.close(["Nested", "Entry", "Level", "String"][i % 4]);
                    if i > 0 && self.rng.chance(1, 5) {
                        self.secret_elem();
                    }
                }
            }
            (_, 6) => self.elem("Empty", ""),
            _ => self.elem("Unknown.Element-1", "text &<>"),
        }
    }

    fn secret_elem(&mut self) {
        if self.sp.unknown_secrets {
            self.unknown_secrets += 1;
            let n = self.rng.range(0, 70);
            let b = self.rng.bytes(n);
            self.protected("SecretThing", &b);
        } else {
            self.elem("Thing", "x");
        }
    }

    fn boolean(&mut self, name: &str, v: bool) {
        let t = self.truth(v);
        self.token(name, t);
    }

    fn truth(&mut self, v: bool) -> &'static str {
        if self.sp.cases {
            *self.rng.pick(if v { &["True", "true", "TRUE"] } else { &["False", "false", "FALSE"] })
        } else if v {
            "True"
        } else {
            "False"
        }
    }

    fn date(&mut self, name: &str, secs: i64) {
        // ISO 8601 as written by other programs covers years 1 to 9999
        if self.sp.iso_dates && (86_400 * 2..315_537_000_000).contains(&secs) && self.rng.chance(1, 2) {
            let off = *self.rng.pick(&[0i32, 0, 0, 60, -300, 330, 345, 840, -720, 1]);
            let frac = self.rng.chance(1, 10);
            let s = iso(secs, off, frac);
            self.token(name, &s);
        } else {
            let s = b64::encode(&secs.to_le_bytes());
            self.token(name, &s);
        }
    }

    fn times(&mut self, t: &MTimes) {
        self.open("Times");
        let mut order: Vec<usize> = (0..7).collect();
        if self.sp.reorder {
            self.rng.shuffle(&mut order);
        }
        for i in order {
            match i {
                0 => self.date("LastModificationTime", t.t[0]),
                1 => self.date("CreationTime", t.t[1]),
                2 => self.date("LastAccessTime", t.t[2]),
                3 => self.date("ExpiryTime", t.t[3]),
                4 => self.date("LocationChanged", t.t[4]),
                5 => self.boolean("Expires", t.expires),
                _ => self.token("UsageCount", &t.usage.to_string()),
            }
            self.unknown("times");
        }
        self.close("Times");
    }

    fn field(&mut self, tag: &str, f: &MField) {
        self.open(tag);
        let value_first = self.sp.reorder && self.rng.chance(1, 4);
        if !value_first {
            self.elem("Key", &f.key);
            self.unknown("field");
        }
        if f.protected {
            self.protected("Value", f.value.as_bytes());
        } else {
            self.elem("Value", &f.value);
        }
        if value_first {
            self.unknown("field");
            self.elem("Key", &f.key);
        }
        self.close(tag);
    }

    /// Interleave items of several kinds, keeping each kind's own order
    fn weave(&mut self, counts: &[usize]) -> Vec<usize> {
        let mut out = Vec::new();
        let mut left = counts.to_vec();
        if !self.sp.reorder {
            for (k, n) in counts.iter().enumerate() {
                out.extend(std::iter::repeat(k).take(*n));
            }
            return out;
        }
        while left.iter().any(|n| *n > 0) {
            let k = self.rng.below(left.len());
            if left[k] > 0 {
                left[k] -= 1;
                out.push(k);
            }
        }
        out
    }

    pub fn entry(&mut self, e: &MEntry) {
        self.open("Entry");
        let hist = usize::from(!e.history.is_empty() || self.rng.chance(1, 4));
        let mut fi = 0;
        for k in self.weave(&[1, 1, e.fields.len(), hist]) {
            self.unknown("entry");
            match k {
                0 => self.token("UUID", &b64::encode(&e.uuid)),
                1 => self.times(&e.times),
                2 => {
                    self.field("String", &e.fields[fi]);
                    fi += 1;
                }
                _ => {
                    self.open("History");
                    for h in &e.history {
                        self.entry(h);
                        self.unknown("history");
                    }
                    self.close("History");
                }
            }
        }
        self.unknown("entry");
        self.close("Entry");
    }

    pub fn group(&mut self, g: &MGroup) {
        self.open("Group");
        let (mut ei, mut gi) = (0, 0);
        for k in self.weave(&[1, 1, 1, g.entries.len(), g.groups.len()]) {
            self.unknown("group");
            match k {
                0 => self.token("UUID", &b64::encode(&g.uuid)),
                1 => self.elem("Name", &g.name),
                2 => self.times(&g.times),
                3 => {
                    self.entry(&g.entries[ei]);
                    ei += 1;
                }
                _ => {
                    self.group(&g.groups[gi]);
                    gi += 1;
                }
            }
        }
        self.unknown("group");
        self.close("Group");
    }

    pub fn meta(&mut self, m: &MDb, header_hash: Option<[u8; 32]>) {
        self.open("Meta");
        for k in self.weave(&[1, 1, 1, 1, 1, usize::from(header_hash.is_some())]) {
            self.unknown("meta");
            match k {
                0 => self.elem("Generator", "Other Program"),
                1 => self.elem("DatabaseName", &m.name),
                2 => self.elem("DatabaseDescription", &m.desc),
                3 => {
                    self.open("MemoryProtection");
                    for i in self.weave(&[1, 1, 1, 1, 1]) {
                        let n = ["ProtectTitle", "ProtectUserName", "ProtectPassword", "ProtectURL", "ProtectNotes"][i];
                        self.boolean(n, m.protect[i]);
                        self.unknown("memory");
                    }
                    self.close("MemoryProtection");
                }
                4 => {
                    self.open("CustomData");
                    for f in &m.custom {
                        self.field("Item", f);
                        self.unknown("custom");
                    }
                    self.close("CustomData");
                }
                _ => self.token("HeaderHash", &b64::encode(&header_hash.unwrap())),
            }
        }
        self.unknown("meta");
        self.close("Meta");
    }

    pub fn document(&mut self, m: &MDb, header_hash: Option<[u8; 32]>) {
        if self.sp.bom {
            self.out.push('\u{FEFF}');
        }
        if self.sp.decl {
            let d = *self.rng.pick(&[
                "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>",
                "<?xml version=\"1.0\" encoding=\"UTF-8\"?>",
                "<?xml version='1.0'?>",
            ]);
            self.out.push_str(d);
        }
        self.open("KeePassFile");
        for k in self.weave(&[1, 1]) {
            self.unknown("file");
            match k {
                0 => self.meta(m, header_hash),
                _ => {
                    self.open("Root");
                    self.unknown("root");
                    self.group(&m.root);
                    self.unknown("root");
                    self.close("Root");
                }
            }
        }
        self.unknown("file");
        self.close("KeePassFile");
        if self.sp.indent {
            self.out.push('\n');
        }
    }
}

/// What the document's writer did, for the evidence
pub struct Written {
    pub xml: Vec<u8>,
    pub secrets: usize,
    pub unknown: usize,
    pub unknown_secrets: usize,
}

pub fn write(m: &MDb, sp: Spell, rng: Rng, stream: &mut dyn StreamCipher, header_hash: Option<[u8; 32]>) -> Written {
    let mut w = W::new(sp, rng, stream);
    w.document(m, header_hash);
    Written { secrets: w.secrets, unknown: w.unknown, unknown_secrets: w.unknown_secrets, xml: w.out.into_bytes() }
}
