use super::common::*;
use crate::attack;
use crate::b64;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::ops::{self, Source};
use crate::rng::Rng;
use crate::xmlref::{self, Elem};
use sha2::{Digest, Sha512};
use std::collections::{HashMap, HashSet};

pub static PROP: Prop = Prop {
    id: "C11",
    run,
    quick: 8_000,
    thorough: 200_000,
    rule: "distinct saved files scanned for every token of their database and every key",
    required: &[
        "file scanned", "payload scanned", "protected value checked", "equal protected values differ", "Aes/plain", "Aes/gzip", "Twofish/plain", "Twofish/gzip", "ChaCha/plain", "ChaCha/gzip", "edited history",
        "cleared or replaced token absent", "re-saved foreign file", "key changed before the save", "XML text scanned", "inner Salsa", "inner ChaCha", "protected custom data", "more than 64 bytes of key stream", "repetitive payload",
    ],
    assumptions: &["texts are random tokens of at least 12 letters, a chance match of 12 characters is ruled out"],
    ..DEFAULT
};

/// Random texts, each remembered
struct Tokens {
    all: Vec<String>,
    /// handed out again now and then, always protected
    shared: String,
}

fn token(rng: &mut Rng) -> String {
    let n = if rng.chance(1, 10) { rng.range(60, 300) } else { rng.range(12, 40) };
    gen::ascii(rng, n)
}

impl Tokens {
    fn new(rng: &mut Rng) -> Tokens {
        let shared = token(rng);
        Tokens { all: vec![shared.clone()], shared }
    }
    fn fresh(&mut self, rng: &mut Rng) -> String {
        let t = token(rng);
        self.all.push(t.clone());
        t
    }
}

impl Source for Tokens {
    fn value(&mut self, rng: &mut Rng, protected: bool) -> String {
        if protected && rng.chance(1, 4) {
            self.shared.clone()
        } else {
            self.fresh(rng)
        }
    }
    fn key(&mut self, rng: &mut Rng) -> String {
        if rng.chance(1, 2) {
            (*rng.pick(ops::KEYS)).to_string()
        } else {
            self.fresh(rng)
        }
    }
}

fn dress_field(f: &mut MField, t: &mut Tokens, rng: &mut Rng) {
    if rng.chance(1, 3) {
        f.key = t.fresh(rng);
    } else {
        f.key = (*rng.pick(ops::KEYS)).to_string();
    }
    f.value = t.value(rng, f.protected);
}

fn dress_entry(e: &mut MEntry, t: &mut Tokens, rng: &mut Rng) {
    for f in &mut e.fields {
        dress_field(f, t, rng);
    }
    for h in &mut e.history {
        dress_entry(h, t, rng);
    }
}

fn dress_group(g: &mut MGroup, t: &mut Tokens, rng: &mut Rng) {
    g.name = t.fresh(rng);
    for e in &mut g.entries {
        dress_entry(e, t, rng);
    }
    for s in &mut g.groups {
        dress_group(s, t, rng);
    }
}

/// Long enough to rule out a match by chance, even between random letters
const WIN: usize = 12;
/// Bytes of key stream
const RUN: usize = 8;

/// Ways a secret could be written without being encrypted
fn forms(s: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let mut out = vec![("as is", s.to_vec())];
    let mut r = s.to_vec();
    r.reverse();
    out.push(("reversed", r));
    out.push(("in hexadecimal", s.iter().flat_map(|b| format!("{b:02x}").into_bytes()).collect()));
    out.push(("in hexadecimal", s.iter().flat_map(|b| format!("{b:02X}").into_bytes()).collect()));
    for shift in 0..3 {
        let mut v = vec![0u8; shift];
        v.extend_from_slice(s);
        let e = b64::encode(&v).into_bytes();
        // drop the characters that depend on the neighbours
        let from = if shift == 0 { 0 } else { 4 };
        let to = e.len() - 4;
        if from < to {
            out.push(("in base64", e[from..to].to_vec()));
        }
    }
    if let Ok(t) = std::str::from_utf8(s) {
        out.push(("in UTF-16", t.encode_utf16().flat_map(u16::to_le_bytes).collect()));
        out.push(("in UTF-16", t.encode_utf16().flat_map(u16::to_be_bytes).collect()));
    }
    out
}

/// Windows of everything that must not show up
#[derive(Default)]
struct Index {
    plain: HashMap<[u8; WIN], (usize, &'static str)>,
    /// differences of neighbouring bytes, the same for any constant xor
    delta: HashMap<[u8; WIN], usize>,
    names: Vec<String>,
}

impl Index {
    fn add(&mut self, name: String, secret: &[u8]) {
        let id = self.names.len();
        self.names.push(name);
        for (how, f) in forms(secret) {
            for w in f.windows(WIN) {
                self.plain.insert(w.try_into().unwrap(), (id, how));
            }
        }
        for w in secret.windows(WIN + 1) {
            self.delta.insert(deltas(w), id);
        }
    }

    fn scan(&self, what: &str, data: &[u8]) -> Verdict {
        for (i, w) in data.windows(WIN).enumerate() {
            let w: [u8; WIN] = w.try_into().unwrap();
            if let Some((id, how)) = self.plain.get(&w) {
                violate!("{what} contains {} {how} at byte {i}", self.names[*id]);
            }
        }
        for (i, w) in data.windows(WIN + 1).enumerate() {
            if let Some(id) = self.delta.get(&deltas(w)) {
                violate!("{what} contains {} with a constant added at byte {i}", self.names[*id]);
            }
        }
        Ok(())
    }
}

fn deltas(w: &[u8]) -> [u8; WIN] {
    let mut d = [0; WIN];
    for i in 0..WIN {
        d[i] = w[i] ^ w[i + 1];
    }
    d
}

fn keys(ix: &mut Index, creds: &Creds, s: &Settings) {
    if let Some(p) = &creds.pw {
        ix.add("the password".into(), p.as_bytes());
        ix.add("the password's hash".into(), &sha256(p.as_bytes()));
    }
    if let Some(k) = &creds.keyfile {
        if k.len() >= WIN + 1 {
            ix.add("the key file".into(), k);
        }
        ix.add("the key file's hash".into(), &sha256(k));
    }
    let comp = composite(creds);
    ix.add("the composite key".into(), &comp);
    if let Some(m) = s.kdf.derive(&comp) {
        ix.add("the transformed key".into(), &m);
        ix.add("the cipher key".into(), &cipher_key(&s.seed, &m));
        let base = hmac_base(&s.seed, &m);
        ix.add("the HMAC base key".into(), &base);
        ix.add("the header's HMAC key".into(), &block_key(&base, u64::MAX));
        ix.add("a block's HMAC key".into(), &block_key(&base, 0));
    }
    ix.add("the inner stream key's hash".into(), &Sha512::digest(&s.inner_key));
    ix.add("the inner stream key's hash".into(), &sha256(&s.inner_key));
}

/// Block contents of a file, as far as the framing can be followed
fn blocks(data: &[u8], mut p: usize) -> Vec<u8> {
    let mut out = Vec::new();
    while let Some(h) = data.get(p + 32..p + 36) {
        let n = u32::from_le_bytes(h.try_into().unwrap()) as usize;
        let Some(b) = data.get(p + 36..p + 36 + n) else { break };
        if n == 0 {
            break;
        }
        out.extend_from_slice(b);
        p += 36 + n;
    }
    out
}

fn inflate_any(data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for skip in [0usize, 10] {
        if let Some(d) = data.get(skip..) {
            match miniz_oxide::inflate::decompress_to_vec_with_limit(d, 1 << 22) {
                Ok(v) => out.extend(v),
                Err(e) => out.extend(e.output),
            }
        }
    }
    out
}

/// Texts that may stand in the XML unencrypted
fn open_texts(m: &MDb) -> HashSet<&str> {
    fn entry<'a>(e: &'a MEntry, out: &mut HashSet<&'a str>) {
        for f in &e.fields {
            out.insert(&f.key);
            if !f.protected {
                out.insert(&f.value);
            }
        }
        for h in &e.history {
            entry(h, out);
        }
    }
    fn group<'a>(g: &'a MGroup, out: &mut HashSet<&'a str>) {
        out.insert(&g.name);
        for e in &g.entries {
            entry(e, out);
        }
        for s in &g.groups {
            group(s, out);
        }
    }
    let mut out = HashSet::new();
    out.insert(&m.name[..]);
    out.insert(&m.desc[..]);
    for f in &m.custom {
        out.insert(&f.key);
        if !f.protected {
            out.insert(&f.value);
        }
    }
    group(&m.root, &mut out);
    out
}

/// Pairs of cipher text and plain text of the protected values, found by where they stand
fn pairs(root: &Elem, m: &MDb) -> Option<Vec<(Vec<u8>, String)>> {
    fn fields(items: &[&Elem], fs: &[MField], out: &mut Vec<(Vec<u8>, String)>) -> Option<()> {
        if items.len() != fs.len() {
            return None;
        }
        for (i, f) in items.iter().zip(fs) {
            if f.protected && !f.value.is_empty() {
                let v = i.kid("Value").ok()??;
                out.push((b64::decode(v.text.trim())?, f.value.clone()));
            }
        }
        Some(())
    }
    fn named<'a>(e: &'a Elem, name: &str) -> Vec<&'a Elem> {
        e.kids.iter().filter(|k| k.name == name).collect()
    }
    fn entry(x: &Elem, e: &MEntry, out: &mut Vec<(Vec<u8>, String)>) -> Option<()> {
        fields(&named(x, "String"), &e.fields, out)?;
        let hs: Vec<&Elem> = named(x, "History").into_iter().flat_map(|h| named(h, "Entry")).collect();
        if hs.len() != e.history.len() {
            return None;
        }
        for (x, e) in hs.iter().zip(&e.history) {
            entry(x, e, out)?;
        }
        Some(())
    }
    fn group(x: &Elem, g: &MGroup, out: &mut Vec<(Vec<u8>, String)>) -> Option<()> {
        let (es, gs) = (named(x, "Entry"), named(x, "Group"));
        if es.len() != g.entries.len() || gs.len() != g.groups.len() {
            return None;
        }
        for (x, e) in es.iter().zip(&g.entries) {
            entry(x, e, out)?;
        }
        for (x, g) in gs.iter().zip(&g.groups) {
            group(x, g, out)?;
        }
        Some(())
    }
    let mut out = Vec::new();
    let meta = root.kid("Meta").ok()??;
    let items = meta.kid("CustomData").ok()?.map(|c| named(c, "Item")).unwrap_or_default();
    fields(&items, &m.custom, &mut out)?;
    let top = named(root.kid("Root").ok()??, "Group");
    group(top.first()?, &m.root, &mut out)?;
    Some(out)
}

/// The XML inside the payload
fn scan_xml(c: &mut Case, xml: &[u8], m: &MDb, t: &Tokens, ix: &mut Index) -> Verdict {
    let open = open_texts(m);
    let mut live = HashSet::new();
    for_each_field(m, &mut |f| {
        live.insert(f.value.as_str());
    });
    let mut secret = Index::default();
    let mut gone = 0;
    for s in &t.all {
        if !open.contains(s.as_str()) {
            if !live.contains(s.as_str()) {
                gone += 1;
            }
            secret.add(format!("a protected or removed value ({s:?})"), s.as_bytes());
        }
    }
    c.events("cleared or replaced token absent", gone);
    secret.scan("the XML text", xml)?;
    ix.scan("the XML text", xml)?;
    // the key stream, recovered from what is known of the values
    let Ok(root) = xmlref::parse(xml) else { return Ok(()) };
    let Some(ps) = pairs(&root, m) else { return Ok(()) };
    let mut seen: HashMap<[u8; RUN], usize> = HashMap::new();
    let mut by_value: HashMap<&str, HashSet<&[u8]>> = HashMap::new();
    let mut count: HashMap<&str, usize> = HashMap::new();
    let mut total = 0;
    for (i, (enc, plain)) in ps.iter().enumerate() {
        if enc.len() != plain.len() {
            continue;
        }
        total += enc.len();
        let ks: Vec<u8> = enc.iter().zip(plain.as_bytes()).map(|(a, b)| a ^ b).collect();
        for w in ks.windows(RUN) {
            let w: [u8; RUN] = w.try_into().unwrap();
            ensure!(w != [0; RUN], "protected value {i} is stored unencrypted");
            if let Some(j) = seen.insert(w, i) {
                violate!("protected values {j} and {i} of {} are encrypted with the same key stream", ps.len());
            }
        }
        by_value.entry(plain).or_default().insert(enc);
        *count.entry(plain).or_default() += 1;
        c.event("protected value checked");
    }
    for (v, n) in &count {
        if *n > 1 {
            ensure!(by_value[v].len() == *n, "{n} equal protected values have only {} encrypted forms", by_value[v].len());
            c.event("equal protected values differ");
        }
    }
    if total > 64 {
        c.event("more than 64 bytes of key stream");
    }
    if m.custom.iter().any(|f| f.protected) {
        c.event("protected custom data");
    }
    Ok(())
}

fn scan_file(c: &mut Case, data: &[u8], m: &MDb, t: &Tokens, creds: &Creds, s: &Settings, old: &[Creds]) -> Verdict {
    let mut ix = Index::default();
    keys(&mut ix, creds, s);
    for o in old {
        keys(&mut ix, o, s);
    }
    let mut file = Index::default();
    keys(&mut file, creds, s);
    for o in old {
        keys(&mut file, o, s);
    }
    for x in &t.all {
        file.add(format!("a text of the database ({x:?})"), x.as_bytes());
    }
    if s.inner_key.len() > WIN {
        file.add("the inner stream key".into(), &s.inner_key);
    }
    file.scan("the file", data)?;
    // what any unencrypted document would contain
    for word in [&b"<KeePassFile"[..], b"<Meta>", b"DatabaseName", b"Protected="] {
        ensure!(!data.windows(word.len()).any(|w| w == word), "the file contains XML in the clear");
    }
    c.event("file scanned");
    c.event(format!("{:?}/{}", s.cipher, if s.gzip { "gzip" } else { "plain" }));
    c.event(format!("inner {:?}", s.inner));
    c.eval();
    c.distinct(&[data]);
    // end of the header: the end field is the first with id 0
    let mut p = 12;
    while let Some(h) = data.get(p..p + 5) {
        p += 5 + u32::from_le_bytes(h[1..5].try_into().unwrap()) as usize;
        if h[0] == 0 {
            break;
        }
    }
    let body = blocks(data, p + 64);
    file.scan("the decompressed payload", &inflate_any(&body))?;
    let mut seen = HashSet::new();
    for w in body.chunks_exact(16) {
        ensure!(seen.insert(w), "the encrypted payload contains the same 16 bytes twice");
    }
    // inside the payload
    if let Ok(d) = decode4(data, creds) {
        scan_xml(c, &d.xml, m, t, &mut ix)?;
        c.event("payload scanned");
    }
    Ok(())
}

fn creds(rng: &mut Rng) -> Creds {
    let pw = token(rng);
    let key = rng.bytes(50);
    match rng.below(4) {
        0 => Creds { pw: None, keyfile: Some(key) },
        1 => Creds { pw: Some(pw), keyfile: Some(key) },
        _ => Creds { pw: Some(pw), keyfile: None },
    }
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    let mut t = Tokens::new(&mut rng);
    let mut m = gen::db(&mut rng, &gen::Shape { text: gen::TextOpts { long: false, ..gen::VALID }, protected: 50, ..gen::SMALL });
    m.name = t.fresh(&mut rng);
    m.desc = t.fresh(&mut rng);
    for f in &mut m.custom {
        dress_field(f, &mut t, &mut rng);
    }
    dress_group(&mut m.root, &mut t, &mut rng);
    if rng.chance(1, 12) {
        // long repetitive text, so that a weak mode of encryption would show
        t.all.retain(|x| *x != m.desc);
        m.desc = m.desc.repeat(rng.range(20, 400));
        t.all.push(m.desc.clone());
        c.event("repetitive payload");
    }
    let mut s = attack::cheap_settings(&mut rng);
    let n = *rng.pick(&[32usize, 44, 64]);
    s.inner_key = rng.bytes(n);
    let mut who = creds(&mut rng);
    let mut old = Vec::new();
    // from a file written by another program, or fresh
    let foreign = rng.chance(1, 5);
    let mut k = if foreign {
        let (_, data, _) = foreign4(&m, &s, &who, &mut rng);
        c.event("re-saved foreign file");
        unlock(&data, &who)?
    } else {
        archive(lib_db(&m), &s, &who)?
    };
    // edit
    let edits = if rng.chance(3, 4) { rng.range(1, 25) } else { 0 };
    for _ in 0..edits {
        let n = {
            let mut es = Vec::new();
            for_each_entry(&m.root, &mut |e| es.push(e));
            es.len()
        };
        if n == 0 || rng.chance(1, 10) {
            let mut e = gen::entry(&mut rng, &gen::Shape { text: gen::VALID, ..gen::SMALL }, 1);
            dress_entry(&mut e, &mut t, &mut rng);
            let l = lib_entry(&e);
            lib("add_entry", || k.database_mut().add_entry(l))?;
            m.root.entries.push(e);
            continue;
        }
        let Some((me, path)) = pick_entry(&mut m.root, &mut rng) else { continue };
        let e = walk(k.database_mut().root_mut(), &path)?;
        let what = ops::entry_op(&mut rng, me, e, &mut t, 2)?;
        if what.starts_with("in history") || what == "new_version" {
            c.event("edited history");
        }
    }
    if rng.chance(1, 4) {
        old.push(who.clone());
        who = creds(&mut rng);
        lib("set_key", || k.set_key(who.lib()))?.map_err(|e| Violation::new(format!("set_key failed: {e}")))?;
        c.event("key changed before the save");
    }
    ensure!(diff_db(&m, &model_db(k.database())).is_none(), "edits had another effect than expected: {:?}", diff_db(&m, &model_db(k.database())));
    let data = match try_save(&k)? {
        Ok(d) => d,
        Err(e) => violate!("saving failed: {e}"),
    };
    scan_file(c, &data, &m, &t, &who, &s, &old).map_err(|v| v.with("file", &data))?;
    // the XML writer on its own
    if rng.chance(1, 3) {
        let mut out = Vec::new();
        let mut st = inner_stream(s.inner, &s.inner_key);
        lib("write_xml", || kdbx_rs::xml::write_xml(&mut out, k.database(), st.as_mut()))?.map_err(|e| Violation::new(format!("write_xml failed: {e}")))?;
        let mut ix = Index::default();
        keys(&mut ix, &who, &s);
        scan_xml(c, &out, &m, &t, &mut ix).map_err(|v| v.with("xml", &out))?;
        c.event("XML text scanned");
    }
    c.max("tokens", t.all.len() as u64);
    c.sample(|| format!("{} bytes, {}, {} tokens, {edits} edits, foreign {foreign}", data.len(), s.class(), t.all.len()));
    Ok(())
}

/// A random entry of the model and the way to it
fn pick_entry<'a>(g: &'a mut MGroup, rng: &mut Rng) -> Option<(&'a mut MEntry, (Vec<usize>, usize))> {
    fn list(g: &MGroup, p: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize)>) {
        for i in 0..g.entries.len() {
            out.push((p.clone(), i));
        }
        for (i, s) in g.groups.iter().enumerate() {
            p.push(i);
            list(s, p, out);
            p.pop();
        }
    }
    let mut all = Vec::new();
    list(g, &mut Vec::new(), &mut all);
    if all.is_empty() {
        return None;
    }
    let at = rng.pick(&all).clone();
    let g = at.0.iter().fold(g, |g, i| &mut g.groups[*i]);
    Some((&mut g.entries[at.1], at))
}

fn walk<'a>(g: &'a mut kdbx_rs::database::Group, at: &(Vec<usize>, usize)) -> Result<&'a mut kdbx_rs::database::Entry, Violation> {
    let mut g = g;
    for i in &at.0 {
        g = match lib("groups_mut", || g.groups_mut().nth(*i))? {
            Some(g) => g,
            None => violate!("no group {i}"),
        };
    }
    match lib("entries_mut", || g.entries_mut().nth(at.1))? {
        Some(e) => Ok(e),
        None => violate!("no entry {}", at.1),
    }
}
