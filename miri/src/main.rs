//! Runs the library on inputs prepared by the monitor, under the Miri interpreter.
//!
//! The argument is a file of records: one byte for the kind, then parts of
//! four bytes length and data each. What was seen is printed line by line.
use kdbx_rs::binary::{KdfParams, Unlocked, VariantDictValue};
use kdbx_rs::database::{Database, Entry, Field, Group, Otp};
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::{CompositeKey, Kdbx};
use std::io::{Read, Write};

struct Parts<'a>(&'a [u8]);

impl<'a> Parts<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn part(&mut self) -> &'a [u8] {
        let n = u32::from_le_bytes(self.take(4).try_into().unwrap());
        self.take(n as usize)
    }
    /// An empty part stands for none, otherwise its first byte is left out
    fn option(&mut self) -> Option<&'a [u8]> {
        self.part().split_first().map(|x| x.1)
    }
}

/// Delivers and accepts a few bytes at a time
struct Pieces<T>(T, usize);

impl<R: Read> Read for Pieces<R> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        // a reader may look at what it is given
        let look = b.iter().fold(0usize, |a, x| a.wrapping_add(usize::from(*x)));
        self.1 = (self.1 + look) % 97 + 13;
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}

impl<W: Write> Write for Pieces<W> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 = self.1 % 97 + 13;
        self.0.write(&b[..b.len().min(self.1)])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}

/// Looks at every byte of every text
struct Seen(usize, u32);

impl Seen {
    fn text(&mut self, s: &str) {
        self.0 += 1;
        for c in s.chars() {
            self.1 = self.1.wrapping_mul(31).wrapping_add(c as u32);
        }
    }
    fn bytes(&mut self, b: &[u8]) {
        for c in b {
            self.1 = self.1.wrapping_mul(31).wrapping_add(u32::from(*c));
        }
    }
    fn entry(&mut self, e: &Entry) {
        for f in e.fields() {
            self.text(f.key());
            self.text(f.value().unwrap_or(""));
        }
        for t in [e.title(), e.username(), e.password(), e.url()].into_iter().flatten() {
            self.text(t);
        }
        if let Some(o) = e.otp() {
            self.text(o.secret().as_deref().unwrap_or(""));
        }
        self.bytes(e.uuid().as_bytes());
        for h in e.history().entries() {
            self.entry(h);
        }
    }
    fn db(&mut self, db: &Database) {
        self.text(db.name());
        self.text(db.description());
        for g in std::iter::once(db.root()).chain(db.root().recursive_groups()) {
            self.text(g.name());
            self.bytes(g.uuid().as_bytes());
            for e in g.entries() {
                self.entry(e);
            }
        }
    }
}

/// Every way of reaching items for changing them
fn edit(db: &mut Database) {
    let ids: Vec<_> = db.root().recursive_entries().map(|e| e.uuid()).collect();
    for e in db.root_mut().recursive_entries_mut() {
        e.new_version();
        e.set_title("other title");
        e.set_username("user");
        e.set_url("url");
        e.set_password("other password");
        e.set_otp(Otp::new("SECRET", 30, 6));
        e.add_field(Field::new_protected("extra", "value"));
        if let Some(f) = e.find_mut("extra") {
            f.clear();
            f.set_value("again");
            f.set_protected(false);
        }
        for f in e.fields_mut() {
            let v = f.value().unwrap_or("").to_string();
            f.set_value(&v);
        }
        e.remove_field("URL");
        e.times_mut().usage_count ^= 1;
        if e.history().len() > 2 {
            e.history_mut().remove(0);
        }
    }
    if let Some(e) = db.find_entry_mut(|e| e.title().is_some()) {
        e.set_title("found");
    }
    if let Some(g) = db.find_group_mut(|_| true) {
        g.set_name("found");
    }
    let mut g = Group::new("new");
    for id in ids.iter().step_by(2) {
        if let Some(e) = db.root_mut().remove_entry(*id) {
            g.add_entry(e);
        }
    }
    let inner = g.clone();
    g.add_group(inner);
    for x in g.groups_mut() {
        x.set_name("renamed");
    }
    let id = g.uuid();
    db.root_mut().add_group(g);
    let back = db.root_mut().remove_group(id);
    db.root_mut().add_group(back.unwrap());
}

fn save(k: &Kdbx<Unlocked>) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    k.write(Pieces(&mut v, 5)).ok().map(|_| v)
}

fn file(p: &mut Parts) {
    let pw = p.option().map(|x| String::from_utf8(x.to_vec()).unwrap());
    let key = CompositeKey::new(pw, p.option().map(|x| x.to_vec()));
    let more = p.part();
    let k = match kdbx_rs::from_reader(Pieces(p.part(), 7)) {
        Ok(k) => k,
        Err(e) => return println!("saw: not opened {}", format!("{e}").len()),
    };
    let mut s = Seen(0, 0);
    if let KdfParams::Unknown { params, .. } = &k.header().kdf_params {
        for (n, v) in params {
            s.text(n);
            if let VariantDictValue::String(v) = v {
                s.text(v);
            }
        }
    }
    let mut out = Vec::new();
    let _ = k.write(Pieces(&mut out, 3));
    s.bytes(&out);
    let mut k = match k.unlock(&key) {
        Ok(k) => k,
        Err(e) => return println!("saw: not unlocked {} {}", format!("{}", e.1).len(), s.1),
    };
    s.db(k.database());
    println!("saw: unlocked {} {}", s.0, s.1);
    if more.contains(&b'e') {
        edit(k.database_mut());
        s.db(k.database());
        println!("saw: edited {}", s.1);
    }
    if more.contains(&b's') {
        match save(&k) {
            None => println!("saw: not saved"),
            Some(v) => {
                s.bytes(&v);
                println!("saw: saved {} {}", v.len(), s.1);
            }
        }
    }
}

fn xml(p: &mut Parts) {
    let x = p.part();
    match kdbx_rs::xml::parse_xml(Pieces(x, 2), &mut NullStreamCipher) {
        Err(e) => println!("saw: not parsed {}", format!("{e}").len()),
        Ok(mut db) => {
            let mut s = Seen(0, 0);
            s.db(&db);
            edit(&mut db);
            s.db(&db);
            let mut out = Vec::new();
            let r = kdbx_rs::xml::write_xml(Pieces(&mut out, 9), &db, &mut NullStreamCipher);
            s.bytes(&out);
            println!("saw: parsed {} {} written {}", s.0, s.1, r.is_ok());
        }
    }
}

fn main() {
    let Some(name) = std::env::args().nth(1) else { return };
    let data = std::fs::read(name).unwrap();
    let mut p = Parts(&data);
    while !p.0.is_empty() {
        match p.take(1)[0] {
            b'F' => file(&mut p),
            b'X' => xml(&mut p),
            k => panic!("unknown record {k}"),
        }
    }
    println!("saw: end");
}
