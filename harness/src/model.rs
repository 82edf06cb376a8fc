//! Independent model of a database, and its translation to and from the library's types.

use chrono::{Duration, NaiveDate, NaiveDateTime};
use kdbx_rs::database::{Database, Entry, Field, Group, Times};
use uuid::Uuid;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MField {
    pub key: String,
    /// The empty text stands for "no value" too.
    pub value: String,
    pub protected: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MTimes {
    /// Seconds since 0001-01-01: modification, creation, access, expiry, location changed
    pub t: [i64; 5],
    pub expires: bool,
    pub usage: u32,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MEntry {
    pub uuid: [u8; 16],
    pub fields: Vec<MField>,
    pub times: MTimes,
    pub history: Vec<MEntry>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MGroup {
    pub uuid: [u8; 16],
    pub name: String,
    pub times: MTimes,
    pub entries: Vec<MEntry>,
    pub groups: Vec<MGroup>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MDb {
    pub name: String,
    pub desc: String,
    pub custom: Vec<MField>,
    /// title, user name, password, url, notes
    pub protect: [bool; 5],
    pub root: MGroup,
}

pub fn epoch() -> NaiveDateTime {
    NaiveDate::from_ymd_opt(1, 1, 1)
        .unwrap()
        .and_hms_opt(0, 0, 0)
        .unwrap()
}

pub fn to_date(secs: i64) -> NaiveDateTime {
    epoch()
        .checked_add_signed(Duration::try_seconds(secs).unwrap())
        .unwrap()
}

pub fn from_date(d: NaiveDateTime) -> i64 {
    // rounded towards the past, so that a fraction of a second never counts
    let diff = d.signed_duration_since(epoch());
    let s = diff.num_seconds();
    if diff.subsec_nanos() < 0 {
        s - 1
    } else {
        s
    }
}

/// Largest and smallest whole second representable by the library's time type
pub fn date_limits() -> (i64, i64) {
    (
        from_date(NaiveDateTime::MIN),
        from_date(NaiveDateTime::MAX),
    )
}

pub fn lib_times(t: &MTimes) -> Times {
    let mut out = Times::default();
    out.last_modification_time = to_date(t.t[0]);
    out.creation_time = to_date(t.t[1]);
    out.last_access_time = to_date(t.t[2]);
    out.expiry_time = to_date(t.t[3]);
    out.location_changed = to_date(t.t[4]);
    out.expires = t.expires;
    out.usage_count = t.usage;
    out
}

pub fn model_times(t: &Times) -> MTimes {
    MTimes {
        t: [
            from_date(t.last_modification_time),
            from_date(t.creation_time),
            from_date(t.last_access_time),
            from_date(t.expiry_time),
            from_date(t.location_changed),
        ],
        expires: t.expires,
        usage: t.usage_count,
    }
}

pub fn lib_field(f: &MField) -> Field {
    if f.protected {
        Field::new_protected(&f.key, &f.value)
    } else {
        Field::new(&f.key, &f.value)
    }
}

pub fn model_field(f: &Field) -> MField {
    MField {
        key: f.key().to_string(),
        value: f.value().unwrap_or("").to_string(),
        protected: f.protected(),
    }
}

pub fn lib_entry(e: &MEntry) -> Entry {
    let mut out = Entry::default();
    out.set_uuid(Uuid::from_bytes(e.uuid));
    for f in &e.fields {
        out.add_field(lib_field(f));
    }
    *out.times_mut() = lib_times(&e.times);
    for h in &e.history {
        out.history_mut().push(lib_entry(h));
    }
    out
}

pub fn model_entry(e: &Entry) -> MEntry {
    MEntry {
        uuid: *e.uuid().as_bytes(),
        fields: e.fields().map(model_field).collect(),
        times: model_times(e.times()),
        history: e.history().entries().map(model_entry).collect(),
    }
}

pub fn lib_group(g: &MGroup) -> Group {
    let mut out = Group::new(&g.name);
    out.set_uuid(Uuid::from_bytes(g.uuid));
    *out.times_mut() = lib_times(&g.times);
    for e in &g.entries {
        out.add_entry(lib_entry(e));
    }
    for s in &g.groups {
        out.add_group(lib_group(s));
    }
    out
}

pub fn model_group(g: &Group) -> MGroup {
    MGroup {
        uuid: *g.uuid().as_bytes(),
        name: g.name().to_string(),
        times: model_times(g.times()),
        entries: g.entries().map(model_entry).collect(),
        groups: g.groups().map(model_group).collect(),
    }
}

pub fn lib_db(m: &MDb) -> Database {
    let mut db = Database::default();
    db.set_name(&m.name);
    db.set_description(&m.desc);
    let meta = db.meta_mut();
    for f in &m.custom {
        meta.custom_data.push(lib_field(f));
    }
    meta.memory_protection.protect_title = m.protect[0];
    meta.memory_protection.protect_user_name = m.protect[1];
    meta.memory_protection.protect_password = m.protect[2];
    meta.memory_protection.protect_url = m.protect[3];
    meta.memory_protection.protect_notes = m.protect[4];
    db.replace_root(lib_group(&m.root));
    db
}

pub fn model_db(db: &Database) -> MDb {
    let meta = db.meta();
    let p = &meta.memory_protection;
    MDb {
        name: db.name().to_string(),
        desc: db.description().to_string(),
        custom: meta.custom_data.iter().map(model_field).collect(),
        protect: [
            p.protect_title,
            p.protect_user_name,
            p.protect_password,
            p.protect_url,
            p.protect_notes,
        ],
        root: model_group(db.root()),
    }
}

fn show(s: &str) -> String {
    let t: String = s.chars().take(60).collect();
    if t.len() < s.len() {
        format!("{:?}...({} bytes)", t, s.len())
    } else {
        format!("{:?}", t)
    }
}

fn diff_fields(at: &str, a: &[MField], b: &[MField]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x.key != y.key {
            return Some(format!("{at} field {i}: key {} became {}", show(&x.key), show(&y.key)));
        }
        if x.value != y.value {
            return Some(format!(
                "{at} field {i} ({}): value {} became {}",
                show(&x.key),
                show(&x.value),
                show(&y.value)
            ));
        }
        if x.protected != y.protected {
            return Some(format!(
                "{at} field {i} ({}): protected {} became {}",
                show(&x.key),
                x.protected,
                y.protected
            ));
        }
    }
    if a.len() != b.len() {
        return Some(format!("{at}: {} fields became {}", a.len(), b.len()));
    }
    None
}

fn diff_times(at: &str, a: &MTimes, b: &MTimes) -> Option<String> {
    if a != b {
        Some(format!("{at}: times {a:?} became {b:?}"))
    } else {
        None
    }
}

pub fn diff_entry(at: &str, a: &MEntry, b: &MEntry) -> Option<String> {
    if a == b {
        return None;
    }
    if a.uuid != b.uuid {
        return Some(format!("{at}: uuid {:x?} became {:x?}", a.uuid, b.uuid));
    }
    if let Some(d) = diff_fields(at, &a.fields, &b.fields) {
        return Some(d);
    }
    if let Some(d) = diff_times(at, &a.times, &b.times) {
        return Some(d);
    }
    for (i, (x, y)) in a.history.iter().zip(&b.history).enumerate() {
        if let Some(d) = diff_entry(&format!("{at}/history{i}"), x, y) {
            return Some(d);
        }
    }
    Some(format!(
        "{at}: {} history entries became {}",
        a.history.len(),
        b.history.len()
    ))
}

pub fn diff_group(at: &str, a: &MGroup, b: &MGroup) -> Option<String> {
    if a == b {
        return None;
    }
    if a.uuid != b.uuid {
        return Some(format!("{at}: uuid {:x?} became {:x?}", a.uuid, b.uuid));
    }
    if a.name != b.name {
        return Some(format!("{at}: name {} became {}", show(&a.name), show(&b.name)));
    }
    if let Some(d) = diff_times(at, &a.times, &b.times) {
        return Some(d);
    }
    for (i, (x, y)) in a.entries.iter().zip(&b.entries).enumerate() {
        if let Some(d) = diff_entry(&format!("{at}/e{i}"), x, y) {
            return Some(d);
        }
    }
    if a.entries.len() != b.entries.len() {
        return Some(format!(
            "{at}: {} entries became {}",
            a.entries.len(),
            b.entries.len()
        ));
    }
    for (i, (x, y)) in a.groups.iter().zip(&b.groups).enumerate() {
        if let Some(d) = diff_group(&format!("{at}/g{i}"), x, y) {
            return Some(d);
        }
    }
    Some(format!(
        "{at}: {} groups became {}",
        a.groups.len(),
        b.groups.len()
    ))
}

/// First difference between what was expected and what was observed
pub fn diff_db(a: &MDb, b: &MDb) -> Option<String> {
    if a == b {
        return None;
    }
    if a.name != b.name {
        return Some(format!("database name {} became {}", show(&a.name), show(&b.name)));
    }
    if a.desc != b.desc {
        return Some(format!("database description {} became {}", show(&a.desc), show(&b.desc)));
    }
    if let Some(d) = diff_fields("custom data", &a.custom, &b.custom) {
        return Some(d);
    }
    if a.protect != b.protect {
        return Some(format!("memory protection {:?} became {:?}", a.protect, b.protect));
    }
    diff_group("root", &a.root, &b.root)
}

pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\u{9}' | '\u{A}' | '\u{D}' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

fn text_ok(s: &str) -> bool {
    s.chars().all(is_xml_char)
}

fn field_ok(f: &MField) -> bool {
    !f.key.is_empty() && text_ok(&f.key) && (f.protected || text_ok(&f.value))
}

fn entry_ok(e: &MEntry) -> bool {
    e.fields.iter().all(field_ok) && e.history.iter().all(entry_ok)
}

fn group_ok(g: &MGroup) -> bool {
    text_ok(&g.name) && g.entries.iter().all(entry_ok) && g.groups.iter().all(group_ok)
}

/// Whether every text of the database can be stored in the XML document
pub fn representable(m: &MDb) -> bool {
    text_ok(&m.name) && text_ok(&m.desc) && m.custom.iter().all(field_ok) && group_ok(&m.root)
}

pub fn entry_depth(e: &MEntry) -> usize {
    1 + e.history.iter().map(entry_depth).max().unwrap_or(0)
}

/// Levels of nesting, the root group alone being 1
pub fn depth(g: &MGroup) -> usize {
    1 + g
        .entries
        .iter()
        .map(entry_depth)
        .chain(g.groups.iter().map(depth))
        .max()
        .unwrap_or(0)
}

pub fn for_each_entry<'a>(g: &'a MGroup, f: &mut dyn FnMut(&'a MEntry)) {
    fn rec<'a>(e: &'a MEntry, f: &mut dyn FnMut(&'a MEntry)) {
        f(e);
        for h in &e.history {
            rec(h, f);
        }
    }
    for e in &g.entries {
        rec(e, f);
    }
    for s in &g.groups {
        for_each_entry(s, f);
    }
}

pub fn for_each_field<'a>(m: &'a MDb, f: &mut dyn FnMut(&'a MField)) {
    for x in &m.custom {
        f(x);
    }
    for_each_entry(&m.root, &mut |e| {
        for x in &e.fields {
            f(x);
        }
    });
}
