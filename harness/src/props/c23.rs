use super::common::*;
use crate::b64;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::os;
use crate::rng::{hash_bytes, Rng};
use crate::xmlref;
use chrono::Timelike;
use kdbx_rs::database::{Database, Entry, Group, Times};
use kdbx_rs::utils::NullStreamCipher;
use std::collections::HashSet;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub static PROP: Prop = Prop {
    id: "C23",
    run,
    quick: 4_000,
    thorough: 100_000,
    rule: "distinct combinations of clock reading or environment and workload examined",
    required: &[
        "new entry", "new group", "new named group", "new database", "new times", "clock standing still", "clock advancing with each reading", "real clock", "clock went back", "clock past 2038", "clock past 2106",
        "clock at a second's end", "times left out", "one time left out", "times kept by edits", "times kept by saving", "archive of a new database", "time zone as rule", "time zone as file", "unreadable time zone",
        "no environment", "other locale", "other directory", "removed directory", "tools in another environment", "generate in another environment", "damaged file in another environment", "threads",
    ],
    assumptions: &["the clock shows a time between 1970 and 9999", "environment variables of the dynamic loader and the allocator are not varied"],
    ..DEFAULT
};

/// 1970-01-01 counted from 0001-01-01
const UNIX: i64 = 62_135_596_800;
/// Stands for a time that the document leaves out
const ABSENT: i64 = 4_242_424_242;

#[derive(Default)]
struct Log {
    events: Vec<&'static str>,
    /// what the library gave for inputs that do not depend on the clock
    digest: Vec<u8>,
    evals: u64,
    distinct: Vec<Vec<u8>>,
}

impl Log {
    fn event(&mut self, e: &'static str) {
        self.events.push(e);
    }
    fn saw(&mut self, what: impl std::fmt::Debug) {
        self.digest.extend(format!("{what:?}\n").into_bytes());
        self.evals += 1;
    }
}

/// Seconds the clock may have shown while something was made
struct Span(i64, i64);

fn during<T>(what: &'static str, f: impl FnOnce() -> T) -> Res<(T, Span)> {
    let slack = if os::clock_is_set() { 0 } else { 2 };
    let a = os::clock_now();
    let r = lib(what, f)?;
    Ok((r, Span(a + UNIX - slack, os::clock_now() + UNIX + slack)))
}

fn moment(what: &str, t: &Times, s: &Span) -> Verdict {
    let m = model_times(t);
    for (n, v) in ["modification", "creation", "access", "expiry", "location"].iter().zip(m.t) {
        ensure!(s.0 <= v && v <= s.1, "{what}: {n} time is {} when it was made between {} and {} UTC", to_date(v), to_date(s.0), to_date(s.1));
    }
    for d in [t.last_modification_time, t.creation_time, t.last_access_time, t.expiry_time, t.location_changed] {
        ensure!(d.nanosecond() == 0, "{what}: time {d} is not in whole seconds, which is all a file can keep");
    }
    ensure!(!m.expires && m.usage == 0, "{what}: a new item expires ({}) or was used {} times", m.expires, m.usage);
    Ok(())
}

/// Put the clock somewhere
fn set(rng: &mut Rng, log: &mut Log) {
    if rng.chance(1, 8) {
        os::set_clock(None, 0);
        log.event("real clock");
        return;
    }
    let s = match rng.below(8) {
        0 => *rng.pick(&[0i64, 1, 59, 86_399, 86_400, 951_782_400, 951_868_799, 1_709_164_800]),
        1 => *rng.pick(&[(1i64 << 31) - 1, 1 << 31, (1 << 31) + 1]),
        2 => *rng.pick(&[(1i64 << 32) - 1, 1 << 32, (1 << 32) + 1]),
        3 => *rng.pick(&[253_402_300_799i64, 4_102_444_800, 17_179_869_184, 32_503_680_000]),
        4 => (rng.u64() % 253_402_300_000) as i64,
        // around days on which clocks in some zones change, and around midnights
        5 => *rng.pick(&[1_711_846_800i64, 1_729_990_800, 1_710_054_000, 1_730_613_600, 1_704_067_199, 1_704_067_200]) + rng.below(7201) as i64 - 3600,
        _ => 1_500_000_000 + (rng.u64() % 500_000_000) as i64,
    };
    let n = *rng.pick(&[0u32, 1, 499_999_999, 500_000_000, 500_000_001, 999_999_999]);
    let step = *rng.pick(&[0u32, 0, 1, 1_000, 100_000_000, 400_000_000]);
    os::set_clock(Some((s, n)), step);
    log.event(if step == 0 { "clock standing still" } else { "clock advancing with each reading" });
    if s >= 1 << 31 {
        log.event("clock past 2038");
    }
    if s >= 1 << 32 {
        log.event("clock past 2106");
    }
    if n >= 500_000_000 {
        log.event("clock at a second's end");
    }
    log.distinct.push(format!("{s} {n} {step}").into_bytes());
}

fn fresh(log: &mut Log) -> Verdict {
    let (t, s) = during("Times::default", Times::default)?;
    moment("new times", &t, &s)?;
    log.event("new times");
    let (e, s) = during("Entry::default", Entry::default)?;
    moment("new entry", e.times(), &s)?;
    log.event("new entry");
    let (g, s) = during("Group::default", Group::default)?;
    moment("new group", g.times(), &s)?;
    log.event("new group");
    let (g, s) = during("Group::new", || Group::new("x"))?;
    moment("new group", g.times(), &s)?;
    log.event("new named group");
    let (d, s) = during("Database::default", Database::default)?;
    moment("root of a new database", d.root().times(), &s)?;
    log.event("new database");
    log.evals += 5;
    Ok(())
}

fn each_times<'a>(g: &'a mut MGroup, f: &mut dyn FnMut(&'a mut MTimes)) {
    fn entry<'a>(e: &'a mut MEntry, f: &mut dyn FnMut(&'a mut MTimes)) {
        f(&mut e.times);
        for h in &mut e.history {
            entry(h, f);
        }
    }
    f(&mut g.times);
    for e in &mut g.entries {
        entry(e, f);
    }
    for s in &mut g.groups {
        each_times(s, f);
    }
}

/// A document that leaves out some times
fn incomplete(rng: &mut Rng, log: &mut Log) -> Verdict {
    let mut m = gen::db(rng, &gen::Shape { text: gen::TextOpts { long: false, ..gen::VALID }, ..gen::SMALL });
    let (mut whole, mut some) = (false, false);
    each_times(&mut m.root, &mut |t| match rng.below(4) {
        0 => {
            *t = MTimes { t: [ABSENT; 5], expires: false, usage: 0 };
            whole = true;
        }
        1 => {
            for x in t.t.iter_mut().filter(|_| rng.chance(1, 2)) {
                *x = ABSENT;
                some = true;
            }
        }
        _ => (),
    });
    let sp = xmlref::Spell { indent: false, ..xmlref::PLAIN };
    let w = xmlref::write(&m, sp, rng.fork(), &mut NullStreamCipher, None);
    let mut xml = String::from_utf8(w.xml).unwrap();
    let absent = b64::encode(&ABSENT.to_le_bytes());
    for n in ["LastModificationTime", "CreationTime", "LastAccessTime", "ExpiryTime", "LocationChanged"] {
        xml = cut(&xml, n, &|text| text.trim() == absent);
    }
    if rng.chance(1, 2) {
        xml = cut(&xml, "Times", &|text| !text.contains("Time>") && !text.contains("LocationChanged>") && text.contains("<UsageCount>0<") && text.to_lowercase().contains("<expires>false<"));
    }
    let (db, s) = during("parse_xml", || kdbx_rs::xml::parse_xml(xml.as_bytes(), &mut NullStreamCipher))?;
    let db = match db {
        Ok(db) => db,
        Err(e) => return Err(Violation::new(format!("a document that leaves out some times was refused: {e}")).with("document", xml.as_bytes())),
    };
    let mut got = model_db(&db);
    let mut want = Vec::new();
    each_times(&mut m.root, &mut |t| want.push(t.clone()));
    let mut bad = None;
    let mut it = want.iter();
    each_times(&mut got.root, &mut |t| {
        let Some(w) = it.next() else { return };
        for (x, w) in t.t.iter_mut().zip(w.t) {
            if w == ABSENT {
                if s.0 <= *x && *x <= s.1 {
                    *x = ABSENT;
                } else {
                    bad = Some(*x);
                }
            }
        }
    });
    if let Some(x) = bad {
        return Err(Violation::new(format!("a time the document leaves out is {} when it was read between {} and {} UTC", to_date(x), to_date(s.0), to_date(s.1))).with("document", xml.as_bytes()));
    }
    if let Some(d) = diff_db(&m, &got) {
        return Err(Violation::new(format!("document that leaves out some times: {d}")).with("document", xml.as_bytes()));
    }
    log.evals += 1;
    if whole {
        log.event("times left out");
    }
    if some {
        log.event("one time left out");
    }
    Ok(())
}

/// Take out the elements of that name whose content is chosen
fn cut(xml: &str, name: &str, which: &dyn Fn(&str) -> bool) -> String {
    let (a, b) = (format!("<{name}>"), format!("</{name}>"));
    let mut out = String::new();
    let mut rest = xml;
    while let Some(i) = rest.find(&a) {
        let j = i + rest[i..].find(&b).unwrap();
        out.push_str(&rest[..i]);
        if !which(&rest[i + a.len()..j]) {
            out.push_str(&rest[i..j + b.len()]);
        }
        rest = &rest[j + b.len()..];
    }
    out + rest
}

fn pairs(db: &Database) -> Vec<([u8; 16], MTimes)> {
    let mut m = model_db(db);
    let mut out = Vec::new();
    fn entry(e: &MEntry, out: &mut Vec<([u8; 16], MTimes)>) {
        out.push((e.uuid, e.times.clone()));
        for h in &e.history {
            entry(h, out);
        }
    }
    fn group(g: &MGroup, out: &mut Vec<([u8; 16], MTimes)>) {
        out.push((g.uuid, g.times.clone()));
        for e in &g.entries {
            entry(e, out);
        }
        for s in &g.groups {
            group(s, out);
        }
    }
    group(&mut m.root, &mut out);
    out
}

/// Items made at one time, edited and saved at others
fn later(rng: &mut Rng, log: &mut Log) -> Verdict {
    let m = gen::db(rng, &gen::Shape { text: gen::TextOpts { long: false, ..gen::VALID }, ..gen::SMALL });
    let mut db = if rng.chance(1, 2) { lib_db(&m) } else { lib("Database::default", Database::default)? };
    let first = os::clock_now();
    let (e, g) = lib("new items", || (Entry::default(), Group::new("g")))?;
    set(rng, log);
    if os::clock_now() < first {
        log.event("clock went back");
    }
    let mut known: HashSet<String> = pairs(&db).into_iter().map(|p| format!("{p:?}")).collect();
    known.insert(format!("{:?}", (*e.uuid().as_bytes(), model_times(e.times()))));
    known.insert(format!("{:?}", (*g.uuid().as_bytes(), model_times(g.times()))));
    lib("edits", || {
        db.add_entry(e);
        db.add_group(g);
        db.set_name("n");
        db.set_description("d".to_string());
        let root = db.root_mut();
        root.set_name("r");
        for e in root.recursive_entries_mut() {
            match rng.below(5) {
                0 => e.set_title("t"),
                1 => e.set_password("p"),
                2 => e.new_version(),
                3 => e.add_field(kdbx_rs::database::Field::new("k", "v")),
                _ => e.remove_field("Title"),
            }
        }
        for g in root.groups_mut() {
            g.set_name("s");
        }
    })?;
    for p in pairs(&db) {
        ensure!(known.contains(&format!("{p:?}")), "times of an item changed though nobody set them, to {:?}", p.1);
    }
    log.event("times kept by edits");
    log.evals += 1;
    // saved and read at yet other times
    set(rng, log);
    let want = model_db(&db);
    let fresh = rng.chance(1, 4);
    let mut s = gen::settings(rng);
    s.kdf = Kdf::Aes { rounds: 1, salt: rng.bytes(32) };
    let creds = gen::creds(rng);
    let k = if fresh {
        let (d, sp) = during("Database::default", Database::default)?;
        set(rng, log);
        let k = archive(d, &s, &creds)?;
        moment("root of a new database in an archive", k.database().root().times(), &sp)?;
        log.event("archive of a new database");
        k
    } else {
        archive(db, &s, &creds)?
    };
    let want = if fresh { model_db(k.database()) } else { want };
    let data = save(&k)?;
    set(rng, log);
    let u = unlock(&data, &creds)?;
    if let Some(d) = diff_db(&want, &model_db(u.database())) {
        violate!("saved and read back at other times: {d}");
    }
    log.event("times kept by saving");
    log.evals += 1;
    Ok(())
}

/// Files whose content is given completely
fn complete(rng: &mut Rng, log: &mut Log) -> Verdict {
    let m = gen::db(rng, &gen::Shape { text: gen::TextOpts { long: false, ..gen::VALID }, ..gen::SMALL });
    let creds = gen::creds(rng);
    let v3 = rng.chance(1, 3);
    let mut s = if v3 { settings3(rng) } else { gen::settings(rng) };
    s.kdf = Kdf::Aes { rounds: 1, salt: rng.bytes(32) };
    let data = if v3 { foreign3(&m, &s, &creds, rng, true).1 } else { foreign4(&m, &s, &creds, rng).1 };
    let u = unlock(&data, &creds)?;
    let got = model_db(u.database());
    if let Some(d) = diff_db(&m, &got) {
        violate!("file read in this environment: {d}");
    }
    log.saw(&got);
    log.saw(format!("{:?}", u.header()));
    if !v3 {
        let out = save(&u)?;
        match decode4(&out, &creds) {
            Ok(d) => match xmlref::interpret(&d.xml, inner_stream(d.inner, &d.inner_key).as_mut()) {
                Ok(i) => {
                    if let Some(d) = diff_db(&m, &i.db) {
                        violate!("file saved in this environment: {d}");
                    }
                    log.saw(&i.db);
                }
                Err(e) => violate!("file saved in this environment: {e}"),
            },
            Err(e) => violate!("file saved in this environment: {e}"),
        }
    }
    // a damaged one fails alike
    let mut bad = data.clone();
    let i = rng.below(bad.len());
    match rng.below(2) {
        0 => bad[i] ^= 1 << rng.below(8),
        _ => bad.truncate(i),
    }
    match try_open(&bad)? {
        Ok(k) if !affordable(k.header()) => (),
        Err(e) => log.saw(format!("{e}")),
        Ok(k) => match lib("unlock", || k.unlock(&creds.lib()))? {
            Ok(u) => log.saw(model_db(u.database()).name),
            Err(f) => log.saw(format!("{}", f.1)),
        },
    }
    log.event("damaged file in another environment");
    for _ in 0..4 {
        let d = to_date(gen::date(rng));
        let text = lib("encode_datetime", || kdbx_rs::xml::encode_datetime(d))?;
        log.saw(lib("decode_datetime", || kdbx_rs::xml::decode_datetime(&text))?);
        log.saw(text);
        let t = xmlref::iso(gen::date(rng).clamp(0, 315_537_897_599), 0, false);
        log.saw(lib("decode_datetime", || kdbx_rs::xml::decode_datetime(&t))?);
    }
    Ok(())
}

fn life(rng: &mut Rng, log: &mut Log) -> Verdict {
    struct Real;
    impl Drop for Real {
        fn drop(&mut self) {
            os::set_clock(None, 0);
        }
    }
    let _real = Real;
    set(rng, log);
    fresh(log)?;
    set(rng, log);
    fresh(log)?;
    incomplete(rng, log)?;
    later(rng, log)?;
    set(rng, log);
    complete(rng, log)
}

/// Entry point of the process that runs in another environment
pub fn elsewhere(seed: u64, n: usize) {
    crate::mon::install_panic_hook();
    let mut log = Log::default();
    for i in 0..n {
        if let Err(v) = life(&mut Rng::new(seed.wrapping_add(i as u64)), &mut log) {
            println!("V {}", v.msg.replace('\n', " "));
            return;
        }
    }
    println!("D {:016x} {} {}", hash_bytes(&log.digest), log.digest.len(), log.evals);
    for e in log.events {
        println!("E {e}");
    }
}

struct Env {
    vars: Vec<(String, String)>,
    clear: bool,
    dir: Option<PathBuf>,
    removed: bool,
    events: Vec<&'static str>,
}

impl Env {
    fn plain() -> Env {
        Env { vars: vec![], clear: true, dir: None, removed: false, events: vec![] }
    }

    fn random(rng: &mut Rng, dir: &Path) -> Env {
        let mut e = Env::plain();
        e.clear = rng.chance(2, 3);
        let mut put = |k: &str, v: String| e.vars.push((k.to_string(), v));
        match rng.below(8) {
            0..=2 => {
                put("TZ", (*rng.pick(&["XXX-5:45", "XXX12", "XXX-14", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "EST5EDT,M3.2.0,M11.1.0", "AAA-0:00:01", "UTC+3", "CET-1CEST,M3.5.0,M10.5.0/3"])).to_string());
                e.events.push("time zone as rule");
            }
            3 | 4 => {
                let p = dir.join("zone");
                std::fs::write(&p, zone(rng)).unwrap();
                put("TZ", format!("{}{}", if rng.chance(1, 2) { ":" } else { "" }, p.display()));
                e.events.push("time zone as file");
            }
            5 => {
                put("TZ", (*rng.pick(&["", ":", "nowhere", "/", "/dev/null", "XXX99999", "\u{fc}", "../../etc/passwd"])).to_string());
                e.events.push("unreadable time zone");
            }
            _ => (),
        }
        if rng.chance(1, 2) {
            let l = *rng.pick(&["C", "POSIX", "de_DE.UTF-8", "tr_TR.UTF-8", "ar_EG", "ja_JP.SJIS", "xx"]);
            for k in ["LANG", "LC_ALL", "LC_TIME", "LC_NUMERIC", "LANGUAGE"] {
                if rng.chance(1, 2) {
                    e.vars.push((k.to_string(), l.to_string()));
                }
            }
            e.events.push("other locale");
        }
        for (k, v) in [
            ("HOME", "/nonexistent"), ("HOME", ""), ("TMPDIR", "/nonexistent"), ("USER", "nobody"), ("RUST_BACKTRACE", "full"), ("RUST_BACKTRACE", "0"), ("RUST_LOG", "trace"), ("RUST_MIN_STACK", "65536"),
            ("NO_COLOR", "1"), ("COLUMNS", "1"), ("SOURCE_DATE_EPOCH", "0"), ("KDBX_PASSWORD", "x"), ("DEBUG", "1"), ("PATH", ""), ("TERM", "dumb"), ("XDG_CONFIG_HOME", "/nonexistent"), ("HOSTNAME", "\u{fc}"),
            ("RAYON_NUM_THREADS", "1"), ("OMP_NUM_THREADS", "1"), ("CI", "true"), ("CARGO", ""), ("CARGO_MANIFEST_DIR", "/nonexistent"),
        ] {
            if rng.chance(1, 4) {
                e.vars.push((k.to_string(), v.to_string()));
            }
        }
        match rng.below(4) {
            0 => {
                e.dir = Some("/".into());
                e.events.push("other directory");
            }
            1 => {
                e.dir = Some(dir.join("gone"));
                e.removed = true;
                e.events.push("removed directory");
            }
            _ => (),
        }
        e
    }

    /// Run with nothing to read, and take what is printed
    fn output(&self, mut c: Command) -> (std::process::ExitStatus, Vec<u8>) {
        if self.clear {
            c.env_clear();
        }
        c.envs(self.vars.iter().cloned());
        if self.removed {
            let _ = std::fs::create_dir(self.dir.as_ref().unwrap());
        }
        if let Some(d) = &self.dir {
            c.current_dir(d);
        }
        unsafe {
            use std::os::unix::process::CommandExt;
            c.pre_exec(|| {
                let l = libc::rlimit { rlim_cur: 100, rlim_max: 100 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                Ok(())
            });
        }
        let mut child = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        if self.removed {
            let _ = std::fs::remove_dir(self.dir.as_ref().unwrap());
        }
        let mut out = Vec::new();
        child.stdout.take().unwrap().read_to_end(&mut out).unwrap();
        (child.wait().unwrap(), out)
    }
}

/// A time zone file with one offset
fn zone(rng: &mut Rng) -> Vec<u8> {
    let offset: i32 = *rng.pick(&[3600i32, -3600, 20_700, 50_400, -43_200, 1, -86_399, 86_399, 45_900]);
    let mut z = b"TZif".to_vec();
    z.extend([0; 16]);
    for n in [0u32, 0, 0, 0, 1, 4] {
        z.extend(n.to_be_bytes());
    }
    z.extend(offset.to_be_bytes());
    z.extend([0, 0]);
    z.extend(b"XXX\0");
    z
}

fn environments(c: &mut Case, rng: &mut Rng, dir: &Path) -> Verdict {
    let seed = rng.u64();
    let n = 4;
    let mut want: Option<String> = None;
    for k in 0..3 {
        let env = if k == 0 { Env::plain() } else { Env::random(rng, dir) };
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        cmd.args(["elsewhere", &seed.to_string(), &n.to_string()]);
        let (st, out) = env.output(cmd);
        let out = String::from_utf8_lossy(&out).into_owned();
        let place = format!("with {:?} in {:?}{}", env.vars, env.dir, if env.clear { " and nothing else" } else { "" });
        if matches!(st.signal(), Some(libc::SIGKILL | libc::SIGTERM | libc::SIGXCPU)) {
            panic!("a helper process was ended from outside: {st:?}");
        }
        if let Some(v) = out.lines().find_map(|l| l.strip_prefix("V ")) {
            violate!("{place}: {v}");
        }
        ensure!(st.success(), "{place}: ended with {st:?}");
        let d = out.lines().find_map(|l| l.strip_prefix("D ")).expect("helper gave no digest").to_string();
        for e in out.lines().filter_map(|l| l.strip_prefix("E ")) {
            if let Some(e) = PROP.required.iter().find(|r| **r == e) {
                c.event(*e);
            }
        }
        match &want {
            None => want = Some(d),
            Some(w) => ensure!(*w == d, "{place}: the same operations on the same inputs give other results than with an empty environment"),
        }
        if env.clear && env.vars.is_empty() {
            c.event("no environment");
        }
        for e in &env.events {
            c.event(*e);
        }
        c.eval();
        c.distinct(&[place.as_bytes(), &seed.to_le_bytes()]);
    }
    Ok(())
}

fn tools(c: &mut Case, rng: &mut Rng, dir: &Path) -> Verdict {
    let m = gen::db(rng, &gen::Shape { text: gen::TextOpts { long: false, ..gen::VALID }, ..gen::SMALL });
    let creds = Creds { pw: Some("pw".into()), keyfile: None };
    let mut s = gen::settings(rng);
    s.kdf = Kdf::Aes { rounds: 1, salt: rng.bytes(32) };
    let data = foreign4(&m, &s, &creds, rng).1;
    let path = dir.join("a.kdbx");
    std::fs::write(&path, &data).unwrap();
    let env = Env::random(rng, dir);
    let place = format!("with {:?} in {:?}", env.vars, env.dir);
    for t in ["kdbx-parse", "kdbx-decrypt", "kdbx-dump-header"] {
        for pw in ["pw", "wrong"] {
            let make = || {
                let mut k = Command::new(super::c18::tool(t));
                k.arg(&path).arg(pw);
                k
            };
            let a = Env::plain().output(make());
            let b = env.output(make());
            ensure!(a.0 == b.0 && a.1 == b.1, "{place}: {t} gives {:?} and {} bytes, with an empty environment {:?} and {}", b.0, b.1.len(), a.0, a.1.len());
            c.eval();
        }
    }
    c.event("tools in another environment");
    c.distinct(&[b"tools", place.as_bytes(), &data]);
    if c.idx % 64 == 1 {
        // the sample file is the same except for what is random in every file
        let mut seen = Vec::new();
        for k in 0..2 {
            let d = dir.join(format!("gen{k}"));
            std::fs::create_dir(&d).unwrap();
            let e = Env { dir: Some(d.clone()), removed: false, vars: if k == 0 { vec![] } else { env.vars.clone() }, clear: env.clear, events: vec![] };
            let (st, _) = e.output(Command::new(super::c18::tool("kdbx-generate")));
            ensure!(st.success(), "{place}: kdbx-generate ended with {st:?}");
            let creds = Creds { pw: Some("kdbxrs".into()), keyfile: None };
            let data = std::fs::read(d.join("kdbx_rs.kdbx")).unwrap();
            let u = unlock(&data, &creds)?;
            seen.push(model_db(u.database()));
        }
        if let Some(d) = diff_db(&seen[0], &seen[1]) {
            violate!("{place}: kdbx-generate writes another database: {d}");
        }
        c.event("generate in another environment");
        c.eval();
    }
    Ok(())
}

/// Several threads, each with a clock of its own
fn threads(rng: &mut Rng) -> Res<Log> {
    let seeds: Vec<u64> = (0..4).map(|_| rng.u64()).collect();
    let logs: Vec<Res<Log>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                s.spawn(move || {
                    let mut log = Log::default();
                    life(&mut Rng::new(*seed), &mut log).map(|()| log)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all = Log::default();
    for l in logs {
        let l = l?;
        all.events.extend(l.events);
        all.distinct.extend(l.distinct);
        all.evals += l.evals;
    }
    all.event("threads");
    Ok(all)
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    if c.idx % 12 == 0 || c.idx % 16 == 1 {
        let dir = c.dir.join(format!("c23-{}", c.idx));
        std::fs::create_dir_all(&dir).unwrap();
        let r = if c.idx % 12 == 0 { environments(c, &mut rng, &dir) } else { tools(c, &mut rng, &dir) };
        let _ = std::fs::remove_dir_all(&dir);
        return r;
    }
    let log = if c.idx % 24 == 2 {
        threads(&mut rng)?
    } else {
        let mut log = Log::default();
        life(&mut rng, &mut log)?;
        log
    };
    for e in log.events {
        c.event(e);
    }
    for _ in 0..log.evals {
        c.eval();
    }
    for d in log.distinct {
        c.distinct(&[&d]);
    }
    c.max("clock readings", os::clock_read());
    Ok(())
}
