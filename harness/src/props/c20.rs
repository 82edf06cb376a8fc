use super::c15::{edit, tweak};
use super::common::*;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::hostile::{FailWriter, WriteFault};
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::rng::{hash_bytes, Rng};
use crate::{ops, xmlref};
use kdbx_rs::binary::{Locked, Unlocked};
use kdbx_rs::{Database, Kdbx};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};

pub static PROP: Prop = Prop {
    id: "C20",
    run,
    quick: 1_300,
    thorough: 40_000,
    threads: 4,
    stages: &[("tsan", 48, 3_000)],
    rule: "distinct interleavings: sequences of (actor, operation, nesting) actually executed, or for threads the order in which operations of all threads began and ended",
    required: &[
        "one after another", "nested inside another call", "on several threads", "inside reading", "inside writing", "settings differ in one parameter", "unlock", "unlock refused", "damaged file", "locked write", "save", "save again", "failed save",
        "reads before a save", "clone of a database", "clone of a group", "clone of an entry", "edit", "key replaced", "settings changed", "dropped", "overlapping operations",
    ],
    assumptions: &["one archive is not shared between threads; separate ones are"],
    ..DEFAULT
};

/// What the archives of a case have in common, so that state kept under too small a key would be mixed up
struct Pool {
    settings: Vec<Settings>,
    creds: Vec<Creds>,
    dbs: Vec<MDb>,
    files: Vec<File>,
}

struct File {
    data: Vec<u8>,
    xml: Vec<u8>,
    db: usize,
    creds: usize,
    s: Settings,
    v3: bool,
}

fn vary(s: &Settings, rng: &mut Rng) -> Settings {
    let mut n = s.clone();
    let o = gen::settings(rng);
    match rng.below(9) {
        0..=3 => n.kdf = tweak(&s.kdf, rng),
        4 => n.seed[rng.below(32)] ^= 1,
        5 => n.iv[0] ^= 1,
        6 => n.gzip = !n.gzip,
        7 => (n.inner, n.inner_key) = (o.inner, if rng.chance(1, 2) { o.inner_key } else { n.inner_key }),
        _ => (n.cipher, n.iv) = (o.cipher, o.iv),
    }
    n
}

fn pool(rng: &mut Rng) -> Pool {
    let mut settings = vec![gen::settings(rng)];
    for _ in 0..3 {
        let s = vary(rng.pick(&settings), rng);
        settings.push(s);
    }
    let one = gen::creds(rng);
    let mut creds = vec![one.clone()];
    for _ in 0..2 {
        let mut c = one.clone();
        match rng.below(3) {
            0 => c.pw = Some(format!("{}x", c.pw.unwrap_or_default())),
            1 => {
                let mut k = c.keyfile.take().unwrap_or_default();
                k.push(7);
                c.keyfile = Some(if matches!(k.len(), 32 | 64) { b"another key".to_vec() } else { k });
            }
            _ => c = gen::creds(rng),
        }
        creds.push(c);
    }
    let mut dbs = vec![varied_db(rng, gen::TextOpts { long: false, ..gen::VALID })];
    // same shape and identifiers, other texts
    let mut d = dbs[0].clone();
    d.name.push('2');
    d.root.name.push('2');
    for e in &mut d.root.entries {
        for f in &mut e.fields {
            f.value.push('2');
        }
    }
    dbs.push(d);
    let mut files = Vec::new();
    for _ in 0..5 {
        let (db, creds_i) = (rng.below(dbs.len()), rng.below(creds.len()));
        let mut s = rng.pick(&settings).clone();
        let v3 = rng.chance(1, 5);
        let (data, xml) = if v3 {
            let t = settings3(rng);
            (s.kdf, s.cipher, s.iv, s.inner_key) = (t.kdf, t.cipher, t.iv, t.inner_key);
            let (_, d, w) = foreign3(&dbs[db], &s, &creds[creds_i], rng, true);
            (d, w.xml)
        } else {
            let (_, d, w) = foreign4(&dbs[db], &s, &creds[creds_i], rng);
            (d, w.xml)
        };
        files.push(File { data, xml, db, creds: creds_i, s, v3 });
    }
    Pool { settings, creds, dbs, files }
}

enum State {
    Nothing,
    Locked(Kdbx<Locked>, usize),
    Unlocked(Box<Open>),
}

struct Open {
    k: Kdbx<Unlocked>,
    m: MDb,
    s: Settings,
    creds: Option<usize>,
    v3: bool,
}

struct Actor {
    state: State,
    rng: Rng,
    side: Vec<(Database, MDb)>,
}

#[derive(Default)]
struct Log {
    events: BTreeMap<&'static str, u64>,
    trace: Vec<u8>,
    evals: u64,
}

impl Log {
    fn event(&mut self, e: &'static str) {
        *self.events.entry(e).or_default() += 1;
    }
}

/// Called in the middle of reading and writing
type Hook<'a> = &'a dyn Fn(&'static str);

struct HookReader<'a> {
    data: &'a [u8],
    hook: Hook<'a>,
    max: usize,
}

impl Read for HookReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        (self.hook)("inside reading");
        let n = self.max.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

struct HookWriter<'a> {
    out: Vec<u8>,
    hook: Hook<'a>,
    max: usize,
}

impl Write for HookWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        (self.hook)("inside writing");
        let n = self.max.min(buf.len());
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        (self.hook)("inside writing");
        Ok(())
    }
}

fn open_hooked(f: &[u8], hook: Hook, max: usize) -> Res<Result<Kdbx<Locked>, kdbx_rs::errors::OpenError>> {
    lib("from_reader", || kdbx_rs::from_reader(HookReader { data: f, hook, max }))
}

fn same(what: &str, m: &MDb, db: &Database) -> Verdict {
    match diff_db(m, &model_db(db)) {
        Some(d) => violate!("{what}: {d}"),
        None => Ok(()),
    }
}

/// Save, and decode what was written with the reference
fn saved(o: &Open, p: &Pool, hook: Hook, max: usize) -> Res<Decoded4> {
    let mut w = HookWriter { out: Vec::new(), hook, max };
    if let Err(e) = lib("Kdbx::write", || o.k.write(&mut w))? {
        violate!("saving failed: {e}");
    }
    let creds = &p.creds[o.creds.unwrap()];
    let d = decode4(&w.out, creds).map_err(|e| Violation::new(format!("saved file can not be read with its own key: {e}")).with("file", &w.out))?;
    ensure!(d.kdf == o.s.kdf && d.cipher == o.s.cipher && d.gzip == o.s.gzip && d.seed == o.s.seed && d.iv == o.s.iv, "saved with other settings than the archive has");
    ensure!(d.inner == o.s.inner && d.inner_key == o.s.inner_key, "saved with another inner stream than the archive has");
    let mut st = inner_stream(d.inner, &d.inner_key);
    let i = xmlref::interpret(&d.xml, st.as_mut()).map_err(|e| Violation::new(format!("saved XML: {e}")))?;
    if let Some(x) = diff_db(&o.m, &i.db) {
        violate!("saved content differs from the content of the archive: {x}");
    }
    Ok(d)
}

/// Everything that only looks
fn look(o: &Open, rng: &mut Rng) -> Verdict {
    let db = o.k.database();
    for _ in 0..rng.range(1, 4) {
        match rng.below(7) {
            0 => {
                lib("Debug", || format!("{:?}", db).len())?;
            }
            1 => {
                lib("iterating", || db.root().recursive_entries().map(|e| e.fields().count() + e.history().len()).sum::<usize>())?;
            }
            2 => {
                lib("iterating", || db.root().recursive_groups().map(|g| g.entries().count()).sum::<usize>())?;
            }
            3 => {
                if let (Some(m), Some(e)) = (o.m.root.entries.first(), db.root().entries().next()) {
                    ops::look_at_entry(m, e, rng)?;
                }
            }
            4 => {
                lib("raw_xml", || o.k.raw_xml().map(<[u8]>::len))?;
                lib("headers", || format!("{:?} {:?}", o.k.header(), o.k.inner_header()).len())?;
            }
            5 => {
                let mut out = Vec::new();
                let _ = lib("write_xml", || kdbx_rs::xml::write_xml(&mut out, db, &mut kdbx_rs::utils::NullStreamCipher))?;
            }
            _ => {
                lib("clone", || drop(db.clone()))?;
            }
        }
    }
    Ok(())
}

fn step(a: &mut Actor, p: &Pool, hook: Hook, log: &mut Log) -> Verdict {
    let rng = &mut a.rng;
    let max = *rng.pick(&[1usize << 20, 100, 37]);
    log.evals += 1;
    // what was set aside must stay as it was
    for (db, m) in &a.side {
        same("a copy set aside changed", m, db)?;
    }
    a.state = match std::mem::replace(&mut a.state, State::Nothing) {
        State::Nothing => match rng.below(5) {
            0 => {
                let f = rng.pick(&p.files);
                let mut bad = f.data.clone();
                let i = rng.below(bad.len());
                if rng.chance(1, 2) {
                    bad.truncate(i);
                } else {
                    bad[i] ^= 1 << rng.below(8);
                }
                if let Ok(k) = open_hooked(&bad, hook, max)? {
                    if affordable(k.header()) {
                        let r = lib("unlock", || k.unlock(&p.creds[f.creds].lib()))?;
                        ensure!(f.v3 || r.is_err(), "damaged file was unlocked");
                    }
                }
                log.event("damaged file");
                log.trace.push(1);
                State::Nothing
            }
            1 => {
                let m = rng.pick(&p.dbs).clone();
                let s = rng.pick(&p.settings).clone();
                let mut k = lib("from_database", || Kdbx::from_database(lib_db(&m)))?;
                s.apply(&mut k);
                let i = rng.below(p.creds.len());
                if let Err(e) = lib("set_key", || k.set_key(p.creds[i].lib()))? {
                    violate!("set_key refused usable settings: {e}");
                }
                log.trace.push(2);
                State::Unlocked(Box::new(Open { k, m, s, creds: Some(i), v3: false }))
            }
            _ => {
                let i = rng.below(p.files.len());
                let f = &p.files[i];
                let k = match open_hooked(&f.data, hook, max)? {
                    Ok(k) => k,
                    Err(e) => violate!("file could not be opened: {e}"),
                };
                if let Some(e) = header_matches(k.header(), &f.s) {
                    violate!("{e}");
                }
                log.trace.push(3);
                State::Locked(k, i)
            }
        },
        State::Locked(k, i) => {
            let f = &p.files[i];
            match rng.below(6) {
                0 => {
                    let j = rng.below(p.creds.len());
                    if composite(&p.creds[j]) == composite(&p.creds[f.creds]) {
                        State::Locked(k, i)
                    } else {
                        log.event("unlock refused");
                        log.trace.push(4);
                        match lib("unlock", || k.unlock(&p.creds[j].lib()))? {
                            Ok(_) => violate!("unlocked with the key of another archive"),
                            Err(e) => State::Locked(e.0, i),
                        }
                    }
                }
                1 => {
                    let mut w = HookWriter { out: Vec::new(), hook, max };
                    if let Err(e) = lib("Kdbx<Locked>::write", || k.write(&mut w))? {
                        violate!("writing a locked archive failed: {e}");
                    }
                    ensure!(w.out == f.data, "a locked archive was written with other bytes than it was read from");
                    log.event("locked write");
                    log.trace.push(5);
                    State::Locked(k, i)
                }
                2 if rng.chance(1, 3) => {
                    log.event("dropped");
                    log.trace.push(6);
                    lib("drop", || drop(k))?;
                    State::Nothing
                }
                _ => {
                    let k = match lib("unlock", || k.unlock(&p.creds[f.creds].lib()))? {
                        Ok(k) => k,
                        Err(e) => violate!("file could not be unlocked: {}", e.1),
                    };
                    let m = p.dbs[f.db].clone();
                    same("content differs from the file", &m, k.database())?;
                    ensure!(k.raw_xml() == Some(&f.xml[..]), "raw_xml is not the XML of the file");
                    log.event("unlock");
                    log.trace.push(7);
                    State::Unlocked(Box::new(Open { k, m, s: f.s.clone(), creds: Some(f.creds), v3: f.v3 }))
                }
            }
        }
        State::Unlocked(mut o) => {
            same("content changed", &o.m, o.k.database())?;
            match rng.below(12) {
                0 | 1 => {
                    edit(rng, &mut o.m, &mut o.k)?;
                    log.event("edit");
                    log.trace.push(8);
                }
                2..=4 => {
                    log.trace.push(9);
                    if o.v3 {
                        ensure!(try_save(&o.k)?.is_err(), "a KDBX 3 archive was saved");
                    } else {
                        let one = saved(&o, p, hook, max)?;
                        log.event("save");
                        if rng.chance(1, 3) {
                            look(&o, rng)?;
                            log.event("reads before a save");
                        }
                        if rng.chance(1, 2) {
                            let two = saved(&o, p, hook, max)?;
                            ensure!(one.xml == two.xml, "saving again gave other XML");
                            let sorted = |d: &Decoded4| {
                                let mut f: Vec<_> = d.inner_fields.clone();
                                f.sort();
                                let mut g: Vec<_> = d.fields.iter().filter(|x| x.0 != 11).cloned().collect();
                                g.sort();
                                (f, g)
                            };
                            ensure!(sorted(&one) == sorted(&two), "saving again gave other header fields");
                            log.event("save again");
                        }
                    }
                }
                5 => {
                    let mut w = FailWriter::new(rng.below(600), WriteFault::Error(io::ErrorKind::Other), 100);
                    let _ = lib("Kdbx::write", || o.k.write(&mut w))?;
                    log.event("failed save");
                    log.trace.push(10);
                }
                6 => {
                    let i = rng.below(p.creds.len());
                    if let Err(e) = lib("set_key", || o.k.set_key(p.creds[i].lib()))? {
                        violate!("set_key refused usable settings: {e}");
                    }
                    o.creds = Some(i);
                    log.event("key replaced");
                    log.trace.push(11);
                }
                7 if !o.v3 => {
                    // to settings another archive has
                    o.s = rng.pick(&p.settings).clone();
                    o.s.apply(&mut o.k);
                    log.event("settings changed");
                    log.trace.push(12);
                }
                8 => {
                    let copy = lib("clone", || o.k.database().clone())?;
                    let mut other = lib("from_database", || Kdbx::from_database(copy))?;
                    let mut m = o.m.clone();
                    for _ in 0..3 {
                        edit(rng, &mut m, &mut other)?;
                        edit(rng, &mut o.m, &mut o.k)?;
                    }
                    same("editing a copy", &o.m, o.k.database())?;
                    same("editing the original of a copy", &m, other.database())?;
                    if a.side.len() < 3 {
                        a.side.push((other.database().clone(), m));
                    }
                    log.event("clone of a database");
                    log.trace.push(13);
                }
                9 => {
                    let g = lib("clone", || o.k.database().root().clone())?;
                    let mut m = o.m.clone();
                    let mut d = lib_db(&m);
                    *d.root_mut() = g;
                    let mut other = lib("from_database", || Kdbx::from_database(d))?;
                    for _ in 0..3 {
                        edit(rng, &mut m, &mut other)?;
                        edit(rng, &mut o.m, &mut o.k)?;
                    }
                    same("editing a copied group", &o.m, o.k.database())?;
                    same("editing the original of a copied group", &m, other.database())?;
                    log.event("clone of a group");
                    log.trace.push(14);
                }
                10 => {
                    let copy = lib("clone", || o.k.database().root().entries().next().cloned())?;
                    if let Some(mut copy) = copy {
                        let mut m = o.m.root.entries[0].clone();
                        let mut src = ops::Random(gen::TextOpts { long: false, ..gen::VALID });
                        for _ in 0..3 {
                            ops::entry_op(rng, &mut m, &mut copy, &mut src, 1)?;
                            let e = o.k.root_mut().entries_mut().next().unwrap();
                            ops::entry_op(rng, &mut o.m.root.entries[0], e, &mut src, 1)?;
                        }
                        same("editing a copied entry", &o.m, o.k.database())?;
                        if let Some(d) = diff_entry("copy", &m, &model_entry(&copy)) {
                            violate!("editing the original of a copied entry: {d}");
                        }
                        log.event("clone of an entry");
                        log.trace.push(15);
                    }
                }
                _ => {
                    if rng.chance(1, 2) {
                        log.event("dropped");
                        log.trace.push(16);
                        lib("drop", || drop(o))?;
                        return Ok(());
                    }
                    look(&o, rng)?;
                    log.trace.push(17);
                }
            }
            State::Unlocked(o)
        }
    };
    Ok(())
}

fn finish(c: &mut Case, logs: Vec<Log>) {
    for l in logs {
        for (k, v) in l.events {
            c.events(k, v);
        }
        c.obs.evaluations += l.evals;
    }
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    let p = pool(&mut rng);
    if p.settings.windows(2).any(|w| w[0].kdf != w[1].kdf) {
        c.event("settings differ in one parameter");
    }
    let n = rng.range(2, 5);
    let steps = rng.range(20, 60);
    match c.idx % 4 {
        0 => in_turn(c, &p, n, steps, &mut rng, false),
        1 => in_turn(c, &p, n, steps, &mut rng, true),
        _ => threads(c, &p, n, steps, &mut rng),
    }
}

/// All actors on one thread; with `nested`, also inside the reading and writing of others
fn in_turn(c: &mut Case, p: &Pool, n: usize, steps: usize, rng: &mut Rng, nested: bool) -> Verdict {
    let actors: Vec<RefCell<Actor>> = (0..n).map(|_| RefCell::new(Actor { state: State::Nothing, rng: rng.fork(), side: Vec::new() })).collect();
    let log = RefCell::new(Log::default());
    let failure: RefCell<Option<Violation>> = RefCell::new(None);
    let depth = Cell::new(0usize);
    let budget = Cell::new(if nested { 80usize } else { 0 });
    let inner = RefCell::new(rng.fork());
    fn act(i: usize, actors: &[RefCell<Actor>], p: &Pool, log: &RefCell<Log>, failure: &RefCell<Option<Violation>>, depth: &Cell<usize>, inner: &RefCell<Rng>, budget: &Cell<usize>) {
        let Ok(mut a) = actors[i].try_borrow_mut() else { return };
        let hook = |what: &'static str| {
            if budget.get() == 0 || depth.get() >= 3 || failure.borrow().is_some() || !inner.borrow_mut().chance(1, 12) {
                return;
            }
            let j = inner.borrow_mut().below(actors.len());
            if actors[j].try_borrow_mut().is_err() {
                return;
            }
            depth.set(depth.get() + 1);
            budget.set(budget.get() - 1);
            log.borrow_mut().event(what);
            log.borrow_mut().event("nested inside another call");
            log.borrow_mut().trace.extend([200, depth.get() as u8]);
            act(j, actors, p, log, failure, depth, inner, budget);
            log.borrow_mut().trace.push(201);
            depth.set(depth.get() - 1);
        };
        log.borrow_mut().trace.push(100 + i as u8);
        let mut own = Log::default();
        let r = step(&mut a, p, &hook, &mut own);
        let mut l = log.borrow_mut();
        l.trace.extend(own.trace);
        l.evals += own.evals;
        for (k, v) in own.events {
            *l.events.entry(k).or_default() += v;
        }
        if let Err(v) = r {
            failure.borrow_mut().get_or_insert(v);
        }
    }
    for _ in 0..steps {
        let i = rng.below(n);
        act(i, &actors, p, &log, &failure, &depth, &inner, &budget);
        if let Some(v) = failure.borrow_mut().take() {
            return Err(v);
        }
    }
    if !nested {
        c.event("one after another");
    }
    let log = log.into_inner();
    c.distinct(&[&log.trace]);
    c.sample(|| format!("{n} archives, {steps} steps, trace {:?}", &log.trace[..log.trace.len().min(60)]));
    finish(c, vec![log]);
    Ok(())
}

fn threads(c: &mut Case, p: &Pool, n: usize, steps: usize, rng: &mut Rng) -> Verdict {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let steps = steps / 2;
    let seq = AtomicUsize::new(0);
    let barrier = std::sync::Barrier::new(n);
    let rngs: Vec<(Rng, Rng)> = (0..n).map(|_| (rng.fork(), rng.fork())).collect();
    let results: Vec<(Verdict, Log, Vec<(usize, usize)>)> = std::thread::scope(|s| {
        let hs: Vec<_> = rngs
            .into_iter()
            .map(|(r, d)| {
                let (seq, barrier) = (&seq, &barrier);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut a = Actor { state: State::Nothing, rng: r, side: Vec::new() };
                        let mut log = Log::default();
                        let mut times = Vec::new();
                        let delay = RefCell::new(d);
                        let hook = |_: &'static str| match delay.borrow_mut().below(12) {
                            0 => std::thread::yield_now(),
                            1 => std::thread::sleep(std::time::Duration::from_micros(50)),
                            _ => (),
                        };
                        barrier.wait();
                        let mut res = Ok(());
                        for _ in 0..steps {
                            let t = seq.fetch_add(1, Ordering::SeqCst);
                            res = step(&mut a, p, &hook, &mut log);
                            times.push((t, seq.fetch_add(1, Ordering::SeqCst)));
                            if res.is_err() {
                                break;
                            }
                        }
                        (res, log, times)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(r) => r,
                Err(e) => std::panic::resume_unwind(e),
            })
            .collect()
    });
    let mut logs = Vec::new();
    let mut trace: Vec<(usize, u8)> = Vec::new();
    let mut overlaps = 0;
    for (i, (r, log, times)) in results.into_iter().enumerate() {
        r?;
        overlaps += times.iter().filter(|t| t.1 > t.0 + 1).count();
        for (k, t) in times.iter().enumerate() {
            let what = log.trace.get(k).copied().unwrap_or(0);
            trace.push((t.0, what));
            trace.push((t.1, 100 + i as u8));
        }
        logs.push(log);
    }
    trace.sort();
    let bytes: Vec<u8> = trace.iter().map(|t| t.1).collect();
    c.distinct(&[b"threads", &hash_bytes(&bytes).to_le_bytes()]);
    c.event("on several threads");
    c.events("overlapping operations", overlaps as u64);
    finish(c, logs);
    Ok(())
}
