use crate::gen;
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::ops;
use crate::rng::Rng;
use kdbx_rs::database::{Database, Entry, Group};
use std::collections::HashMap;
use uuid::Uuid;

pub static PROP: Prop = Prop {
    id: "C13",
    run,
    quick: 60_000,
    thorough: 600_000,
    stack: 64 << 20,
    rule: "distinct trees reached by an operation history and compared with the model",
    required: &[
        "add_entry", "add_group", "remove_entry", "remove_entry of nothing", "remove_group", "remove_group of nothing", "move entry", "move group", "rename", "replace_root", "edit entry",
        "database add", "find_entry hit", "find_entry miss", "find_group hit", "find_group miss", "duplicate identifiers", "recursive_entries", "recursive_entries_mut", "recursive_groups", "deep tree", "wide tree",
        "clone kept apart", "removed child with an identifier used elsewhere", "stateful filter", "edit through iteration",
    ],
    assumptions: &["the order of recursive iteration is not specified, only what it visits"],
    ..DEFAULT
};

type Res<T> = Result<T, Violation>;

struct Ids(Vec<[u8; 16]>);

impl Ids {
    /// Identifiers from a small pool, so that duplicates are common
    fn pick(&self, rng: &mut Rng) -> [u8; 16] {
        if rng.chance(1, 4) {
            gen::uuid(rng)
        } else {
            *rng.pick(&self.0)
        }
    }
}

fn tiny(text: bool) -> gen::Shape {
    gen::Shape { text: gen::TextOpts { long: false, ..gen::VALID }, max_entries: 2, max_groups: 2, max_fields: if text { 2 } else { 1 }, max_depth: 3, ..gen::SMALL }
}

fn new_entry(rng: &mut Rng, ids: &Ids) -> MEntry {
    let mut e = gen::entry(rng, &tiny(true), 1);
    e.uuid = ids.pick(rng);
    e
}

fn reid(g: &mut MGroup, rng: &mut Rng, ids: &Ids) {
    g.uuid = ids.pick(rng);
    if rng.chance(1, 2) {
        g.name = (*rng.pick(&["A", "B", "a", ""])).into();
    }
    for e in &mut g.entries {
        e.uuid = ids.pick(rng);
    }
    for s in &mut g.groups {
        reid(s, rng, ids);
    }
}

fn new_group(rng: &mut Rng, ids: &Ids) -> MGroup {
    let mut g = gen::group(rng, &tiny(false), 1);
    reid(&mut g, rng, ids);
    g
}

fn paths(g: &MGroup) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut i = 0;
    while i < out.len() {
        let p = out[i].clone();
        let n = at(g, &p).groups.len();
        for k in 0..n {
            let mut q = p.clone();
            q.push(k);
            out.push(q);
        }
        i += 1;
    }
    out
}

fn at<'a>(g: &'a MGroup, p: &[usize]) -> &'a MGroup {
    p.iter().fold(g, |g, i| &g.groups[*i])
}

fn at_mut<'a>(g: &'a mut MGroup, p: &[usize]) -> &'a mut MGroup {
    p.iter().fold(g, |g, i| &mut g.groups[*i])
}

/// Walk to a group through the library's own iterators
fn lib_at_mut<'a>(db: &'a mut Database, p: &[usize]) -> Res<&'a mut Group> {
    let mut g = lib("root_mut", || db.root_mut())?;
    for i in p {
        g = match lib("groups_mut", || g.groups_mut().nth(*i))? {
            Some(g) => g,
            None => violate!("groups_mut has no group {i}"),
        };
    }
    Ok(g)
}

fn pre_entries<'a>(g: &'a MGroup, out: &mut Vec<&'a MEntry>) {
    out.extend(&g.entries);
    for s in &g.groups {
        pre_entries(s, out);
    }
}

fn pre_groups<'a>(g: &'a MGroup, out: &mut Vec<&'a MGroup>) {
    for s in &g.groups {
        out.push(s);
        pre_groups(s, out);
    }
}

fn bag<T: std::fmt::Debug>(items: impl Iterator<Item = T>) -> HashMap<String, usize> {
    let mut m = HashMap::new();
    for i in items {
        *m.entry(format!("{i:?}")).or_default() += 1;
    }
    m
}

/// Searches and iteration below one group, compared with the model
fn look(c: &mut Case, m: &MGroup, g: &mut Group, ids: &Ids, rng: &mut Rng) -> Verdict {
    ensure!(lib("entry_count", || g.entry_count())? == m.entries.len(), "entry_count wrong");
    ensure!(lib("group_count", || g.group_count())? == m.groups.len(), "group_count wrong");
    ensure!(lib("entries", || g.entries().count())? == m.entries.len() && g.entries_mut().count() == m.entries.len(), "entries() and the tree disagree");
    ensure!(lib("groups", || g.groups().count())? == m.groups.len() && g.groups_mut().count() == m.groups.len(), "groups() and the tree disagree");
    let (mut es, mut gs) = (Vec::new(), Vec::new());
    pre_entries(m, &mut es);
    pre_groups(m, &mut gs);
    // recursive iteration visits everything once
    let want = bag(es.iter());
    let got = lib("recursive_entries", || bag(g.recursive_entries().map(model_entry)))?;
    ensure!(got == want, "recursive_entries visits {} entries instead of {}, or other ones", got.values().sum::<usize>(), es.len());
    c.event("recursive_entries");
    let got = lib("recursive_entries_mut", || bag(g.recursive_entries_mut().map(|e| model_entry(e))))?;
    ensure!(got == want, "recursive_entries_mut visits {} entries instead of {}, or other ones", got.values().sum::<usize>(), es.len());
    c.event("recursive_entries_mut");
    let want = bag(gs.iter().map(|g| (g.uuid, &g.name, g.entries.len(), g.groups.len())));
    let got = lib("recursive_groups", || bag(g.recursive_groups().map(|g| (*g.uuid().as_bytes(), g.name().to_string(), g.entry_count(), g.group_count()))))?;
    ensure!(got == want, "recursive_groups visits {} groups instead of {}, or other ones", got.values().sum::<usize>(), gs.len());
    c.event("recursive_groups");
    // searches by identifier, by content and by position
    for _ in 0..4 {
        let id = ids.pick(rng);
        let by = rng.below(4);
        let nth = rng.below(es.len() + 1);
        let prot = rng.chance(1, 2);
        let mut count = 0;
        let want = es.iter().enumerate().find(|(i, e)| match by {
            0 => e.uuid == id,
            1 => e.fields.iter().any(|f| f.protected == prot),
            2 => !e.history.is_empty(),
            _ => *i == nth,
        });
        let mut pred = |e: &Entry| match by {
            0 => *e.uuid().as_bytes() == id,
            1 => e.fields().any(|f| f.protected() == prot),
            2 => !e.history().is_empty(),
            _ => {
                count += 1;
                count == nth + 1
            }
        };
        let a = lib("find_entry", || g.find_entry(&mut pred).map(|e| (e as *const Entry, model_entry(e))))?;
        ensure!(a.as_ref().map(|a| &a.1) == want.map(|w| *w.1), "find_entry gives another entry than the first match ({by}): {:?} instead of {:?}", a.as_ref().map(|a| a.1.uuid), want.map(|w| w.1.uuid));
        if by == 3 {
            c.event("stateful filter");
        }
        count = 0;
        let mut pred = |e: &Entry| match by {
            0 => *e.uuid().as_bytes() == id,
            1 => e.fields().any(|f| f.protected() == prot),
            2 => !e.history().is_empty(),
            _ => {
                count += 1;
                count == nth + 1
            }
        };
        let b = lib("find_entry_mut", || g.find_entry_mut(&mut pred).map(|e| (e as *const Entry, model_entry(e))))?;
        ensure!(a.as_ref().map(|x| x.0) == b.as_ref().map(|x| x.0), "find_entry and find_entry_mut give different items");
        c.event(if want.is_some() { "find_entry hit" } else { "find_entry miss" });

        let nth = rng.below(gs.len() + 1);
        let name = *rng.pick(&["A", "B", "a", ""]);
        let mut count = 0;
        let want = gs.iter().enumerate().find(|(i, g)| match by {
            0 => g.uuid == id,
            1 => g.name == name,
            2 => !g.entries.is_empty(),
            _ => *i == nth,
        });
        let mut pred = |g: &Group| match by {
            0 => *g.uuid().as_bytes() == id,
            1 => g.name() == name,
            2 => g.entry_count() > 0,
            _ => {
                count += 1;
                count == nth + 1
            }
        };
        let a = lib("find_group", || g.find_group(&mut pred).map(|g| (g as *const Group, model_group(g))))?;
        ensure!(a.as_ref().map(|a| &a.1) == want.map(|w| *w.1), "find_group gives another group than the first match ({by})");
        count = 0;
        let mut pred = |g: &Group| match by {
            0 => *g.uuid().as_bytes() == id,
            1 => g.name() == name,
            2 => g.entry_count() > 0,
            _ => {
                count += 1;
                count == nth + 1
            }
        };
        let b = lib("find_group_mut", || g.find_group_mut(&mut pred).map(|g| g as *const Group))?;
        ensure!(a.as_ref().map(|x| x.0) == b, "find_group and find_group_mut give different items");
        c.event(if want.is_some() { "find_group hit" } else { "find_group miss" });
    }
    Ok(())
}

fn elsewhere(root: &MGroup, here: &MGroup, id: [u8; 16], entry: bool) -> bool {
    let (mut es, mut gs) = (Vec::new(), Vec::new());
    pre_entries(root, &mut es);
    pre_groups(root, &mut gs);
    if entry {
        es.iter().filter(|e| e.uuid == id).count() > here.entries.iter().filter(|e| e.uuid == id).count()
    } else {
        gs.iter().filter(|g| g.uuid == id).count() > here.groups.iter().filter(|g| g.uuid == id).count()
    }
}

fn remove_entry(c: &mut Case, m: &mut MDb, db: &mut Database, p: &[usize], id: [u8; 16]) -> Res<Option<(MEntry, Entry)>> {
    let other = elsewhere(&m.root, at(&m.root, p), id, true);
    let mg = at_mut(&mut m.root, p);
    let want = mg.entries.iter().position(|e| e.uuid == id).map(|i| mg.entries.remove(i));
    let g = lib_at_mut(db, p)?;
    let got = lib("remove_entry", || g.remove_entry(Uuid::from_bytes(id)))?;
    match (want, got) {
        (Some(w), Some(g)) => {
            ensure!(model_entry(&g) == w, "remove_entry returned another entry");
            if other {
                c.event("removed child with an identifier used elsewhere");
            }
            c.event("remove_entry");
            Ok(Some((w, g)))
        }
        (None, None) => {
            c.event("remove_entry of nothing");
            Ok(None)
        }
        (w, g) => violate!("remove_entry returned {}, expected {}", g.is_some(), w.is_some()),
    }
}

fn remove_group(c: &mut Case, m: &mut MDb, db: &mut Database, p: &[usize], id: [u8; 16]) -> Res<Option<(MGroup, Group)>> {
    let other = elsewhere(&m.root, at(&m.root, p), id, false);
    let mg = at_mut(&mut m.root, p);
    let want = mg.groups.iter().position(|e| e.uuid == id).map(|i| mg.groups.remove(i));
    let g = lib_at_mut(db, p)?;
    let got = lib("remove_group", || g.remove_group(Uuid::from_bytes(id)))?;
    match (want, got) {
        (Some(w), Some(g)) => {
            ensure!(model_group(&g) == w, "remove_group returned another group");
            if other {
                c.event("removed child with an identifier used elsewhere");
            }
            c.event("remove_group");
            Ok(Some((w, g)))
        }
        (None, None) => {
            c.event("remove_group of nothing");
            Ok(None)
        }
        (w, g) => violate!("remove_group returned {}, expected {}", g.is_some(), w.is_some()),
    }
}

fn step(c: &mut Case, m: &mut MDb, db: &mut Database, ids: &Ids, rng: &mut Rng) -> Res<&'static str> {
    let all = paths(&m.root);
    let p = rng.pick(&all).clone();
    Ok(match rng.below(18) {
        0 | 1 => {
            let e = new_entry(rng, ids);
            let l = lib_entry(&e);
            let g = lib_at_mut(db, &p)?;
            lib("add_entry", || g.add_entry(l))?;
            at_mut(&mut m.root, &p).entries.push(e);
            "add_entry"
        }
        2 | 3 if all.len() < 60 => {
            let n = new_group(rng, ids);
            let l = lib_group(&n);
            let g = lib_at_mut(db, &p)?;
            lib("add_group", || g.add_group(l))?;
            at_mut(&mut m.root, &p).groups.push(n);
            "add_group"
        }
        4 | 5 => {
            let g = at(&m.root, &p);
            let id = if !g.entries.is_empty() && rng.chance(2, 3) { g.entries[rng.below(g.entries.len())].uuid } else { ids.pick(rng) };
            remove_entry(c, m, db, &p, id)?;
            "remove entry"
        }
        6 | 7 => {
            let g = at(&m.root, &p);
            let id = if !g.groups.is_empty() && rng.chance(2, 3) { g.groups[rng.below(g.groups.len())].uuid } else { ids.pick(rng) };
            remove_group(c, m, db, &p, id)?;
            "remove group"
        }
        8 => {
            let g = at(&m.root, &p);
            let id = if g.entries.is_empty() { ids.pick(rng) } else { g.entries[rng.below(g.entries.len())].uuid };
            if let Some((w, e)) = remove_entry(c, m, db, &p, id)? {
                let q = rng.pick(&all).clone();
                let g = lib_at_mut(db, &q)?;
                lib("add_entry", || g.add_entry(e))?;
                at_mut(&mut m.root, &q).entries.push(w);
                c.event("move entry");
            }
            "move entry"
        }
        9 => {
            let g = at(&m.root, &p);
            let id = if g.groups.is_empty() { ids.pick(rng) } else { g.groups[rng.below(g.groups.len())].uuid };
            if let Some((w, g)) = remove_group(c, m, db, &p, id)? {
                let left = paths(&m.root);
                let q = rng.pick(&left).clone();
                let t = lib_at_mut(db, &q)?;
                lib("add_group", || t.add_group(g))?;
                at_mut(&mut m.root, &q).groups.push(w);
                c.event("move group");
            }
            "move group"
        }
        10 => {
            let name = if rng.chance(1, 2) { (*rng.pick(&["A", "B", "a", ""])).to_string() } else { gen::text(rng, gen::VALID) };
            let id = ids.pick(rng);
            let t = gen::times(rng);
            let lt = lib_times(&t);
            let g = lib_at_mut(db, &p)?;
            lib("set_name", || {
                g.set_name(&name);
                g.set_uuid(Uuid::from_bytes(id));
                *g.times_mut() = lt;
            })?;
            let mg = at_mut(&mut m.root, &p);
            (mg.name, mg.uuid, mg.times) = (name, id, t);
            "rename"
        }
        11 if rng.chance(1, 4) => {
            let n = new_group(rng, ids);
            let l = lib_group(&n);
            lib("replace_root", || db.replace_root(l))?;
            m.root = n;
            "replace_root"
        }
        12 | 13 => {
            // edit an entry found by search, the first match is the one that changes
            let id = ids.pick(rng);
            let found = lib("find_entry_mut", || db.find_entry_mut(|e| *e.uuid().as_bytes() == id))?;
            let want = first_entry_mut(&mut m.root, id);
            match (want, found) {
                (Some(w), Some(e)) => {
                    ops::entry_op(rng, w, e, &mut ops::Random(gen::TextOpts { long: false, ..gen::VALID }), 1)?;
                    "edit entry"
                }
                (None, None) => "edit of nothing",
                (w, f) => violate!("find_entry_mut found {}, expected {}", f.is_some(), w.is_some()),
            }
        }
        14 => {
            let id = ids.pick(rng);
            let found = lib("find_group_mut", || db.find_group_mut(|g| *g.uuid().as_bytes() == id))?;
            let want = first_group_mut(&mut m.root, id);
            match (want, found) {
                (Some(w), Some(g)) => {
                    let e = new_entry(rng, ids);
                    let l = lib_entry(&e);
                    lib("add_entry", || g.add_entry(l))?;
                    w.entries.push(e);
                    "add to found group"
                }
                (None, None) => "search of nothing",
                (w, f) => violate!("find_group_mut found {}, expected {}", f.is_some(), w.is_some()),
            }
        }
        15 => {
            if rng.chance(1, 2) {
                let e = new_entry(rng, ids);
                let l = lib_entry(&e);
                lib("add_entry", || db.add_entry(l))?;
                m.root.entries.push(e);
            } else {
                let g = new_group(rng, ids);
                let l = lib_group(&g);
                lib("add_group", || db.add_group(l))?;
                m.root.groups.push(g);
            }
            "database add"
        }
        16 => {
            // change every entry below a group through mutable iteration
            let k = rng.u32();
            let g = lib_at_mut(db, &p)?;
            lib("recursive_entries_mut", || {
                for e in g.recursive_entries_mut() {
                    e.times_mut().usage_count = e.times_mut().usage_count.wrapping_add(k);
                }
            })?;
            bump(at_mut(&mut m.root, &p), k);
            "edit through iteration"
        }
        _ => {
            m.name = gen::text(rng, gen::VALID);
            m.desc = gen::text(rng, gen::VALID);
            lib("set_name", || db.set_name(&m.name))?;
            lib("set_description", || db.set_description(&m.desc))?;
            "name database"
        }
    })
}

fn bump(g: &mut MGroup, k: u32) {
    for e in &mut g.entries {
        e.times.usage = e.times.usage.wrapping_add(k);
    }
    for s in &mut g.groups {
        bump(s, k);
    }
}

fn first_entry_mut(g: &mut MGroup, id: [u8; 16]) -> Option<&mut MEntry> {
    if let Some(i) = g.entries.iter().position(|e| e.uuid == id) {
        return Some(&mut g.entries[i]);
    }
    g.groups.iter_mut().find_map(|s| first_entry_mut(s, id))
}

fn first_group_mut(g: &mut MGroup, id: [u8; 16]) -> Option<&mut MGroup> {
    for s in &mut g.groups {
        if s.uuid == id {
            return Some(s);
        }
        if let Some(f) = first_group_mut(s, id) {
            return Some(f);
        }
    }
    None
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    let ids = Ids((0..rng.range(2, 12)).map(|_| gen::uuid(&mut rng)).collect());
    let mut m = match c.idx % 50 {
        0 => {
            c.event("deep tree");
            let n = rng.range(50, 150);
            gen::deep_db(&mut rng, n, 3)
        }
        1 => {
            c.event("wide tree");
            let (a, b) = (rng.range(50, 200), rng.range(20, 100));
            gen::wide_db(&mut rng, a, b)
        }
        _ => gen::db(&mut rng, &tiny(true)),
    };
    reid(&mut m.root, &mut rng, &ids);
    let mut db = lib_db(&m);
    let mut log: Vec<&str> = Vec::new();
    let mut aside: Option<(MDb, Database)> = None;
    let big = c.idx % 50 < 2;
    for _ in 0..(if big { rng.range(3, 10) } else { rng.range(1, 40) }) {
        let what = step(c, &mut m, &mut db, &ids, &mut rng)?;
        log.push(what);
        let seen = lib("reading the database", || model_db(&db))?;
        if let Some(d) = diff_db(&m, &seen) {
            violate!("after {}: {d}", log.join("; "));
        }
        c.event(what);
        c.eval();
        if rng.chance(1, 3) || big {
            let all = paths(&m.root);
            let p = rng.pick(&all).clone();
            let mg = at(&m.root, &p).clone();
            let g = lib_at_mut(&mut db, &p)?;
            look(c, &mg, g, &ids, &mut rng).map_err(|mut v| {
                v.msg = format!("after {}: {}", log.join("; "), v.msg);
                v
            })?;
            // the database's own searches start below its root
            let id = ids.pick(&mut rng);
            let (mut es, mut gs) = (Vec::new(), Vec::new());
            pre_entries(&m.root, &mut es);
            pre_groups(&m.root, &mut gs);
            let e = lib("find_entry", || db.find_entry(|e| *e.uuid().as_bytes() == id).map(model_entry))?;
            ensure!(e.as_ref() == es.iter().find(|e| e.uuid == id).copied(), "the database's find_entry gives another entry than the first match");
            let g = lib("find_group", || db.find_group(|g| *g.uuid().as_bytes() == id).map(model_group))?;
            ensure!(g.as_ref() == gs.iter().find(|g| g.uuid == id).copied(), "the database's find_group gives another group than the first match");
            if es.iter().filter(|e| e.uuid == id).count() > 1 {
                c.event("duplicate identifiers");
            }
        }
        if rng.chance(1, 15) {
            match aside.take() {
                None => {
                    let copy = lib("clone", || db.clone())?;
                    ensure!(copy == db, "clone of a database differs");
                    aside = Some((m.clone(), copy));
                }
                Some((am, ad)) => {
                    ensure!(model_db(&ad) == am, "a cloned database changed with the original");
                    c.event("clone kept apart");
                }
            }
        }
        c.distinct(&[format!("{:?}", m.root).as_bytes()]);
    }
    c.max("groups", paths(&m.root).len() as u64);
    c.sample(|| log.join("; "));
    Ok(())
}
