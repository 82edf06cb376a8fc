use super::common::*;
use crate::container::*;
use crate::gen;
use crate::model::*;
use crate::mon::{Case, Prop, Verdict, Violation, DEFAULT};
use crate::rng::Rng;

pub static PROP: Prop = Prop {
    id: "C05",
    run,
    quick: 200,
    thorough: 12_000,
    rule: "distinct damaged files whose unlocking with the correct key was judged",
    level: "fault_enumeration",
    required: &[
        "v4 refused on opening", "v4 refused on unlocking", "v3 refused on opening", "v3 refused on unlocking", "flip in header", "flip in payload",
        "truncation", "block removed", "blocks swapped", "header changed and its hash recomputed", "insertion", "deletion", "splice of another file's header", "hash blanked", "hash taken from another place",
    ],
    assumptions: &["damage that announces an expensive key derivation is not attempted", "damage is not made with knowledge of the key, nor by splicing blocks of a file with the same master seed and key"],
    ..DEFAULT
};

fn small(rng: &mut Rng) -> MDb {
    let mut t = gen::VALID;
    t.long = false;
    gen::db(rng, &gen::Shape { text: t, max_entries: 2, max_groups: 1, max_fields: 3, max_depth: 2, ..gen::SMALL })
}

struct Target {
    v4: bool,
    creds: gen::Creds,
    orig: Vec<u8>,
    model: MDb,
}

fn judge(c: &mut Case, t: &Target, what: &str, data: &[u8]) -> Verdict {
    if data == t.orig || (t.v4 && data.len() > t.orig.len() && data[..t.orig.len()] == t.orig[..]) {
        return Ok(());
    }
    let v = if t.v4 { "v4" } else { "v3" };
    if let Ok(k) = try_open(data).map_err(|v| v.with("file", data))? {
        if !affordable(k.header()) {
            c.event("not attempted: damage made the key derivation expensive");
            return Ok(());
        }
    }
    match attempt(data, &t.creds).map_err(|v| v.with("file", data))? {
        Opened::NotOpened(_) => c.event(format!("{v} refused on opening")),
        Opened::NotUnlocked(k, _) => {
            c.event(format!("{v} refused on unlocking"));
            ensure!(k.major_version() == if t.v4 { 4 } else { 3 }, "the archive handed back with the error is another one");
        }
        Opened::Yes(u) => {
            if t.v4 {
                return Err(Violation::new(format!("damaged KDBX 4 file unlocked: {what}")).with("damaged", data).with("original", &t.orig));
            }
            if let Some(d) = diff_db(&t.model, &model_db(u.database())) {
                return Err(Violation::new(format!("damaged KDBX 3 file unlocked with other content: {what}: {d}")).with("damaged", data).with("original", &t.orig));
            }
            c.event("v3 unlocked with the original content");
        }
    }
    c.event(what.split(" at ").next().unwrap_or(what).to_string());
    c.eval();
    c.distinct(&[data]);
    Ok(())
}

/// Parse the offsets of header fields: (field start, data start, data end)
fn field_spans(d: &[u8], v4: bool) -> Vec<(usize, usize, usize)> {
    let mut out = Vec::new();
    let mut p = 12;
    let l = if v4 { 4 } else { 2 };
    loop {
        let id = d[p];
        let n = if v4 { u32::from_le_bytes(d[p + 1..p + 5].try_into().unwrap()) as usize } else { u16::from_le_bytes(d[p + 1..p + 3].try_into().unwrap()) as usize };
        let s = p + 1 + l;
        out.push((p, s, s + n));
        p = s + n;
        if id == 0 {
            return out;
        }
    }
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.clone();
    let v4 = c.idx % 3 != 2;
    let m = small(&mut rng);
    let creds = gen::creds(&mut rng);
    let mut s = if v4 { gen::settings(&mut rng) } else { settings3(&mut rng) };
    s.kdf = match s.kdf {
        Kdf::Aes { salt, .. } => Kdf::Aes { rounds: 2, salt },
        Kdf::Argon2 { id, salt, version, .. } => Kdf::Argon2 { id, salt, version, memory: 8192, iterations: 1, lanes: 1 },
    };
    let from_lib = v4 && rng.chance(1, 4);
    let orig = if from_lib {
        save(&archive(lib_db(&m), &s, &creds)?)?
    } else if v4 {
        let (mut f, mut b, _) = foreign4(&m, &s, &creds, &mut rng);
        if b.len() > 12_000 || f.cuts.first() == Some(&1) {
            f.inner_fields = std_inner4(&s);
            f.inner_fields.push((0, vec![]));
            f.fields.retain(|x| x.1.len() < 1000);
            f.cuts = vec![rng.range(100, 700); 100];
            b = f.bytes(&mut rng);
        }
        b
    } else {
        // every header byte is changed in turn, so it has to be short
        loop {
            let b = foreign3(&m, &s, &creds, &mut rng, true).1;
            if b.len() < 12_000 {
                break b;
            }
        }
    };
    let t = Target { v4, creds, orig, model: m };
    // the undamaged file opens
    let u = unlock(&t.orig, &t.creds)?;
    ensure!(diff_db(&t.model, &model_db(u.database())).is_none(), "undamaged file read wrong");
    let n = t.orig.len();
    let spans = field_spans(&t.orig, v4);
    let hdr = spans.last().unwrap().2;
    c.max("file bytes", n as u64);
    c.sample(|| format!("v{} {} bytes, header {hdr}, {}", if v4 { 4 } else { 3 }, n, s.class()));

    // every byte of header and hashes, and of the payload up to a bound
    let budget = if c.thorough { 6000 } else { 2500 };
    let step = (n / budget).max(1);
    let mut i = if step > 1 { rng.below(step) } else { 0 };
    while i < n {
        let mut d = t.orig.clone();
        let x = match rng.below(4) {
            0 => 0x01,
            1 => 0x80,
            2 => 1 << rng.below(8),
            _ => rng.range(1, 255) as u8,
        };
        d[i] ^= x;
        judge(c, &t, &format!("flip in {} at {i} (xor {x:#x})", if i < hdr { "header" } else { "payload" }), &d)?;
        i += if i < hdr + 100 { 1 } else { step };
    }
    // cut-off tails
    let mut cut = n - 1;
    let mut k = 0;
    loop {
        judge(c, &t, &format!("truncation at {cut}"), &t.orig[..cut])?;
        k += 1;
        let back = if k < 120 { 1 } else { rng.range(1, 60) };
        if cut < back {
            break;
        }
        cut -= back;
    }
    // insertions, deletions, moves, overwrites
    for _ in 0..200 {
        let mut d = t.orig.clone();
        let p = rng.below(n);
        let what = match rng.below(5) {
            0 => {
                let b = if rng.chance(1, 2) { vec![0u8] } else { let k = rng.range(1, 40); rng.bytes(k) };
                d.splice(p..p, b);
                "insertion"
            }
            1 => {
                let e = (p + rng.range(1, 40)).min(n);
                d.drain(p..e);
                "deletion"
            }
            2 => {
                let e = (p + rng.range(1, 64)).min(n);
                let part: Vec<u8> = d.drain(p..e).collect();
                let q = rng.below(d.len() + 1);
                d.splice(q..q, part);
                "move"
            }
            3 => {
                let e = (p + rng.range(1, 64)).min(n);
                let v = *rng.pick(&[0u8, 0xff]);
                d[p..e].fill(v);
                "overwrite"
            }
            _ => {
                let e = (p + rng.range(1, 64)).min(n);
                let part = d[p..e].to_vec();
                d.splice(p..p, part);
                "repetition"
            }
        };
        judge(c, &t, &format!("{what} at {p}"), &d)?;
    }
    // swap of 16 byte units (cipher blocks)
    for _ in 0..60 {
        if n - hdr < 64 {
            break;
        }
        let mut d = t.orig.clone();
        let units = (n - hdr) / 16;
        let (a, b) = (rng.below(units), rng.below(units));
        for j in 0..16 {
            d.swap(hdr + a * 16 + j, hdr + b * 16 + j);
        }
        judge(c, &t, &format!("cipher blocks swapped at {a} and {b}"), &d)?;
    }
    // changes of whole header fields
    for fi in 0..spans.len() {
        let (a, ds, e) = spans[fi];
        let mut variants: Vec<(&str, Vec<u8>)> = Vec::new();
        let mut d = t.orig.clone();
        d.drain(a..e);
        variants.push(("header field removed", d));
        let mut d = t.orig.clone();
        let dup = d[a..e].to_vec();
        d.splice(e..e, dup);
        variants.push(("header field repeated", d));
        if e > ds {
            let mut d = t.orig.clone();
            let p = rng.range(ds, e - 1);
            d[p] ^= 1 << rng.below(8);
            variants.push(("header field changed", d));
            let mut d = t.orig.clone();
            d[ds..e].fill(*rng.pick(&[0u8, 0xff]));
            variants.push(("header field blanked", d));
        }
        if fi + 1 < spans.len() - 1 {
            let mut d = t.orig[..a].to_vec();
            let nx = spans[fi + 1];
            d.extend_from_slice(&t.orig[nx.0..nx.2]);
            d.extend_from_slice(&t.orig[a..e]);
            d.extend_from_slice(&t.orig[nx.2..]);
            variants.push(("header fields reordered", d));
        }
        let mut d = t.orig.clone();
        let mut x = vec![0xEEu8];
        x.extend_from_slice(if v4 { &[2, 0, 0, 0, 7, 7][..] } else { &[2, 0, 7, 7][..] });
        d.splice(a..a, x);
        variants.push(("header field added", d));
        for (what, d) in variants {
            judge(c, &t, &format!("{what} at {a}"), &d)?;
            if v4 {
                // an attacker can recompute the plain hash
                if let Some(h2) = header_end(&d) {
                    let mut d2 = d.clone();
                    if d2.len() >= h2 + 32 {
                        let h = sha256(&d2[..h2]);
                        d2[h2..h2 + 32].copy_from_slice(&h);
                        judge(c, &t, &format!("header changed and its hash recomputed at {a} ({what})"), &d2)?;
                    }
                }
            }
        }
    }
    if v4 {
        // versions are covered by the header hash and HMAC as well
        for minor in [1u16, 2, 0x100] {
            let mut d = t.orig.clone();
            let v = u16::from_le_bytes([d[8], d[9]]) ^ minor;
            d[8..10].copy_from_slice(&v.to_le_bytes());
            let h = sha256(&d[..hdr]);
            d[hdr..hdr + 32].copy_from_slice(&h);
            judge(c, &t, "version changed", &d)?;
        }
        blocks4(c, &t, hdr, &mut rng, &s)?;
    } else {
        blocks3(c, &t, hdr, &mut rng, &s)?;
    }
    Ok(())
}

fn header_end(d: &[u8]) -> Option<usize> {
    let mut p = 12;
    loop {
        let id = *d.get(p)?;
        let n = u32::from_le_bytes(d.get(p + 1..p + 5)?.try_into().ok()?) as usize;
        p = p.checked_add(5 + n)?;
        if p > d.len() {
            return None;
        }
        if id == 0 {
            return Some(p);
        }
    }
}

fn blocks4(c: &mut Case, t: &Target, hdr: usize, rng: &mut Rng, s: &Settings) -> Verdict {
    let mut starts = Vec::new();
    let mut p = hdr + 64;
    loop {
        let n = u32::from_le_bytes(t.orig[p + 32..p + 36].try_into().unwrap()) as usize;
        starts.push((p, p + 36 + n));
        p += 36 + n;
        if n == 0 {
            break;
        }
    }
    let head = &t.orig[..hdr + 64];
    let build = |order: &[usize]| {
        let mut d = head.to_vec();
        for i in order {
            d.extend_from_slice(&t.orig[starts[*i].0..starts[*i].1]);
        }
        d
    };
    // hashes and codes blanked, or taken from another place
    let mut sums = vec![hdr, hdr + 32];
    sums.extend(starts.iter().map(|b| b.0).take(12));
    sums.extend(starts.last().map(|b| b.0));
    for at in &sums {
        for v in [0u8, 0xff] {
            let mut d = t.orig.clone();
            d[*at..*at + 32].fill(v);
            judge(c, t, &format!("hash blanked at {at} ({v:#x})"), &d)?;
        }
        let from = *rng.pick(&sums);
        let mut d = t.orig.clone();
        d.copy_within(from..from + 32, *at);
        judge(c, t, &format!("hash taken from another place at {at} from {from}"), &d)?;
        let mut d = t.orig.clone();
        let part = rng.range(1, 31);
        if rng.chance(1, 2) {
            d[*at..*at + part].fill(0);
        } else {
            d[*at + part..*at + 32].fill(0);
        }
        judge(c, t, &format!("part of a hash blanked at {at} ({part})"), &d)?;
    }
    let all: Vec<usize> = (0..starts.len()).collect();
    for _ in 0..20 {
        let i = rng.below(all.len());
        let mut o = all.clone();
        o.remove(i);
        judge(c, t, &format!("block removed at {i}"), &build(&o))?;
        let mut o = all.clone();
        o.insert(i, i);
        judge(c, t, &format!("block repeated at {i}"), &build(&o))?;
        if all.len() > 2 {
            let j = rng.below(all.len());
            let mut o = all.clone();
            o.swap(i, j);
            judge(c, t, &format!("blocks swapped at {i} and {j}"), &build(&o))?;
        }
        // end marker moved forward: everything after it is dropped
        let mut o = all[..i].to_vec();
        o.push(all.len() - 1);
        judge(c, t, &format!("blocks dropped before the end marker at {i}"), &build(&o))?;
    }
    // an empty end marker without a valid code, and none at all
    let mut d = build(&all[..all.len() - 1]);
    judge(c, t, "end marker missing", &d)?;
    d.extend_from_slice(&[0; 36]);
    judge(c, t, "end marker forged", &d)?;
    for i in 0..all.len().min(12) {
        // a forged end marker after each block
        let mut d = build(&all[..i]);
        d.extend_from_slice(&[0; 36]);
        judge(c, t, &format!("forged end marker at {i}"), &d)?;
    }
    // blocks and header of another file with the same credentials
    let mut s2 = s.clone();
    s2.seed = rng.bytes(32);
    let other = File4::plain(&s2, &t.creds, b"<KeePassFile><Meta/><Root><Group/></Root></KeePassFile>".to_vec()).bytes(rng);
    let h2 = header_end(&other).unwrap();
    let mut d = head.to_vec();
    d.extend_from_slice(&other[h2 + 64..]);
    judge(c, t, "splice of another file's blocks", &d)?;
    let mut d = other[..h2 + 64].to_vec();
    d.extend_from_slice(&t.orig[hdr + 64..]);
    judge(c, t, "splice of another file's header", &d)?;
    let mut d = t.orig[..hdr + 32].to_vec();
    d.extend_from_slice(&other[h2 + 32..h2 + 64]);
    d.extend_from_slice(&t.orig[hdr + 64..]);
    judge(c, t, "splice of another file's header code", &d)?;
    // all codes blanked
    let mut d = t.orig.clone();
    d[hdr + 32..hdr + 64].fill(0);
    judge(c, t, "header code blanked", &d)?;
    for (a, _) in starts.iter().take(30) {
        let mut d = t.orig.clone();
        d[*a..*a + 32].fill(0);
        judge(c, t, &format!("block code blanked at {a}"), &d)?;
        let mut d = t.orig.clone();
        let i = rng.below(4);
        d[*a + 32 + i] ^= 1 << rng.below(8);
        judge(c, t, &format!("block length changed at {a}"), &d)?;
    }
    // merge two blocks into one, split one into two
    if starts.len() > 3 {
        let mut d = t.orig.clone();
        let n0 = starts[0].1 - starts[0].0 - 36;
        let n1 = starts[1].1 - starts[1].0 - 36;
        d[starts[0].0 + 32..starts[0].0 + 36].copy_from_slice(&((n0 + n1) as u32).to_le_bytes());
        d.drain(starts[1].0..starts[1].0 + 36);
        judge(c, t, "blocks merged", &d)?;
    }
    Ok(())
}

fn blocks3(c: &mut Case, t: &Target, hdr: usize, rng: &mut Rng, s: &Settings) -> Verdict {
    // rearranged plain blocks can only be made with the key, so they are outside the statement
    // except for what cutting cipher blocks can achieve
    let units = (t.orig.len() - hdr) / 16;
    for i in 0..units.min(200) {
        let mut d = t.orig.clone();
        d.drain(hdr + i * 16..hdr + i * 16 + 16);
        judge(c, t, &format!("cipher block removed at {i}"), &d)?;
        let mut d = t.orig.clone();
        let b = d[hdr + i * 16..hdr + i * 16 + 16].to_vec();
        d.splice(hdr + i * 16..hdr + i * 16, b);
        judge(c, t, &format!("cipher block repeated at {i}"), &d)?;
    }
    // another file with the same credentials
    let mut s2 = s.clone();
    s2.seed = rng.bytes(32);
    let start: [u8; 32] = rng.bytes(32).try_into().unwrap();
    let f2 = File3::plain(&s2, &t.creds, start, b"<KeePassFile><Meta/><Root><Group/></Root></KeePassFile>".to_vec());
    let other = f2.bytes(rng);
    let h2 = f2.header().len();
    let mut d = t.orig[..hdr].to_vec();
    d.extend_from_slice(&other[h2..]);
    judge(c, t, "splice of another file's payload", &d)?;
    let mut d = other[..h2].to_vec();
    d.extend_from_slice(&t.orig[hdr..]);
    judge(c, t, "splice of another file's header", &d)?;
    // block removed, blocks swapped events are about v4; keep v3 header replacement in view
    Ok(())
}
