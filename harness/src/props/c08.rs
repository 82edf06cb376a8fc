use super::common::*;
use crate::attack;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::mon::{lib, memory, Case, MemUse, Prop, Verdict, Violation, DEFAULT};
use crate::rng::Rng;
use kdbx_rs::utils::NullStreamCipher;

pub static PROP: Prop = Prop {
    id: "C08",
    run,
    quick: 16_000,
    thorough: 400_000,
    rule: "distinct inputs whose memory use was measured",
    required: &[
        "claim: outer header field", "claim: v3 header field", "claim: parameter name", "claim: parameter value", "claim: v4 block", "claim: v3 block",
        "claim: inner header field", "claim: many blocks", "claim: length fields of compressed data", "bulk many entries", "bulk many attributes", "unlocked", "not unlocked",
        "not opened", "parsed", "repeated failures", "repeated attempts on one archive",
        "many wrong passwords", "one damaged archive", "many archives", "saved again and again", "data arriving slowly", "large file",
    ],
    assumptions: &[
        "allowed: 96 bytes per byte supplied or decompressed plus 3 MiB (the library needs at most about a third of the factor)",
        "memory is counted at the allocator, per thread",
    ],
    ..DEFAULT
};

const FACTOR: i64 = 96;
const ALLOWANCE: i64 = 3 << 20;

fn judge(c: &mut Case, what: &str, bytes: usize, m: MemUse) -> Verdict {
    let limit = FACTOR * bytes as i64 + ALLOWANCE;
    c.max("largest share of the allowed memory (permille)", (m.peak.max(0) * 1000 / limit) as u64);
    if bytes > 50_000 {
        c.max("bytes of memory per input byte", (m.peak.max(0) / bytes as i64) as u64);
    } else {
        c.max("peak for inputs up to 50 kB", m.peak.max(0) as u64);
    }
    ensure!(
        m.peak <= limit,
        "{what}: {bytes} bytes of data made memory use rise by {} bytes (largest single request {})",
        m.peak,
        m.largest
    );
    Ok(())
}

enum End {
    NotOpened,
    NotUnlocked,
    Unlocked,
}

fn go(data: &[u8], creds: &Creds) -> Result<End, Violation> {
    let key = creds.lib();
    lib("opening and unlocking", || match kdbx_rs::from_reader(data) {
        Err(_) => End::NotOpened,
        Ok(k) => {
            if !affordable(k.header()) {
                return End::NotOpened;
            }
            match k.unlock(&key) {
                Err(_) => End::NotUnlocked,
                Ok(_) => End::Unlocked,
            }
        }
    })
}

fn measure(c: &mut Case, what: &str, data: &[u8], plain: usize, creds: &Creds) -> Verdict {
    let (r, m) = memory(|| go(data, creds));
    match r.map_err(|v| v.with("file", data))? {
        End::NotOpened => c.event("not opened"),
        End::NotUnlocked => c.event("not unlocked"),
        End::Unlocked => c.event("unlocked"),
    }
    judge(c, what, data.len() + plain, m).map_err(|v| v.with("file", data))?;
    c.eval();
    c.distinct(&[data]);
    c.sample(|| format!("{what}: {} bytes supplied, {plain} more when decompressed: {m:?}", data.len()));
    Ok(())
}

fn big(rng: &mut Rng) -> u32 {
    *rng.pick(&[6_000_000u32, 16 << 20, 100_000_000, 1 << 28, 1 << 30, 0x7fff_fff0, 0x8000_0000, u32::MAX - 1, u32::MAX])
}

/// One length field claims far more than there is
fn claim(c: &mut Case, rng: &mut Rng) -> Verdict {
    let s = attack::cheap_settings(rng);
    let creds = gen::creds(rng);
    let m = gen::db(rng, &gen::SMALL);
    let mut st = inner_stream(s.inner, &s.inner_key);
    let xml = crate::xmlref::write(&m, crate::xmlref::PLAIN, rng.fork(), st.as_mut(), None).xml;
    let plain = xml.len() + 1000;
    let mut f = File4::plain(&s, &creds, xml.clone());
    let n = big(rng).to_le_bytes();
    let tail = {
        let k = *rng.pick(&[0usize, 1, 100, 5000, 70_000]);
        rng.bytes(k)
    };
    let (label, data) = match c.idx % 8 {
        0 => {
            // outer header field
            let mut h = f.header();
            h.truncate(12);
            let keep = rng.below(f.fields.len());
            let body: Vec<_> = f.fields[..keep].to_vec();
            h.extend_from_slice(&fields4(&body));
            h.push(*rng.pick(&[1u8, 2, 3, 4, 7, 11, 12, 0, 99]));
            h.extend_from_slice(&n);
            h.extend_from_slice(&tail);
            ("outer header field", h)
        }
        1 => {
            let s3 = settings3(rng);
            let f3 = File3::plain(&s3, &creds, [7; 32], xml);
            let mut h = f3.header();
            h.truncate(12);
            for _ in 0..rng.below(3) {
                h.extend_from_slice(&fields3(&[(1, rng.bytes(5))]));
            }
            h.push(*rng.pick(&[1u8, 2, 5, 8, 0]));
            h.extend_from_slice(&[0xff, 0xff]);
            h.extend_from_slice(&tail[..tail.len().min(60_000)]);
            ("v3 header field", h)
        }
        2 | 3 => {
            let value = c.idx % 8 == 3;
            let mut d = dict_bytes(0x100, &kdf_items(&s.kdf));
            d.pop();
            d.push(*rng.pick(&[0x42u8, 0x18, 4, 5, 8, 0x77]));
            if value {
                d.extend_from_slice(&1u32.to_le_bytes());
                d.push(b'S');
            }
            d.extend_from_slice(&n);
            d.extend_from_slice(&tail);
            for x in f.fields.iter_mut().filter(|x| x.0 == 11) {
                x.1 = d.clone();
            }
            (if value { "parameter value" } else { "parameter name" }, f.bytes(rng))
        }
        4 => {
            f.cuts = cuts(rng);
            let mut d = f.bytes(rng);
            let h = f.header().len() + 64;
            // some whole blocks, then the claim
            let mut p = h;
            for _ in 0..rng.below(4) {
                let len = u32::from_le_bytes(d[p + 32..p + 36].try_into().unwrap()) as usize;
                if len == 0 {
                    break;
                }
                p += 36 + len;
            }
            d[p + 32..p + 36].copy_from_slice(&n);
            if rng.chance(1, 2) {
                d.truncate(p + 36);
            }
            d.extend_from_slice(&tail);
            ("v4 block", d)
        }
        5 => {
            let s3 = Settings { kdf: attack::cheap_kdf(settings3(rng).kdf), ..settings3(rng) };
            let mut f3 = File3::plain(&s3, &creds, rng.bytes(32).try_into().unwrap(), xml);
            f3.cuts = cuts(rng);
            let z = if s3.gzip { gzip(&f3.xml, rng) } else { f3.xml.clone() };
            let mut b = f3.blocks(&z);
            b[36..40].copy_from_slice(&n);
            if rng.chance(1, 2) {
                b.truncate(40);
            }
            b.extend_from_slice(&tail);
            let mut p = f3.start.to_vec();
            p.extend_from_slice(&b);
            ("v3 block", f3.seal(&p))
        }
        6 => {
            let keep = rng.below(f.inner_fields.len());
            let mut p = fields4(&f.inner_fields[..keep]);
            p.push(*rng.pick(&[1u8, 2, 3, 3, 0, 77]));
            p.extend_from_slice(&n);
            p.extend_from_slice(&tail);
            let packed = if s.gzip { gzip(&p, rng) } else { p };
            ("inner header field", f.seal(&packed))
        }
        _ => {
            // sizes recorded inside the compressed data
            let mut z = gzip(&f.inner_plain(), rng);
            let k = z.len();
            match rng.below(3) {
                0 => z[k - 4..].copy_from_slice(&n),
                1 => {
                    // a stored block claiming 65535 bytes
                    z = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
                    z.extend_from_slice(&[0, 0xff, 0xff, 0, 0]);
                    z.extend_from_slice(&tail);
                }
                _ => {
                    // an extra field claiming 65535 bytes
                    z[3] |= 4;
                    z.splice(10..10, [0xff, 0xff]);
                }
            }
            for x in f.fields.iter_mut().filter(|x| x.0 == 3) {
                x.1 = vec![1, 0, 0, 0];
            }
            ("length fields of compressed data", f.seal(&z))
        }
    };
    c.event(format!("claim: {label}"));
    measure(c, label, &data, plain + tail.len(), &creds)
}

/// Many small pieces, each of which must not cost much
fn pieces(c: &mut Case, rng: &mut Rng) -> Verdict {
    let s = attack::cheap_settings(rng);
    let creds = gen::creds(rng);
    let mut f = File4::plain(&s, &creds, b"<KeePassFile><Root><Group/></Root></KeePassFile>".to_vec());
    let n = *rng.pick(&[2000usize, 8000, 20_000]);
    let label = match rng.below(4) {
        0 => {
            f.xml = [b"<KeePassFile><!--".to_vec(), vec![b'x'; n], b"--></KeePassFile>".to_vec()].concat();
            f.cuts = vec![1; n];
            "many blocks"
        }
        1 => {
            for i in 0..n {
                f.fields.insert(0, (200, vec![i as u8]));
            }
            "many header fields"
        }
        2 => {
            for i in 0..n {
                f.inner_fields.insert(0, (3, vec![i as u8]));
            }
            "many binaries"
        }
        _ => {
            let mut items = kdf_items(&s.kdf);
            for i in 0..n {
                items.push(item(8, &format!("{i}"), vec![1]));
            }
            for x in f.fields.iter_mut().filter(|x| x.0 == 11) {
                x.1 = dict_bytes(0x100, &items);
            }
            "many parameters"
        }
    };
    let data = f.bytes(rng);
    c.event(format!("claim: {label}"));
    let plain = f.inner_plain().len();
    measure(c, label, &data, plain, &creds)
}

fn bulk(c: &mut Case, rng: &mut Rng) -> Verdict {
    let n = *rng.pick(&[60_000usize, 130_000, 260_000]);
    let (label, xml) = attack::bulk(rng, c.idx as usize / 16, n);
    let (r, m) = memory(|| lib("parse_xml", || kdbx_rs::xml::parse_xml(xml.as_slice(), &mut NullStreamCipher).is_ok()));
    if r.map_err(|v| v.with("xml", &xml))? {
        c.event("parsed");
    }
    judge(c, label, xml.len(), m).map_err(|v| v.with("xml", &xml))?;
    c.event(format!("bulk {label}"));
    c.eval();
    c.distinct(&[&xml]);
    Ok(())
}

/// The same failing call over and over must not pile up memory
fn repeat(c: &mut Case, rng: &mut Rng) -> Verdict {
    const N: i64 = 12;
    let which = rng.below(attack::CLASSES);
    let a = attack::file(rng, which);
    let s = attack::cheap_settings(rng);
    let (l, xml) = attack::hostile_xml(rng, &s, false);
    let mut kept = 0;
    for round in 0..2 {
        let (r, m) = memory(|| -> Verdict {
            for _ in 0..N {
                go(&a.data, &a.creds)?;
                lib("parse_xml", || drop(kdbx_rs::xml::parse_xml(xml.as_slice(), &mut NullStreamCipher)))?;
            }
            Ok(())
        });
        r?;
        kept = m.kept;
        c.max(format!("bytes kept after round {round}"), kept.max(0) as u64);
    }
    ensure!(kept < N, "{} and {l}: {kept} bytes more in use after {N} further attempts", a.label);
    c.event("repeated failures");
    c.eval();
    c.distinct(&[&a.data, &xml]);
    Ok(())
}

/// Attempt after attempt, each with another password or another file
fn retry(c: &mut Case, rng: &mut Rng) -> Verdict {
    const N: i64 = 10;
    const ROUNDS: usize = 8;
    let s = attack::cheap_settings(rng);
    let creds = gen::creds(rng);
    let m = gen::db(rng, &gen::SMALL);
    let (f, mut data, _) = foreign4(&m, &s, &creds, rng);
    let which = rng.below(4);
    if which == 1 {
        let n = data.len();
        let p = rng.range(f.header().len() + 64, n - 1);
        data[p] ^= 1;
    }
    // something may be kept for a while, but not more and more of it
    let mut growing = 0;
    let mut total = 0;
    let mut k = Some(open(&data).map_err(|v| v.with("file", &data))?);
    for round in 0..ROUNDS {
        let mut kept = 0;
        for i in 0..N {
            let wrong = Creds { pw: Some(format!("\u{1}certainly not the password {round} {i}")), keyfile: None };
            let (r, m) = match which {
                // one archive, many wrong passwords
                0 => memory(|| -> Verdict {
                    let locked = k.take().unwrap();
                    match lib("unlock", || locked.unlock(&wrong.lib()))? {
                        Err(f) => k = Some(f.0),
                        Ok(_) => violate!("unlocked with the wrong password"),
                    }
                    Ok(())
                }),
                // one damaged archive, the right password
                1 => memory(|| -> Verdict {
                    let locked = k.take().unwrap();
                    match lib("unlock", || locked.unlock(&creds.lib()))? {
                        Err(f) => k = Some(f.0),
                        Ok(_) => violate!("unlocked although damaged"),
                    }
                    Ok(())
                }),
                // always another archive
                2 => {
                    let s = attack::cheap_settings(rng);
                    let (_, data, _) = foreign4(&m, &s, &creds, rng);
                    memory(|| go(&data, &creds).map(drop).map_err(|v| v.with("file", &data)))
                }
                // opened, saved and opened again
                _ => memory(|| -> Verdict {
                    let u = match open(&data)?.unlock(&creds.lib()) {
                        Ok(u) => u,
                        Err(e) => violate!("valid file could not be unlocked: {}", e.1),
                    };
                    let _ = try_save(&u)?;
                    Ok(())
                }),
            };
            r.map_err(|v| v.with("file", &data))?;
            kept += m.kept;
        }
        c.max("bytes kept after a round of attempts", kept.max(0) as u64);
        growing += usize::from(kept >= N);
        total += kept;
    }
    ensure!(growing < ROUNDS, "memory in use grew in each of {ROUNDS} rounds of {N} attempts, by {total} bytes together (kind {which})");
    c.event(["many wrong passwords", "one damaged archive", "many archives", "saved again and again"][which]);
    c.event("repeated attempts on one archive");
    c.eval();
    c.distinct(&[&data]);
    Ok(())
}

struct Slow<'a>(&'a [u8]);

impl std::io::Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn slow(c: &mut Case, rng: &mut Rng) -> Verdict {
    let a = attack::file(rng, 11);
    let (r, m) = memory(|| lib("from_reader", || kdbx_rs::from_reader(Slow(&a.data)).is_ok()));
    r.map_err(|v| v.with("file", &a.data))?;
    judge(c, "data arriving slowly", a.data.len(), m).map_err(|v| v.with("file", &a.data))?;
    c.event("data arriving slowly");
    c.eval();
    Ok(())
}

/// A valid file with much content
fn large(c: &mut Case, rng: &mut Rng) -> Verdict {
    let s = attack::cheap_settings(rng);
    let creds = gen::creds(rng);
    let m = match rng.below(3) {
        0 => gen::wide_db(rng, 600, 100),
        1 => {
            let mut m = gen::db(rng, &gen::SMALL);
            m.desc = gen::ascii(rng, 700_000);
            m
        }
        _ => gen::deep_db(rng, 150, 40),
    };
    let (f, data, _) = foreign4(&m, &s, &creds, rng);
    let plain = f.inner_plain().len();
    c.event("large file");
    measure(c, "large file", &data, plain, &creds)
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.clone();
    match c.idx / 8 % 8 {
        0..=2 => claim(c, &mut rng),
        3 => match c.idx % 8 {
            0 | 1 => pieces(c, &mut rng),
            2 => large(c, &mut rng),
            3 | 4 => retry(c, &mut rng),
            _ => claim(c, &mut rng),
        },
        4 => bulk(c, &mut rng),
        5 => {
            let which = rng.below(attack::CLASSES);
            let a = attack::file(&mut rng, which);
            measure(c, &a.label, &a.data, a.plain, &a.creds)
        }
        6 => repeat(c, &mut rng),
        _ => slow(c, &mut rng),
    }
}
