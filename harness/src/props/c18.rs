use super::common::*;
use crate::container::*;
use crate::gen::{self, Creds};
use crate::model::*;
use crate::mon::{lib, Case, Prop, Verdict, Violation, DEFAULT};
use crate::rng::Rng;
use kdbx_rs::binary::KdfParams;
use std::ffi::OsStr;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};

pub static PROP: Prop = Prop {
    id: "C18",
    run,
    quick: 1_600,
    thorough: 30_000,
    rule: "distinct runs of the tools (tool, file and arguments) whose output and exit status were judged",
    required: &[
        "decrypt v4", "decrypt v3", "parse v4", "parse v3", "header v4", "header v3", "header of an unsupported file", "header of an expensive file", "generate", "generate over an existing file", "wrong password", "empty password", "damaged file", "truncated file",
        "missing file", "directory", "not a KeePass file", "empty file", "no arguments", "default password", "unusual file name", "password with unusual characters",
    ],
    assumptions: &["arguments are valid UTF-8 without NUL", "the working directory of the generate tool is writable"],
    ..DEFAULT
};

pub fn tool(name: &str) -> PathBuf {
    let base = std::env::var("KDBXMON_BASE").unwrap_or_else(|_| "/verif".into());
    Path::new(&base).join("target/cli/release").join(name)
}

fn exec(name: &str, args: &[&OsStr], cwd: &Path) -> Output {
    let mut c = Command::new(tool(name));
    c.args(args).current_dir(cwd).stdin(Stdio::null()).env_remove("RUST_BACKTRACE");
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 100, rlim_max: 100 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    }
    c.output().unwrap_or_else(|e| panic!("can not run {name}: {e}"))
}

fn show(o: &Output) -> String {
    let s = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned();
    format!("{:?}, output {:?}, messages {:?}", o.status, s(&o.stdout), s(&o.stderr))
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.len() >= needle.len() && hay.windows(needle.len()).any(|w| w == needle)
}

/// A failure must be a clean one, and must not show any of the content
fn failed(c: &mut Case, what: &'static str, name: &str, o: &Output, secrets: &[String]) -> Verdict {
    c.eval();
    ensure!(o.status.signal().is_none(), "{name}, {what}: ended by a signal, {}", show(o));
    ensure!(o.status.code() != Some(0), "{name}, {what}: reported success, {}", show(o));
    ensure!(o.status.code() != Some(101) && !contains(&o.stderr, b"panicked at"), "{name}, {what}: panicked, {}", show(o));
    ensure!(!o.stderr.is_empty(), "{name}, {what}: no message");
    for s in secrets {
        ensure!(!contains(&o.stdout, s.as_bytes()) && !contains(&o.stderr, s.as_bytes()), "{name}, {what}: printed content of the database, {}", show(o));
    }
    c.event(what);
    Ok(())
}

fn ok(name: &str, o: &Output) -> Verdict {
    ensure!(o.status.code() == Some(0), "{name} failed on a good file: {}", show(o));
    Ok(())
}

fn line<'a>(out: &'a str, label: &str) -> Res<&'a str> {
    match out.lines().find_map(|l| l.trim().strip_prefix(label)) {
        Some(r) => Ok(r.trim()),
        None => violate!("header tool prints no \"{label}\": {out}"),
    }
}

/// What the header tool printed against the settings the file was made with
fn header(out: &[u8], major: u16, minor: u16, cipher: &str, compression: &str, kdf: Option<&Kdf>, seed: &[u8], iv: &[u8]) -> Verdict {
    let out = String::from_utf8_lossy(out);
    let same = |label: &str, want: &str| -> Verdict {
        let got = line(&out, label)?;
        ensure!(got == want, "header tool prints {label} {got} instead of {want}");
        Ok(())
    };
    same("Version:", &format!("{major}.{minor}"))?;
    same("Cipher:", cipher)?;
    same("Compression:", compression)?;
    same("Master Seed:", &format!("{seed:?}"))?;
    same("Encryption IV:", &format!("{iv:?}"))?;
    match kdf {
        None => (),
        Some(Kdf::Aes { rounds, salt }) => {
            same("KDF:", "AES")?;
            same("Rounds:", &rounds.to_string())?;
            same("Salt:", &format!("{salt:?}"))?;
        }
        Some(Kdf::Argon2 { id, memory, iterations, lanes, version, salt }) => {
            same("KDF:", "Argon2")?;
            same("Variant:", if *id { "Argon2id" } else { "Argon2d" })?;
            same("Version:", &format!("{major}.{minor}"))?;
            ensure!(out.lines().any(|l| l.trim() == format!("Version: {version}")), "header tool does not print the Argon2 version {version}");
            same("Lanes:", &lanes.to_string())?;
            let m = line(&out, "Memory:")?;
            ensure!(m.starts_with(&format!("{memory} ")), "header tool prints memory {m} instead of {memory}");
            same("Iterations:", &iterations.to_string())?;
            same("Salt:", &format!("{salt:?}"))?;
        }
    }
    Ok(())
}

fn listing(dir: &Path) -> Vec<(String, u64, i64, u32)> {
    use std::os::unix::fs::MetadataExt;
    let mut v: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| {
            let e = e.unwrap();
            let m = e.metadata().unwrap();
            (e.file_name().to_string_lossy().into_owned(), m.len(), m.mtime_nsec() ^ m.mtime(), m.mode())
        })
        .collect();
    v.sort();
    v
}

fn password(rng: &mut Rng) -> String {
    match rng.below(7) {
        0 => String::new(),
        1 => (*rng.pick(&["-", "--", "-h", "--help", " ", "a b", "'\"", "\\", "\n", "*", "$HOME"])).to_string(),
        2 => "kdbxrs".into(),
        _ => gen::text(rng, gen::TextOpts { long: false, ..gen::ANY }).replace('\0', "0"),
    }
}

/// A database whose texts are all recognisable
fn marked(rng: &mut Rng) -> (MDb, Vec<String>) {
    let mut m = varied_db(rng, gen::TextOpts { long: false, ..gen::VALID });
    let mut secrets = Vec::new();
    let mut token = |rng: &mut Rng| {
        let t = format!("Zq{}", rng.bytes(8).iter().map(|b| format!("{b:02x}")).collect::<String>());
        secrets.push(t.clone());
        t
    };
    m.name = token(rng);
    m.root.name = token(rng);
    let mut e = gen::entry(rng, &gen::Shape { text: gen::VALID, ..gen::SMALL }, 0);
    e.fields = vec![
        MField { key: "Title".into(), value: token(rng), protected: false },
        MField { key: "Password".into(), value: token(rng), protected: true },
        MField { key: token(rng), value: token(rng), protected: rng.chance(1, 2) },
    ];
    m.root.entries.insert(0, e);
    (m, secrets)
}

fn run(c: &mut Case) -> Verdict {
    let mut rng = c.rng.fork();
    let dir = c.dir.join(format!("c18-{}", c.idx));
    std::fs::create_dir_all(&dir).unwrap();
    let r = session(c, &mut rng, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn session(c: &mut Case, rng: &mut Rng, dir: &Path) -> Verdict {
    if c.idx % 100 == 0 {
        generate(c, rng, dir)?;
    }
    if c.idx % 20 == 1 {
        arguments(c, dir)?;
    }
    let (m, secrets) = marked(rng);
    let pw = password(rng);
    let creds = Creds { pw: Some(pw.clone()), keyfile: None };
    let v3 = rng.chance(1, 3);
    let s = if v3 { settings3(rng) } else { gen::settings(rng) };
    let (data, xml, minor) = if v3 {
        let (f, d, w) = foreign3(&m, &s, &creds, rng, true);
        (d, w.xml, f.minor)
    } else {
        let (f, d, w) = foreign4(&m, &s, &creds, rng);
        (d, w.xml, f.minor)
    };
    let name = *rng.pick(&["a.kdbx", "with space.kdbx", "-dash.kdbx", "\u{fc}n\u{ef}.kdbx", "no-extension", "'q\".kdbx"]);
    let path = dir.join(name);
    std::fs::write(&path, &data).unwrap();
    let before = listing(dir);
    // by its full path, or by name from its directory
    let arg: PathBuf = if rng.chance(1, 2) || name.starts_with('-') { path.clone() } else { name.into() };
    if name != "a.kdbx" {
        c.event("unusual file name");
    }
    if pw.is_empty() {
        c.event("empty password");
    } else if !pw.chars().all(|c| c.is_ascii_alphanumeric()) {
        c.event("password with unusual characters");
    }
    let f = arg.as_os_str();
    let p = OsStr::new(&pw);
    let note = |c: &mut Case, tool: &str, extra: &[u8]| c.distinct(&[tool.as_bytes(), &data, pw.as_bytes(), extra]);

    let o = exec("kdbx-decrypt", &[f, p], dir);
    ok("kdbx-decrypt", &o)?;
    let mut want = xml.clone();
    want.push(b'\n');
    if o.stdout != want {
        return Err(Violation::new(format!("kdbx-decrypt printed {} bytes instead of the {} of the XML and a line end", o.stdout.len(), want.len())).with("printed", &o.stdout).with("xml", &xml));
    }
    c.event(if v3 { "decrypt v3" } else { "decrypt v4" });
    c.eval();
    note(c, "decrypt", &[]);

    let o = exec("kdbx-parse", &[f, p], dir);
    ok("kdbx-parse", &o)?;
    let u = unlock(&data, &creds)?;
    let want = lib("formatting the database", || format!("{:#?}\n", u.database()))?;
    ensure!(o.stdout == want.as_bytes(), "kdbx-parse printed {} bytes instead of the {} of the parsed database", o.stdout.len(), want.len());
    for t in &secrets {
        ensure!(contains(&o.stdout, t.as_bytes()), "kdbx-parse does not show {t}, which is in the database");
    }
    c.event(if v3 { "parse v3" } else { "parse v4" });
    c.eval();
    note(c, "parse", &[]);

    let o = exec("kdbx-dump-header", &[f], dir);
    ok("kdbx-dump-header", &o)?;
    header(&o.stdout, if v3 { 3 } else { 4 }, minor, &format!("{:?}", s.cipher.lib()), if s.gzip { "Gzip" } else { "None" }, Some(&s.kdf), &s.seed, &s.iv)?;
    for t in &secrets {
        ensure!(!contains(&o.stdout, t.as_bytes()), "kdbx-dump-header shows content of the database");
    }
    c.event(if v3 { "header v3" } else { "header v4" });
    c.eval();
    note(c, "header", &[]);

    // a wrong password; the header tool needs none
    let mut other = password(rng);
    if other == pw {
        other.push('!');
    }
    for t in ["kdbx-decrypt", "kdbx-parse"] {
        let o = exec(t, &[f, OsStr::new(&other)], dir);
        failed(c, "wrong password", t, &o, &secrets)?;
        note(c, t, other.as_bytes());
    }
    // no password: the default applies
    let t = *rng.pick(&["kdbx-decrypt", "kdbx-parse"]);
    let o = exec(t, &[f], dir);
    if pw == "kdbxrs" {
        if o.status.code() == Some(0) {
            let shown = if t == "kdbx-decrypt" { contains(&o.stdout, &xml) } else { o.stdout == want.as_bytes() };
            ensure!(shown, "{t} with the default password reports success and does not show the database: {}", show(&o));
        }
        c.event("default password");
    } else {
        failed(c, "wrong password", t, &o, &secrets)?;
    }
    ensure!(listing(dir) == before && std::fs::read(&path).unwrap() == data, "the tools changed their input file or its directory");

    // damage
    let mut bad = data.clone();
    let what = match rng.below(3) {
        0 => {
            let n = rng.range(1, data.len() - 1);
            bad.truncate(data.len() - n);
            "truncated file"
        }
        1 => {
            // the last bytes: everything before them is in order
            let n = if v3 { 17 } else { 1 };
            bad.truncate(data.len() - n);
            "truncated file"
        }
        _ => {
            let lo = if v3 { 12 } else { 0 };
            let i = rng.range(lo, data.len() - 1);
            bad[i] ^= 1 << rng.below(8);
            "damaged file"
        }
    };
    let bp = dir.join("bad");
    std::fs::write(&bp, &bad).unwrap();
    let cheap = match try_open(&bad)? {
        Ok(k) => affordable(k.header()),
        Err(_) => true,
    };
    if cheap {
        for t in ["kdbx-decrypt", "kdbx-parse"] {
            let o = exec(t, &[bp.as_os_str(), p], dir);
            // the end of a KDBX 3.1 file can change without changing its content
            let whole = if t == "kdbx-decrypt" { o.stdout.strip_suffix(b"\n") == Some(&xml) } else { o.stdout == want.as_bytes() };
            if v3 && o.status.code() == Some(0) && whole {
                c.event("harmless damage");
            } else {
                failed(c, what, t, &o, &secrets)?;
            }
            note(c, t, &bad[bad.len() / 2..]);
        }
    }
    let o = exec("kdbx-dump-header", &[bp.as_os_str()], dir);
    match try_open(&bad)? {
        Ok(_) => ok("kdbx-dump-header", &o)?,
        Err(_) => failed(c, what, "kdbx-dump-header", &o, &secrets)?,
    }
    ensure!(std::fs::read(&bp).unwrap() == bad, "the tools changed their input file");

    if !v3 && c.idx % 4 == 0 {
        unsupported(c, rng, &m, &creds, dir)?;
    }
    c.sample(|| format!("{name:?}, password {pw:?}, {}", s.class()));
    Ok(())
}

/// Files the library can not unlock still have a header to show
fn unsupported(c: &mut Case, rng: &mut Rng, m: &MDb, creds: &Creds, dir: &Path) -> Verdict {
    let s = gen::settings(rng);
    let (mut f, _, _) = foreign4(m, &s, creds, rng);
    let u = gen::uuid(rng);
    let how = rng.below(4);
    let mut kdf = s.kdf.clone();
    match how {
        0 => f.fields.iter_mut().filter(|x| x.0 == 2).for_each(|x| x.1 = u.to_vec()),
        1 => f.fields.iter_mut().filter(|x| x.0 == 3).for_each(|x| x.1 = 7u32.to_le_bytes().to_vec()),
        2 => {
            // more work than anyone would wait for; only the header is shown
            let many = 1u64 << rng.range(32, 62) | rng.u32() as u64;
            match &mut kdf {
                Kdf::Aes { rounds, .. } => *rounds = many,
                Kdf::Argon2 { iterations, memory, .. } => {
                    *iterations = many;
                    if rng.chance(1, 2) {
                        *memory = many;
                    }
                }
            }
            f.fields.iter_mut().filter(|x| x.0 == 11).for_each(|x| x.1 = dict_bytes(0x0100, &kdf_items(&kdf)));
            c.event("header of an expensive file");
        }
        _ => f.fields.iter_mut().filter(|x| x.0 == 11).for_each(|x| x.1 = dict_bytes(0x0100, &[item(0x42, "$UUID", u.to_vec()), item(0x18, "p", b"q".to_vec())])),
    }
    let data = f.bytes(rng);
    let p = dir.join("unsupported");
    std::fs::write(&p, &data).unwrap();
    let o = exec("kdbx-dump-header", &[p.as_os_str()], dir);
    ok("kdbx-dump-header", &o)?;
    let id = uuid::Uuid::from_bytes(u);
    let cipher = if how == 0 { format!("{:?}", kdbx_rs::binary::Cipher::Unknown(id)) } else { format!("{:?}", s.cipher.lib()) };
    let compression = match how {
        1 => format!("{:?}", kdbx_rs::binary::CompressionType::Unknown(7)),
        _ => (if s.gzip { "Gzip" } else { "None" }).to_string(),
    };
    header(&o.stdout, 4, f.minor, &cipher, &compression, if how == 3 { None } else { Some(&kdf) }, &s.seed, &s.iv)?;
    if how == 3 {
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        ensure!(out.contains(&id.to_string()), "header tool does not show the identifier {id}: {out}");
        let k = open(&data)?;
        ensure!(matches!(k.header().kdf_params, KdfParams::Unknown { .. }), "unknown key derivation reported as {:?}", k.header().kdf_params);
    }
    c.event("header of an unsupported file");
    c.eval();
    if how == 2 {
        return Ok(());
    }
    for t in ["kdbx-decrypt", "kdbx-parse"] {
        let o = exec(t, &[p.as_os_str(), OsStr::new(creds.pw.as_ref().unwrap())], dir);
        failed(c, "unsupported file", t, &o, &[])?;
    }
    Ok(())
}

fn arguments(c: &mut Case, dir: &Path) -> Verdict {
    let text = dir.join("text");
    std::fs::write(&text, "not a database\n").unwrap();
    let empty = dir.join("empty");
    std::fs::write(&empty, "").unwrap();
    let gone = dir.join("gone");
    for t in ["kdbx-decrypt", "kdbx-parse", "kdbx-dump-header"] {
        failed(c, "no arguments", t, &exec(t, &[], dir), &[])?;
        for (what, p) in [("missing file", gone.as_path()), ("directory", dir), ("not a KeePass file", &text), ("empty file", &empty)] {
            failed(c, what, t, &exec(t, &[p.as_os_str(), OsStr::new("x")], dir), &[])?;
            failed(c, what, t, &exec(t, &[p.as_os_str()], dir), &[])?;
            c.distinct(&[t.as_bytes(), what.as_bytes()]);
        }
        failed(c, "missing file", t, &exec(t, &[OsStr::new("")], dir), &[])?;
    }
    std::fs::remove_file(&text).unwrap();
    std::fs::remove_file(&empty).unwrap();
    Ok(())
}

fn generate(c: &mut Case, rng: &mut Rng, dir: &Path) -> Verdict {
    let d = dir.join("gen");
    std::fs::create_dir(&d).unwrap();
    let out = d.join("kdbx_rs.kdbx");
    let over = c.idx % 200 == 0;
    if over {
        std::fs::write(&out, rng.bytes(100_000)).unwrap();
    }
    let o = exec("kdbx-generate", &[], &d);
    ok("kdbx-generate", &o)?;
    let files = listing(&d);
    ensure!(files.len() == 1 && files[0].0 == "kdbx_rs.kdbx", "kdbx-generate left {files:?}");
    let data = std::fs::read(&out).unwrap();
    let creds = Creds { pw: Some("kdbxrs".into()), keyfile: None };
    if let Err(e) = decode4(&data, &creds) {
        return Err(Violation::new(format!("kdbx-generate wrote a file that does not open with its password: {e}")).with("file", &data));
    }
    let u = unlock(&data, &creds)?;
    ensure!(u.database().root().recursive_entries().count() > 0, "kdbx-generate wrote an empty database");
    // and the other tools agree
    let o = exec("kdbx-parse", &[out.as_os_str(), OsStr::new("kdbxrs")], &d);
    ok("kdbx-parse", &o)?;
    std::fs::remove_dir_all(&d).unwrap();
    c.event("generate");
    if over {
        c.event("generate over an existing file");
    }
    c.eval();
    Ok(())
}
