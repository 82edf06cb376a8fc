mod argon2ref;
mod attack;
mod b64;
mod container;
mod gen;
mod hostile;
mod model;
#[macro_use]
mod mon;
mod ops;
mod os;
mod props;
mod rng;
mod xmlref;

use mon::{Obs, Prop, Report, Violation};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};

#[global_allocator]
static ALLOC: mon::Counting = mon::Counting;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}

fn base() -> PathBuf {
    PathBuf::from(std::env::var("KDBXMON_BASE").unwrap_or_else(|_| "/verif".into()))
}

#[derive(Clone)]
struct Run {
    prop: &'static Prop,
    tier: String,
    seed: u64,
    from: u64,
    to: u64,
    dir: PathBuf,
    /// the build that runs the cases: "plain", or one with a sanitizer
    stage: String,
}

/// The monitor built with the sanitizer of a stage
fn executable(stage: &str) -> PathBuf {
    match stage {
        // under Miri only the library runs, in processes of its own
        "plain" | "miri" => std::env::current_exe().unwrap(),
        s => base().join("target").join(s).join("x86_64-unknown-linux-gnu/release/kdbxmon"),
    }
}

fn wall_limit(tier: &str) -> f64 {
    std::env::var("KDBXMON_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3600.0 } else { 420.0 })
}

fn write_evidence(r: &Run, obs: &Obs, cases: u64, wall: f64, violations: usize, early: bool) {
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let list = |v: &[String]| format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    let assumptions: Vec<String> = r.prop.assumptions.iter().map(|s| s.to_string()).collect();
    let body = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": {},\n    \"cases\": {},\n    \"stopped_by_time\": {},\n    \"events\": {},\n    \"maxima\": {}\n  }},\n  \"wall_s\": {:.1},\n  \"violations\": {},\n  \"known_findings\": {},\n  \"assumptions\": {}\n}}\n",
        js(r.prop.id),
        js(&r.tier),
        r.seed,
        js(r.prop.level),
        obs.evaluations,
        obs.distinct.len(),
        js(r.prop.rule),
        list(&obs.samples),
        cases,
        early,
        map(&obs.events),
        map(&obs.maxima),
        wall,
        violations,
        map(&obs.known),
        list(&assumptions),
    );
    let dir = base().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{}.json", r.prop.id)), body).unwrap();
}

fn write_replay(r: &Run, idx: u64, v: &Violation) -> PathBuf {
    let dir = base().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}-{}-{}{}.txt", r.prop.id, r.seed, if r.stage == "plain" { String::new() } else { format!("{}-", r.stage) }, idx));
    let mut body = format!(
        "property {}\ntier {}\nseed {}\nstage {}\ncase {}\n\n{}\n\nre-run: bash {}/check replay {}\n",
        r.prop.id,
        r.tier,
        r.seed,
        r.stage,
        idx,
        v.msg,
        base().display(),
        path.display()
    );
    for (n, d) in &v.files {
        body.push_str(&format!("\n{} ({} bytes):\n{}\n", n, d.len(), hex(&d[..d.len().min(65536)])));
    }
    std::fs::write(&path, body).unwrap();
    path
}

/// Line for the supervisor to print
fn emit(dir: &Path, line: &str) {
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(dir.join("lines")).unwrap();
    writeln!(f, "{line}").unwrap();
}

fn worker(r: &Run) -> ! {
    mon::install_panic_hook();
    mon::STAGE.set(r.stage.clone()).unwrap();
    let hang = |idx: u64, used: f64| {
        let v = Violation::new(format!("no result after {used:.0} s of CPU time"));
        let p = write_replay(r, idx, &v);
        emit(&r.dir, &format!("case {idx}: {}", v.msg));
        emit(&r.dir, &format!("VIOLATION property={} replay={}", r.prop.id, p.display()));
        std::process::exit(1);
    };
    let rep: Report = mon::run(r.prop, r.seed, r.tier == "thorough", r.from, r.to, wall_limit(&r.tier), &r.dir, &hang);
    let n = rep.violations.len();
    std::fs::write(r.dir.join("report"), rep.dump()).unwrap();
    emit(
        &r.dir,
        &format!(
            "{} {} seed={} {}cases={} evaluations={} distinct={} violations={} wall={:.1}s{}",
            r.prop.id,
            r.tier,
            r.seed,
            if r.stage == "plain" { String::new() } else { format!("{} ", r.stage) },
            rep.cases,
            rep.obs.evaluations,
            rep.obs.distinct.len(),
            n,
            rep.wall,
            if rep.stopped_early { " (stopped by time)" } else { "" }
        ),
    );
    for (what, n) in &rep.obs.known {
        emit(&r.dir, &format!("KNOWN-FINDING: property={} {} (seen {} times)", r.prop.id, what, n));
    }
    for (idx, v) in &rep.violations {
        let p = write_replay(r, *idx, v);
        emit(&r.dir, &format!("case {idx}: {}", v.msg));
        emit(&r.dir, &format!("VIOLATION property={} replay={}", r.prop.id, p.display()));
    }
    if n > 0 {
        exit(1);
    }
    if !rep.errors.is_empty() {
        for (idx, e) in &rep.errors {
            emit(&r.dir, &format!("ERROR: case {idx}: the harness itself failed: {e}"));
        }
        exit(2);
    }
    exit(0);
}

enum End {
    Code(i32),
    Signal(i32),
}

fn spawn(r: &Run, from: u64, to: u64, dir: &Path) -> End {
    use std::os::unix::process::ExitStatusExt;
    std::fs::create_dir_all(dir).unwrap();
    let err = std::fs::File::create(dir.join("stderr")).unwrap();
    let st = Command::new(executable(&r.stage))
        .args(["worker", r.prop.id, &r.tier, &r.seed.to_string(), &from.to_string(), &to.to_string()])
        .arg(dir)
        .arg(&r.stage)
        // a finding ends the process by a signal, which is reported like any other crash
        .env("ASAN_OPTIONS", "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1")
        .env("MSAN_OPTIONS", "abort_on_error=1:allocator_may_return_null=1")
        .env("TSAN_OPTIONS", "abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:history_size=4")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .status()
        .unwrap();
    match (st.code(), st.signal()) {
        (Some(c), _) => End::Code(c),
        (None, Some(s)) => End::Signal(s),
        _ => End::Code(2),
    }
}

fn echo(dir: &Path) {
    if let Ok(s) = std::fs::read_to_string(dir.join("lines")) {
        print!("{s}");
    }
}

fn slots(dir: &Path) -> Vec<(u64, u64)> {
    let d = std::fs::read(dir.join("slots")).unwrap_or_default();
    let w: Vec<u64> = d.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    w.chunks_exact(mon::SLOT_WORDS).filter(|s| s[1] == 1).map(|s| (s[0], s[2])).collect()
}

/// One build's cases: exit code and, where the worker came to its end, what it observed
fn stage(r: &Run) -> (i32, Option<Report>) {
    match spawn(r, r.from, r.to, &r.dir) {
        End::Code(c) => {
            echo(&r.dir);
            if c != 0 && c != 1 {
                let err = std::fs::read_to_string(r.dir.join("stderr")).unwrap_or_default();
                let tail: Vec<&str> = err.lines().rev().take(20).collect();
                for l in tail.iter().rev() {
                    println!("{l}");
                }
            }
            let rep = std::fs::read_to_string(r.dir.join("report")).ok().map(|s| Report::load(&s));
            (if c == 0 && rep.is_none() { 2 } else { c }, rep)
        }
        End::Signal(sig) => {
            println!("worker ended by signal {sig}");
            if sig == libc::SIGKILL || sig == libc::SIGTERM {
                println!("ERROR: inconclusive, the worker was killed from outside");
                return (2, None);
            }
            let first = std::fs::read_to_string(r.dir.join("stderr")).unwrap_or_default();
            // the order of operations on several threads is not the same every time
            let tries = if r.stage == "tsan" { 20 } else { 1 };
            for (idx, alloc) in slots(&r.dir) {
                for t in 0..tries {
                    let dir = r.dir.join(format!("confirm-{idx}-{t}"));
                    if let End::Signal(s2) = spawn(r, idx, idx + 1, &dir) {
                        if s2 == libc::SIGKILL || s2 == libc::SIGTERM {
                            continue;
                        }
                        let err = std::fs::read_to_string(dir.join("stderr")).unwrap_or_default();
                        let err: String = err.chars().take(2000).collect();
                        let alloc = slots(&dir).first().map(|s| s.1).unwrap_or(alloc);
                        let mut msg = format!("the process was ended by signal {s2}");
                        if alloc > 0 {
                            msg.push_str(&format!(", after a request for {alloc} bytes of memory"));
                        }
                        let v = Violation::new(format!("{msg}: {err}"));
                        let p = write_replay(r, idx, &v);
                        println!("case {idx}: {}", v.msg);
                        println!("VIOLATION property={} replay={}", r.prop.id, p.display());
                        return (1, None);
                    }
                }
            }
            println!("ERROR: the crash could not be reproduced: {}", first.chars().take(4000).collect::<String>());
            (2, None)
        }
    }
}

fn supervise(stages: &[Run]) -> i32 {
    let t0 = std::time::Instant::now();
    let mut all = Report::default();
    let mut code = 0;
    for r in stages {
        let (c, rep) = stage(r);
        let _ = std::fs::remove_dir_all(&r.dir);
        if let Some(rep) = rep {
            all.merge(rep);
        }
        if c != 0 {
            code = c;
            break;
        }
    }
    let r = &stages[0];
    write_evidence(r, &all.obs, all.cases, t0.elapsed().as_secs_f64(), (code == 1) as usize, all.stopped_early);
    if code == 0 && r.to - r.from > 1 {
        if all.obs.evaluations == 0 || all.obs.distinct.len() < 2 {
            println!("ERROR: the monitors observed nothing");
            return 2;
        }
        for e in r.prop.required {
            if !all.obs.events.contains_key(*e) {
                println!("ERROR: event {e:?} was never observed");
                return 2;
            }
        }
    }
    code
}

fn find(id: &str) -> &'static Prop {
    props::ALL.iter().find(|p| p.id == id).copied().unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        exit(2)
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    match arg(1).as_str() {
        "worker" => worker(&Run {
            prop: find(&arg(2)),
            tier: arg(3),
            seed: arg(4).parse().unwrap(),
            from: arg(5).parse().unwrap(),
            to: arg(6).parse().unwrap(),
            dir: PathBuf::from(arg(7)),
            stage: arg(8),
        }),
        "run" => {
            let prop = find(&arg(2));
            let tier = arg(3);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let n = std::env::var("KDBXMON_CASES").ok().and_then(|s| s.parse().ok());
            let dir = std::env::temp_dir().join(format!("kdbxmon-{}", std::process::id()));
            let mut stages = Vec::new();
            for (name, quick, thorough) in [("plain", prop.quick, prop.thorough)].iter().chain(prop.stages) {
                let to = n.unwrap_or(if tier == "thorough" { *thorough } else { *quick });
                stages.push(Run { prop, tier: tier.clone(), seed, from: 0, to, dir: dir.join(name), stage: name.to_string() });
            }
            if let Ok(only) = std::env::var("KDBXMON_STAGE") {
                stages.retain(|r| r.stage == only);
            }
            let code = supervise(&stages);
            let _ = std::fs::remove_dir_all(&dir);
            exit(code);
        }
        "replay" => {
            let text = std::fs::read_to_string(arg(2)).expect("replay file");
            let get = |k: &str| -> String {
                // the first line that starts with the word
                text.lines().find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_string())).unwrap_or_default()
            };
            let dir = std::env::temp_dir().join(format!("kdbxmon-{}", std::process::id()));
            let idx: u64 = get("case ").parse().expect("case");
            let r = Run { prop: find(&get("property ")), tier: get("tier "), seed: get("seed ").parse().unwrap(), from: idx, to: idx + 1, dir, stage: get("stage ") };
            let code = supervise(&[r]);
            exit(code);
        }
        "case" => {
            // one case in this process, for debugging
            mon::install_panic_hook();
            let prop = find(&arg(2));
            let mut obs = Obs::default();
            let idx = arg(4).parse().unwrap();
            let dir = std::env::temp_dir().join(format!("kdbxmon-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let seed = arg(3).parse().unwrap();
            let mut c = mon::Case { idx, seed, thorough: false, rng: rng::Rng::for_case(seed, prop.id, idx), obs: &mut obs, dir: &dir };
            let r = (prop.run)(&mut c);
            let _ = std::fs::remove_dir_all(&dir);
            println!("{:?}\n{:?}", r.map_err(|v| v.msg), obs.events);
        }
        // what a separate process creates, for the freshness check
        "fresh" => props::fresh(arg(2).parse().unwrap()),
        // one derivation under limits, for the key derivation check
        "probe" => props::probe(&arg(2), &arg(3), &arg(4)),
        // the same operations in another environment
        "elsewhere" => props::elsewhere(arg(2).parse().unwrap(), arg(3).parse().unwrap()),
        "list" => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: kdbxmon run <property> <quick|thorough> | replay <file>");
            exit(2);
        }
    }
}
