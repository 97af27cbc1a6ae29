use crate::src::{Rng, Src};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

#[derive(Default)]
pub struct Case {
    pub desc: String,
    pub labels: Vec<String>,
    pub nontrivial: bool,
}
impl Case {
    pub fn label(&mut self, s: &str) {
        self.labels.push(s.to_string());
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.labels.push(s.to_string());
        }
    }
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Pass,
    /// The generated input is outside the property's domain. The text says why.
    Discard(&'static str),
    /// sig identifies the kind of failure (stable across inputs), msg explains it.
    Fail { sig: String, msg: String },
}
pub fn fail(sig: impl Into<String>, msg: impl Into<String>) -> Outcome {
    Outcome::Fail { sig: sig.into(), msg: msg.into() }
}

pub type CheckFn = fn(&mut Src, &mut Case) -> Outcome;
pub struct Check {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: CheckFn,
}
/// A fixed input that once failed (repaired or recorded): re-run on every invocation.
pub struct Directed {
    pub name: &'static str,
    pub f: fn() -> Result<(), String>,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub checks: Vec<Check>,
    pub directed: Vec<Directed>,
    pub assumptions: &'static [&'static str],
}

pub fn verif_dir() -> PathBuf {
    if let Ok(d) = std::env::var("VERIF_DIR") {
        return PathBuf::from(d);
    }
    PathBuf::from("/verif")
}

struct Known {
    property: String,
    key: String,
    what: String,
}
/// KNOWN_FINDINGS.txt lines: "known: property=<id> key=<signature or directed name> <what fails>".
/// Lines starting with "fixed:" are a record and suppress nothing.
fn load_known() -> Vec<Known> {
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").to_string();
                let k = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("").to_string();
                let w = it.next().unwrap_or("").to_string();
                if !k.is_empty() {
                    out.push(Known { property: p, key: k, what: w });
                }
            }
        }
    }
    out
}

thread_local! {
    static PANIC_INFO: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

/// Runs `f`; a panic becomes Err((location file, message)).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_INFO
            .with(|p| p.borrow_mut().take())
            .unwrap_or(("?".into(), "?".into()))),
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.strip_prefix("/repo/").unwrap_or(f);
                let f = f.rsplit_once("/registry/src/").map(|x| x.1).unwrap_or(f);
                f.to_string()
            })
            .unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or(0);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if std::env::var("VERIF_BT").is_ok() {
            eprintln!("panic at {loc}:{line}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC_INFO.with(|p| *p.borrow_mut() = Some((loc, format!("{msg} (line {line})"))));
    }));
}

fn run_case(f: CheckFn, src: &mut Src) -> (Case, Outcome) {
    let mut case = Case::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(src, &mut case)));
    let o = match r {
        Ok(o) => o,
        Err(_) => {
            let (loc, msg) = PANIC_INFO
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "?".into()));
            if loc.starts_with("h_") || loc.starts_with("hlib/") || loc.contains("/verif/") || loc.starts_with("common/") {
                // a bug in the harness, not in the code under test
                fail("HARNESS", format!("harness panic at {loc}: {msg}"))
            } else {
                fail(format!("panic@{loc}"), format!("panic at {loc}: {msg}"))
            }
        }
    };
    (case, o)
}

fn hash64(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…[{} bytes]", &s[..e], s.len())
    }
}

struct Failure {
    check: &'static str,
    sig: String,
    msg: String,
    tape: Vec<u64>,
    desc: String,
}

fn shrink(f: CheckFn, tape: Vec<u64>, sig: &str, budget: usize, max_s: f64) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = tape;
    let mut evals = 0usize;
    let mut try_it = |t: &[u64]| -> Option<Vec<u64>> {
        if evals >= budget || t0.elapsed().as_secs_f64() > max_s {
            return None;
        }
        evals += 1;
        let mut s = Src::replay(t.to_vec());
        let (_, o) = run_case(f, &mut s);
        match o {
            Outcome::Fail { sig: s2, .. } if s2 == sig => {
                let used = s.used().min(t.len());
                Some(t[..used].to_vec())
            }
            _ => None,
        }
    };
    if let Some(b) = try_it(&best.clone()) {
        best = b;
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).clamp(1, 64);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                let mut t = best.clone();
                t.drain(lo..i.min(t.len()));
                if let Some(b) = try_it(&t) {
                    best = b;
                    i = lo.min(best.len());
                } else {
                    // deletion together with decrementing an earlier count
                    if lo > 0 && best[lo - 1] > 0 && size <= 8 {
                        let mut t = best.clone();
                        t[lo - 1] -= 1;
                        t.drain(lo..i.min(t.len()));
                        if let Some(b) = try_it(&t) {
                            best = b;
                            i = lo.min(best.len());
                            continue;
                        }
                    }
                    i = i.saturating_sub(if size > 4 { size / 2 } else { 1 });
                }
            }
            size /= 2;
        }
        // zero blocks, then lower values
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut t = best.clone();
                    for v in &mut t[i..hi] {
                        *v = 0;
                    }
                    if let Some(b) = try_it(&t) {
                        best = b;
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for c in [v / 2, v.saturating_sub(1)] {
                if i < best.len() && c < best[i] {
                    let mut t = best.clone();
                    t[i] = c;
                    if let Some(b) = try_it(&t) {
                        best = b;
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
        if t0.elapsed().as_secs_f64() > max_s {
            break;
        }
    }
    best
}

#[derive(Default)]
struct Stats {
    evals: usize,
    discards: BTreeMap<&'static str, usize>,
    labels: BTreeMap<String, usize>,
    distinct: HashSet<u64>,
    distinct_nt: HashSet<u64>,
    samples: Vec<Value>,
    known_hits: BTreeMap<String, usize>,
    failures: Vec<Failure>,
}

const SHARDS: u64 = 64;
/// How many cases run at a time.
pub static THREADS: AtomicUsize = AtomicUsize::new(8);

fn run_check(p: &Prop, c: &Check, cases: usize, seed: u64, known: &[Known], crumb: &Path) -> Stats {
    let stop = AtomicBool::new(false);
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Vec::<(u64, Stats)>::new());
    let threads: usize = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(THREADS.load(Ordering::SeqCst));
    let limit: u64 = std::env::var("VERIF_CASE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
    let t0 = Instant::now();
    // per worker: (milliseconds at which the running case started) + 1, 0 when idle; and its seed
    let running: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let active = AtomicUsize::new(threads);
    std::thread::scope(|sc| {
        {
            let (running, active) = (&running, &active);
            sc.spawn(move || {
                // ticks of this thread, not the clock: a suspended machine does not count
                let mut seen: Vec<(u64, u64)> = vec![(0, 0); running.len()];
                while active.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    for (i, (at, cs)) in running.iter().enumerate() {
                        let a = at.load(Ordering::SeqCst);
                        if a == 0 || a != seen[i].0 {
                            seen[i] = (a, 0);
                        } else {
                            seen[i].1 += 1;
                        }
                        if seen[i].1 > limit * 50 {
                            let cs = cs.load(Ordering::SeqCst);
                            let dir = verif_dir().join("replays");
                            let _ = std::fs::create_dir_all(&dir);
                            let path = dir.join(format!("{}-{}-hang.json", p.id, c.name));
                            let v = json!({"property": p.id, "check": c.name, "sig": "hang", "message": format!("one case ran for more than {limit} s"), "tape": [], "case_seed": cs});
                            let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
                            println!("[{}] {}: a case did not end within {limit} s (case seed {cs:016x})", p.id, c.name);
                            println!("VIOLATION property={} replay={}", p.id, path.display());
                            std::process::exit(1);
                        }
                    }
                }
            });
        }
        for th in 0..threads {
            let stop = &stop;
            let next = &next;
            let total = &total;
            let running = &running[th];
            let active = &active;
            let crumb = crumb.join(format!("{}.{}.{}", p.id, c.name, th));
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let mut file = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&crumb).ok();
                    loop {
                        let shard = next.fetch_add(1, Ordering::SeqCst) as u64;
                        if shard >= SHARDS {
                            break;
                        }
                        let mut st = Stats::default();
                        let n = (cases as u64 / SHARDS + u64::from(shard < cases as u64 % SHARDS)) as usize;
                        let mut seeder = Rng(seed ^ hash64(p.id) ^ hash64(c.name).rotate_left(17) ^ shard.wrapping_mul(0xD1B54A32D192ED03));
                        for _ in 0..n {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let cs = seeder.next();
                            if let Some(f) = &mut file {
                                use std::os::unix::fs::FileExt;
                                let _ = f.write_all_at(format!("{cs:016x}").as_bytes(), 0);
                            }
                            let mut src = Src::random(cs);
                            running.1.store(cs, Ordering::SeqCst);
                            running.0.store(t0.elapsed().as_nanos() as u64 + 1, Ordering::SeqCst);
                            let (case, o) = run_case(c.f, &mut src);
                            running.0.store(0, Ordering::SeqCst);
                            st.evals += 1;
                            for l in &case.labels {
                                *st.labels.entry(l.clone()).or_default() += 1;
                            }
                            match o {
                                Outcome::Pass => {
                                    let h = hash64(&case.desc);
                                    let new = st.distinct.insert(h);
                                    if case.nontrivial {
                                        st.distinct_nt.insert(h);
                                    }
                                    if new && case.nontrivial && st.samples.len() < 1 {
                                        st.samples.push(json!({"check": c.name, "labels": case.labels, "case": truncate(&case.desc, 1500)}));
                                    }
                                }
                                Outcome::Discard(w) => {
                                    *st.discards.entry(w).or_default() += 1;
                                }
                                Outcome::Fail { sig, msg } => {
                                    if let Some(k) = known.iter().find(|k| k.property == p.id && k.key == sig) {
                                        *st.known_hits.entry(k.key.clone()).or_default() += 1;
                                        continue;
                                    }
                                    st.failures.push(Failure { check: c.name, sig, msg, tape: src.tape, desc: case.desc });
                                    if std::env::var("VERIF_KEEP_GOING").is_err() {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                    if st.failures.len() > 20 {
                                        break;
                                    }
                                }
                            }
                        }
                        total.lock().unwrap().push((shard, st));
                    }
                    drop(file.take());
                    let _ = std::fs::remove_file(&crumb);
                    active.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
    });
    let mut all = total.into_inner().unwrap();
    all.sort_by_key(|x| x.0);
    let mut out = Stats::default();
    for (_, s) in all {
        out.evals += s.evals;
        for (k, v) in s.discards {
            *out.discards.entry(k).or_default() += v;
        }
        for (k, v) in s.labels {
            *out.labels.entry(k).or_default() += v;
        }
        for (k, v) in s.known_hits {
            *out.known_hits.entry(k).or_default() += v;
        }
        out.distinct.extend(s.distinct);
        out.distinct_nt.extend(s.distinct_nt);
        if out.samples.len() < 3 {
            out.samples.extend(s.samples);
        }
        out.failures.extend(s.failures);
    }
    out
}

fn write_replay(p: &Prop, check: &str, sig: &str, msg: &str, tape: &[u64], desc: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let safe: String = sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(60).collect();
    let path = dir.join(format!("{}-{}-{}.json", p.id, check, safe));
    let v = json!({"property": p.id, "check": check, "sig": sig, "message": msg, "case": desc, "tape": tape});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

/// Entry point of every harness binary.
///   h_x run <ID>            runs the property (seed VERIF_SEED, tier VERIF_TIER)
///   h_x replay <file>       re-runs one saved case
///   h_x dist <ID>           prints the label distribution
pub fn main_with(props: Vec<Prop>) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "replay" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let p = props.iter().find(|p| p.id == v["property"].as_str().unwrap()).expect("unknown property");
            if let Some(d) = p.directed.iter().find(|d| Some(d.name) == v["check"].as_str()) {
                match (d.f)() {
                    Ok(()) => println!("replay passes"),
                    Err(e) => {
                        println!("replay fails: {e}");
                        std::process::exit(1);
                    }
                }
                return;
            }
            let c = p.checks.iter().find(|c| Some(c.name) == v["check"].as_str()).expect("unknown check");
            let f = c.f;
            let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let seed = v["case_seed"].as_u64();
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                let mut s = match seed {
                    Some(s) => Src::random(s),
                    None => Src::replay(tape),
                };
                let (case, o) = run_case(f, &mut s);
                println!("{}\n=> {:?}", case.desc, o);
                matches!(o, Outcome::Fail { .. })
            });
            if h.unwrap().join().unwrap() {
                std::process::exit(1);
            }
        }
        "run" => {
            let p = props.iter().find(|p| p.id == args[2]).expect("unknown property");
            if std::env::var("VERIF_CHILD").is_err() {
                supervise(p, &args);
            }
            let code = run_prop(p);
            std::process::exit(code);
        }
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: run <ID> | replay <file> | list");
            std::process::exit(2);
        }
    }
}

fn crumb_dir() -> PathBuf {
    verif_dir().join("harness/target/crumbs")
}

/// Runs the property in a child process, so that a crash of the code under test (stack overflow,
/// abort) becomes a reported violation with the input that caused it.
fn supervise(p: &Prop, args: &[String]) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let crumbs = crumb_dir().join(format!("{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&crumbs);
    let _ = std::fs::create_dir_all(&crumbs);
    let _ = std::fs::create_dir_all(crumbs.join("none"));
    let _ = std::fs::write(crumbs.join("one.pem"), include_str!("one.pem"));
    let st = std::process::Command::new(&args[0])
        .args(&args[1..])
        .env("VERIF_CHILD", "1")
        // The code under test creates an HTTP client per registered SPARQL endpoint, each of which
        // reads the system's certificates (10 ms). One certificate is as good: nothing is fetched.
        .env("SSL_CERT_FILE", crumbs.join("one.pem"))
        .env("SSL_CERT_DIR", crumbs.join("none"))
        .env("VERIF_CRUMBS", &crumbs)
        .status()
        .expect("spawn");
    let mut code = st.code().unwrap_or(2);
    if let Some(sig) = st.signal() {
        // SIGKILL is the machine (memory), not the code under test
        if sig == 6 || sig == 11 || sig == 7 || sig == 4 || sig == 8 {
            // find the case that crashes on its own
            for e in std::fs::read_dir(&crumbs).into_iter().flatten().flatten() {
                let name = e.file_name().to_string_lossy().to_string();
                let check = name.split('.').nth(1).unwrap_or("").to_string();
                let Ok(cs) = u64::from_str_radix(std::fs::read_to_string(e.path()).unwrap_or_default().trim(), 16) else {
                    continue;
                };
                let dir = verif_dir().join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = dir.join(format!("{}-{}-crash.json", p.id, check));
                let v = json!({"property": p.id, "check": check, "sig": format!("crash-signal-{sig}"), "message": "the process was killed by a signal (stack overflow or abort)", "tape": [], "case_seed": cs});
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
                let r = std::process::Command::new(&args[0])
                    .args(["replay", path.to_str().unwrap()])
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status();
                if r.map(|s| s.signal() == Some(sig)).unwrap_or(false) {
                    let known = load_known();
                    if let Some(k) = known.iter().find(|k| k.property == p.id && k.key == format!("crash-{check}")) {
                        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
                    }
                    println!("crash (signal {sig}) in check {check}");
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    code = 1;
                    break;
                } else {
                    let _ = std::fs::remove_file(&path);
                }
            }
            if code != 1 {
                eprintln!("child died with signal {sig}, but no single case reproduces it");
                code = 2;
            }
        } else {
            eprintln!("child ended by signal {sig}");
            code = 2;
        }
    }
    let _ = std::fs::remove_dir_all(&crumbs);
    std::process::exit(code);
}

fn run_prop(p: &Prop) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_ONLY").ok();
    let known = load_known();
    let crumbs = std::env::var("VERIF_CRUMBS").map(PathBuf::from).unwrap_or_else(|_| crumb_dir());
    let _ = std::fs::create_dir_all(&crumbs);
    let mut violations = 0usize;
    let mut per_check = vec![];
    let mut samples = vec![];
    let (mut evals, mut distinct_nt) = (0usize, 0usize);
    let mut known_printed: HashSet<String> = HashSet::new();
    let mut harness_bug = false;

    let mut directed_n = 0;
    for d in &p.directed {
        if only.as_deref().is_some_and(|o| o != "directed" && o != d.name) {
            continue;
        }
        directed_n += 1;
        let f = d.f;
        let r = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || catch(f))
            .unwrap()
            .join()
            .unwrap_or(Err(("?".into(), "thread".into())));
        let err = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err((loc, m)) => Some(format!("panic at {loc}: {m}")),
        };
        if let Some(e) = err {
            if let Some(k) = known.iter().find(|k| k.property == p.id && k.key == d.name) {
                println!("KNOWN-FINDING: property={} {}", p.id, k.what);
            } else {
                violations += 1;
                println!("[{}] {}: {}", p.id, d.name, e);
                let path = write_replay(p, d.name, "directed", &e, &[], d.name);
                println!("VIOLATION property={} replay={}", p.id, path.display());
            }
        }
    }

    for c in &p.checks {
        if only.as_deref().is_some_and(|o| o != c.name) {
            continue;
        }
        let n = ((if tier == "thorough" { c.thorough } else { c.quick }) as f64 * scale) as usize;
        let tc = Instant::now();
        let st = run_check(p, c, n, seed, &known, &crumbs);
        evals += st.evals;
        distinct_nt += st.distinct_nt.len();
        for k in st.known_hits.keys() {
            if known_printed.insert(k.clone()) {
                let w = known.iter().find(|x| x.property == p.id && &x.key == k).map(|x| x.what.clone()).unwrap_or_default();
                println!("KNOWN-FINDING: property={} {}", p.id, w);
            }
        }
        let nd: usize = st.discards.values().sum();
        println!(
            "[{}] {}: {} cases, {} distinct, {} distinct non-trivial, {} discarded, {:.1}s",
            p.id, c.name, st.evals, st.distinct.len(), st.distinct_nt.len(), nd, tc.elapsed().as_secs_f64()
        );
        if std::env::var("VERIF_VERBOSE").is_ok() {
            for (k, v) in &st.labels {
                println!("      {v:8} {k}");
            }
            for (k, v) in &st.discards {
                println!("      {v:8} DISCARD {k}");
            }
        }
        per_check.push(json!({
            "check": c.name, "evaluations": st.evals, "distinct": st.distinct.len(),
            "distinct_nontrivial": st.distinct_nt.len(),
            "discarded": st.discards.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
            "classes": st.labels.iter().map(|(k, v)| (k.clone(), json!(v))).collect::<serde_json::Map<_, _>>(),
            "known_finding_hits": st.known_hits,
            "wall_s": (tc.elapsed().as_secs_f64() * 10.0).round() / 10.0,
        }));
        samples.extend(st.samples.into_iter().take(3));
        let mut sigs: HashSet<String> = HashSet::new();
        for fl in st.failures {
            if !sigs.insert(fl.sig.clone()) {
                continue;
            }
            if fl.sig == "HARNESS" {
                harness_bug = true;
                eprintln!("HARNESS BUG in {}: {}\n{}", fl.check, fl.msg, fl.desc);
                continue;
            }
            violations += 1;
            let f = c.f;
            let sig = fl.sig.clone();
            let tape0 = fl.tape.clone();
            let (tape, case, o) = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let tape = shrink(f, tape0, &sig, 4000, 40.0);
                    let (case, o) = run_case(f, &mut Src::replay(tape.clone()));
                    (tape, case, o)
                })
                .unwrap()
                .join()
                .unwrap_or((fl.tape.clone(), Case::default(), Outcome::Pass));
            let (desc, msg) = match o {
                Outcome::Fail { msg, .. } => (case.desc, msg),
                _ => (fl.desc, fl.msg),
            };
            println!("---- [{}] {} sig={}\n{}\n{}", p.id, fl.check, fl.sig, truncate(&msg, 3000), truncate(&desc, 4000));
            let path = write_replay(p, fl.check, &fl.sig, &msg, &tape, &desc);
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct_nt, "rule": p.rule,
            "samples": samples, "checks": per_check, "directed_regressions": directed_n,
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut f = std::fs::File::create(dir.join(format!("{}.json", p.id))).expect("evidence");
    let _ = f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes());
    if violations > 0 {
        1
    } else if harness_bug {
        2
    } else {
        println!("OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s", p.id, evals, distinct_nt, t0.elapsed().as_secs_f64());
        0
    }
}
