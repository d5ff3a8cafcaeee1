//! Batches of seeds over worker processes, judgement, replay files and evidence.
use crate::case::*;
use crate::exec;
use crate::gen::gen;
use crate::minimise;
use crate::props;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::time::{Duration, Instant};

/// A case that takes longer than this hangs
const CASE_LIMIT: Duration = Duration::from_secs(100);

/// seeds of a quick and a thorough run
fn sizes(p: &str) -> (u64, u64) {
    match p {
        "C01" => (160_000, 6_000_000),
        "C02" => (180_000, 6_000_000),
        "C03" => (9_000, 800_000),
        "C04" => (200_000, 8_000_000),
        "C05" => (200_000, 6_000_000),
        "C06" => (60_000, 2_400_000),
        "C07" => (60_000, 2_000_000),
        "C08" => (160_000, 6_000_000),
        "C09" => (60_000, 2_400_000),
        "C10" => (20_000, 2_000_000),
        "C11" => (600_000, 20_000_000),
        "C12" => (120_000, 6_000_000),
        "C13" => (600_000, 20_000_000),
        "C14" => (400_000, 15_000_000),
        "C15" => (300_000, 8_000_000),
        "C17" => (140_000, 4_000_000),
        "C18" => (200_000, 6_000_000),
        _ => (400_000, 15_000_000),
    }
}

pub fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn seed_of(base: u64, i: u64) -> u64 {
    // seed 1 case 0 is simply 1; other bases do not overlap in practice
    base.wrapping_add(i.wrapping_mul(1_000_003))
}

// ---- known findings -------------------------------------------------------------------

/// lines `known: property=<id> match=<text>| <what fails>`
pub fn known(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            if let Some((id, rest)) = rest.split_once(" match=") {
                if id == prop {
                    if let Some((m, what)) = rest.split_once('|') {
                        out.push((m.trim().to_string(), what.trim().to_string()));
                    }
                }
            }
        }
    }
    out
}

fn is_known(msg: &str, k: &[(String, String)]) -> bool {
    k.iter().any(|(m, _)| msg.contains(m.as_str()))
}

// ---- worker ---------------------------------------------------------------------------

fn limits() {
    unsafe {
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        let mem = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &mem);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

fn judge(case: &Case, m: &mut Meter) -> Result<(), String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::check(case, m)));
    for (k, v) in crate::tsfile::take_shapes() {
        m.shapes.entry(k.to_string()).or_default().extend(v);
    }
    r.unwrap_or_else(|_| Err("HARNESS: the simulator itself panicked".into()))
}

/// PROP DEEP BASE START STEP END SECONDS
pub fn worker(a: &[&str]) -> i32 {
    limits();
    exec::install_hook();
    let prop = a[0];
    let deep = a[1] == "1";
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (base, start, step, end, secs) = (n(2), n(3), n(4), n(5), n(6));
    let known = known(prop);
    let t0 = Instant::now();
    let mut m = Meter::default();
    let mut i = start;
    while i < end && t0.elapsed().as_secs() < secs {
        say(&format!("S {}", i));
        let case = gen(prop, seed_of(base, i), deep);
        let before = m.log;
        let r = judge(&case, &mut m);
        if i < 32 {
            say(&format!("E {} {:x}", i, m.log.wrapping_sub(before)));
        }
        match r {
            Ok(()) => {}
            Err(e) if is_known(&e, &known) => say(&format!("K {}", e.replace('\n', " "))),
            Err(e) => {
                say(&format!("V {} {}", i, e.replace('\n', " ")));
                break;
            }
        }
        i += step;
    }
    say(&format!("M {}", serde_json::to_string(&m).unwrap()));
    0
}

/// one case from stdin
pub fn one() -> i32 {
    limits();
    exec::install_hook();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let case: Case = serde_json::from_str(&s).expect("case");
    let mut m = Meter::default();
    let r = judge(&case, &mut m);
    if !m.trace.is_empty() {
        say(&format!("T {}", serde_json::to_string(&m.trace).unwrap()));
    }
    match r {
        Ok(()) => say("O"),
        Err(e) => say(&format!("V 0 {}", e.replace('\n', " "))),
    }
    say(&format!("H {:x}", m.log));
    0
}

pub fn show(a: &[&str]) -> i32 {
    exec::install_hook();
    let c = gen(a[0], a[1].parse().unwrap(), a.get(2) == Some(&"deep"));
    println!("{}", serde_json::to_string_pretty(&c).unwrap());
    0
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Holds,
    Broken(String),
}

#[derive(Clone, Debug)]
pub struct OneRun {
    pub verdict: Verdict,
    pub trace: Vec<(u32, u8)>,
    pub hash: String,
}

/// further runs of a case are made in the build without debug assertions and overflow checks
static SHIPPED: AtomicBool = AtomicBool::new(false);

/// every fourth worker runs the code as it is shipped
fn shipped(worker: usize, jobs: usize) -> bool {
    jobs % 4 == 0 && worker % 4 == 3
}

fn me(shipped: bool) -> Command {
    let exe = std::env::current_exe().unwrap();
    let exe = if shipped {
        exe.parent().unwrap().with_file_name("ship").join("sim")
    } else {
        exe
    };
    let mut c = Command::new(exe);
    c.stderr(Stdio::null());
    c
}

fn ending(c: &mut Child) -> String {
    use std::os::unix::process::ExitStatusExt;
    match c.wait() {
        Ok(s) => match s.signal() {
            Some(libc::SIGSEGV) => "the process dies with SIGSEGV".into(),
            Some(libc::SIGABRT) => "the process aborts (SIGABRT)".into(),
            Some(libc::SIGKILL) => "the process runs out of memory or is killed".into(),
            Some(n) => format!("the process dies with signal {}", n),
            None => format!("the process exits with status {:?}", s.code()),
        },
        Err(e) => format!("lost: {}", e),
    }
}

/// Judge one case in a fresh process.
pub fn run_one(case: &Case, limit: Duration) -> OneRun {
    let mut c = me(SHIPPED.load(Relaxed)).arg("one").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("spawn");
    let mut i = c.stdin.take().unwrap();
    let text = serde_json::to_string(case).unwrap();
    let wr = std::thread::spawn(move || {
        let _ = i.write_all(text.as_bytes());
    });
    let o = c.stdout.take().unwrap();
    let (tx, rx) = channel();
    let rd = std::thread::spawn(move || {
        for l in BufReader::new(o).lines().map_while(Result::ok) {
            let _ = tx.send(l);
        }
    });
    let mut r = OneRun { verdict: Verdict::Holds, trace: vec![], hash: String::new() };
    let mut seen = false;
    let t0 = Instant::now();
    loop {
        match rx.recv_timeout(limit.saturating_sub(t0.elapsed())) {
            Ok(l) => {
                if let Some(t) = l.strip_prefix("T ") {
                    r.trace = serde_json::from_str(t).unwrap_or_default();
                } else if let Some(v) = l.strip_prefix("V 0 ") {
                    r.verdict = Verdict::Broken(v.to_string());
                    seen = true;
                } else if l == "O" {
                    seen = true;
                } else if let Some(h) = l.strip_prefix("H ") {
                    r.hash = h.to_string();
                }
            }
            Err(RecvTimeoutError::Disconnected) => break,
            Err(RecvTimeoutError::Timeout) => {
                let _ = c.kill();
                r.verdict = Verdict::Broken("the run does not end".into());
                seen = true;
                break;
            }
        }
    }
    let _ = wr.join();
    let end = ending(&mut c);
    let _ = rd.join();
    if !seen {
        r.verdict = Verdict::Broken(end);
    }
    r
}

// ---- master ---------------------------------------------------------------------------

enum Ev {
    Line(usize, String),
    End(usize),
}

struct Found {
    index: u64,
    worker: usize,
    msg: String,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub violation: String,
    pub seed: u64,
    /// the minimised case
    pub case: Option<Case>,
    /// a process history instead: worker arguments
    #[serde(default)]
    pub history: Option<Vec<String>>,
    #[serde(default)]
    pub log_hash: String,
    /// found in the build without debug assertions and overflow checks
    #[serde(default)]
    pub shipped_build: bool,
}

struct Batch {
    meter: Meter,
    found: Option<Found>,
    known: BTreeMap<String, u64>,
    hashes: BTreeMap<u64, String>,
    harness: Option<String>,
}

fn batch(prop: &str, deep: bool, base: u64, count: u64, secs: u64, jobs: usize) -> Batch {
    let (tx, rx) = channel::<Ev>();
    let mut kids: Vec<Child> = vec![];
    for j in 0..jobs {
        let mut c = me(shipped(j, jobs))
            .args(["worker", prop, if deep { "1" } else { "0" }])
            .args([base, j as u64, jobs as u64, count, secs].map(|x| x.to_string()))
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let o = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::with_capacity(1 << 20, o).lines().map_while(Result::ok) {
                let _ = tx.send(Ev::Line(j, l));
            }
            let _ = tx.send(Ev::End(j));
        });
        kids.push(c);
    }
    let mut b = Batch { meter: Meter::default(), found: None, known: BTreeMap::new(), hashes: BTreeMap::new(), harness: None };
    let mut at: Vec<u64> = vec![0; jobs];
    let mut beat: Vec<Instant> = vec![Instant::now(); jobs];
    let mut live: Vec<bool> = vec![true; jobs];
    let mut done: Vec<bool> = vec![false; jobs];
    let better = |f: &Option<Found>, i: u64| f.as_ref().map_or(true, |f| i < f.index);
    while live.iter().any(|l| *l) {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(Ev::Line(j, l)) => {
                beat[j] = Instant::now();
                if let Some(i) = l.strip_prefix("S ") {
                    at[j] = i.parse().unwrap();
                    if let Some(f) = &b.found {
                        if at[j] > f.index {
                            let _ = kids[j].kill();
                        }
                    }
                } else if let Some(m) = l.strip_prefix("M ") {
                    b.meter.merge(&serde_json::from_str::<Meter>(m).unwrap());
                    done[j] = true;
                } else if let Some(e) = l.strip_prefix("E ") {
                    if let Some((i, h)) = e.split_once(' ') {
                        b.hashes.insert(i.parse().unwrap(), h.to_string());
                    }
                } else if let Some(k) = l.strip_prefix("K ") {
                    *b.known.entry(k.to_string()).or_default() += 1;
                } else if let Some(v) = l.strip_prefix("V ") {
                    let (i, msg) = v.split_once(' ').unwrap();
                    let i: u64 = i.parse().unwrap();
                    if better(&b.found, i) {
                        b.found = Some(Found { index: i, worker: j, msg: msg.to_string() });
                    }
                }
            }
            Ok(Ev::End(j)) => {
                live[j] = false;
                let killed = b.found.as_ref().map_or(false, |f| at[j] > f.index);
                let e = ending(&mut kids[j]);
                if !done[j] && !killed && better(&b.found, at[j]) {
                    b.found = Some(Found { index: at[j], worker: j, msg: e });
                }
            }
            Err(_) => {}
        }
        for j in 0..jobs {
            if live[j] && !done[j] && beat[j].elapsed() > CASE_LIMIT {
                let _ = kids[j].kill();
                if better(&b.found, at[j]) {
                    b.found = Some(Found { index: at[j], worker: j, msg: "the run does not end".into() });
                }
                beat[j] = Instant::now();
            }
        }
    }
    if b.found.as_ref().map_or(false, |f| f.msg.starts_with("HARNESS")) {
        b.harness = b.found.take().map(|f| format!("{} at case {}", f.msg, f.index));
    }
    b
}

/// re-run a worker up to and including one case
fn run_history(a: &[String]) -> Option<String> {
    let mut c = me(SHIPPED.load(Relaxed)).arg("worker").args(a).stdin(Stdio::null()).stdout(Stdio::piped()).spawn().ok()?;
    let mut out = String::new();
    let mut o = c.stdout.take().unwrap();
    let _ = o.read_to_string(&mut out);
    let e = ending(&mut c);
    if let Some(v) = out.lines().find_map(|l| l.strip_prefix("V ")) {
        return v.split_once(' ').map(|x| x.1.to_string());
    }
    if !out.lines().any(|l| l.starts_with("M ")) {
        return Some(e);
    }
    None
}

pub fn check(a: &[&str]) -> i32 {
    let prop = a[0];
    let mut deep = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let (mut count, mut secs) = (0u64, 0u64);
    let mut jobs = 8usize;
    let mut evidence = true;
    let mut i = 1;
    while i < a.len() {
        match a[i] {
            "--deep" => deep = true,
            "--quick" => deep = false,
            "--seed" => {
                base = a[i + 1].parse().unwrap();
                i += 1
            }
            "--count" => {
                count = a[i + 1].parse().unwrap();
                i += 1
            }
            "--secs" => {
                secs = a[i + 1].parse().unwrap();
                i += 1
            }
            "--jobs" => {
                jobs = a[i + 1].parse().unwrap();
                i += 1
            }
            "--no-evidence" => evidence = false,
            x => {
                eprintln!("unknown option {}", x);
                return 2;
            }
        }
        i += 1;
    }
    let (q, t) = sizes(prop);
    if count == 0 {
        count = if deep { t } else { q };
    }
    if secs == 0 {
        secs = if deep { 600 } else { 90 };
    }
    if let Err(e) = crate::selftest::seam() {
        eprintln!("the simulator does not control the run: {}", e);
        return 2;
    }
    let t0 = Instant::now();
    println!("{}: {} simulated cases from seed {}, {} processes", prop, count, base, jobs);
    let mut b = batch(prop, deep, base, count, secs, jobs);
    if let Some(h) = &b.harness {
        eprintln!("{}", h);
        return 2;
    }
    let run_s = t0.elapsed().as_secs_f64();
    // the same seeds again, in other processes
    let mut same = 0;
    let mut other = 0;
    let mut differs = None;
    if b.found.is_none() {
        let again = batch(prop, deep, base, count.min(24), 120, if jobs % 4 == 0 { 4 } else { 1 });
        for (i, h) in &again.hashes {
            if let Some(g) = b.hashes.get(i) {
                if g == h {
                    same += 1
                } else {
                    other += 1;
                    differs.get_or_insert(*i);
                }
            }
        }
        if let Some(f) = again.found {
            b.found = Some(f);
        }
    }
    let mut code = 0;
    let mut violations = 0;
    for (m, what) in known(prop) {
        // listed findings are re-confirmed on every run
        let n: u64 = b.known.iter().filter(|(k, _)| k.contains(&m)).map(|(_, n)| *n).sum();
        println!("KNOWN-FINDING: property={} {} (met in {} cases)", prop, what, n);
    }
    if let Some(f) = &b.found {
        violations = 1;
        let seed = seed_of(base, f.index);
        println!("case {} (seed {}): {}", f.index, seed, f.msg);
        let rep = settle(prop, deep, base, f, jobs);
        let dir = format!("{}/out", verif());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.json", dir, prop, seed);
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("write replay file");
        println!("{}", rep.violation);
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    if evidence {
        let ev = evidence_json(prop, deep, base, &b, wall, run_s, violations, same, other, differs, jobs);
        let dir = format!("{}/evidence", verif());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    let m = &b.meter;
    println!(
        "{}: {} cases, {} runs ({} distinct, {} non-trivial), {} points, {} storage/network calls, {} faults, {:.1} s; repeated {} of {} exactly",
        prop,
        m.cases,
        m.runs,
        m.sigs.len(),
        m.nontrivial.len(),
        m.points,
        m.sys,
        m.fired.values().sum::<u64>(),
        wall,
        same,
        same + other
    );
    code
}

/// From a failing case to a confirmed, minimised replay file
fn settle(prop: &str, deep: bool, base: u64, f: &Found, jobs: usize) -> Replay {
    let seed = seed_of(base, f.index);
    let shipped_build = shipped(f.worker, jobs);
    SHIPPED.store(shipped_build, Relaxed);
    exec::install_hook();
    let case = match std::panic::catch_unwind(|| gen(prop, seed, deep)) {
        Ok(c) => c,
        Err(_) => return Replay { property: prop.into(), violation: f.msg.clone(), seed, case: None, history: None, log_hash: String::new(), shipped_build },
    };
    let known = known(prop);
    let r = run_one(&case, CASE_LIMIT);
    match r.verdict {
        Verdict::Broken(ref msg) if !is_known(msg, &known) => {
            let (case, run, tried) = minimise::minimise(case, r, &known);
            println!("minimised with {} further runs", tried);
            let msg = match &run.verdict {
                Verdict::Broken(m) => m.clone(),
                _ => unreachable!(),
            };
            Replay { property: prop.into(), violation: msg, seed, case: Some(case), history: None, log_hash: run.hash, shipped_build }
        }
        _ => {
            // only in the company of earlier cases in the same process
            let step = jobs as u64;
            let mut start = f.worker as u64;
            let args = |start: u64| -> Vec<String> {
                let mut v = vec![prop.to_string(), if deep { "1" } else { "0" }.to_string()];
                v.extend([base, start, step, f.index + 1, 3600].map(|x| x.to_string()));
                v
            };
            let mut msg = run_history(&args(start));
            if msg.is_some() {
                // drop as much of the beginning as possible
                let mut cut = (f.index - start) / step;
                while cut > 0 {
                    let s = start + cut * step;
                    if s <= f.index {
                        if let Some(m) = run_history(&args(s)) {
                            msg = Some(m);
                            start = s;
                            cut = ((f.index - start) / step).min(cut);
                            if cut == 0 {
                                break;
                            }
                            continue;
                        }
                    }
                    cut /= 2;
                }
            }
            println!("the failure needs the earlier cases of its process; the replay file holds that history");
            Replay { property: prop.into(), violation: msg.unwrap_or_else(|| f.msg.clone()), seed, case: None, history: Some(args(start)), log_hash: String::new(), shipped_build }
        }
    }
}

pub fn replay(a: &[&str]) -> i32 {
    let text = match std::fs::read_to_string(a[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", a[0], e);
            return 2;
        }
    };
    let rep: Replay = serde_json::from_str(&text).expect("replay file");
    SHIPPED.store(rep.shipped_build, Relaxed);
    let got = match (&rep.case, &rep.history) {
        (Some(c), _) => {
            let r = run_one(c, CASE_LIMIT);
            if !rep.log_hash.is_empty() {
                println!("event log {} ({})", r.hash, if r.hash == rep.log_hash { "identical" } else { "different" });
            }
            match r.verdict {
                Verdict::Broken(m) => Some(m),
                Verdict::Holds => None,
            }
        }
        (None, Some(h)) => run_history(h),
        _ => None,
    };
    match got {
        Some(m) => {
            println!("{}", m);
            println!("{}", if m == rep.violation { "reproduced exactly" } else { "reproduced, with another message" });
            println!("VIOLATION property={} replay={}", rep.property, a[0]);
            1
        }
        None => {
            println!("not reproduced: the property held");
            0
        }
    }
}

fn real_and_stub(prop: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let mut real = vec!["tsfile-writer (writer, encodings, compression, index, statistics)", "Rust std file and thread code down to the libc symbol", "snap"];
    let mut stub = vec!["kernel file system (in-memory model with fault plan)", "clock", "random source (fixes hash-map order)"];
    match prop {
        "C13" | "C14" | "C15" | "C16" | "C18" => {
            real.extend(["tsfile-writer sync sender and generated thrift client", "thrift", "std::net::TcpStream", "uuid", "sha2"]);
            stub.extend(["network", "IoTDB sync receiver (independent model)"]);
        }
        "C17" => {
            real.extend(["tsfile-writer-c exported functions, called in-process", "tsfile-writer sync sender and generated thrift client", "thrift", "std::net::TcpStream"]);
            stub.extend(["network", "IoTDB sync receiver (independent model)"]);
        }
        "C12" => real.push("tsfile-writer-c exported functions, called in-process"),
        "C09" => stub.push("thread scheduler (one released thread, switches at every call and storage operation)"),
        _ => {}
    }
    (real, stub)
}

#[allow(clippy::too_many_arguments)]
fn evidence_json(prop: &str, deep: bool, base: u64, b: &Batch, wall: f64, run_s: f64, violations: u64, same: u64, other: u64, differs: Option<u64>, jobs: usize) -> serde_json::Value {
    let m = &b.meter;
    let (real, stub) = real_and_stub(prop);
    let mut samples = vec![];
    for i in 0..3u64 {
        if let Ok(c) = std::panic::catch_unwind(|| gen(prop, seed_of(base, i), deep)) {
            let mut v = serde_json::to_value(&c).unwrap();
            shorten(&mut v);
            samples.push(v);
        }
    }
    let per_h = |n: f64| (n / run_s.max(0.001) * 3600.0).round();
    json!({
        "property": prop,
        "tier": if deep { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": m.cases,
            "distinct_nontrivial": m.nontrivial.len(),
            "rule": "a case is drawn from one seed: schema, history of calls, thresholds, environment and fault plan; it is executed by the real code on the simulated machine. A run counts as non-trivial when it reached what the property is about (data read back from a finished file, a fault that fired, a crash, a refused call, a handshake ...) and as distinct when the hash over all its storage and network calls (kind, offset, length, result) and all results of the code differs from every other run's",
            "samples": samples,
            "simulated_runs": m.runs,
            "distinct_runs": m.sigs.len(),
            "runs_per_hour": per_h(m.runs as f64),
            "seeds_per_hour": per_h(m.cases as f64),
            "simulated_seconds": m.sim_ns as f64 / 1e9,
            "storage_and_network_calls": m.sys,
            "points_written": m.points,
            "bytes_written": m.bytes,
            "api_calls": m.calls,
            "oracle_passes": m.checks,
            "faults_fired": m.fired,
            "distinct_interleavings": m.schedules.len(),
            "reached": m.probes,
            "files_looked_like": m.shapes.iter().map(|(k, v)| (k.clone(), json!(ranges(v)))).collect::<serde_json::Map<_, _>>(),
            "repeated_identically_in_another_process": same,
            "repeated_differently": other,
            "first_different_case": differs,
            "cases_in_the_build_without_assertions": if jobs % 4 == 0 { "one in four" } else { "none" },
            "event_log_sum": format!("{:x}", m.log),
            "real_code": real,
            "stubs": stub,
        },
        "assumptions": [
            "storage completes writes in order and an acknowledged write survives a process crash (process crash, not power loss)",
            "thresholds are lowered through the guarded hook in most cases so that flushes and page breaks happen in short histories",
            "seeded search: what was not drawn was not tried"
        ],
        "wall_s": wall,
        "violations": violations,
    })
}

/// 0-9 12 14-20
fn ranges(v: &std::collections::BTreeSet<u32>) -> String {
    let mut runs: Vec<(u32, u32)> = vec![];
    for &x in v {
        match runs.last_mut() {
            Some(r) if r.1 + 1 == x => r.1 = x,
            _ => runs.push((x, x)),
        }
    }
    let text: Vec<String> = runs.iter().take(24).map(|&(a, b)| if a == b { a.to_string() } else { format!("{}-{}", a, b) }).collect();
    let more = if runs.len() > 24 { format!(" ... {}", v.last().unwrap()) } else { String::new() };
    format!("{} values: {}{}", v.len(), text.join(" "), more)
}

fn shorten(v: &mut serde_json::Value) {
    match v {
        serde_json::Value::Array(a) => {
            let n = a.len();
            if n > 12 {
                a.truncate(10);
                a.push(json!(format!("... {} more", n - 10)));
            }
            a.iter_mut().for_each(shorten);
        }
        serde_json::Value::Object(o) => o.values_mut().for_each(shorten),
        serde_json::Value::String(s) if s.len() > 120 => {
            let k: String = s.chars().take(40).collect();
            *s = format!("{}... {} bytes", k, s.len());
        }
        _ => {}
    }
}
