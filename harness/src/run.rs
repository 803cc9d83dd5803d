//! Orchestrator: numbered cases, worker processes, attribution, evidence.
use crate::checks_a as a;
use crate::checks_b as b;
use crate::checks_c as c;
use crate::checks_d as e;
use crate::checks_e as g;
use crate::checks_f as h;
use crate::ctx::*;
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

type CheckFn = fn(u64, &mut Rng, &mut Ctx) -> CR;

pub struct Def {
    pub id: &'static str,
    pub f: CheckFn,
    /// Cases that every run completes.
    pub directed: fn() -> u64,
    pub quick: u64,
    pub thorough: u64,
    pub stack: usize,
    pub builds: &'static [&'static str],
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

const BIG: usize = 256 << 20;
const SMALL: usize = 2 << 20;
const ALLOC_EXIT: i32 = 77;
/// CPU seconds after which a single case counts as not terminating.
const CPU_LIMIT: f64 = 90.0;
/// Seconds after which a process whose threads all sleep and use no CPU time counts as stuck.
const STUCK_LIMIT: f64 = 45.0;
/// Cases in which the harness itself may fail without voiding the run.
const ASAN: &str = "exitcode=99:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1";
const ASAN_EXIT: i32 = 99;
const HARNESS_FAILURES: usize = 4;

pub fn defs() -> Vec<Def> {
    let d = |id, f: CheckFn, quick, thorough, rule| Def {
        id,
        f,
        directed: a::full_count,
        quick,
        thorough,
        stack: BIG,
        builds: &["checked"],
        level: "exploration",
        rule,
        assumptions: &[],
    };
    vec![
        d("C01", a::c01, 3_500_000, 30_000_000, "files with at least one property, distinct by written bytes"),
        Def {
            directed: || a::full_count() + a::bundled().len() as u64,
            ..d("C02", a::c02, 4_000_000, 30_000_000, "files with at least one property, distinct by input bytes")
        },
        d("C03", a::c03, 2_500_000, 20_000_000, "encodings of files with at least one property, of single properties, bodies and texts, distinct by bytes"),
        Def {
            stack: SMALL,
            builds: &["checked", "release", "debug"],
            ..d("C04", a::c04, 1_500_000, 30_000_000, "inputs longer than 8 bytes, distinct by bytes")
        },
        d("C05", a::c05, 8_000_000, 60_000_000, "damaged and intact files the reference decoder decides, distinct by bytes"),
        d("C06", b::c06, 120_000, 800_000, "prefixes longer than 4 bytes of saves, headers, properties and containers, distinct by bytes"),
        Def { directed: b::c07_directed, ..d("C07", b::c07, 8_000_000, 60_000_000, "header encodings, distinct by bytes") },
        d("C08", b::c08, 700_000, 8_000_000, "saves and containers (intact and damaged), distinct by bytes"),
        d("C09", b::c09, 1_000_000, 12_000_000, "pairs of a save with header-less structs and a hint table, distinct by content"),
        d("C10", b::c10, 1_000_000, 6_000_000, "saves with exactly one invalid field, distinct by bytes"),
        d("C11", b::c11, 300_000, 2_000_000, "inputs and fault positions, distinct by delivered bytes"),
        d("C12", b::c12, 30_000, 400_000, "encodings and fault positions, distinct by delivered bytes"),
        d("C13", b::c13, 2_000_000, 10_000_000, "non-empty encodings written by a size-reporting operation, distinct by bytes"),
        d("C14", c::c14, 1_400_000, 16_000_000, "JSON texts of files and single values, distinct by text"),
        Def { directed: c::c15_directed, ..d("C15", c::c15, 10_000_000, 60_000_000, "GUIDs and GUID texts, distinct by content") },
        d("C16", c::c16, 2_000_000, 16_000_000, "pairs of values, distinct by content"),
        Def { directed: c::c17_directed, ..d("C17", c::c17, 4_000_000, 30_000_000, "saves with affected values and version tables, distinct by bytes") },
        Def {
            builds: &["checked", "asan"],
            level: "other",
            assumptions: &[
                "the interpreter and the sanitizer report every undefined behaviour of the executions they observe",
            ],
            ..d("C18", c::c18, 600_000, 10_000_000, "library calls observed by the counting allocator, the address sanitizer or the interpreter, distinct by input")
        },
        Def { directed: || 0, ..d("C19", c::c19, 16_000, 300_000, "call histories of at least two calls, distinct by sequence") },
        Def { directed: c::c20_directed, ..d("C20", c::c20, 400_000, 6_000_000, "constructor inputs, distinct by content") },
        d("C21", c::c21, 2_000_000, 30_000_000, "inputs longer than 8 bytes, distinct by bytes"),
        d("C22", c::c22, 6_000_000, 40_000_000, "accepted inputs, distinct by bytes"),
        Def { directed: e::c23_directed, ..d("C23", e::c23, 3_000_000, 20_000_000, "encodings given to typed readers and stream helpers, distinct by bytes") },
        Def { directed: e::c24_directed, ..d("C24", e::c24, 3_000_000, 20_000_000, "constructor and conversion inputs, distinct by content") },
        Def { directed: e::c25_directed, ..d("C25", e::c25, 4_000_000, 20_000_000, "engine versions and custom version tables, distinct by content") },
        Def { directed: e::c26_directed, ..d("C26", e::c26, 2_000_000, 12_000_000, "values and errors shown as text, distinct by text") },
        Def { directed: g::c27_directed, ..d("C27", g::c27, 400, 20_000, "pairs of a save and one 16 times as large, distinct by operation and growing part") },
        d("C28", h::c28, 700_000, 12_000_000, "files and their JSON trees, distinct by content"),
    ]
}

pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(0) as u64
}

fn find(id: &str) -> Option<Def> {
    defs().into_iter().find(|d| d.id == id)
}

fn tier_name(t: Tier) -> &'static str {
    if t == Tier::Quick { "quick" } else { "thorough" }
}

// ---------------------------------------------------------------------------------
// Known findings: lines "known: property=<id> sig=<signature> :: text"
fn known_findings() -> Vec<(String, String, String)> {
    let p = verif_dir().join("known-findings.txt");
    let s = fs::read_to_string(p).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (id, rest) = l.split_once(" sig=")?;
            let (sig, text) = rest.split_once(" :: ")?;
            Some((id.to_string(), sig.to_string(), text.to_string()))
        })
        .collect()
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VMON_HOME").unwrap_or_else(|_| "/verif".into()))
}

// ---------------------------------------------------------------------------------
fn run_case(d: &Def, seed: u64, idx: u64, ctx: &mut Ctx) -> CR {
    let mut r = Rng::for_case(d.id, seed, idx);
    (d.f)(idx, &mut r, ctx)
}

/// Unoptimized frames are several times larger than those of any shipped build.
fn stack_of(d: &Def) -> usize {
    let debug = std::env::current_exe().ok().and_then(|p| Some(p.parent()?.file_name()? == "debug")).unwrap_or(false);
    if debug { d.stack * 2 } else { d.stack }
}

fn on_stack<T: Send + 'static>(size: usize, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    std::thread::Builder::new().stack_size(size).spawn(f).ok()?.join().ok()
}

/// worker PROP SEED TIER START STRIDE END OUT DEADLINE_S
pub fn worker(a: &[String]) -> i32 {
    let Some(d) = find(&a[0]) else { return 2 };
    let seed: u64 = a[1].parse().unwrap();
    let t = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let (start, stride, end): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let out = a[6].clone();
    let deadline = Duration::from_secs_f64(a[7].parse().unwrap());
    let directed = (d.directed)();
    let stack = stack_of(&d);
    let r = on_stack(stack, move || {
        let t0 = Instant::now();
        let progress = File::create(format!("{out}.idx")).expect("harness: progress file");
        let known = known_findings();
        let mut ctx = Ctx::new(d.id, seed, t);
        let mut cases = 0u64;
        let mut directed_done = 0u64;
        let mut viol = None;
        let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
        let mut i = start;
        while i < end {
            if i >= directed && cases % 16 == 0 && t0.elapsed() > deadline {
                break;
            }
            let _ = progress.write_all_at(&i.to_le_bytes(), 0);
            crate::alloc::reset();
            match run_case(&d, seed, i, &mut ctx) {
                Ok(()) => {}
                Err(v) => {
                    if known.iter().any(|k| k.0 == d.id && k.1 == v.sig) {
                        *known_hits.entry(v.sig.clone()).or_default() += 1;
                    } else {
                        viol = Some((i, v));
                        break;
                    }
                }
            }
            cases += 1;
            if i < directed {
                directed_done += 1;
            }
            i += stride;
        }
        let mut hashes: Vec<u8> = Vec::with_capacity(ctx.hashes.len() * 8);
        for h in &ctx.hashes {
            hashes.extend(h.to_le_bytes());
        }
        fs::write(format!("{out}.hash"), hashes).expect("harness: hash file");
        let v = json!({
            "cases": cases, "directed": directed_done, "evals": ctx.evals, "counters": ctx.counters,
            "samples": ctx.samples, "known": known_hits,
            "violation": viol.as_ref().map(|(i, v)| json!({
                "idx": i, "sig": v.sig, "what": v.what, "input": v.input.as_ref().map(|b| hex(b)),
            })),
        });
        fs::write(format!("{out}.json"), v.to_string()).expect("harness: result file");
        viol.is_some()
    });
    match r {
        Some(false) => 0,
        Some(true) => 1,
        None => 3,
    }
}

/// one PROP SEED IDX TIER: a single case, verdict by exit status.
pub fn one(a: &[String]) -> i32 {
    let Some(d) = find(&a[0]) else { return 2 };
    let (seed, idx): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let t = if a.get(3).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let stack = stack_of(&d);
    let r = on_stack(stack, move || {
        let mut ctx = Ctx::new(d.id, seed, t);
        run_case(&d, seed, idx, &mut ctx)
    });
    match r {
        Some(Ok(())) => {
            println!("case {idx} held");
            0
        }
        Some(Err(v)) => {
            println!("case {idx}: [{}] {}", v.sig, v.what);
            if let Some(b) = v.input {
                println!("input ({} bytes): {}", b.len(), hex(&b[..b.len().min(2000)]));
            }
            1
        }
        None => 3,
    }
}

pub fn replay(path: &str) -> i32 {
    let v: Value = match fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    println!("recorded: {}", v["what"].as_str().unwrap_or(""));
    let bin = bin_path(v["build"].as_str().unwrap_or("checked"));
    let st = Command::new(bin)
        .args(["one", v["property"].as_str().unwrap_or(""), &v["seed"].to_string(), &v["idx"].to_string(), v["tier"].as_str().unwrap_or("quick")])
        .status();
    match st {
        Ok(s) => {
            println!("replay: {s}");
            if s.code() == Some(0) { 0 } else { 1 }
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}

// ---------------------------------------------------------------------------------
fn bin_path(build: &str) -> PathBuf {
    let me = std::env::current_exe().expect("harness: own path");
    let dir = me.parent().and_then(|p| p.parent()).expect("harness: target dir");
    dir.join(build).join("vmon")
}

pub struct Summary {
    pub t0: Instant,
    pub cases: u64,
    pub directed: u64,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub hashes: HashSet<u64>,
    pub known: BTreeMap<String, u64>,
    pub skipped: Vec<String>,
    pub inconclusive: Vec<String>,
    pub violation: Option<Value>,
}

impl Summary {
    pub fn new() -> Self {
        Summary {
            t0: Instant::now(),
            cases: 0,
            directed: 0,
            evals: 0,
            counters: BTreeMap::new(),
            samples: vec![],
            hashes: HashSet::new(),
            known: BTreeMap::new(),
            skipped: vec![],
            inconclusive: vec![],
            violation: None,
        }
    }
    fn absorb(&mut self, out: &str) -> Option<Value> {
        let v: Value = serde_json::from_str(&fs::read_to_string(format!("{out}.json")).ok()?).ok()?;
        self.cases += v["cases"].as_u64().unwrap_or(0);
        self.directed += v["directed"].as_u64().unwrap_or(0);
        self.evals += v["evals"].as_u64().unwrap_or(0);
        for (k, n) in v["counters"].as_object()? {
            *self.counters.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
        }
        for (k, n) in v["known"].as_object()? {
            *self.known.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
        }
        for s in v["samples"].as_array()? {
            if self.samples.len() < 12 {
                self.samples.push(s.as_str().unwrap_or("").to_string());
            }
        }
        let mut b = vec![];
        if let Ok(mut f) = File::open(format!("{out}.hash")) {
            let _ = f.read_to_end(&mut b);
        }
        for c in b.chunks_exact(8) {
            if self.hashes.len() < 40_000_000 {
                self.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        Some(v["violation"].clone())
    }
}

struct W {
    child: Child,
    build: &'static str,
    out: String,
    start: u64,
    stride: u64,
    last_idx: u64,
    cpu_at_idx: f64,
    /// CPU time when it last changed, and when that was.
    cpu_seen: (f64, Instant),
}

fn cpu_of(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ticks: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(ticks / 100.0)
}

/// All threads sleep and no child process is running.
fn asleep(pid: u32) -> bool {
    let Ok(dir) = fs::read_dir(format!("/proc/{pid}/task")) else { return false };
    for t in dir.flatten() {
        let Ok(s) = fs::read_to_string(t.path().join("stat")) else { return false };
        let Some(i) = s.rfind(')') else { return false };
        if !s[i..].starts_with(") S") {
            return false;
        }
        match fs::read_to_string(t.path().join("children")) {
            Ok(c) if c.trim().is_empty() => {}
            _ => return false,
        }
    }
    true
}

/// A call that does not return is a violation of these properties.
fn must_return(id: &str) -> bool {
    ["C04", "C11", "C12", "C19", "C21", "C27"].contains(&id)
}

fn read_idx(out: &str) -> Option<u64> {
    let mut b = [0u8; 8];
    File::open(format!("{out}.idx")).ok()?.read_exact(&mut b).ok()?;
    Some(u64::from_le_bytes(b))
}

enum Alone {
    Fine,
    Violates(String),
    Died(String),
    AllocCap,
    Hangs,
    Unknown(String),
}

/// Runs one case in its own process.
fn alone(d: &Def, build: &str, seed: u64, idx: u64, t: Tier) -> Alone {
    let child = Command::new(bin_path(build))
        .args(["one", d.id, &seed.to_string(), &idx.to_string(), tier_name(t)])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => return Alone::Unknown(e.to_string()),
    };
    let (mut so, mut se) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let ho = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let he = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let mut seen = (-1.0, Instant::now());
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => return Alone::Unknown(e.to_string()),
        }
        let cpu = cpu_of(child.id()).unwrap_or(0.0);
        if cpu != seen.0 || !asleep(child.id()) {
            seen = (cpu, Instant::now());
        }
        if cpu > CPU_LIMIT || seen.1.elapsed().as_secs_f64() > STUCK_LIMIT {
            let _ = child.kill();
            let _ = child.wait();
            return Alone::Hangs;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let so = ho.join().unwrap_or_default();
    let se = he.join().unwrap_or_default();
    match (st.code(), st.signal()) {
        (Some(0), _) => Alone::Fine,
        (Some(1), _) => Alone::Violates(so),
        (Some(ALLOC_EXIT), _) => Alone::AllocCap,
        (_, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => {
            Alone::Died(format!("signal {s}: {}", se.lines().next_back().unwrap_or("")))
        }
        _ => Alone::Unknown(format!("{st}: {}", se.lines().next_back().unwrap_or(""))),
    }
}

pub fn parent(id: &str) -> i32 {
    let Some(d) = find(id) else {
        eprintln!("no such check {id}");
        return 2;
    };
    let (seed, t) = (seed(), tier());
    let mut s = Summary::new();
    drive(&d, seed, t, &mut s);
    if d.id == "C18" && s.violation.is_none() {
        crate::miri::leg(seed, t, &mut s);
    }
    finish(d.id, d.level, d.rule, d.assumptions, seed, t, s)
}

pub fn scratch(id: &str) -> PathBuf {
    let p = verif_dir().join("target").join("run").join(format!("{id}-{}", std::process::id()));
    fs::create_dir_all(&p).expect("harness: scratch directory");
    p
}

pub fn drive(d: &Def, seed: u64, t: Tier, s: &mut Summary) {
    let jobs: u64 = std::env::var("VMON_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let scale: f64 = std::env::var("VMON_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
    let n = if t == Tier::Quick { d.quick } else { d.thorough };
    let n = ((n as f64 * scale) as u64).max((d.directed)());
    let deadline: f64 = if t == Tier::Quick { 150.0 } else { 600.0 };
    let dir = scratch(d.id);
    let nb = d.builds.len() as u64;
    let directed = (d.directed)();
    let mut ws: Vec<W> = vec![];
    let mut serial = 0u64;
    let launch = |build: &'static str, start: u64, stride: u64, serial: &mut u64, left: f64| -> std::io::Result<W> {
        *serial += 1;
        let out = dir.join(format!("w{serial}")).to_string_lossy().to_string();
        // the unoptimized build gets a smaller share
        let end = match build {
            "debug" => (n / 6).max(directed),
            "release" | "asan" if nb > 1 => (n / 2).max(directed),
            _ => n,
        };
        let child = Command::new(bin_path(build))
            .args(["worker", d.id, &seed.to_string(), tier_name(t)])
            .args([start.to_string(), stride.to_string(), end.to_string(), out.clone(), left.max(0.0).to_string()])
            .stdout(Stdio::null())
            .stderr(File::create(format!("{out}.err"))?)
            .env("ASAN_OPTIONS", ASAN)
            .spawn()?;
        Ok(W { child, build, out, start, stride, last_idx: u64::MAX, cpu_at_idx: 0.0, cpu_seen: (-1.0, Instant::now()) })
    };
    let queue: Vec<(&'static str, u64)> = d.builds.iter().flat_map(|b| (0..jobs).map(move |j| (*b, j))).collect();
    // one build at a time: each gets an equal share of the time allowance
    let share = deadline / nb as f64;
    let mut pending = queue.into_iter().collect::<std::collections::VecDeque<_>>();
    let mut build_t0 = Instant::now();
    let mut deaths = 0u32;
    let mut failures = 0;
    'outer: loop {
        if ws.is_empty() {
            let Some(b) = pending.front().map(|p| p.0) else { break };
            build_t0 = Instant::now();
            while pending.front().map(|p| p.0) == Some(b) {
                let (_, j) = pending.pop_front().unwrap();
                match launch(b, j, jobs, &mut serial, share) {
                    Ok(w) => ws.push(w),
                    Err(e) => s.inconclusive.push(format!("cannot start a worker: {e}")),
                }
            }
        }
        std::thread::sleep(Duration::from_millis(15));
        let mut i = 0;
        while i < ws.len() {
            let st = ws[i].child.try_wait();
            let w = &mut ws[i];
            match st {
                Ok(None) => {
                    if let (Some(ix), Some(cpu)) = (read_idx(&w.out), cpu_of(w.child.id())) {
                        if ix != w.last_idx {
                            w.last_idx = ix;
                            w.cpu_at_idx = cpu;
                        }
                        if cpu != w.cpu_seen.0 || !asleep(w.child.id()) {
                            w.cpu_seen = (cpu, Instant::now());
                        }
                        let stuck = w.cpu_seen.1.elapsed().as_secs_f64() > STUCK_LIMIT;
                        if stuck || cpu - w.cpu_at_idx > CPU_LIMIT {
                            let _ = w.child.kill();
                            let _ = w.child.wait();
                            let w = ws.swap_remove(i);
                            match alone(d, w.build, seed, ix, t) {
                                Alone::Hangs if must_return(d.id) => {
                                    s.violation = Some(json!({"idx": ix, "build": w.build, "sig": "does not finish",
                                        "what": format!("case {ix} {} twice", if stuck {
                                            "stopped with all threads waiting".to_string()
                                        } else {
                                            format!("used more than {CPU_LIMIT} CPU seconds")
                                        })}));
                                    break 'outer;
                                }
                                Alone::Violates(so) => {
                                    s.violation = Some(json!({"idx": ix, "build": w.build, "sig": "slow violation", "what": so}));
                                    break 'outer;
                                }
                                _ => s.inconclusive.push(format!("case {ix} did not finish")),
                            }
                            continue;
                        }
                    }
                    i += 1;
                }
                Ok(Some(st)) => {
                    let w = ws.swap_remove(i);
                    match st.code() {
                        Some(0) | Some(1) => match s.absorb(&w.out) {
                            None => s.inconclusive.push("worker left no result".into()),
                            Some(v) if !v.is_null() => {
                                let mut v = v;
                                v["build"] = json!(w.build);
                                s.violation = Some(v);
                                break 'outer;
                            }
                            Some(_) => {}
                        },
                        Some(ASAN_EXIT) if w.build == "asan" => {
                            let err = fs::read_to_string(format!("{}.err", w.out)).unwrap_or_default();
                            let line = err.lines().find(|l| l.contains("ERROR: ")).unwrap_or("sanitizer report").to_string();
                            if line.contains("stack-overflow") || line.contains("out-of-memory") {
                                s.inconclusive.push(line);
                                continue;
                            }
                            let report: String = err.lines().skip_while(|l| !l.contains("ERROR: ")).take(40).collect::<Vec<_>>().join("\n");
                            s.violation = Some(json!({"idx": read_idx(&w.out), "build": "asan", "sig": "sanitizer report",
                                "what": format!("sanitizer: {line}"), "report": report}));
                            break 'outer;
                        }
                        code => {
                            deaths += 1;
                            let ix = read_idx(&w.out);
                            let Some(ix) = ix else {
                                s.inconclusive.push(format!("worker died before its first case: {st}"));
                                continue;
                            };
                            let a = alone(d, w.build, seed, ix, t);
                            let skip = match a {
                                Alone::Violates(so) => {
                                    s.violation = Some(json!({"idx": ix, "build": w.build, "sig": "violation after a death", "what": so}));
                                    break 'outer;
                                }
                                Alone::Died(how) => {
                                    s.violation = Some(json!({"idx": ix, "build": w.build, "sig": "process died",
                                        "what": format!("the process died handling case {ix} ({} build): {how}", w.build)}));
                                    break 'outer;
                                }
                                Alone::AllocCap if d.id == "C21" => {
                                    s.violation = Some(json!({"idx": ix, "build": w.build, "sig": "memory cap",
                                        "what": format!("case {ix} exceeded the memory cap of the monitor")}));
                                    break 'outer;
                                }
                                Alone::AllocCap => {
                                    s.skipped.push(format!("case {ix}: memory cap"));
                                    true
                                }
                                Alone::Hangs | Alone::Fine | Alone::Unknown(_) if code == Some(ALLOC_EXIT) => {
                                    s.skipped.push(format!("case {ix}: memory cap in a worker"));
                                    true
                                }
                                Alone::Fine => {
                                    s.inconclusive.push(format!("worker died at case {ix} ({st}), not reproducible"));
                                    true
                                }
                                Alone::Hangs => {
                                    s.inconclusive.push(format!("worker died at case {ix} ({st}), then hung"));
                                    true
                                }
                                Alone::Unknown(m) => {
                                    let err = fs::read_to_string(format!("{}.err", w.out)).unwrap_or_default();
                                    let m = format!("worker died at case {ix} ({st}): {m} {}", err.lines().next_back().unwrap_or(""));
                                    if code == Some(3) && failures < HARNESS_FAILURES {
                                        failures += 1;
                                        s.skipped.push(m);
                                    } else {
                                        s.inconclusive.push(m);
                                    }
                                    true
                                }
                            };
                            if skip && deaths < 60 {
                                let left = share - build_t0.elapsed().as_secs_f64();
                                match launch(w.build, ix + w.stride, w.stride, &mut serial, left) {
                                    Ok(mut nw) => {
                                        nw.start = w.start;
                                        ws.push(nw);
                                    }
                                    Err(e) => s.inconclusive.push(format!("cannot restart a worker: {e}")),
                                }
                            }
                        }
                    }
                }
                Err(e) => {
                    s.inconclusive.push(format!("wait failed: {e}"));
                    ws.swap_remove(i);
                }
            }
        }
    }
    if s.violation.is_none() && directed * nb > s.directed + (s.skipped.len() + s.inconclusive.len()) as u64 {
        s.inconclusive.push(format!("only {} of {} directed cases ran", s.directed, directed * nb));
    }
    for w in &mut ws {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    for mut w in ws {
        let _ = w.child.wait();
        s.absorb(&w.out);
    }
    let _ = fs::remove_dir_all(&dir);
}

pub fn finish(
    id: &str,
    level: &str,
    rule: &str,
    assumptions: &[&str],
    seed: u64,
    t: Tier,
    mut s: Summary,
) -> i32 {
    let home = verif_dir();
    let ev = home.join("evidence");
    let _ = fs::create_dir_all(ev.join("replay"));
    for (sig, n) in &s.known {
        let text = known_findings().into_iter().find(|k| k.0 == id && k.1 == *sig).map(|k| k.2).unwrap_or_default();
        println!("KNOWN-FINDING: property={id} {text} (seen {n} times)");
    }
    let mut code = 0;
    if let Some(v) = &mut s.violation {
        v["property"] = json!(id);
        v["seed"] = json!(seed);
        v["tier"] = json!(tier_name(t));
        let p = ev.join("replay").join(format!("{id}-{}.json", seed as i64));
        let _ = fs::write(&p, serde_json::to_string_pretty(v).unwrap_or_default());
        println!("{}", v["what"].as_str().unwrap_or(""));
        println!("VIOLATION property={id} replay={}", p.display());
        code = 1;
    } else {
        if s.evals == 0 {
            s.inconclusive.push("nothing was evaluated".into());
        }
        for m in &s.inconclusive {
            println!("INCONCLUSIVE: {m}");
            code = 2;
        }
    }
    if s.skipped.len() > 50 {
        s.skipped.truncate(50);
    }
    let j = json!({
        "property": id,
        "tier": tier_name(t),
        "seed": seed as i64,
        "level": level,
        "coverage": {
            "evaluations": s.evals,
            "distinct_nontrivial": s.hashes.len(),
            "rule": rule,
            "samples": s.samples,
            "cases": s.cases,
            "directed_cases": s.directed,
            "observed": s.counters,
            "skipped": s.skipped,
            "inconclusive": s.inconclusive,
        },
        "assumptions": assumptions,
        "wall_s": (s.t0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        "violations": if code == 1 { 1 } else { 0 },
    });
    let tmp = ev.join(format!(".{id}.tmp"));
    if write_json(&tmp, &j).is_err() || fs::rename(&tmp, ev.join(format!("{id}.json"))).is_err() {
        println!("INCONCLUSIVE: evidence not written");
        if code == 0 {
            code = 2;
        }
    }
    println!(
        "{id} {}: {} cases, {} evaluations, {} distinct, {:.1}s -> {}",
        tier_name(t),
        s.cases,
        s.evals,
        s.hashes.len(),
        s.t0.elapsed().as_secs_f64(),
        ["held", "violated", "inconclusive"][code as usize]
    );
    code
}

fn write_json(p: &Path, v: &Value) -> std::io::Result<()> {
    let mut f = File::create(p)?;
    f.write_all(serde_json::to_string_pretty(v)?.as_bytes())?;
    f.write_all(b"\n")
}
