//! Runs packed library calls in the Miri interpreter.
use crate::ctx::*;
use crate::rng::hash_bytes;
use crate::run::*;
use serde_json::json;
use std::fs::{self, File};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

struct Shard {
    child: Child,
    out: String,
    flags: String,
    pack: String,
}

/// The record a shard was working on.
fn last(out: &str) -> String {
    let s = fs::read_to_string(out).unwrap_or_default();
    s.lines().next_back().unwrap_or("").to_string()
}

pub fn leg(seed: u64, t: Tier, s: &mut Summary) {
    let home = verif_dir();
    let dir = scratch("C18m");
    let shards = 8u64;
    let seconds = if t == Tier::Quick { 150 } else { 500 };
    let records = if t == Tier::Quick { 6_000 } else { 60_000 };
    let me = std::env::current_exe().expect("harness: own path");
    let mut run: Vec<Shard> = vec![];
    for k in 0..shards {
        let pack = dir.join(format!("{k}.pack")).to_string_lossy().to_string();
        let ok = Command::new(&me)
            .args(["pack", &seed.to_string(), &k.to_string(), &shards.to_string(), &records.to_string(), &pack])
            .status();
        if !ok.map(|x| x.success()).unwrap_or(false) {
            s.inconclusive.push("packing the calls for the interpreter failed".into());
            return;
        }
        let mut flags = format!("-Zmiri-disable-isolation -Zmiri-seed={}", (seed.wrapping_mul(8) + k) % 10_000);
        match k {
            0..=2 => {}
            3..=5 => flags += " -Zmiri-tree-borrows",
            // faster: validity, bounds, initialisation, leaks and races only
            _ => flags += " -Zmiri-disable-stacked-borrows",
        }
        if k % 2 == 1 {
            flags += " -Zmiri-preemption-rate=0.1";
        }
        let out = dir.join(format!("{k}.out")).to_string_lossy().to_string();
        let spawn = || -> std::io::Result<Child> {
            Command::new("cargo")
                .args(["+nightly", "miri", "run", "-q", "--offline", "--", &pack, &seconds.to_string()])
                .current_dir(home.join("miri"))
                .env("CARGO_TARGET_DIR", home.join("target").join("miri"))
                .env("CARGO_NET_OFFLINE", "true")
                .env("MIRIFLAGS", &flags)
                .env_remove("RUSTFLAGS")
                .stdin(Stdio::null())
                .stdout(File::create(&out)?)
                .stderr(File::create(format!("{out}.err"))?)
                .spawn()
        };
        match spawn() {
            Ok(child) => run.push(Shard { child, out, flags, pack }),
            Err(e) => s.inconclusive.push(format!("cannot start the interpreter: {e}")),
        }
    }
    let t0 = Instant::now();
    let limit = Duration::from_secs(if t == Tier::Quick { 420 } else { 1500 });
    for mut w in run {
        let st = loop {
            match w.child.try_wait() {
                Ok(Some(x)) => break Some(x),
                Ok(None) if t0.elapsed() > limit => {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    break None;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(50)),
                Err(_) => break None,
            }
        };
        let err = fs::read_to_string(format!("{}.err", w.out)).unwrap_or_default();
        let end = last(&w.out);
        if let Some(n) = end.strip_prefix("done ") {
            let n: u64 = n.split(' ').next().and_then(|n| n.parse().ok()).unwrap_or(0);
            s.evals += n;
            s.cases += n;
            *s.counters.entry("calls run in the interpreter".into()).or_default() += n;
            if end.ends_with(" panics 0") {
                *s.counters.entry("interpreter shards without panics".into()).or_default() += 1;
            }
            let pack = fs::read(&w.pack).unwrap_or_default();
            let mut at = 8;
            for _ in 0..n {
                let Some(l) = pack.get(at + 1..at + 5) else { break };
                let l = u32::from_le_bytes(l.try_into().unwrap()) as usize;
                if let Some(b) = pack.get(at..at + 5 + l) {
                    s.hashes.insert(hash_bytes(b));
                }
                at += 5 + l;
            }
        }
        let report: Vec<&str> = err
            .lines()
            .skip_while(|l| !(l.starts_with("error") || l.contains("ERROR")))
            .take(60)
            .collect();
        let bad = err.contains("Undefined Behavior") || err.contains("memory leaked") || err.contains("unsafe precondition");
        match st {
            Some(x) if x.success() && end.starts_with("done ") => {}
            _ if bad => {
                if s.violation.is_none() {
                    let head = report.first().copied().unwrap_or("report").to_string();
                    let keep = home.join("evidence").join("replay");
                    let _ = fs::create_dir_all(&keep);
                    let kept = keep.join(format!("C18-{}.pack", seed as i64));
                    let _ = fs::copy(&w.pack, &kept);
                    s.violation = Some(json!({
                        "sig": "interpreter report", "build": "miri", "flags": w.flags, "record": end,
                        "pack": kept, "what": format!("interpreter ({}): {head} ({end})", w.flags), "report": report.join("\n"),
                    }));
                }
            }
            None => s.inconclusive.push(format!("interpreter stopped at its time limit ({end})")),
            Some(x) => s.inconclusive.push(format!(
                "interpreter: {x}: {} {} ({end})",
                report.first().copied().unwrap_or(""),
                err.lines().next_back().unwrap_or("")
            )),
        }
    }
    let _ = fs::remove_dir_all(&dir);
}
