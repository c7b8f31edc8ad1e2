//! The orchestrator of a check: worker processes, watchdog, minimisation, replay, evidence.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::run::{child, minimise, note, run_seed, run_tape, HANG_S};
use crate::tape::Tape;
use crate::{prop, Prop, PROPS};

const WORKERS: u64 = 8;

struct W {
    ch: Child,
    out: PathBuf,
    cur: PathBuf,
    last: u64,
    since: Instant,
    done: bool,
}

fn spawn(p: &Prop, seed: u64, from: u64, stride: u64, runs: u64, secs: u64, out: &Path, cur: &Path, root: &Path) -> Child {
    Command::new(std::env::current_exe().expect("exe"))
        .args(["worker", p.id])
        .args([seed, from, stride, runs, secs].iter().map(|x| x.to_string()))
        .arg(out)
        .arg(cur)
        .arg(root)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn")
}

fn read_cur(p: &Path) -> u64 {
    match std::fs::read(p) {
        Ok(b) if b.len() == 8 => u64::from_le_bytes(b.try_into().unwrap()),
        _ => u64::MAX,
    }
}

struct Found {
    idx: u64,
    class: String,
    msg: String,
    tape: Vec<u64>,
}

/// run ID TIER SEED ROOT
pub fn check(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap_or(1);
    let root = PathBuf::from(&a[3]);
    let runs = if thorough { p.thorough } else { p.quick };
    let secs = match std::env::var("SIM_SECONDS").ok().and_then(|s| s.parse().ok()) {
        Some(s) => s,
        None if thorough => 1500,
        None => 240,
    };
    let runs = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(runs);
    let workers: u64 = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(WORKERS);
    let dir = root.join("target").join(format!("run-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("run dir");
    let start = Instant::now();
    println!("{}: seed {}, {} runs, {} workers, at most {} s", p.id, seed, runs, workers, secs);
    let mut ws: Vec<W> = (0..workers)
        .map(|i| {
            let out = dir.join(format!("out{}", i));
            let cur = dir.join(format!("cur{}", i));
            W {
                ch: spawn(p, seed, i, workers, runs, secs, &out, &cur, &root),
                out,
                cur,
                last: u64::MAX,
                since: Instant::now(),
                done: false,
            }
        })
        .collect();
    let mut ended: Vec<(u64, bool)> = vec![];
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let cur = read_cur(&w.cur);
            if cur != w.last {
                w.last = cur;
                w.since = Instant::now();
            }
            match w.ch.try_wait().expect("wait") {
                Some(st) => {
                    w.done = true;
                    if !st.success() {
                        ended.push((read_cur(&w.cur), false));
                    }
                }
                None if w.since.elapsed() > Duration::from_secs(HANG_S) => {
                    let _ = w.ch.kill();
                    let _ = w.ch.wait();
                    w.done = true;
                    ended.push((cur, true));
                }
                None => {}
            }
        }
    }
    let explored_s = start.elapsed().as_secs_f64();

    // Merge.
    let mut total: BTreeMap<&str, u64> = BTreeMap::new();
    let mut hashes = BTreeSet::new();
    let mut states = BTreeSet::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut found: Vec<Found> = vec![];
    let mut met: BTreeMap<String, u64> = BTreeMap::new();
    for w in &ws {
        let v: Value = match std::fs::read(&w.out).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(v) => v,
            None => continue,
        };
        for k in ["runs", "steps", "sim_ms", "draws", "nontrivial"] {
            *total.entry(k).or_insert(0) += v[k].as_u64().unwrap_or(0);
        }
        for h in v["hashes"].as_array().into_iter().flatten() {
            hashes.insert(h.as_u64());
        }
        for h in v["states"].as_array().into_iter().flatten() {
            states.insert(h.as_u64());
        }
        for (name, m) in [("faults", &mut faults), ("probes", &mut probes)] {
            for (k, n) in v[name].as_object().into_iter().flatten() {
                *m.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
        }
        for (k, n) in v["known"].as_object().into_iter().flatten() {
            *met.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
        if samples.len() < 2 {
            for s in v["sample"].as_array().into_iter().flatten() {
                samples.push(json!({"run": s[0], "seed": run_seed(p.id, seed, s[0].as_u64().unwrap_or(0)), "events": s[1]}));
            }
        }
        if !v["found"].is_null() {
            let f = &v["found"];
            found.push(Found {
                idx: f["idx"].as_u64().unwrap(),
                class: f["class"].as_str().unwrap().into(),
                msg: f["msg"].as_str().unwrap().into(),
                tape: serde_json::from_value(f["tape"].clone()).unwrap(),
            });
        }
    }
    // Runs that ended their process: find the draws again in a child.
    for (idx, hung) in ended {
        if idx == u64::MAX {
            note("a worker ended before its first run");
            continue;
        }
        match child(p, &format!("seed:{}", run_seed(p.id, seed, idx)), &dir) {
            Some((class, draws)) => found.push(Found {
                idx,
                msg: format!("the run ended its process ({})", class),
                class,
                tape: draws,
            }),
            None => note(&format!("run {} ended its worker (hung: {}) but not a process of its own", idx, hung)),
        }
    }
    found.sort_by_key(|f| f.idx);
    let known = known_findings(&root, p.id);
    let mut violation = None;
    let mut unlisted = vec![];
    for f in found {
        match known.iter().find(|k| f.class == k.0) {
            Some(k) => *met.entry(k.0.clone()).or_insert(0) += 1,
            None => unlisted.push(f),
        }
    }
    crate::run::install_hook();
    for (class, text) in &known {
        let n = met.get(class).copied().unwrap_or(0);
        if n > 0 || crate::known::shows(class) {
            println!("KNOWN-FINDING: property={} {} ({}, met in {} runs)", p.id, text, class, n);
        }
    }
    let n_found = unlisted.len();
    if let Some(f) = unlisted.into_iter().next() {
        note(&format!("run {} (seed {}) violates: {}: {}", f.idx, run_seed(p.id, seed, f.idx), f.class, f.msg));
        crate::run::install_hook();
        let min = minimise(p, &f.class, f.tape.clone(), 60, &dir);
        let outside = f.class.starts_with("abort") || f.class == "hang";
        let (log, hash, msg) = if outside {
            (vec![], String::new(), f.msg.clone())
        } else {
            let o = run_tape(p, Tape::replay(min.clone()));
            let msg = o.violation.map(|v| v.msg).unwrap_or(f.msg.clone());
            (o.ctx.log, format!("{:016x}", o.ctx.log_hash), msg)
        };
        let rdir = root.join("replays");
        std::fs::create_dir_all(&rdir).expect("replays");
        let path = rdir.join(format!("{}-{}-{}.json", p.id, seed, f.idx));
        let doc = json!({
            "property": p.id, "verif_seed": seed, "run": f.idx,
            "seed": run_seed(p.id, seed, f.idx), "class": f.class, "message": msg,
            "draws": f.tape.len(), "minimised_draws": min.len(),
            "tape": min, "log_hash": hash, "log": log,
        });
        std::fs::write(&path, serde_json::to_vec_pretty(&doc).expect("json")).expect("replay file");
        // The replay has to fail the same way in a fresh process.
        let st = Command::new(std::env::current_exe().expect("exe"))
            .arg("replay")
            .arg(&path)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .expect("spawn");
        note(&format!("replay in a fresh process: {}", if st.code() == Some(1) { "reproduced" } else { "DIFFERENT" }));
        for l in log.iter().rev().take(12).rev() {
            note(l);
        }
        violation = Some((path, st.code() == Some(1)));
    }
    let _ = std::fs::remove_dir_all(&dir);

    let n = total.get("runs").copied().unwrap_or(0);
    let missing: Vec<&str> =
        p.expect.iter().copied().filter(|e| !probes.contains_key(*e) && !faults.contains_key(*e)).collect();
    let wall = start.elapsed().as_secs_f64();
    if samples.is_empty() {
        let o = run_tape(p, Tape::seeded(run_seed(p.id, seed, 0)));
        samples.push(json!({"run": 0, "seed": run_seed(p.id, seed, 0), "events": o.ctx.log}));
    }
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": hashes.len(),
            "rule": format!("{}. A run is non-trivial if it has at least three events; runs are distinct if their event logs (every delivery, fault, operation and outcome) hash differently.", p.rule),
            "samples": samples,
            "seeds": n,
            "runs_per_hour": (n as f64 / explored_s * 3600.0) as u64,
            "seeds_per_hour": (n as f64 / explored_s * 3600.0) as u64,
            "simulated_seconds": total.get("sim_ms").copied().unwrap_or(0) as f64 / 1000.0,
            "events": total.get("steps"),
            "choices_drawn": total.get("draws"),
            "distinct_state_histories": states.len(),
            "state_measure": "hash over the sequence of serialised PSBTs a run's parties went through",
            "faults_injected": faults,
            "probes": probes,
            "probes_never_hit": missing,
            "known_findings_met": met,
            "workers": workers,
            "real_code": "psbt-v2 (all of /repo/src the property touches), bitcoin, secp256k1, miniscript, serde_json, bincode",
            "stubs": "network, disk, clock, schedulers, key providers (HSM) and byte streams are simulated",
            "planned_runs": runs,
        },
        "assumptions": [
            "the simulator's independent reader, writer and models of BIP-174 and BIP-370 are right",
            "bitcoin, secp256k1 and miniscript behave as documented"
        ],
        "wall_s": wall,
        "violations": n_found,
    });
    let edir = root.join("evidence");
    std::fs::create_dir_all(&edir).expect("evidence");
    std::fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_vec_pretty(&ev).expect("json")).expect("evidence");
    println!(
        "{}: {} runs, {} distinct, {} state histories, {:.0} simulated s, {:.1} s wall",
        p.id,
        n,
        hashes.len(),
        states.len(),
        total.get("sim_ms").copied().unwrap_or(0) as f64 / 1000.0,
        wall
    );
    println!("faults {:?}", faults);
    println!("probes {:?}", probes);
    if !missing.is_empty() {
        println!("never hit: {:?}", missing);
    }
    match violation {
        Some((path, true)) => {
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
        Some((path, false)) => {
            println!("a violation did not replay, see {}", path.display());
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
        None if n == 0 => {
            println!("error: nothing was explored");
            3
        }
        None => 0,
    }
}

/// Lines "known: property=ID class=CLASS text".
pub fn known_findings(root: &Path, id: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let head = format!("known: property={} class=", id);
    s.lines()
        .filter_map(|l| l.strip_prefix(&head))
        .filter_map(|l| l.split_once(' '))
        .map(|(c, t)| (c.to_string(), t.to_string()))
        .collect()
}

/// selftest RUNS ROOT: the same seeds in different processes and partitions give the same logs.
pub fn selftest(a: &[String]) -> i32 {
    let runs: u64 = a[0].parse().expect("runs");
    let root = PathBuf::from(&a[1]);
    let dir = root.join("target").join(format!("selftest-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("dir");
    let only: Option<&String> = a.get(2);
    let mut bad = 0;
    for p in PROPS.iter().filter(|p| only.map_or(true, |o| o == p.id)) {
        let mut sets = vec![];
        for (round, workers) in [(0u64, 8u64), (1, 3), (2, 5), (3, 8)] {
            let mut chs = vec![];
            for i in 0..workers {
                let out = dir.join(format!("o{}-{}", round, i));
                let cur = dir.join(format!("c{}-{}", round, i));
                chs.push((spawn(p, 4242, i, workers, runs, 3600, &out, &cur, &root), out));
            }
            let mut hs: BTreeSet<(u64, u64)> = BTreeSet::new();
            let mut agg: BTreeMap<String, u64> = BTreeMap::new();
            for (mut ch, out) in chs {
                let _ = ch.wait();
                let v: Value = serde_json::from_slice(&std::fs::read(&out).unwrap_or_default()).unwrap_or(Value::Null);
                for h in v["hashes"].as_array().into_iter().flatten() {
                    hs.insert((0, h.as_u64().unwrap()));
                }
                for h in v["states"].as_array().into_iter().flatten() {
                    hs.insert((1, h.as_u64().unwrap()));
                }
                for k in ["runs", "steps", "sim_ms", "draws"] {
                    *agg.entry(k.into()).or_insert(0) += v[k].as_u64().unwrap_or(0);
                }
            }
            sets.push((hs, agg));
        }
        let same = sets.windows(2).all(|w| w[0] == w[1]);
        println!("{}: {} runs in 4 rounds of 8, 3, 5 and 8 processes: {} hashes, {}", p.id, runs, sets[0].0.len(), if same { "identical" } else { "DIFFERENT" });
        if !same {
            bad += 1;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    bad
}
