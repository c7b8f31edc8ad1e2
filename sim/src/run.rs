//! Executing single runs: catching panics, workers, replays and minimisation.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::ctx::{fnv, Ctx, Violation};
use crate::tape::{mix, Tape};
use crate::{prop, Prop};

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = match info.location() {
            Some(l) => {
                let f = l.file();
                // Paths of dependencies differ between machines.
                let f = f.strip_prefix("/repo/").unwrap_or(f);
                let f = match f.find("/registry/src/") {
                    Some(i) => f[i..].splitn(5, '/').last().unwrap_or(f),
                    None => f,
                };
                format!("{}:{}", f, l.line())
            }
            None => "?".into(),
        };
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Takes the last panic seen by the hook.
pub fn take_panic() -> Option<(String, String)> { PANIC.with(|p| p.borrow_mut().take()) }

pub struct Outcome {
    pub ctx: Ctx,
    pub violation: Option<Violation>,
}

pub fn run_tape(p: &Prop, t: Tape) -> Outcome {
    let mut ctx = Ctx::new(t, p.id);
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut ctx)));
    let violation = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(_) => {
            let (loc, msg) = take_panic().unwrap_or_default();
            Some(Violation { class: format!("panic@{}", loc), msg: format!("panicked at {}: {}", loc, msg) })
        }
    };
    if let Some(v) = &violation {
        let s = format!("VIOLATION {}: {}", v.class, v.msg);
        ctx.event(s);
    }
    Outcome { ctx, violation }
}

pub fn run_seed(id: &str, seed: u64, idx: u64) -> u64 {
    mix(mix(seed ^ fnv(0, id.as_bytes())).wrapping_add(idx))
}

/// Counters of a batch.
#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub sim_ms: u64,
    pub draws: u64,
    pub nontrivial: u64,
    pub hashes: std::collections::BTreeSet<u64>,
    pub states: std::collections::BTreeSet<u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sample: Vec<(u64, Vec<String>)>,
}

/// worker ID SEED FROM STRIDE RUNS SECONDS OUT CUR
pub fn worker(a: &[String]) -> i32 {
    install_hook();
    let p = prop(&a[0]);
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, from, stride, runs, secs) = (n(1), n(2), n(3), n(4), n(5));
    let cur = std::fs::File::create(&a[7]).expect("cur");
    let start = Instant::now();
    let mut s = Stats::default();
    let mut found = Value::Null;
    let known = crate::orch::known_findings(std::path::Path::new(&a[8]), p.id);
    let mut met: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = from;
    while i < runs {
        if s.runs % 16 == 0 && start.elapsed() > Duration::from_secs(secs) {
            break;
        }
        std::os::unix::fs::FileExt::write_all_at(&cur, &i.to_le_bytes(), 0).expect("cur");
        let o = run_tape(p, Tape::seeded(run_seed(p.id, seed, i)));
        s.runs += 1;
        s.steps += o.ctx.steps;
        s.sim_ms += o.ctx.now;
        s.draws += o.ctx.t.rec.len() as u64;
        for (k, v) in &o.ctx.faults {
            *s.faults.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in &o.ctx.probes {
            *s.probes.entry(k.to_string()).or_insert(0) += v;
        }
        if o.ctx.steps >= 3 {
            s.nontrivial += 1;
            s.hashes.insert(o.ctx.log_hash);
        }
        s.states.insert(o.ctx.state_hash);
        if s.sample.is_empty() && o.ctx.steps >= 10 && o.ctx.steps <= 60 && o.ctx.faults.len() > 1 {
            s.sample.push((i, o.ctx.log.clone()));
        }
        match o.violation {
            Some(v) if known.iter().any(|k| k.0 == v.class) => *met.entry(v.class).or_insert(0) += 1,
            Some(v) => {
            found = json!({"idx": i, "class": v.class, "msg": v.msg, "tape": o.ctx.t.rec});
            break;
            }
            None => {}
        }
        i += stride;
    }
    let out = json!({
        "runs": s.runs, "steps": s.steps, "sim_ms": s.sim_ms, "draws": s.draws,
        "nontrivial": s.nontrivial,
        "hashes": s.hashes.iter().collect::<Vec<_>>(),
        "states": s.states.iter().collect::<Vec<_>>(),
        "faults": s.faults, "probes": s.probes, "sample": s.sample, "found": found, "known": met,
    });
    std::fs::write(&a[6], serde_json::to_vec(&out).expect("json")).expect("out");
    0
}

/// one ID SEED INDEX: prints the log of one run.
pub fn one(a: &[String]) -> i32 {
    install_hook();
    let p = prop(&a[0]);
    let seed = run_seed(p.id, a[1].parse().expect("seed"), a[2].parse().expect("index"));
    let o = run_tape(p, Tape::seeded(seed));
    for l in &o.ctx.log {
        println!("{}", l);
    }
    println!("log hash {:016x} state {:016x} draws {}", o.ctx.log_hash, o.ctx.state_hash, o.ctx.t.rec.len());
    println!("faults {:?}\nprobes {:?}", o.ctx.faults, o.ctx.probes);
    match o.violation {
        Some(v) => {
            println!("violation {}: {}", v.class, v.msg);
            1
        }
        None => 0,
    }
}

/// tape ID SOURCE OUT: executes a tape (file of JSON numbers, or "seed:N") and writes the draws as
/// they are made to OUT, for runs that may end the process.
pub fn tape(a: &[String]) -> i32 {
    install_hook();
    let p = prop(&a[0]);
    let mut t = match a[1].strip_prefix("seed:") {
        Some(s) => Tape::seeded(s.parse().expect("seed")),
        None => {
            let v: Vec<u64> =
                serde_json::from_slice(&std::fs::read(&a[1]).expect("tape")).expect("tape");
            Tape::replay(v)
        }
    };
    t.sink = Some(std::fs::File::create(&a[2]).expect("sink"));
    let o = run_tape(p, t);
    match o.violation {
        Some(v) => {
            let _ = std::fs::write(format!("{}.class", a[2]), v.class);
            1
        }
        None => 0,
    }
}

/// replay FILE: executes a replay file; exit 1 when it fails in the recorded way.
pub fn replay(a: &[String]) -> i32 {
    install_hook();
    let v: Value = serde_json::from_slice(&std::fs::read(&a[0]).expect("file")).expect("json");
    let p = prop(v["property"].as_str().expect("property"));
    let t: Vec<u64> = serde_json::from_value(v["tape"].clone()).expect("tape");
    let class = v["class"].as_str().expect("class");
    if class.starts_with("abort") || class == "hang" {
        // Executed in a child, as it ends the process.
        let dir = std::env::temp_dir().join(format!("psbt-sim-replay-{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("dir");
        let got = in_child(p, &t, &dir);
        let _ = std::fs::remove_dir_all(&dir);
        return match got {
            Some((c, _)) if c == class => {
                println!("VIOLATION property={} replay={}", p.id, a[0]);
                println!("{}", c);
                1
            }
            Some((c, _)) => {
                println!("failed in another way: {}", c);
                3
            }
            None => {
                println!("no violation");
                0
            }
        };
    }
    let o = run_tape(p, Tape::replay(t));
    for l in &o.ctx.log {
        println!("{}", l);
    }
    match o.violation {
        Some(got) => {
            if got.class != class {
                println!("failed in another way: {}", got.class);
                return 3;
            }
            if v["log_hash"].as_str() != Some(&format!("{:016x}", o.ctx.log_hash)[..]) {
                println!("failed in the same way, but the event log differs");
                return 3;
            }
            println!("VIOLATION property={} replay={}", p.id, a[0]);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Executes a tape in a child process; the class of its violation and the tape it drew.
pub fn in_child(p: &Prop, t: &[u64], dir: &std::path::Path) -> Option<(String, Vec<u64>)> {
    let f = dir.join("tape.json");
    std::fs::write(&f, serde_json::to_vec(t).expect("json")).expect("tape");
    child(p, f.to_str().expect("path"), dir)
}

pub fn child(p: &Prop, source: &str, dir: &std::path::Path) -> Option<(String, Vec<u64>)> {
    use std::os::unix::process::ExitStatusExt;
    let sink = dir.join("draws");
    let _ = std::fs::remove_file(dir.join("draws.class"));
    let mut ch = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(["tape", p.id, source, sink.to_str().expect("path")])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn");
    let start = Instant::now();
    let status = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None if start.elapsed() > Duration::from_secs(HANG_S) => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let draws: Vec<u64> = std::fs::read(&sink)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect();
    let class = match status {
        None => "hang".to_string(),
        Some(s) if s.success() => return None,
        Some(s) => match s.signal() {
            Some(n) => format!("abort-signal-{}", n),
            None => std::fs::read_to_string(dir.join("draws.class")).unwrap_or("abort-exit".into()),
        },
    };
    Some((class, draws))
}

/// A run takes milliseconds; one that takes this long hangs.
pub const HANG_S: u64 = 60;

/// Shrinks a tape while the run keeps failing in the same class.
pub fn minimise(p: &Prop, class: &str, tape: Vec<u64>, secs: u64, dir: &std::path::Path) -> Vec<u64> {
    let outside = class.starts_with("abort") || class == "hang";
    let secs = if class == "hang" { 0 } else { secs };
    let start = Instant::now();
    let over = || start.elapsed() > Duration::from_secs(secs);
    let try_one = |t: &[u64]| -> Option<Vec<u64>> {
        if outside {
            match in_child(p, t, dir) {
                Some((c, draws)) if c == class => Some(draws),
                _ => None,
            }
        } else {
            let o = run_tape(p, Tape::replay(t.to_vec()));
            match o.violation {
                Some(v) if v.class == class => Some(o.ctx.t.rec),
                _ => None,
            }
        }
    };
    let better = |a: &[u64], b: &[u64]| -> bool {
        let w = |t: &[u64]| (t.len(), t.iter().filter(|x| **x != 0).count());
        let (wa, wb) = (w(a), w(b));
        wa < wb || wa == wb && a.iter().map(|x| 64 - x.leading_zeros()).sum::<u32>() < b.iter().map(|x| 64 - x.leading_zeros()).sum::<u32>()
    };
    let mut best = match try_one(&tape) {
        Some(t) => t,
        None => return tape,
    };
    loop {
        let before = best.clone();
        // Delete blocks, or blank them.
        let mut size = core::cmp::max(1, best.len() / 2);
        while size >= 1 && !over() {
            let mut i = 0;
            while i < best.len() && !over() {
                let end = core::cmp::min(i + size, best.len());
                let mut t = best[..i].to_vec();
                t.extend_from_slice(&best[end..]);
                match try_one(&t) {
                    Some(r) if better(&r, &best) => {
                        best = r;
                        continue;
                    }
                    _ => {}
                }
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    for x in &mut t[i..end] {
                        *x = 0;
                    }
                    if let Some(r) = try_one(&t) {
                        if better(&r, &best) {
                            best = r;
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // Reduce single choices.
        let mut i = 0;
        while i < best.len() && !over() {
            for cand in [1, 2, best[i] / 2, best[i].saturating_sub(1)] {
                if cand < best[i] {
                    let mut t = best.clone();
                    t[i] = cand;
                    if let Some(r) = try_one(&t) {
                        if better(&r, &best) {
                            best = r;
                            break;
                        }
                    }
                }
                if i >= best.len() {
                    break;
                }
            }
            i += 1;
        }
        if best == before || over() {
            break;
        }
    }
    best
}

/// Writes lines to stderr at once.
pub fn note(s: &str) { let _ = writeln!(std::io::stderr(), "{}", s); }
