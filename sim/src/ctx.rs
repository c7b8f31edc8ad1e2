//! The context of one simulated run: choices, simulated clock, event log, fault and probe counters.

use std::collections::BTreeMap;

use crate::tape::Tape;

#[derive(Debug, Clone)]
pub struct Violation {
    /// What kind of violation this is, the minimiser keeps it constant.
    pub class: String,
    /// Details of this violation.
    pub msg: String,
}

pub type R<T = ()> = Result<T, Violation>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> R<T> {
    Err(Violation { class: class.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::ctx::fail($class, format!($($arg)*));
        }
    };
}

/// Records an event of the run.
#[macro_export]
macro_rules! ev {
    ($ctx:expr, $($arg:tt)*) => {
        $ctx.event(format!($($arg)*))
    };
}

pub const MAX_LOG: usize = 4000;

pub struct Ctx {
    pub t: Tape,
    /// The property whose violations this run reports.
    pub focus: &'static str,
    pub now: u64,
    pub steps: u64,
    pub log: Vec<String>,
    pub log_hash: u64,
    pub state_hash: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf2_9ce4_8422_2325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

impl Ctx {
    pub fn new(t: Tape, focus: &'static str) -> Self {
        Ctx {
            t,
            focus,
            now: 0,
            steps: 0,
            log: vec![],
            log_hash: 0,
            state_hash: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
        }
    }

    pub fn event(&mut self, s: String) {
        self.steps += 1;
        self.log_hash = fnv(self.log_hash.rotate_left(5), s.as_bytes());
        if self.log.len() < MAX_LOG {
            self.log.push(format!("[{:>6}ms] {}", self.now, s));
        }
    }

    pub fn fault(&mut self, kind: &'static str) { *self.faults.entry(kind).or_insert(0) += 1; }

    pub fn probe(&mut self, kind: &'static str) { *self.probes.entry(kind).or_insert(0) += 1; }

    /// Mixes a state into the state measure of this run.
    pub fn state(&mut self, b: &[u8]) { self.state_hash = fnv(self.state_hash.rotate_left(7), b); }
}

pub fn hexs(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn short(b: &[u8]) -> String {
    if b.len() <= 24 {
        hexs(b)
    } else {
        format!("{}..({} bytes, fnv {:016x})", hexs(&b[..16]), b.len(), fnv(0, b))
    }
}
