//! Discrete-event simulation: event queue, network and disks with fault injection.

use std::collections::BTreeMap;

use crate::ctx::Ctx;

/// Events ordered by time, then by the order they were scheduled in.
pub struct Queue<E> {
    q: BTreeMap<(u64, u64), E>,
    seq: u64,
}

impl<E> Queue<E> {
    pub fn new() -> Self { Queue { q: BTreeMap::new(), seq: 0 } }
    pub fn after(&mut self, c: &Ctx, delay: u64, e: E) {
        self.seq += 1;
        self.q.insert((c.now + delay, self.seq), e);
    }
    pub fn pop(&mut self, c: &mut Ctx) -> Option<E> {
        let (k, e) = self.q.pop_first()?;
        c.now = k.0;
        Some(e)
    }
    pub fn clear(&mut self) { self.q.clear() }
}

/// Fault rates of one run, each out of 64. Every run enables another subset (swarm testing).
#[derive(Clone, Debug)]
pub struct Faults {
    pub drop: u64,
    pub dup: u64,
    pub trunc: u64,
    pub stale: u64,
    pub partition: u64,
    pub crash: u64,
    pub fsync_fail: u64,
    pub write_fail: u64,
    pub max_delay: u64,
}

fn rate(c: &mut Ctx) -> u64 { *c.t.pick(&[0, 0, 2, 6, 14, 24]) }

impl Faults {
    pub fn swarm(c: &mut Ctx) -> Faults {
        // A quarter of the runs is fault-free, so that no relaxation hides an ordinary bug.
        if c.t.chance(1, 4) {
            return Faults::none();
        }
        Faults {
            drop: rate(c),
            dup: rate(c),
            trunc: rate(c) / 2,
            stale: rate(c),
            partition: rate(c) / 4,
            crash: rate(c) / 3,
            fsync_fail: rate(c),
            write_fail: rate(c) / 2,
            max_delay: *c.t.pick(&[10, 200, 2000]),
        }
    }

    pub fn none() -> Faults {
        Faults {
            drop: 0,
            dup: 0,
            trunc: 0,
            stale: 0,
            partition: 0,
            crash: 0,
            fsync_fail: 0,
            write_fail: 0,
            max_delay: 10,
        }
    }
}

/// The network: decides what happens to a message.
pub struct Net {
    /// Blocked links until a time.
    blocked: BTreeMap<(usize, usize), u64>,
    pub enabled: bool,
}

impl Net {
    pub fn new() -> Net { Net { blocked: BTreeMap::new(), enabled: true } }

    /// The deliveries of one message from `a` to `b`: delay and, if cut short, the length kept.
    pub fn send(
        &mut self,
        c: &mut Ctx,
        f: &Faults,
        a: usize,
        b: usize,
        len: usize,
    ) -> Vec<(u64, Option<usize>)> {
        if !self.enabled {
            return vec![(1, None)];
        }
        if let Some(until) = self.blocked.get(&(a, b)) {
            if *until > c.now {
                c.fault("net-partitioned");
                return vec![];
            }
        }
        if c.t.chance(f.partition, 64) {
            let d = c.t.range(50, 3000);
            self.blocked.insert((a, b), c.now + d);
            if c.t.chance(1, 2) {
                self.blocked.insert((b, a), c.now + d);
            }
            c.fault("net-partition");
            return vec![];
        }
        if c.t.chance(f.drop, 64) {
            c.fault("net-drop");
            return vec![];
        }
        let mut out = vec![];
        let mut one = |c: &mut Ctx| {
            let delay = 1 + c.t.below(f.max_delay);
            let cut = if len > 0 && c.t.chance(f.trunc, 64) {
                c.fault("net-truncate");
                // Either anywhere or close to the end.
                Some(if c.t.chance(1, 2) {
                    c.t.idx(len)
                } else {
                    len - 1 - c.t.idx(core::cmp::min(len, 12))
                })
            } else {
                None
            };
            if delay > 100 {
                c.fault("net-delay");
            }
            out.push((delay, cut));
        };
        one(c);
        if c.t.chance(f.dup, 64) {
            c.fault("net-duplicate");
            one(c);
        }
        out
    }

    pub fn heal(&mut self) {
        self.blocked.clear();
        self.enabled = false;
    }
}

/// A disk with two slots that are written in turn. Writes are durable once synced; a crash keeps,
/// loses or tears what was not.
#[derive(Clone)]
pub struct Disk {
    slots: [Slot; 2],
    next: usize,
    gen: u64,
}

#[derive(Clone, Default)]
struct Slot {
    durable: Vec<u8>,
    pending: Option<Vec<u8>>,
}

pub enum Saved {
    /// Durable from now on.
    Synced,
    /// Handed to the disk, a crash may keep, lose or tear it.
    Unsynced,
    /// Not written.
    Failed,
}

impl Disk {
    pub fn new() -> Disk { Disk { slots: Default::default(), next: 0, gen: 0 } }

    /// Writes a record; returns its generation.
    pub fn save(&mut self, c: &mut Ctx, f: &Faults, payload: &[u8]) -> (u64, Saved) {
        self.gen += 1;
        let gen = self.gen;
        let mut rec = gen.to_le_bytes().to_vec();
        rec.extend_from_slice(payload);
        let slot = &mut self.slots[self.next];
        if c.t.chance(f.write_fail, 64) {
            if c.t.chance(1, 2) {
                c.fault("disk-full");
            } else {
                // A short write: a prefix reached the page cache before the error.
                c.fault("disk-short-write");
                let n = c.t.idx(rec.len());
                rec.truncate(n);
                slot.pending = Some(rec);
            }
            return (gen, Saved::Failed);
        }
        slot.pending = Some(rec);
        if c.t.chance(f.fsync_fail, 64) {
            c.fault("disk-fsync-fail");
            return (gen, Saved::Unsynced);
        }
        slot.durable = slot.pending.take().expect("set above");
        self.next ^= 1;
        (gen, Saved::Synced)
    }

    pub fn crash(&mut self, c: &mut Ctx) {
        for s in self.slots.iter_mut() {
            if let Some(p) = s.pending.take() {
                match c.t.below(3) {
                    0 => c.fault("disk-lost-write"),
                    1 => {
                        c.fault("disk-late-write");
                        s.durable = p;
                    }
                    _ => {
                        c.fault("disk-torn-write");
                        let n = if c.t.chance(1, 2) {
                            c.t.idx(p.len() + 1)
                        } else {
                            p.len() - c.t.idx(core::cmp::min(p.len() + 1, 8))
                        };
                        s.durable = p[..n].to_vec();
                    }
                }
            }
        }
    }

    /// The records found after a crash, newest first. The payload may be torn.
    pub fn recover(&mut self) -> Vec<(u64, Vec<u8>)> {
        let mut v: Vec<(u64, Vec<u8>)> = self
            .slots
            .iter()
            .filter(|s| s.durable.len() >= 8)
            .map(|s| (u64::from_le_bytes(s.durable[..8].try_into().unwrap()), s.durable[8..].to_vec()))
            .collect();
        v.sort_by(|a, b| b.0.cmp(&a.0));
        // Never overwrite the newest good record: the caller tells with `use_gen`.
        v
    }

    /// Tells which record the owner recovered from, the other slot is written next.
    pub fn use_gen(&mut self, gen: Option<u64>) {
        for (i, s) in self.slots.iter().enumerate() {
            if s.durable.len() >= 8
                && Some(u64::from_le_bytes(s.durable[..8].try_into().unwrap())) == gen
            {
                self.next = i ^ 1;
            }
        }
    }
}
