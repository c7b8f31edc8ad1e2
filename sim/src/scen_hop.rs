//! C04, C05: one PSBT relayed over many hops, each with its own encoding, storage and crashes.

use std::rc::Rc;

use crate::ctx::{fail, Ctx, R};
use crate::gen::{apply_raw, base, base_n, facts, Base};
use crate::raw::Raw;
use crate::scen_combine::check_model;
use crate::sim::{Disk, Faults, Net, Queue, Saved};
use crate::typed::{Enc, Ps, ALL_ENCS, ENCS};
use crate::{ensure, ev};

struct Relay<P> {
    disk: Disk,
    /// What it knows, lost in a crash.
    mem: Option<P>,
    up: bool,
    enc: Enc,
}

enum Ev {
    Deliver { to: usize, enc: Enc, bytes: Rc<Vec<u8>>, cut: Option<usize> },
    Resend { from: usize, attempt: u64 },
}

/// Checks one copy against what everybody should have.
fn check<P: Ps>(c: &mut Ctx, p: &P, orig: &P, m: &Raw, bytes: &[u8], what: &str) -> R {
    ensure!(p == orig, "hop-changed", "{}: not equal to the original", what);
    let b = p.ser();
    ensure!(b == bytes, "hop-changed-bytes", "{}: serialises differently", what);
    ensure!(p.ser() == b, "serialise-unstable", "{}: two serialisations differ", what);
    check_model(p, m, "hop-wrong-field", what)?;
    c.state(&b);
    Ok(())
}

fn pick_enc(c: &mut Ctx) -> Enc {
    if c.t.chance(2, 3) {
        *c.t.pick(&ENCS)
    } else {
        *c.t.pick(&ALL_ENCS)
    }
}

pub fn run<P: Ps>(c: &mut Ctx) -> R {
    let b: Base = if c.t.chance(1, 300) {
        let n = *c.t.pick(&[253usize, 300, 256]);
        if c.t.chance(1, 2) {
            base_n(c, P::V, n, 1)
        } else {
            base_n(c, P::V, 1, n)
        }
    } else {
        base(c, P::V)
    };
    let nf = *c.t.pick(&[8usize, 1, 3, 16, 40]);
    let fs = facts(c, &b, nf);
    let mut m = b.raw.clone();
    let mut kinds = vec![];
    for f in &fs {
        apply_raw(&mut m, f);
        kinds.push(f.kind);
    }
    // A foreign writer may leave out what has a default.
    let mut wire = m.clone();
    if P::V == 2 && m.g[&vec![6u8]] == [0] && c.t.chance(1, 2) {
        wire.g.remove(&vec![6u8]);
        c.probe("flags-left-out");
    }
    if P::V == 0 && c.t.chance(1, 16) {
        // An explicit version 0 means the same as none.
        wire.g.insert(vec![0xfb], vec![0, 0, 0, 0]);
        c.probe("explicit-version-0");
    }
    let orig = match P::de(&wire.write()) {
        Ok(p) => p,
        Err(e) => return fail("decode-refused", format!("the original: {}", e)),
    };
    let bytes = orig.ser();
    check_model(&orig, &m, "decode-wrong", "the original")?;
    ensure!(
        Raw::parse(P::V, &bytes).map_err(|e| (e, ())).as_ref().ok() == Some(&m),
        "serialise-wrong",
        "the original"
    );
    ev!(c, "v{} {} in {} out, records {:?}", P::V, m.ins.len(), m.outs.len(), kinds);

    let fl = Faults::swarm(c);
    let hops = *c.t.pick(&[4usize, 2, 8]);
    let mut relays: Vec<Relay<P>> = (0..=hops)
        .map(|_| Relay { disk: Disk::new(), mem: None, up: true, enc: pick_enc(c) })
        .collect();
    relays[0].mem = Some(orig.clone());
    let mut net = Net::new();
    let mut q: Queue<Ev> = Queue::new();
    q.after(c, 1, Ev::Resend { from: 0, attempt: 0 });
    let mut steps = 0;
    let mut arrived = false;
    let mut calm = false;
    while let Some(e) = q.pop(c) {
        steps += 1;
        let late = matches!(e, Ev::Resend { attempt, .. } if attempt > 12);
        if !calm && (steps > 60 || late) {
            calm = true;
            net.heal();
        }
        match e {
            Ev::Resend { from, attempt } => {
                if arrived {
                    continue;
                }
                let fl2 = if calm { Faults::none() } else { fl.clone() };
                let r = &mut relays[from];
                if !r.up {
                    // It comes back and reads its disk.
                    r.up = true;
                    for (gen, payload) in r.disk.recover() {
                        match P::dec(r.enc, &payload) {
                            Ok(p) => {
                                check(c, &p, &orig, &m, &bytes, &format!("relay {} recovered {:?}", from, r.enc))?;
                                r.disk.use_gen(Some(gen));
                                r.mem = Some(p);
                                break;
                            }
                            Err(_) => c.probe("torn-record-refused"),
                        }
                    }
                    ev!(c, "relay {} restarts, has a copy: {}", from, r.mem.is_some());
                }
                if relays[from].mem.is_some() {
                    if attempt > 0 && c.t.chance(fl2.crash, 64) {
                        c.fault("crash");
                        ev!(c, "relay {} crashes", from);
                        let r = &mut relays[from];
                        r.up = false;
                        r.disk.crash(c);
                        if from > 0 {
                            r.mem = None;
                        }
                    } else {
                        let enc = if c.t.chance(1, 2) { relays[from].enc } else { pick_enc(c) };
                        let out = match relays[from].mem.as_ref().unwrap().enc(enc) {
                            Ok(b) => Rc::new(b),
                            Err(e) => return fail("encode-failed", format!("{:?}: {}", enc, e)),
                        };
                        ev!(c, "relay {} sends {:?}, {} bytes", from, enc, out.len());
                        for (d, cut) in net.send(c, &fl2, from, from + 1, out.len()) {
                            q.after(c, d, Ev::Deliver { to: from + 1, enc, bytes: out.clone(), cut });
                        }
                    }
                }
                if attempt < 40 {
                    let d = 50 + c.t.below(200);
                    q.after(c, d, Ev::Resend { from, attempt: attempt + 1 });
                }
            }
            Ev::Deliver { to, enc, bytes: b, cut } => {
                let what = format!("relay {} reads {:?}", to, enc);
                let got = P::dec(enc, match cut {
                    Some(n) => &b[..n],
                    None => &b,
                });
                match (got, cut) {
                    (Ok(_), Some(n)) =>
                        return fail("truncated-accepted", format!("{}: cut to {} of {} bytes", what, n, b.len())),
                    (Err(_), Some(_)) => {
                        ev!(c, "{}: cut short, refused", what);
                        continue;
                    }
                    (Err(e), None) => return fail("decode-refused", format!("{}: {}", what, e)),
                    (Ok(p), None) => {
                        check(c, &p, &orig, &m, &bytes, &what)?;
                        let fl2 = if calm { Faults::none() } else { fl.clone() };
                        let r = &mut relays[to];
                        if !r.up {
                            ev!(c, "{}: relay is down", what);
                            continue;
                        }
                        let payload = match p.enc(r.enc) {
                            Ok(b) => b,
                            Err(e) => return fail("encode-failed", format!("{:?}: {}", r.enc, e)),
                        };
                        let first = r.mem.is_none();
                        r.mem = Some(p);
                        let (_, how) = r.disk.save(c, &fl2, &payload);
                        ev!(c, "{}: stored as {:?}, {}", what, r.enc, match how { Saved::Synced => "synced", Saved::Unsynced => "not synced", Saved::Failed => "failed" });
                        if to == hops {
                            arrived = true;
                            c.probe("arrived-at-the-end");
                            // The last one reads its storage back in any case.
                            if let Saved::Synced = how {
                                let rec = r.disk.recover();
                                let enc = r.enc;
                                match P::dec(enc, &rec[0].1) {
                                    Ok(p) => check(c, &p, &orig, &m, &bytes, "last storage")?,
                                    Err(e) => return fail("decode-refused", format!("last storage {:?}: {}", enc, e)),
                                }
                            }
                        } else if first {
                            q.after(c, 1, Ev::Resend { from: to, attempt: 0 });
                        }
                    }
                }
            }
        }
    }
    ensure!(arrived, "never-arrived", "after {} steps", steps);
    // Cuts anywhere, and at the boundaries of the records.
    let p = relays[hops].mem.clone().unwrap_or(orig);
    for _ in 0..6 {
        let e = pick_enc(c);
        let b = match p.enc(e) {
            Ok(b) => b,
            Err(e) => return fail("encode-failed", e),
        };
        let n = match c.t.below(3) {
            0 => c.t.idx(b.len()),
            1 => b.len() - 1 - c.t.idx(core::cmp::min(8, b.len())),
            _ => {
                // A boundary between maps in the byte encoding.
                let cuts: Vec<usize> = b.iter().enumerate().filter(|(_, x)| **x == 0).map(|(i, _)| i).collect();
                if cuts.is_empty() { 0 } else { cuts[c.t.idx(cuts.len())] }
            }
        };
        c.fault("storage-cut-short");
        ensure!(P::dec(e, &b[..n]).is_err(), "truncated-accepted", "{:?} cut to {} of {}", e, n, b.len());
    }
    Ok(())
}
