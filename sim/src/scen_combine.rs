//! C01, C02: parties that contribute records to copies of one PSBT and gossip.

use std::collections::BTreeMap;
use std::rc::Rc;

use crate::ctx::{fail, Ctx, R};
use crate::gen::{apply_raw, base, base_n, facts, union, Base, Fact};
use crate::raw::Raw;
use crate::sim::{Disk, Faults, Net, Queue, Saved};
use crate::typed::{Enc, Ps};
use crate::{ensure, ev};

struct Node<P: Ps> {
    up: bool,
    mem: P,
    model: Rc<Raw>,
    disk: Disk,
    /// What each generation on disk should hold.
    written: BTreeMap<u64, Rc<Raw>>,
    /// The last generation that is known to be durable.
    synced: u64,
    /// Facts this party has to contribute, and how many it did since it last lost its memory.
    facts: Vec<Fact>,
    done: usize,
    /// Old messages this party may send again.
    sent: Vec<Msg>,
}

#[derive(Clone)]
struct Msg {
    enc: Enc,
    bytes: Rc<Vec<u8>>,
    cut: Option<usize>,
    model: Rc<Raw>,
}

enum Ev {
    Tick(usize),
    Deliver(usize, usize, Msg),
    Restart(usize),
}

/// Compares a PSBT to its model through its own serialisation and through its fields.
pub fn check_model<P: Ps>(p: &P, m: &Raw, class: &str, what: &str) -> R {
    let bytes = p.ser();
    let raw = match Raw::parse(P::V, &bytes) {
        Ok(r) => r,
        Err(e) => return fail(class, format!("{}: own serialisation unreadable: {}", what, e)),
    };
    if let Some(d) = raw.diff(m) {
        return fail(class, format!("{}: serialised vs expected: {}", what, d));
    }
    if let Some(d) = p.to_raw().diff(m) {
        return fail(class, format!("{}: fields vs expected: {}", what, d));
    }
    Ok(())
}

fn pick_enc(c: &mut Ctx) -> Enc {
    match c.t.below(16) {
        0..=9 => Enc::Bytes,
        10..=12 => Enc::Base64,
        13 => Enc::Hex,
        14 => Enc::Json,
        _ => Enc::Bincode,
    }
}

/// Combines and checks every way of combining the two copies.
fn combine_checked<P: Ps>(c: &mut Ctx, a: &P, b: &P, m: &Raw) -> R<P> {
    let dir = c.t.below(2) == 1;
    let ab = match a.comb(b) {
        Ok(x) => x,
        Err(e) => return fail("combine-refused", format!("copies of one PSBT: {}", e)),
    };
    check_model(&ab, m, "combine-wrong-union", "combined")?;
    let ba = match b.comb_alt(a) {
        Ok(x) => x,
        Err(e) => return fail("combine-refused", format!("copies of one PSBT, reversed: {}", e)),
    };
    ensure!(ab == ba, "combine-not-commutative", "combining in the two directions differs");
    // Idempotent: nothing new comes from combining again.
    match ab.comb_alt(b) {
        Ok(x) => ensure!(x == ab, "combine-not-idempotent", "combining the same copy again differs"),
        Err(e) => return fail("combine-refused", format!("combining again: {}", e)),
    }
    Ok(if dir { ba } else { ab })
}

fn apply_fact<P: Ps>(c: &mut Ctx, p: &P, f: &Fact, model: &Raw) -> R<P> {
    if c.t.below(2) == 0 {
        // The party's software is a foreign one that edits the bytes.
        let b = model.write();
        match P::de(&b) {
            Ok(p) => Ok(p),
            Err(e) => fail("decode-refused", format!("a {} record: {}", f.kind, e)),
        }
    } else {
        let mut p = p.clone();
        if let Some((clear, set)) = f.flags {
            let v = p.to_raw().g[&vec![0x06u8]][0];
            p.apply(f.at, &[0x06], &[v & !clear | set]).expect("flags");
        }
        for (k, _) in &f.recs {
            // Does not shorten a known xpub origin.
            let v = &model.map(f.at)[k];
            p.apply(f.at, k, v).unwrap_or_else(|e| panic!("harness: fact {}: {}", f.kind, e));
        }
        Ok(p)
    }
}

pub fn run<P: Ps>(c: &mut Ctx) -> R {
    let big = c.t.chance(1, 400);
    let b: Base = if big {
        // More maps than fit a one-byte count.
        let n = *c.t.pick(&[253usize, 300, 256]);
        if c.t.chance(1, 2) {
            base_n(c, P::V, n, 1)
        } else {
            base_n(c, P::V, 1, n)
        }
    } else {
        base(c, P::V)
    };
    let nodes_n = c.t.range(2, 5) as usize;
    let nf = *c.t.pick(&[6usize, 2, 10, 16, 24]);
    let all = facts(c, &b, nf);
    let fl = Faults::swarm(c);
    let mut f_base = b.raw.clone();
    // Some of the records are part of what everybody starts from.
    let mut expected;
    let mut owners: Vec<Vec<Fact>> = vec![vec![]; nodes_n];
    let mut contributed = vec![];
    for f in all {
        match c.t.below(8) {
            7 => apply_raw(&mut f_base, &f),
            x => {
                let o = c.t.idx(nodes_n);
                owners[o].push(f.clone());
                if x == 6 {
                    // Two parties know the same thing.
                    let o2 = c.t.idx(nodes_n);
                    if o2 != o {
                        owners[o2].push(f.clone());
                    }
                }
                contributed.push(f);
            }
        }
    }
    expected = f_base.clone();
    for f in &contributed {
        apply_raw(&mut expected, f);
    }
    let base_bytes = f_base.write();
    let first = match P::de(&base_bytes) {
        Ok(p) => p,
        Err(e) => return fail("decode-refused", format!("the base PSBT: {}", e)),
    };
    check_model(&first, &f_base, "decode-wrong", "base")?;
    let base_model = Rc::new(f_base);
    ev!(c, "base v{} {} in {} out, {} parties, {} facts", P::V, b.raw.ins.len(), b.raw.outs.len(), nodes_n, contributed.len());

    let mut nodes: Vec<Node<P>> = owners
        .into_iter()
        .map(|facts| Node {
            up: true,
            mem: first.clone(),
            model: base_model.clone(),
            disk: Disk::new(),
            written: BTreeMap::new(),
            synced: 0,
            facts,
            done: 0,
            sent: vec![],
        })
        .collect();
    let mut net = Net::new();
    let mut q: Queue<Ev> = Queue::new();
    for i in 0..nodes_n {
        let d = c.t.below(20);
        q.after(c, d, Ev::Tick(i));
    }
    let steps = if big { 12 } else { *c.t.pick(&[40u64, 15, 80]) };
    let mut left = steps;
    while left > 0 {
        let e = match q.pop(c) {
            Some(e) => e,
            None => break,
        };
        left -= 1;
        step(c, &mut nodes, &mut net, &mut q, &fl, e, &base_model, &first)?;
    }

    // Faults stop: everybody comes back, contributes the rest and exchanges copies both ways.
    ev!(c, "faults stop");
    net.heal();
    q.clear();
    let calm = Faults::none();
    for i in 0..nodes_n {
        if !nodes[i].up {
            restart(c, &mut nodes[i], i, &base_model, &first)?;
        }
        while nodes[i].done < nodes[i].facts.len() {
            contribute(c, &mut nodes[i], i)?;
        }
    }
    // Pairwise exchange along a random tree spreads everything in two passes.
    let order = c.t.perm(nodes_n);
    for w in order.windows(2) {
        exchange(c, &mut nodes, w[0], w[1], &calm)?;
    }
    for w in order.windows(2).rev() {
        exchange(c, &mut nodes, w[1], w[0], &calm)?;
    }
    for i in 0..nodes_n {
        check_model(&nodes[i].mem, &expected, "not-converged", &format!("party {} at the end", i))?;
        ensure!(nodes[i].mem == nodes[0].mem, "not-converged", "party {} differs from party 0", i);
        // Identical bytes as well.
        ensure!(nodes[i].mem.ser() == nodes[0].mem.ser(), "not-converged", "bytes of party {} differ", i);
    }
    c.state(&nodes[0].mem.ser());
    Ok(())
}

fn contribute<P: Ps>(c: &mut Ctx, n: &mut Node<P>, i: usize) -> R {
    let f = n.facts[n.done].clone();
    n.done += 1;
    let mut m = (*n.model).clone();
    apply_raw(&mut m, &f);
    let p = apply_fact(c, &n.mem, &f, &m)?;
    ev!(c, "party {} adds {} to {:?}", i, f.kind, f.at);
    check_model(&p, &m, "contribution-wrong", &format!("party {} after adding {}", i, f.kind))?;
    n.mem = p;
    n.model = Rc::new(m);
    Ok(())
}

fn exchange<P: Ps>(c: &mut Ctx, nodes: &mut [Node<P>], a: usize, b: usize, _f: &Faults) -> R {
    let m = encode(c, &nodes[a])?;
    deliver(c, nodes, a, b, m)
}

fn encode<P: Ps>(c: &mut Ctx, n: &Node<P>) -> R<Msg> {
    let enc = pick_enc(c);
    let bytes = match n.mem.enc(enc) {
        Ok(b) => b,
        Err(e) => return fail("encode-failed", format!("{:?}: {}", enc, e)),
    };
    Ok(Msg { enc, bytes: Rc::new(bytes), cut: None, model: n.model.clone() })
}

fn deliver<P: Ps>(c: &mut Ctx, nodes: &mut [Node<P>], from: usize, to: usize, m: Msg) -> R {
    if !nodes[to].up {
        ev!(c, "party {} is down, message lost", to);
        c.fault("net-to-crashed");
        return Ok(());
    }
    let bytes: &[u8] = match m.cut {
        Some(n) => &m.bytes[..n],
        None => &m.bytes,
    };
    let got = P::dec(m.enc, bytes);
    if m.cut.is_some() {
        match got {
            Err(_) => {
                ev!(c, "party {} refuses a cut {:?} message from {}", to, m.enc, from);
                return Ok(());
            }
            Ok(_) => return fail("truncated-accepted", format!("{:?} cut to {} of {}", m.enc, bytes.len(), m.bytes.len())),
        }
    }
    let got = match got {
        Ok(p) => p,
        Err(e) => return fail("decode-refused", format!("{:?} message of a party: {}", m.enc, e)),
    };
    let mu = union(&nodes[to].model, &m.model);
    let new = combine_checked(c, &nodes[to].mem, &got, &mu)?;
    ev!(c, "party {} combines a {:?} copy from {}", to, m.enc, from);
    c.state(&new.ser());
    nodes[to].mem = new;
    nodes[to].model = Rc::new(mu);
    Ok(())
}

fn restart<P: Ps>(c: &mut Ctx, n: &mut Node<P>, i: usize, base: &Rc<Raw>, first: &P) -> R {
    n.up = true;
    n.done = 0;
    n.sent.clear();
    let mut best = None;
    for (gen, payload) in n.disk.recover() {
        match P::de(&payload) {
            Ok(p) => {
                best = Some((gen, p, payload));
                break;
            }
            Err(_) => c.probe("recovery-skipped-torn-record"),
        }
    }
    match best {
        Some((gen, p, payload)) => {
            n.disk.use_gen(Some(gen));
            let m = n.written.get(&gen).cloned();
            let m = match m {
                Some(m) => m,
                None => return fail("recovered-unknown", format!("generation {}", gen)),
            };
            ensure!(gen >= n.synced, "durable-lost", "synced {} recovered {}", n.synced, gen);
            ensure!(
                payload == m.write() || Raw::parse(P::V, &payload).as_ref() == Ok(&*m),
                "torn-accepted",
                "party {}: a torn record was taken for a PSBT", i
            );
            check_model(&p, &m, "recovered-wrong", &format!("party {} after recovery", i))?;
            n.mem = p;
            n.model = m;
            n.synced = gen;
            ev!(c, "party {} restarts from generation {}", i, gen);
        }
        None => {
            ensure!(n.synced == 0, "durable-lost", "synced {} recovered nothing", n.synced);
            n.mem = first.clone();
            n.model = base.clone();
            ev!(c, "party {} restarts from the base", i);
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn step<P: Ps>(
    c: &mut Ctx,
    nodes: &mut [Node<P>],
    net: &mut Net,
    q: &mut Queue<Ev>,
    fl: &Faults,
    e: Ev,
    base: &Rc<Raw>,
    first: &P,
) -> R {
    match e {
        Ev::Restart(i) => {
            if !nodes[i].up {
                restart(c, &mut nodes[i], i, base, first)?;
                q.after(c, 5, Ev::Tick(i));
            }
        }
        Ev::Deliver(from, to, m) => deliver(c, nodes, from, to, m)?,
        Ev::Tick(i) => {
            if !nodes[i].up {
                return Ok(());
            }
            if c.t.chance(fl.crash, 64) {
                c.fault("crash");
                let n = &mut nodes[i];
                n.up = false;
                n.disk.crash(c);
                ev!(c, "party {} crashes", i);
                let d = c.t.range(10, 500);
                q.after(c, d, Ev::Restart(i));
                return Ok(());
            }
            match c.t.below(8) {
                0..=2 if nodes[i].done < nodes[i].facts.len() => contribute(c, &mut nodes[i], i)?,
                3 => {
                    let n = &mut nodes[i];
                    let payload = n.mem.ser();
                    let (gen, how) = n.disk.save(c, fl, &payload);
                    n.written.insert(gen, n.model.clone());
                    let how = match how {
                        Saved::Synced => {
                            n.synced = gen;
                            "synced"
                        }
                        Saved::Unsynced => "not synced",
                        Saved::Failed => "failed",
                    };
                    ev!(c, "party {} stores generation {} ({})", i, gen, how);
                }
                _ => {
                    let k = nodes.len();
                    let to = (i + 1 + c.t.idx(k - 1)) % k;
                    let m = if !nodes[i].sent.is_empty() && c.t.chance(fl.stale, 64) {
                        c.fault("net-stale-resend");
                        let j = c.t.idx(nodes[i].sent.len());
                        nodes[i].sent[j].clone()
                    } else {
                        encode(c, &nodes[i])?
                    };
                    nodes[i].sent.push(m.clone());
                    for (delay, cut) in net.send(c, fl, i, to, m.bytes.len()) {
                        // A cut bincode or JSON text is refused by the serde format itself.
                        q.after(c, delay, Ev::Deliver(i, to, Msg { cut, ..m.clone() }));
                    }
                    ev!(c, "party {} sends to {}", i, to);
                }
            }
            let d = 1 + c.t.below(30);
            q.after(c, d, Ev::Tick(i));
        }
    }
    Ok(())
}
