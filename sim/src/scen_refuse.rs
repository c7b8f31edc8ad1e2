//! C03: copies of different transactions and copies with irreconcilable xpub origins meet.

use std::rc::Rc;

use psbt_v2::bitcoin::hashes::Hash;
use psbt_v2::bitcoin::{absolute, transaction, Amount, ScriptBuf, Sequence, Txid};

use crate::ctx::{fail, Ctx, R};
use crate::gen::{apply_raw, base, facts, script, union, xpub_rec, Base};
use crate::model;
use crate::raw::{At, Raw};
use crate::scen_combine::check_model;
use crate::sim::{Faults, Net, Queue};
use crate::typed::Ps;
use crate::{ensure, ev};

fn other_script(c: &mut Ctx, old: &[u8]) -> Vec<u8> {
    let mut s = old.to_vec();
    match c.t.below(5) {
        0 if !s.is_empty() => {
            let j = c.t.idx(s.len());
            s[j] ^= 1 << c.t.below(8);
        }
        1 => s.push(0),
        2 => {
            s.pop();
        }
        3 => s.clear(),
        _ => s = script(c).to_bytes(),
    }
    s
}

/// Another transaction that differs in one aspect.
fn mutate(c: &mut Ctx, b: &Base) -> Option<(Base, &'static str)> {
    let mut n = Base { raw: b.raw.clone(), prev: b.prev.clone(), vouts: b.vouts.clone() };
    let r = &mut n.raw;
    let what;
    if r.v == 2 {
        match c.t.below(11) {
            0 => {
                what = "tx version";
                let v = model::u32_of(&r.g, 2).unwrap();
                r.g.insert(vec![2], (v ^ if c.t.chance(1, 2) { 1 << c.t.below(32) } else { 1 + c.t.below(3) as u32 }).to_le_bytes().to_vec());
            }
            1 | 2 if !r.ins.is_empty() => {
                what = "outpoint txid";
                let i = c.t.idx(r.ins.len());
                let j = c.t.idx(32);
                let x = 1 << c.t.below(8);
                r.ins[i].get_mut(&vec![0x0eu8]).unwrap()[j] ^= x;
            }
            3 if !r.ins.is_empty() => {
                what = "outpoint index";
                let i = c.t.idx(r.ins.len());
                let x = 1 << c.t.below(8);
                let j = if c.t.chance(1, 2) { c.t.idx(4) } else { 0 };
                r.ins[i].get_mut(&vec![0x0fu8]).unwrap()[j] ^= x;
            }
            4 if r.ins.len() > 1 => {
                what = "input order";
                let i = c.t.idx(r.ins.len() - 1);
                r.ins.swap(i, i + 1);
            }
            5 => {
                what = "input count";
                if r.ins.len() > 1 && c.t.chance(1, 2) {
                    r.ins.pop();
                } else if let Some(m) = r.ins.last().cloned() {
                    let mut m = m;
                    let v = model::u32_of(&m, 0x0f).unwrap().wrapping_add(1);
                    m.insert(vec![0x0f], v.to_le_bytes().to_vec());
                    r.ins.push(m);
                } else {
                    return None;
                }
                r.g.insert(vec![4], crate::raw::compact(r.ins.len() as u64));
            }
            6 if r.outs.len() > 1 => {
                what = "output order";
                let i = c.t.idx(r.outs.len() - 1);
                r.outs.swap(i, i + 1);
            }
            7 if !r.outs.is_empty() => {
                what = "output count";
                if r.outs.len() > 1 && c.t.chance(1, 2) {
                    r.outs.pop();
                } else {
                    let m = r.outs.last().cloned().unwrap();
                    r.outs.push(m);
                }
                r.g.insert(vec![5], crate::raw::compact(r.outs.len() as u64));
            }
            8 if !r.outs.is_empty() => {
                what = "amount";
                let i = c.t.idx(r.outs.len());
                let j = c.t.idx(8);
                let x = 1 << c.t.below(8);
                r.outs[i].get_mut(&vec![0x03u8]).unwrap()[j] ^= x;
            }
            9 if !r.outs.is_empty() => {
                what = "script";
                let i = c.t.idx(r.outs.len());
                let s = other_script(c, &r.outs[i][&vec![0x04u8]]);
                r.outs[i].insert(vec![0x04], s);
            }
            _ => {
                what = "lock time";
                if r.ins.is_empty() || c.t.chance(1, 3) {
                    r.g.insert(vec![3], crate::gen::num(c).to_le_bytes().to_vec());
                } else {
                    let i = c.t.idx(r.ins.len());
                    let k = *c.t.pick(&[0x11u8, 0x12]);
                    let (lo, hi) = if k == 0x11 { (500_000_000, 501_000_000) } else { (1, 900_000) };
                    let v = match model::u32_of(&r.ins[i], k) {
                        Some(v) if c.t.chance(1, 2) => v.saturating_add(1).min(if k == 0x11 { u32::MAX } else { 499_999_999 }),
                        _ => c.t.range(lo, hi) as u32,
                    };
                    r.ins[i].insert(vec![k], v.to_le_bytes().to_vec());
                }
            }
        }
    } else {
        let mut tx = crate::raw::unsigned_tx(&r.g[&vec![0u8]]).unwrap();
        match c.t.below(11) {
            0 => {
                what = "tx version";
                tx.version = transaction::Version(tx.version.0 ^ if c.t.chance(1, 2) { 1 << c.t.below(32) } else { 1 + c.t.below(3) as i32 });
            }
            1 | 2 if !tx.input.is_empty() => {
                what = "outpoint";
                let i = c.t.idx(tx.input.len());
                if c.t.chance(1, 2) {
                    let mut t = tx.input[i].previous_output.txid.to_byte_array();
                    t[c.t.idx(32)] ^= 1 << c.t.below(8);
                    tx.input[i].previous_output.txid = Txid::from_byte_array(t);
                } else {
                    tx.input[i].previous_output.vout ^= 1 << c.t.below(32);
                }
            }
            3 if !tx.input.is_empty() => {
                what = "sequence";
                let i = c.t.idx(tx.input.len());
                tx.input[i].sequence = Sequence(tx.input[i].sequence.0 ^ 1 << c.t.below(32));
            }
            4 if tx.input.len() > 1 => {
                what = "input order";
                tx.input.swap(0, 1);
                r.ins.swap(0, 1);
            }
            5 => {
                what = "input count";
                if tx.input.len() > 1 && c.t.chance(1, 2) {
                    tx.input.pop();
                    r.ins.pop();
                } else if let Some(i) = tx.input.last().cloned() {
                    tx.input.push(i);
                    let o = &mut tx.input.last_mut().unwrap().previous_output;
                    o.vout = o.vout.wrapping_add(1);
                    let m = r.ins.last().cloned().unwrap();
                    r.ins.push(m);
                } else {
                    return None;
                }
            }
            6 if tx.output.len() > 1 => {
                what = "output order";
                tx.output.swap(0, 1);
                r.outs.swap(0, 1);
            }
            7 if !tx.output.is_empty() => {
                what = "output count";
                if tx.output.len() > 1 && c.t.chance(1, 2) {
                    tx.output.pop();
                    r.outs.pop();
                } else {
                    let o = tx.output.last().cloned().unwrap();
                    tx.output.push(o);
                    let m = r.outs.last().cloned().unwrap();
                    r.outs.push(m);
                }
            }
            8 if !tx.output.is_empty() => {
                what = "amount";
                let i = c.t.idx(tx.output.len());
                tx.output[i].value = Amount::from_sat(tx.output[i].value.to_sat() ^ 1 << c.t.below(64));
            }
            9 if !tx.output.is_empty() => {
                what = "script";
                let i = c.t.idx(tx.output.len());
                tx.output[i].script_pubkey = ScriptBuf::from_bytes(other_script(c, tx.output[i].script_pubkey.as_bytes()));
            }
            _ => {
                what = "lock time";
                tx.lock_time = absolute::LockTime::from_consensus(
                    tx.lock_time.to_consensus_u32() ^ 1 << c.t.below(32),
                );
            }
        }
        r.g.insert(vec![0], crate::raw::write_unsigned_tx(&tx));
    }
    // Keep the generator's view in step.
    while n.prev.len() < n.raw.ins.len() {
        n.prev.push(n.prev.last().unwrap().clone());
        n.vouts.push(*n.vouts.last().unwrap());
    }
    if what == "input order" {
        // The UTXO facts of this base would not match, which combining does not look at.
    }
    Some((n, what))
}

/// Origins for one xpub, some of them suffixes of others.
fn origins(c: &mut Ctx) -> Vec<([u8; 4], Vec<u32>)> {
    let n = c.t.range(1, 4) as usize;
    let full: Vec<u32> = (0..n).map(|_| c.t.below(3) as u32 | (c.t.below(2) as u32) << 31).collect();
    let fp: [u8; 4] = c.t.arr();
    let k = c.t.range(2, 4) as usize;
    (0..k)
        .map(|_| {
            let f = if c.t.chance(1, 2) { c.t.arr() } else { fp };
            let mut p = full[c.t.idx(n + 1)..].to_vec();
            match c.t.below(5) {
                4 if !p.is_empty() => {
                    let j = c.t.idx(p.len());
                    p[j] ^= 1;
                }
                3 => p.push(1),
                2 => p = full.clone(),
                _ => {}
            }
            (f, p)
        })
        .collect()
}

struct Node<P> {
    session: usize,
    mem: P,
    model: Rc<Raw>,
}

enum Ev<P> {
    Send(usize),
    Deliver(usize, usize, P, Rc<Raw>, usize),
}

pub fn run<P: Ps>(c: &mut Ctx) -> R {
    let mut b = base(c, P::V);
    if P::V == 2 && b.raw.ins.len() > 1 && c.t.chance(1, 4) {
        // Inputs that cannot be spent together: no lock time satisfies all of them.
        let i = c.t.idx(b.raw.ins.len());
        for (j, m) in b.raw.ins.iter_mut().enumerate() {
            m.remove(&vec![0x11u8]);
            m.remove(&vec![0x12u8]);
            let (k, v) = if j == i {
                (0x11, 500_000_000 + c.t.below(1_000_000) as u32)
            } else {
                (0x12, 1 + c.t.below(800_000) as u32)
            };
            m.insert(vec![k], v.to_le_bytes().to_vec());
        }
        c.probe("no-lock-time");
    }
    let mut sessions: Vec<(Base, &'static str)> = vec![];
    let k = c.t.range(1, 3);
    for _ in 0..k {
        if let Some((n, what)) = mutate(c, &b) {
            sessions.push((n, what));
        }
    }
    sessions.insert(0, (b, "original"));
    let fl = Faults::swarm(c);
    let mut nodes: Vec<Node<P>> = vec![];
    let with_xpubs = c.t.chance(1, 2);
    let xs = origins(c);
    let xi = c.t.idx(crate::keys::N_MASTERS);
    for (s, (b, what)) in sessions.iter().enumerate() {
        let n = c.t.range(1, 2) + if s == 0 { 1 } else { 0 };
        let nf = c.t.below(6) as usize;
        let fs = facts(c, b, nf);
        for i in 0..n {
            let mut r = b.raw.clone();
            for f in &fs {
                if c.t.chance(1, 2) {
                    apply_raw(&mut r, f);
                }
            }
            if with_xpubs {
                let (f, p) = xs[(i as usize + c.t.idx(2)) % xs.len()].clone();
                let rec = xpub_rec(xi, f, &p);
                // This party's own view of the xpub.
                r.g.insert(rec.0, rec.1);
            }
            if c.t.chance(1, 4) && P::V == 2 && !r.ins.is_empty() {
                // Copies may differ in their sequences.
                let i = c.t.idx(r.ins.len());
                let q = crate::gen::seq(c);
                r.ins[i].insert(vec![0x10], q.to_le_bytes().to_vec());
            }
            let mem = match P::de(&r.write()) {
                Ok(p) => p,
                Err(e) => return fail("decode-refused", format!("{}: {}", what, e)),
            };
            nodes.push(Node { session: s, mem, model: Rc::new(r) });
        }
    }
    ev!(c, "v{} {} sessions {:?}, {} parties", P::V, sessions.len(), sessions.iter().map(|s| s.1).collect::<Vec<_>>(), nodes.len());
    let mut q: Queue<Ev<P>> = Queue::new();
    let mut net = Net::new();
    for i in 0..nodes.len() {
        let d = c.t.below(20);
        q.after(c, d, Ev::Send(i));
    }
    let mut left = *c.t.pick(&[16u64, 8, 32]);
    while left > 0 {
        let e = match q.pop(c) {
            Some(e) => e,
            None => break,
        };
        match e {
            Ev::Send(i) => {
                // Addresses are easily mixed up.
                let to = (i + 1 + c.t.idx(nodes.len() - 1)) % nodes.len();
                if nodes[to].session != nodes[i].session {
                    c.fault("net-misdelivery");
                }
                for (d, cut) in net.send(c, &fl, i, to, 1000) {
                    if cut.is_none() {
                        q.after(c, d, Ev::Deliver(i, to, nodes[i].mem.clone(), nodes[i].model.clone(), left as usize));
                    }
                }
                let d = 1 + c.t.below(20);
                q.after(c, d, Ev::Send(i));
            }
            Ev::Deliver(from, to, p, m, _) => {
                left -= 1;
                meet(c, &mut nodes[to], from, to, &p, &m)?;
            }
        }
    }
    Ok(())
}

fn meet<P: Ps>(c: &mut Ctx, n: &mut Node<P>, from: usize, to: usize, p: &P, m: &Rc<Raw>) -> R {
    let same = model::same_tx(&n.model, m);
    let conflict = model::xpub_conflict(&n.model, m);
    let (ab, after) = n.mem.comb_keep(p);
    let ba = p.comb_alt(&n.mem);
    let how = format!("from {} to {}", from, to);
    match same {
        Some(false) => {
            c.probe("different-transaction-met");
            ensure!(ab.is_err(), "combined-different-tx", "{}: {:?}", how, diff(&n.model, m));
            ensure!(ba.is_err(), "combined-different-tx", "{} reversed: {:?}", how, diff(&n.model, m));
            if P::V == 0 {
                ensure!(after == n.mem, "refusal-changed-receiver", "{}", how);
            }
            ev!(c, "{}: refused, different transaction", how);
        }
        None => ev!(c, "{}: lock time not determined", how),
        Some(true) if conflict => {
            c.probe("xpub-conflict-met");
            ensure!(ab.is_err(), "combined-conflicting-xpub", "{}: {:?}", how, xdiff(&n.model, m));
            ensure!(ba.is_err(), "combined-conflicting-xpub", "{} reversed: {:?}", how, xdiff(&n.model, m));
            ev!(c, "{}: refused, conflicting xpub", how);
        }
        Some(true) => {
            let x = match (ab, ba) {
                (Ok(x), Ok(_)) => x,
                (Err(e), _) | (_, Err(e)) =>
                    return fail("combine-refused", format!("{}: copies of one transaction: {}", how, e)),
            };
            let mut u = union(&n.model, m);
            // Conflicting values may be resolved either way.
            let got = x.to_raw();
            let mut free = vec![];
            for (at, map) in n.model.maps() {
                for (k, v) in map {
                    if let Some(w) = m.map(at).get(k) {
                        let xpub = at == At::G && k[0] == 0x01;
                        let flags = P::V == 2 && at == At::G && k == &[6];
                        if v != w && !xpub && !flags {
                            let g = got.map(at).get(k);
                            ensure!(
                                g == Some(v) || g == Some(w),
                                "combine-invented",
                                "{}: {:?} key {} is neither side's", how, at, crate::ctx::short(k)
                            );
                            free.push((at, k.clone(), g.cloned().unwrap()));
                        }
                    }
                }
            }
            for (at, k, v) in free {
                u.map_mut(at).insert(k, v);
            }
            check_model(&x, &u, "combine-wrong-union", &how)?;
            ev!(c, "{}: combined", how);
            c.state(&x.ser());
            n.mem = x;
            n.model = Rc::new(u);
        }
    }
    Ok(())
}

fn diff(a: &Raw, b: &Raw) -> Option<String> { a.diff(b) }

fn xdiff(a: &Raw, b: &Raw) -> Vec<(String, String)> {
    a.g.iter()
        .filter(|(k, _)| k[0] == 1)
        .filter_map(|(k, v)| b.g.get(k).map(|w| (crate::ctx::hexs(v), crate::ctx::hexs(w))))
        .collect()
}
