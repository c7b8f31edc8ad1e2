//! C16: parties of a v0 workflow run the signer checks before they sign what reached them over a
//! network on which somebody tampers with UTXOs and scripts.

use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use psbt_v2::bitcoin::consensus::encode::{deserialize, serialize};
use psbt_v2::bitcoin::{Amount, ScriptBuf, Sequence, Transaction, TxOut, Witness};
use psbt_v2::v0::Psbt;

use crate::ctx::{fail, Ctx, R};
use crate::gen;
use crate::keys::{N_MASTERS, PER_MASTER};
use crate::raw::{At, RMap, Raw};
use crate::scen_flow::foreign_sign;
use crate::scen_sign::{store, Store};
use crate::sim::{Disk, Faults, Net, Queue, Saved};
use crate::typed::{show, Ps};
use crate::wallet::{self, Kind, Spend, Wallet};
use crate::{ensure, ev};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Verdict {
    Accept,
    /// Nothing is prescribed.
    Either,
    Refuse,
}

/// What BIP-174 says about one input, from its records alone.
fn judge(m: &RMap, txid: &[u8], vout: u32) -> Verdict {
    use Verdict::*;
    let w: Option<TxOut> = m.get(&vec![1u8]).and_then(|v| deserialize(v).ok());
    let n: Option<Transaction> = m.get(&vec![0u8]).and_then(|v| deserialize(v).ok());
    let script = |t: u8| m.get(&vec![t]).map(|v| ScriptBuf::from_bytes(v.clone()));
    let (redeem, ws) = (script(4), script(5));
    if let Some(n) = &n {
        if AsRef::<[u8]>::as_ref(&n.compute_txid()) != txid {
            return Refuse;
        }
    }
    let ns = n.as_ref().map(|t| t.output.get(vout as usize).map(|o| o.script_pubkey.clone()));
    let spk = match (w.as_ref().map(|o| o.script_pubkey.clone()), ns) {
        (_, Some(None)) => return Either,
        (Some(a), Some(Some(b))) if a != b => return Either,
        (Some(a), _) => a,
        (None, Some(Some(b))) => b,
        (None, None) => return if redeem.is_some() || ws.is_some() { Either } else { Accept },
    };
    let prog = |s: &ScriptBuf| -> bool {
        let b = s.as_bytes();
        b.len() >= 4 && b.len() <= 42 && (b[0] == 0 || (0x51..=0x60).contains(&b[0])) && b[1] as usize == b.len() - 2
    };
    let sh = |s: &ScriptBuf| s.len() == 23 && s.as_bytes()[0] == 0xa9 && s.as_bytes()[1] == 20 && s.as_bytes()[22] == 0x87;
    let wsh = |s: &ScriptBuf| s.len() == 34 && s.as_bytes()[0] == 0;
    let known_prog = |s: &ScriptBuf| {
        let b = s.as_bytes();
        prog(s) && ((b[0] == 0 && (b.len() == 22 || b.len() == 34)) || (b[0] == 0x51 && b.len() == 34))
    };
    let mut v = Accept;
    if let Some(r) = &redeem {
        if spk != r.to_p2sh() {
            return Refuse;
        }
    }
    if let Some(s) = &ws {
        if wsh(&spk) {
            if spk != s.to_p2wsh() {
                return Refuse;
            }
        } else if sh(&spk) {
            match &redeem {
                Some(r) if *r != s.to_p2wsh() => return Refuse,
                Some(_) => {}
                None => v = v.max(Either),
            }
        } else {
            v = v.max(Either);
        }
    }
    if prog(&spk) && !known_prog(&spk) {
        v = v.max(Either);
    }
    if w.is_some() {
        if sh(&spk) {
            match &redeem {
                Some(r) if !prog(r) => return Refuse,
                Some(r) if r.as_bytes()[0] == 0 && known_prog(r) => {}
                _ => v = v.max(Either),
            }
        } else if !prog(&spk) {
            return Refuse;
        }
    }
    v
}

/// Whether all UTXO and script records of an input are those of the spent output, and scripts come
/// with a UTXO.
fn honest(s: &Spend, m: &RMap) -> bool {
    let all = |t: u8, want: Option<Vec<u8>>| match m.get(&vec![t]) {
        Some(v) => want.as_ref() == Some(v),
        None => true,
    };
    let n = m.get(&vec![0u8]).map_or(true, |v| {
        // Witnesses are not part of the txid.
        deserialize::<Transaction>(v).map(|t| t.compute_txid()).ok() == Some(s.prev.compute_txid())
    });
    n && all(1, if s.kind.legacy() { None } else { Some(serialize(&s.out)) })
        && all(4, s.redeem.as_ref().map(|x| x.to_bytes()))
        && all(5, s.wscript.as_ref().map(|x| x.to_bytes()))
        && (m.contains_key(&vec![0u8])
            || m.contains_key(&vec![1u8])
            || !(m.contains_key(&vec![4u8]) || m.contains_key(&vec![5u8])))
}

/// Runs the signer checks on a copy and judges the answer. Returns whether they accept.
fn check(c: &mut Ctx, w: &Wallet, p: &Psbt, what: &str) -> R<bool> {
    let raw = p.to_raw();
    let mut v = Verdict::Accept;
    let mut all_honest = raw.ins.len() == w.spends.len();
    let mut why = String::new();
    for (i, m) in raw.ins.iter().enumerate() {
        let o = w.tx.input[i].previous_output;
        let x = judge(m, AsRef::<[u8]>::as_ref(&o.txid), o.vout);
        if x > v {
            v = x;
            why = format!("input {} {:?}", i, w.spends[i].kind);
        }
        all_honest &= honest(&w.spends[i], m);
    }
    let r = p.signer_checks();
    if all_honest {
        c.probe("honest-copy");
        if v == Verdict::Refuse {
            return fail("harness", format!("refuses an honest {}: {}", why, w.desc()));
        }
        if let Err(e) = r {
            return fail("honest-refused", format!("{}: {}: {}", what, w.desc(), e));
        }
        return Ok(true);
    }
    match (v, &r) {
        (Verdict::Refuse, Ok(())) => fail("tampered-accepted", format!("{}: {} of {}", what, why, w.desc())),
        (Verdict::Accept, Err(e)) => fail("consistent-refused", format!("{}: {}: {}", what, w.desc(), e)),
        (v, r) => {
            c.probe(match (v, r.is_ok()) {
                (Verdict::Refuse, _) => "tampered-refused",
                (Verdict::Accept, _) => "consistent-accepted",
                (_, true) => "unjudged-accepted",
                (_, false) => "unjudged-refused",
            });
            if let Err(e) = r {
                let _ = show(e);
            }
            Ok(r.is_ok())
        }
    }
}

fn other_script(c: &mut Ctx, w: &Wallet, old: Option<&Vec<u8>>) -> Vec<u8> {
    let s = &w.spends[c.t.idx(w.spends.len())];
    match c.t.below(8) {
        0 => gen::script(c).into_bytes(),
        1 => s.redeem.clone().unwrap_or_default().into_bytes(),
        2 => s.wscript.clone().unwrap_or_default().into_bytes(),
        3 => ScriptBuf::new_p2wpkh(&crate::keys::wk(c.t.idx(crate::keys::N_WKEYS)).pk.wpubkey_hash().unwrap()).into_bytes(),
        4 => s.wscript.clone().unwrap_or_default().to_p2wsh().into_bytes(),
        5 => s.out.script_pubkey.to_bytes(),
        k => match old {
            Some(o) if !o.is_empty() => {
                let mut o = o.clone();
                let b = c.t.idx(o.len());
                match k {
                    6 => o[b] ^= 1 << c.t.below(8),
                    _ => {
                        if c.t.chance(1, 2) {
                            o.truncate(b);
                        } else {
                            o.push(0x51);
                        }
                    }
                }
                o
            }
            _ => vec![0x51],
        },
    }
}

fn attack(c: &mut Ctx, w: &Wallet, r: &mut Raw) -> Option<&'static str> {
    let i = c.t.idx(w.spends.len());
    let s = &w.spends[i];
    let m = &mut r.ins[i];
    match c.t.below(12) {
        0 => {
            let mut t = match m.get(&vec![0u8]) {
                Some(v) => deserialize::<Transaction>(v).expect("own"),
                None => s.prev.clone(),
            };
            match c.t.below(6) {
                0 => t.version.0 ^= 1,
                1 => t.input[0].sequence = Sequence(t.input[0].sequence.0 ^ 1),
                2 => {
                    // Another amount for what is spent, the oldest fee attack.
                    let k = core::cmp::min(s.vout as usize, t.output.len() - 1);
                    let o = &mut t.output[k];
                    o.value = Amount::from_sat(o.value.to_sat() / 2 + 1);
                }
                3 => {
                    let k = c.t.idx(t.output.len());
                    t.output[k].script_pubkey = gen::script(c);
                }
                4 => t.input[0].previous_output.vout ^= 1,
                _ => t.output.push(TxOut { value: Amount::from_sat(1), script_pubkey: ScriptBuf::new() }),
            }
            m.insert(vec![0], serialize(&t));
            Some("previous-transaction-replaced")
        }
        1 => {
            // A previous transaction of another input, or any.
            let k = c.t.idx(w.spends.len());
            let t = if c.t.chance(1, 2) { w.spends[k].prev.clone() } else { gen::prev_tx(c, s.vout) };
            m.insert(vec![0], serialize(&t));
            Some("previous-transaction-replaced")
        }
        2 => {
            // Only its witness: the txid stays.
            let mut t = s.prev.clone();
            t.input[0].witness = if t.input[0].witness.is_empty() { Witness::from_slice(&[[7u8; 5]]) } else { Witness::new() };
            if !s.kind.legacy() || m.contains_key(&vec![0u8]) {
                m.insert(vec![0], serialize(&t));
                return Some("previous-witness-changed");
            }
            None
        }
        3 | 4 => {
            let x = other_script(c, w, m.get(&vec![4u8]));
            if s.redeem.as_ref().map(|r| r.to_bytes()) == Some(x.clone()) {
                return None;
            }
            m.insert(vec![4], x);
            Some("redeem-script-replaced")
        }
        5 | 6 => {
            let x = other_script(c, w, m.get(&vec![5u8]));
            if s.wscript.as_ref().map(|r| r.to_bytes()) == Some(x.clone()) {
                return None;
            }
            if c.t.chance(1, 2) && s.kind == Kind::ShWsh {
                // With a redeem script for it.
                m.insert(vec![4], ScriptBuf::from_bytes(x.clone()).to_p2wsh().into_bytes());
            }
            m.insert(vec![5], x);
            Some("witness-script-replaced")
        }
        7 | 8 => {
            // Makes a legacy input look like a segwit one.
            let mut o = s.out.clone();
            if c.t.chance(1, 2) {
                o.value = Amount::from_sat(c.t.range(1, 2_000_000));
            }
            m.insert(vec![1], serialize(&o));
            if c.t.chance(1, 2) {
                m.remove(&vec![0u8]);
            }
            Some("witness-utxo-attached")
        }
        9 => {
            let mut o = s.out.clone();
            o.script_pubkey = match c.t.below(4) {
                0 => gen::script(c),
                1 => m.get(&vec![4u8]).map_or(ScriptBuf::new(), |v| ScriptBuf::from_bytes(v.clone()).to_p2sh()),
                2 => m.get(&vec![5u8]).map_or(ScriptBuf::new(), |v| ScriptBuf::from_bytes(v.clone()).to_p2wsh()),
                _ => w.spends[c.t.idx(w.spends.len())].out.script_pubkey.clone(),
            };
            m.insert(vec![1], serialize(&o));
            if c.t.chance(1, 2) {
                m.remove(&vec![0u8]);
            }
            Some("witness-utxo-replaced")
        }
        10 => {
            let t = *c.t.pick(&[0u8, 1, 4, 5]);
            m.remove(&vec![t]).map(|_| "record-removed")
        }
        _ => {
            // Scripts and UTXOs of another input.
            let k = c.t.idx(w.spends.len());
            let from: Vec<(Vec<u8>, Vec<u8>)> =
                r.ins[k].iter().filter(|x| matches!(x.0[0], 0 | 1 | 4 | 5)).map(|x| (x.0.clone(), x.1.clone())).collect();
            if k == i {
                return None;
            }
            r.ins[i].retain(|k, _| !matches!(k[0], 0 | 1 | 4 | 5));
            r.ins[i].extend(from);
            Some("records-exchanged")
        }
    }
}

struct Node {
    up: bool,
    mem: Psbt,
    first: Psbt,
    disk: Disk,
    store: Store,
    masters: BTreeSet<usize>,
    old: Vec<Rc<Vec<u8>>>,
}

enum Ev {
    Tick(usize),
    Deliver(usize, Rc<Vec<u8>>, Option<usize>),
    Restart(usize),
}

const KINDS: &[Kind] = &[
    Kind::ShWsh,
    Kind::Sh,
    Kind::ShWpkh,
    Kind::Wsh,
    Kind::Wpkh,
    Kind::Pkh,
    Kind::PkhUncompressed,
    Kind::Bare,
    Kind::Pk,
    Kind::TrKey,
    Kind::TrScript,
];

pub fn run(c: &mut Ctx) -> R {
    let one_kind = [*c.t.pick(KINDS)];
    let kinds = if c.t.chance(1, 3) { &one_kind[..] } else { KINDS };
    let w = wallet::wallet(c, 0, kinds);
    let outs = w.prevouts();
    let n = c.t.range(2, 4) as usize;
    let fl = Faults::swarm(c);
    let attacker = c.t.below(30);
    ev!(c, "{}, {} parties", w.desc(), n);

    let split = c.t.chance(1, 2);
    let mut first = w.bare.clone();
    let mut parts: Vec<Vec<(At, Vec<u8>, Vec<u8>)>> = vec![vec![]; n];
    for (i, s) in w.spends.iter().enumerate() {
        for (k, v) in &s.recs {
            if split && matches!(k[0], 0 | 1 | 4 | 5 | 6 | 0x15 | 0x16) && c.t.chance(1, 2) {
                let o = c.t.idx(n);
                parts[o].push((At::In(i), k.clone(), v.clone()));
            } else {
                first.ins[i].insert(k.clone(), v.clone());
            }
        }
    }
    let wire_first = match Psbt::de(&first.write()) {
        Ok(p) => p,
        Err(e) => return fail("wallet-refused", format!("{}: {}", w.desc(), e)),
    };
    let mut unc = BTreeSet::new();
    let mut count: BTreeMap<usize, usize> = BTreeMap::new();
    for s in &w.spends {
        if s.kind == Kind::PkhUncompressed {
            unc.extend(s.keys.iter().copied());
        }
        for k in s.all_keys() {
            *count.entry(k).or_default() += 1;
        }
    }
    let shared: BTreeSet<usize> = count.iter().filter(|x| *x.1 > 1).map(|x| *x.0).collect();
    unc.retain(|k| !shared.contains(k));
    let mut held: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    for m in 0..N_MASTERS {
        let o = c.t.idx(n);
        held[o].insert(m);
    }
    let mut nodes: Vec<Node> = vec![];
    for i in 0..n {
        let mut mine = wire_first.clone();
        for (at, k, v) in &parts[i] {
            mine.apply(*at, k, v).unwrap_or_else(|e| panic!("harness: {}", e));
        }
        check(c, &w, &mine, "at the beginning")?;
        let st = if held[i].is_empty() {
            Store::BMap(BTreeMap::new(), BTreeMap::new())
        } else {
            store(c, &held[i], &unc, &shared)
        };
        nodes.push(Node {
            up: true,
            mem: mine.clone(),
            first: mine,
            disk: Disk::new(),
            store: st,
            masters: held[i].clone(),
            old: vec![],
        });
    }

    let mut net = Net::new();
    let mut q: Queue<Ev> = Queue::new();
    for i in 0..n {
        let d = c.t.below(20);
        q.after(c, d, Ev::Tick(i));
    }
    let mut left = *c.t.pick(&[25u64, 10, 50]);
    while left > 0 {
        let e = match q.pop(c) {
            Some(e) => e,
            None => break,
        };
        left -= 1;
        step(c, &w, &outs, &mut nodes, &mut net, &mut q, &fl, attacker, e)?;
    }

    // Faults stop: one party gets everything and passes, and so does what it signed.
    ev!(c, "faults stop");
    net.heal();
    let who = c.t.idx(n);
    let mut all = nodes[who].mem.clone();
    for i in c.t.perm(n) {
        for x in [&nodes[i].first, &nodes[i].mem] {
            all = match all.comb(x) {
                Ok(p) => p,
                Err(e) => return fail("combine-refused", format!("copies of {}: {}", w.desc(), e)),
            };
            if check(c, &w, &all, "while collecting")? {
                c.probe("complete");
            }
        }
    }
    for m in 0..N_MASTERS {
        foreign_sign(c, &w, &outs, &mut all, &[m].into(), true)?;
        let held = (0..PER_MASTER).map(|k| m * PER_MASTER + k).collect();
        if let Ok(o) = Store::Xpriv(crate::keys::pool().masters[m], held).sign(&all) {
            all = o.psbt.unwrap_or(all);
        }
    }
    ensure!(check(c, &w, &all, "fully signed")?, "honest-refused", "{}", w.desc());
    // What any attacker could have made of it.
    for _ in 0..c.t.range(1, 4) {
        tampered(c, &w, &all)?;
    }
    c.state(&all.ser());
    Ok(())
}

/// A tampered version of a copy, from which nothing is kept.
fn tampered(c: &mut Ctx, w: &Wallet, p: &Psbt) -> R<Option<Psbt>> {
    let mut raw = p.to_raw();
    let mut what = vec![];
    for _ in 0..*c.t.pick(&[1u64, 1, 2, 3]) {
        if let Some(x) = attack(c, w, &mut raw) {
            what.push(x);
            c.fault(x);
        }
    }
    if what.is_empty() {
        return Ok(None);
    }
    let what = what.join(", ");
    let p = match Psbt::de(&raw.write()) {
        Ok(p) => p,
        Err(_) => return Ok(None),
    };
    let ok = check(c, w, &p, &what)?;
    ev!(c, "tampered ({}): {}", what, if ok { "accepted" } else { "refused" });
    Ok(if ok { Some(p) } else { None })
}

#[allow(clippy::too_many_arguments)]
fn step(
    c: &mut Ctx,
    w: &Wallet,
    outs: &[TxOut],
    nodes: &mut [Node],
    net: &mut Net,
    q: &mut Queue<Ev>,
    fl: &Faults,
    attacker: u64,
    e: Ev,
) -> R {
    match e {
        Ev::Restart(i) => {
            let n = &mut nodes[i];
            n.up = true;
            n.mem = n.first.clone();
            for (gen, payload) in n.disk.recover() {
                if let Ok(p) = Psbt::de(&payload) {
                    n.disk.use_gen(Some(gen));
                    n.mem = p;
                    break;
                }
            }
            ev!(c, "party {} restarts", i);
            q.after(c, 5, Ev::Tick(i));
        }
        Ev::Deliver(to, b, cut) => {
            if !nodes[to].up {
                c.fault("net-to-crashed");
                return Ok(());
            }
            let got = match Psbt::de(&b[..cut.unwrap_or(b.len())]) {
                Ok(p) => p,
                Err(e) => {
                    ensure!(cut.is_some(), "decode-refused", "{}", e);
                    return Ok(());
                }
            };
            let got = if c.t.chance(attacker, 64) {
                // What was made of it on the way is judged, then the sender tries again.
                let t = tampered(c, w, &got)?;
                if t.is_some() || c.t.chance(1, 2) {
                    return Ok(());
                }
                got
            } else {
                got
            };
            check(c, w, &got, "received")?;
            let (x, y) = if c.t.chance(1, 2) { (&got, &nodes[to].mem) } else { (&nodes[to].mem, &got) };
            let m = match x.comb(y) {
                Ok(m) => m,
                Err(e) => return fail("combine-refused", format!("copies of {}: {}", w.desc(), e)),
            };
            check(c, w, &m, "combined")?;
            ev!(c, "party {} combines", to);
            nodes[to].mem = m;
        }
        Ev::Tick(i) => {
            if !nodes[i].up {
                return Ok(());
            }
            if c.t.chance(fl.crash, 64) {
                c.fault("crash");
                nodes[i].up = false;
                nodes[i].disk.crash(c);
                ev!(c, "party {} crashes", i);
                let d = c.t.range(10, 500);
                q.after(c, d, Ev::Restart(i));
                return Ok(());
            }
            let k = nodes.len();
            let n = &mut nodes[i];
            match c.t.below(12) {
                0..=3 => {
                    if !check(c, w, &n.mem, "before signing")? {
                        ev!(c, "party {} does not sign", i);
                    } else {
                        let plan = if c.t.chance(1, 3) {
                            (0..c.t.range(1, 6)).map(|_| *c.t.pick(&[0u8, 1, 2, 0])).collect()
                        } else {
                            vec![]
                        };
                        n.store.plan(plan);
                        if let Ok(o) = n.store.sign(&n.mem) {
                            n.mem = o.psbt.unwrap_or(n.mem.clone());
                        }
                        if c.t.chance(1, 2) {
                            foreign_sign(c, w, outs, &mut n.mem, &n.masters, false)?;
                        }
                        check(c, w, &n.mem, "after signing")?;
                        ev!(c, "party {} signs", i);
                    }
                }
                4 => {
                    let t = n.mem.clone();
                    tampered(c, w, &t)?;
                }
                5 | 6 => {
                    let payload = n.mem.ser();
                    let how = match n.disk.save(c, fl, &payload).1 {
                        Saved::Synced => "synced",
                        Saved::Unsynced => "not synced",
                        Saved::Failed => "failed",
                    };
                    ev!(c, "party {} stores ({})", i, how);
                }
                _ => {
                    let b = if !n.old.is_empty() && c.t.chance(fl.stale, 64) {
                        c.fault("net-stale-resend");
                        let j = c.t.idx(n.old.len());
                        n.old[j].clone()
                    } else {
                        Rc::new(n.mem.ser())
                    };
                    n.old.push(b.clone());
                    let to = (i + 1 + c.t.idx(k - 1)) % k;
                    for (delay, cut) in net.send(c, fl, i, to, b.len()) {
                        q.after(c, delay, Ev::Deliver(to, b.clone(), cut));
                    }
                    ev!(c, "party {} sends to {}", i, to);
                }
            }
            let d = 1 + c.t.below(30);
            q.after(c, d, Ev::Tick(i));
        }
    }
    Ok(())
}
