//! C18: parties that know some of the descriptors of a v0 PSBT's inputs and outputs update their
//! copies from them, early or late, with the wrong ones at times, and exchange what they have.

use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::str::FromStr;

use psbt_v2::bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, Xpub};
use psbt_v2::bitcoin::consensus::encode::{deserialize, serialize};
use psbt_v2::bitcoin::hashes::Hash;
use psbt_v2::bitcoin::{absolute, Amount, Transaction, TxOut};
use psbt_v2::miniscript::{DefiniteDescriptorKey, Descriptor};
use psbt_v2::v0;
use psbt_v2::v0::miniscript::{PsbtExt, PsbtInputExt, PsbtOutputExt};

use crate::ctx::{fail, hexs, Ctx, R};
use crate::gen::union;
use crate::keys::{origin, path, pool, wk, N_WKEYS};
use crate::raw::{compact, At, RMap, Raw};
use crate::scen_combine::check_model;
use crate::sim::{Disk, Faults, Net, Queue, Saved};
use crate::typed::{canonical_tap_tree, key_source, show, Ps};
use crate::wallet::{self, uncompressed, Kind, Spend};
use crate::{ensure, ev};

/// How a descriptor names a key.
struct Form {
    /// The key expression without the key for one that names the key itself.
    s: String,
    single: bool,
    origin: (Fingerprint, DerivationPath),
}

const HARD: u32 = 1 << 31;

fn path_str(p: &[u32]) -> String {
    p.iter().map(|x| if x & HARD != 0 { format!("/{}'", x & !HARD) } else { format!("/{}", x) }).collect()
}

fn form(c: &mut Ctx, k: usize) -> Form {
    let w = wk(k);
    let o = origin(k);
    let soft = w.path.iter().rposition(|x| x & HARD != 0).map_or(0, |i| i + 1);
    // The extended key anywhere after the last hardened step.
    let at = soft + c.t.idx(w.path.len() - soft + 1);
    let secp = &pool().secp;
    let x = || {
        let m = pool().masters[w.master].derive_priv(secp, &path(&w.path[..at])).expect("path");
        Xpub::from_priv(secp, &m)
    };
    match c.t.below(4) {
        0 | 1 => Form { s: format!("[{}{}]", o.0, path_str(&w.path)), single: true, origin: o },
        2 => {
            let src = format!("[{}{}]", o.0, path_str(&w.path[..at]));
            Form { s: format!("{}{}{}", src, x(), path_str(&w.path[at..])), single: false, origin: o }
        }
        _ => {
            // Nothing is known about where the extended key comes from.
            let x = x();
            let rest: Vec<ChildNumber> = w.path[at..].iter().map(|n| ChildNumber::from(*n)).collect();
            Form {
                s: format!("{}{}", x, path_str(&w.path[at..])),
                single: false,
                origin: (x.fingerprint(), DerivationPath::from(rest)),
            }
        }
    }
}

type Desc = Descriptor<DefiniteDescriptorKey>;

/// The descriptor of an output, unless it is one that libraries do not read.
fn desc_of(s: &Spend, forms: &[Form], broken: Option<usize>) -> Option<Desc> {
    let mut d = s.full.clone();
    for k in s.all_keys() {
        let f = &forms[k];
        let hex = if s.kind.taproot() {
            hexs(&wk(k).xonly.serialize())
        } else if s.kind == Kind::PkhUncompressed {
            hexs(&uncompressed(k).to_bytes())
        } else {
            hexs(&wk(k).pk.to_bytes())
        };
        let mut with = if f.single {
            format!("{}{}", f.s, hex)
        } else if s.kind == Kind::PkhUncompressed {
            format!("[{}{}]{}", f.origin.0, f.origin.1.to_string().split('/').map(|x| format!("/{}", x)).filter(|x| x != "/" && x != "/m").collect::<String>(), hex)
        } else {
            f.s.clone()
        };
        if broken == Some(k) {
            if f.single {
                return None;
            }
            // A step nobody can take without the private key.
            with.push_str("/1'");
        }
        d = d.replace(&hex, &with);
    }
    Desc::from_str(&d).ok()
}

/// The records a descriptor implies for the map of an output it describes or an input spending it.
fn implied(s: &Spend, forms: &[Form], input: bool) -> RMap {
    let mut m = RMap::new();
    let ty = |i: u8, o: u8| if input { i } else { o };
    if let Some(r) = &s.redeem {
        m.insert(vec![ty(4, 0)], r.to_bytes());
    }
    if let Some(r) = &s.wscript {
        m.insert(vec![ty(5, 1)], r.to_bytes());
    }
    if !s.kind.taproot() {
        for k in &s.keys {
            m.insert([&[ty(6, 2)][..], &wk(*k).pk.to_bytes()].concat(), key_source(&forms[*k].origin));
        }
        return m;
    }
    let internal = s.internal.expect("taproot");
    m.insert(vec![ty(0x17, 5)], wk(internal).xonly.serialize().to_vec());
    let mut by_key: BTreeMap<usize, BTreeSet<[u8; 32]>> = BTreeMap::new();
    by_key.insert(internal, BTreeSet::new());
    for l in &s.leaves {
        for k in &l.keys {
            by_key.entry(*k).or_default().insert(l.hash.to_byte_array());
        }
        if input {
            m.insert([&[0x15][..], &l.control].concat(), [l.script.as_bytes(), &[0xc0]].concat());
        }
    }
    for (k, hs) in by_key {
        let mut v = compact(hs.len() as u64);
        for h in &hs {
            v.extend(h);
        }
        v.extend(key_source(&forms[k].origin));
        m.insert([&[ty(0x16, 7)][..], &wk(k).xonly.serialize()].concat(), v);
    }
    match s.root {
        Some(r) if input => {
            m.insert(vec![0x18], r.to_vec());
        }
        Some(_) => {
            let depths: &[u8] = [&[0u8][..], &[1, 1], &[1, 2, 2], &[2, 2, 2, 2]][s.leaves.len() - 1];
            let mut t = vec![];
            for (l, d) in s.leaves.iter().zip(depths) {
                t.extend([*d, 0xc0]);
                t.extend(compact(l.script.len() as u64));
                t.extend(l.script.as_bytes());
            }
            m.insert(vec![6], canonical_tap_tree(&t));
        }
        None => {}
    }
    m
}

/// May this input be updated from the descriptor of this output?
fn input_ok(tx: &Transaction, m: &RMap, i: usize, s: &Spend) -> bool {
    let op = &tx.input[i].previous_output;
    let nw: Option<Transaction> = m.get(&vec![0u8]).map(|b| deserialize(b).expect("decoded before"));
    let w: Option<TxOut> = m.get(&vec![1u8]).map(|b| deserialize(b).expect("decoded before"));
    let from = match &nw {
        Some(t) if t.compute_txid() != op.txid => return false,
        Some(t) => match t.output.get(op.vout as usize) {
            Some(o) => Some(o.clone()),
            None => return false,
        },
        None => None,
    };
    let spk = match (from, w) {
        (Some(a), Some(b)) if a != b => return false,
        (Some(a), _) => a.script_pubkey,
        (None, Some(b)) if !s.kind.legacy() => b.script_pubkey,
        _ => return false,
    };
    spk == s.out.script_pubkey
}

struct World {
    tx: Transaction,
    /// Descriptors of inputs and of outputs.
    ins: Vec<Spend>,
    outs: Vec<Spend>,
    forms: Vec<Form>,
    din: Vec<Option<Desc>>,
    dout: Vec<Option<Desc>>,
}

struct Node {
    up: bool,
    mem: v0::Psbt,
    model: Rc<Raw>,
    /// The descriptors this party knows.
    knows: Vec<At>,
    disk: Disk,
    written: BTreeMap<u64, Rc<Raw>>,
}

enum Ev {
    Tick(usize),
    Deliver(usize, usize, Rc<Vec<u8>>, Rc<Raw>, Option<usize>),
    Restart(usize),
}

/// Adds implied records to a map the way an updater does: leaf hashes are collected.
fn add(m: &mut RMap, imp: &RMap) {
    for (k, v) in imp {
        m.insert(k.clone(), v.clone());
    }
}

/// Updates input or output `at` of a copy from the descriptor of `s`, and judges it.
fn update(c: &mut Ctx, w: &World, p: &v0::Psbt, m: &Raw, at: At, s: &Spend, d: &Desc, hardened: bool, what: &str) -> R<Option<(v0::Psbt, Raw)>> {
    let mut q = p.clone();
    let (ok, got) = match at {
        At::In(i) => (
            i < w.tx.input.len() && input_ok(&w.tx, &m.ins[i], i, s),
            q.update_input_with_descriptor(i, d).map_err(show),
        ),
        At::Out(i) => (
            i < w.tx.output.len() && w.tx.output[i].script_pubkey == s.out.script_pubkey,
            q.update_output_with_descriptor(i, d).map_err(show),
        ),
        At::G => unreachable!(),
    };
    let ok = ok && !hardened;
    match got {
        Err(e) => {
            ensure!(!ok, "update-refused", "{} {:?} from {}: {}", what, at, d, e);
            ensure!(&q == p, "refusal-changed-psbt", "{} {:?} from {}: {:?}", what, at, d, q.to_raw().diff(&p.to_raw()));
            c.probe("update-refused");
            Ok(None)
        }
        Ok(()) => {
            ensure!(ok, "updated-wrongly", "{} {:?} from {}", what, at, d);
            let mut n = m.clone();
            add(n.map_mut(at), &implied(s, &w.forms, matches!(at, At::In(_))));
            if matches!(at, At::In(_)) && s.kind.taproot() && s.root.is_none() {
                n.map_mut(at).remove(&vec![0x18u8]);
            }
            check_model(&q, &n, "wrong-records", &format!("{} {:?} from {}", what, at, d))?;
            // A second time adds nothing.
            let mut r = q.clone();
            let again = match at {
                At::In(i) => r.update_input_with_descriptor(i, d).map_err(show),
                At::Out(i) => r.update_output_with_descriptor(i, d).map_err(show),
                At::G => unreachable!(),
            };
            ensure!(again.is_ok() && r == q, "not-idempotent", "{} {:?} from {}", what, at, d);
            Ok(Some((q, n)))
        }
    }
}

/// The unchecked updaters fill in a map whatever the PSBT says.
fn unchecked(c: &mut Ctx, w: &World, p: &v0::Psbt, m: &Raw, at: At, s: &Spend, d: &Desc) -> R {
    let mut q = p.clone();
    let got = match at {
        At::In(i) => q.inputs[i].update_with_descriptor_unchecked(d).map_err(show),
        At::Out(i) => q.outputs[i].update_with_descriptor_unchecked(d).map_err(show),
        At::G => unreachable!(),
    };
    let derived = match got {
        Ok(x) => x,
        Err(e) => return fail("update-refused", format!("unchecked {:?} from {}: {}", at, d, e)),
    };
    ensure!(derived.script_pubkey() == s.out.script_pubkey, "wrong-derived-descriptor", "{:?} from {}: {}", at, d, derived);
    // Only judged where no earlier records of another descriptor are in the way.
    let imp = implied(s, &w.forms, matches!(at, At::In(_)));
    let own: RMap = q.to_raw().map(at).iter().filter(|(k, _)| imp.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
    let clash = imp.keys().any(|k| m.map(at).contains_key(k));
    if !clash {
        ensure!(own == imp, "wrong-records", "unchecked {:?} from {}", at, d);
        let mut n = m.clone();
        add(n.map_mut(at), &imp);
        // Another descriptor may say there is no taproot tree.
        let root = matches!(at, At::In(_)) && s.kind.taproot() && s.root.is_none();
        if root {
            n.map_mut(at).remove(&vec![0x18u8]);
        }
        check_model(&q, &n, "wrong-records", &format!("unchecked {:?} from {}", at, d))?;
        c.probe("unchecked-update");
    }
    Ok(())
}

/// A scratch copy with UTXO records somebody lied about.
fn lied(c: &mut Ctx, w: &World, m: &Raw) -> Option<(v0::Psbt, Raw, &'static str)> {
    let mut r = m.clone();
    let i = c.t.idx(w.ins.len());
    let s = &w.ins[i];
    let what;
    match c.t.below(6) {
        0 => {
            what = "previous-transaction-replaced";
            let mut t = s.prev.clone();
            match c.t.below(3) {
                0 => t.lock_time = absolute::LockTime::from_consensus(t.lock_time.to_consensus_u32() ^ 1),
                1 => t.output[s.vout as usize].value += Amount::from_sat(1),
                _ => t.output.push(s.out.clone()),
            }
            r.ins[i].insert(vec![0], serialize(&t));
        }
        1 => {
            what = "previous-witness-changed";
            let mut t = s.prev.clone();
            t.input[0].witness = psbt_v2::bitcoin::Witness::from_slice(&[c.t.bytes(5)]);
            r.ins[i].insert(vec![0], serialize(&t));
        }
        2 => {
            what = "witness-utxo-amount-changed";
            let o = TxOut { value: s.out.value + Amount::from_sat(1), ..s.out.clone() };
            r.ins[i].insert(vec![1], serialize(&o));
        }
        3 => {
            what = "witness-utxo-script-changed";
            let mut o = s.out.clone();
            let j = c.t.idx(w.ins.len());
            o.script_pubkey = w.ins[j].out.script_pubkey.clone();
            r.ins[i].insert(vec![1], serialize(&o));
        }
        4 => {
            what = "witness-utxo-only";
            r.ins[i].remove(&vec![0u8]);
            r.ins[i].insert(vec![1], serialize(&s.out));
        }
        _ => {
            what = "utxo-missing";
            r.ins[i].remove(&vec![0u8]);
            r.ins[i].remove(&vec![1u8]);
        }
    }
    let p = v0::Psbt::de(&r.write()).ok()?;
    c.fault(what);
    Some((p, r, what))
}

fn act(c: &mut Ctx, w: &World, n: &mut Node, i: usize) -> R {
    let kinds = n.knows.len();
    match c.t.below(9) {
        8 if kinds > 0 => {
            // Scripts, keys and roots of another wallet are replaced.
            let at = n.knows[c.t.idx(kinds)];
            let (s, d, input) = match at {
                At::In(j) => (&w.ins[j], &w.din[j], true),
                At::Out(j) => (&w.outs[j], &w.dout[j], false),
                At::G => unreachable!(),
            };
            let d = match d {
                Some(d) => d,
                None => return Ok(()),
            };
            let imp = implied(s, &w.forms, input);
            let mut m = (*n.model).clone();
            let x = wk(c.t.idx(N_WKEYS)).xonly.serialize().to_vec();
            for (k, of_input, v) in [
                (4u8, true, crate::gen::script(c).into_bytes()),
                (5, true, crate::gen::script(c).into_bytes()),
                (0x17, true, x.clone()),
                (0x18, true, c.t.bytes(32)),
                (0, false, crate::gen::script(c).into_bytes()),
                (1, false, crate::gen::script(c).into_bytes()),
                (5, false, x.clone()),
                (6, false, vec![0, 0xc0, 1, 0x51]),
            ] {
                let due = imp.contains_key(&vec![k]) || k == 0x18 && s.kind.taproot();
                if of_input == input && due && c.t.chance(1, 2) {
                    m.map_mut(at).insert(vec![k], v);
                }
            }
            let p = match v0::Psbt::de(&m.write()) {
                Ok(p) => p,
                Err(e) => return fail("decode-refused", e),
            };
            c.fault("stale-records");
            if update(c, w, &p, &m, at, s, d, false, "stale records")?.is_some() {
                c.probe("stale-records-replaced");
            }
            Ok(())
        }
        0..=3 if kinds > 0 => {
            let at = n.knows[c.t.idx(kinds)];
            apply_right(c, w, n, at, &format!("party {}", i))
        }
        4 | 5 => {
            // The wrong descriptor or the wrong place.
            let (nin, nout) = (w.tx.input.len(), w.tx.output.len());
            let at = if c.t.chance(1, 2) { At::In(c.t.idx(nin + 1)) } else { At::Out(c.t.idx(nout + 1)) };
            let (s, d) = if c.t.chance(1, 2) {
                let j = c.t.idx(nin);
                (&w.ins[j], &w.din[j])
            } else {
                let j = c.t.idx(nout);
                (&w.outs[j], &w.dout[j])
            };
            let d = match d {
                Some(d) => d,
                None => return Ok(()),
            };
            c.fault("descriptor-misapplied");
            // The outcome is not kept: foreign leaf hashes of reused keys would stay.
            if update(c, w, &n.mem, &n.model, at, s, d, false, "misapplied")?.is_some() {
                c.probe("same-descriptor-elsewhere");
            }
            if matches!(at, At::In(i) if i < nin) || matches!(at, At::Out(i) if i < nout) {
                unchecked(c, w, &n.mem, &n.model, at, s, d)?;
            }
            Ok(())
        }
        6 => {
            let (p, m, what) = match lied(c, w, &n.model) {
                Some(x) => x,
                None => return Ok(()),
            };
            let j = c.t.idx(w.ins.len());
            if let Some(d) = &w.din[j] {
                let r = update(c, w, &p, &m, At::In(j), &w.ins[j], d, false, what)?;
                ev!(c, "party {} tries input {} with {}: {}", i, j, what, if r.is_some() { "updated" } else { "refused" });
            }
            Ok(())
        }
        _ => {
            let input = c.t.chance(1, 2);
            let j = c.t.idx(if input { w.ins.len() } else { w.outs.len() });
            let s = if input { &w.ins[j] } else { &w.outs[j] };
            let ks = s.all_keys();
            let k = ks[c.t.idx(ks.len())];
            if let Some(d) = desc_of(s, &w.forms, Some(k)) {
                c.fault("hardened-step");
                let at = if input { At::In(j) } else { At::Out(j) };
                update(c, w, &n.mem, &n.model, at, s, &d, true, "hardened")?;
                let mut q = n.mem.clone();
                let r = match at {
                    At::In(i) => q.inputs[i].update_with_descriptor_unchecked(&d).is_ok(),
                    At::Out(i) => q.outputs[i].update_with_descriptor_unchecked(&d).is_ok(),
                    At::G => unreachable!(),
                };
                ensure!(!r && q == n.mem, "updated-wrongly", "unchecked {:?} from {}", at, d);
            }
            Ok(())
        }
    }
}

fn apply_right(c: &mut Ctx, w: &World, n: &mut Node, at: At, who: &str) -> R {
    let (s, d) = match at {
        At::In(j) => (&w.ins[j], &w.din[j]),
        At::Out(j) => (&w.outs[j], &w.dout[j]),
        At::G => unreachable!(),
    };
    let d = match d {
        Some(d) => d,
        None => {
            c.probe("descriptor-not-sane");
            return Ok(());
        }
    };
    if !matches!(at, At::G) && c.t.chance(1, 8) {
        unchecked(c, w, &n.mem, &n.model, at, s, d)?;
    }
    match update(c, w, &n.mem, &n.model, at, s, d, false, who)? {
        Some((p, m)) => {
            c.probe(match (at, s.kind.taproot()) {
                (At::In(_), true) => "taproot-input-updated",
                (At::In(_), false) => "input-updated",
                (_, true) => "taproot-output-updated",
                _ => "output-updated",
            });
            ev!(c, "{} updates {:?}", who, at);
            c.state(&p.ser());
            n.mem = p;
            n.model = Rc::new(m);
        }
        None => ev!(c, "{} cannot update {:?} yet", who, at),
    }
    Ok(())
}

fn take(n: &mut Node, b: &[u8], m: &Raw, who: &str) -> R {
    let p = match v0::Psbt::de(b) {
        Ok(p) => p,
        Err(e) => return fail("decode-refused", format!("{}: {}", who, e)),
    };
    let x = match n.mem.comb(&p) {
        Ok(x) => x,
        Err(e) => return fail("combine-refused", format!("{}: {}", who, e)),
    };
    let u = union(&n.model, m);
    check_model(&x, &u, "combine-wrong-union", who)?;
    n.mem = x;
    n.model = Rc::new(u);
    Ok(())
}

pub fn run(c: &mut Ctx) -> R {
    let kinds: Vec<Kind> = wallet::ALL_KINDS.iter().copied().chain([Kind::PkhUncompressed, Kind::TrScript, Kind::TrScript]).collect();
    let mut wi = wallet::wallet(c, 0, &kinds);
    let nout = *c.t.pick(&[1usize, 1, 2, 3]);
    let mut wo = wallet::wallet_n(c, 0, &kinds, nout, 1);
    let mut tx = wi.tx.clone();
    tx.output = wo.spends.iter().map(|s| TxOut { value: Amount::from_sat(c.t.below(1000)), script_pubkey: s.out.script_pubkey.clone() }).collect();
    let mut outs = core::mem::take(&mut wo.spends);
    if c.t.chance(1, 6) {
        // Change to the same descriptor an input comes from.
        let j = c.t.idx(wi.spends.len());
        tx.output[0].script_pubkey = wi.spends[j].out.script_pubkey.clone();
        let s = &wi.spends[j];
        outs[0] = Spend {
            kind: s.kind,
            out: s.out.clone(),
            prev: s.prev.clone(),
            redeem: s.redeem.clone(),
            wscript: s.wscript.clone(),
            keys: s.keys.clone(),
            pol: s.pol.clone(),
            leaves: s.leaves.iter().map(|l| wallet::Leaf { script: l.script.clone(), hash: l.hash, control: l.control.clone(), keys: l.keys.clone(), pol: l.pol.clone() }).collect(),
            pres: s.pres.clone(),
            desc: s.desc.clone(),
            full: s.full.clone(),
            recs: s.recs.clone(),
            ..*s
        };
    }
    let bare = wallet::bare(c, 0, &tx);
    let forms: Vec<Form> = (0..N_WKEYS).map(|k| form(c, k)).collect();
    let ins = core::mem::take(&mut wi.spends);
    let din: Vec<Option<Desc>> = ins.iter().map(|s| desc_of(s, &forms, None)).collect();
    let dout: Vec<Option<Desc>> = outs.iter().map(|s| desc_of(s, &forms, None)).collect();
    for (s, d) in ins.iter().zip(&din).chain(outs.iter().zip(&dout)) {
        if s.non_mall && d.is_none() {
            c.probe("descriptor-unreadable");
        }
    }
    let w = World { tx, ins, outs, forms, din, dout };
    let n = c.t.range(1, 4) as usize;
    let mut all = bare.clone();
    let mut nodes = vec![];
    for i in 0..n {
        let mut m = bare.clone();
        for (j, s) in w.ins.iter().enumerate() {
            for k in [0u8, 1, 3] {
                if let Some(v) = s.recs.get(&vec![k]) {
                    // Somebody has it, others may not.
                    if i == j % n || c.t.chance(1, 2) {
                        m.ins[j].insert(vec![k], v.clone());
                    }
                }
            }
        }
        let p = match v0::Psbt::de(&m.write()) {
            Ok(p) => p,
            Err(e) => return fail("decode-refused", e),
        };
        all = union(&all, &m);
        let mut knows = vec![];
        for j in 0..w.ins.len() {
            if i == (j + 1) % n || c.t.chance(1, 3) {
                knows.push(At::In(j));
            }
        }
        for j in 0..w.outs.len() {
            if i == j % n || c.t.chance(1, 3) {
                knows.push(At::Out(j));
            }
        }
        let mut disk = Disk::new();
        let m = Rc::new(m);
        let mut written = BTreeMap::new();
        // What the party starts from is durable.
        let (g, _) = disk.save(c, &Faults::none(), &p.ser());
        written.insert(g, m.clone());
        nodes.push(Node { up: true, mem: p, model: m, knows, disk, written });
    }
    ev!(c, "{} parties, inputs {:?}, outputs {:?}", n, w.ins.iter().map(|s| s.kind).collect::<Vec<_>>(), w.outs.iter().map(|s| s.kind).collect::<Vec<_>>());

    let fl = Faults::swarm(c);
    let mut net = Net::new();
    let mut q: Queue<Ev> = Queue::new();
    for i in 0..n {
        let d = c.t.below(20);
        q.after(c, d, Ev::Tick(i));
    }
    let mut left = *c.t.pick(&[20u64, 8, 40]);
    while left > 0 {
        let e = match q.pop(c) {
            Some(e) => e,
            None => break,
        };
        left -= 1;
        match e {
            Ev::Tick(i) => {
                if !nodes[i].up {
                    continue;
                }
                if c.t.chance(fl.crash, 64) {
                    c.fault("crash");
                    nodes[i].up = false;
                    nodes[i].disk.crash(c);
                    ev!(c, "party {} crashes", i);
                    let d = c.t.range(10, 300);
                    q.after(c, d, Ev::Restart(i));
                    continue;
                }
                match c.t.below(8) {
                    0..=4 => act(c, &w, &mut nodes[i], i)?,
                    5 => {
                        let x = &mut nodes[i];
                        let b = x.mem.ser();
                        let (g, how) = x.disk.save(c, &fl, &b);
                        x.written.insert(g, x.model.clone());
                        ev!(c, "party {} stores generation {}{}", i, g, if matches!(how, Saved::Synced) { "" } else { " (not durable)" });
                    }
                    _ if n > 1 => {
                        let to = (i + 1 + c.t.idx(n - 1)) % n;
                        let b = Rc::new(nodes[i].mem.ser());
                        for (d, cut) in net.send(c, &fl, i, to, b.len()) {
                            q.after(c, d, Ev::Deliver(i, to, b.clone(), nodes[i].model.clone(), cut));
                        }
                    }
                    _ => {}
                }
                let d = 1 + c.t.below(30);
                q.after(c, d, Ev::Tick(i));
            }
            Ev::Deliver(from, to, b, m, cut) => {
                if !nodes[to].up {
                    c.fault("net-to-crashed");
                    continue;
                }
                match cut {
                    Some(k) => {
                        ensure!(v0::Psbt::de(&b[..k]).is_err(), "truncated-accepted", "{} of {}", k, b.len());
                    }
                    None => {
                        take(&mut nodes[to], &b, &m, &format!("from {} to {}", from, to))?;
                        ev!(c, "party {} combines a copy from {}", to, from);
                    }
                }
            }
            Ev::Restart(i) => {
                restart(c, &mut nodes[i], i)?;
                q.after(c, 5, Ev::Tick(i));
            }
        }
    }
    ev!(c, "faults stop");
    for i in 0..n {
        if !nodes[i].up {
            restart(c, &mut nodes[i], i)?;
        }
    }
    // UTXOs spread, then everybody updates what they know, then the results spread.
    for round in 0..2 {
        let order = c.t.perm(n);
        for x in order.windows(2).map(|x| (x[0], x[1])).chain(order.windows(2).rev().map(|x| (x[1], x[0]))) {
            let (b, m) = (nodes[x.0].mem.ser(), nodes[x.0].model.clone());
            take(&mut nodes[x.1], &b, &m, "exchange")?;
        }
        if round == 0 {
            for i in 0..n {
                let k = nodes[i].knows.len();
                for j in c.t.perm(k) {
                    let at = nodes[i].knows[j];
                    apply_right(c, &w, &mut nodes[i], at, &format!("party {}", i))?;
                }
            }
        }
    }
    let mut want = all;
    for (j, (s, d)) in w.ins.iter().zip(&w.din).enumerate() {
        if d.is_some() {
            add(&mut want.ins[j], &implied(s, &w.forms, true));
        }
    }
    for (j, (s, d)) in w.outs.iter().zip(&w.dout).enumerate() {
        if d.is_some() {
            add(&mut want.outs[j], &implied(s, &w.forms, false));
        }
    }
    for (i, x) in nodes.iter().enumerate() {
        check_model(&x.mem, &want, "not-converged", &format!("party {} at the end", i))?;
    }
    c.probe("converged");
    c.state(&nodes[0].mem.ser());
    Ok(())
}

fn restart(c: &mut Ctx, n: &mut Node, i: usize) -> R {
    n.up = true;
    for (g, b) in n.disk.recover() {
        if let Ok(p) = v0::Psbt::de(&b) {
            n.disk.use_gen(Some(g));
            n.mem = p;
            n.model = n.written[&g].clone();
            check_model(&n.mem, &n.model, "recovered-wrong", &format!("party {}", i))?;
            ev!(c, "party {} restarts from generation {}", i, g);
            return Ok(());
        }
    }
    fail("durable-lost", format!("party {}", i))
}
