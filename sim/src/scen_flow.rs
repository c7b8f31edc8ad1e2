//! C12, C13: parties with part of the updater's records, keys and preimages each exchange copies
//! over a faulty network, sign, finalise early, late, whole or input by input, and extract.

use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use psbt_v2::bitcoin::consensus::encode::{deserialize, serialize};
use psbt_v2::bitcoin::script::Instruction;
use psbt_v2::bitcoin::{ScriptBuf, Transaction, TxOut, Witness};
use psbt_v2::v0::miniscript::PsbtExt;
use psbt_v2::{v0, v2};

use crate::ctx::{fail, hexs, Ctx, R};
use crate::keys::{pool, wk, N_MASTERS, PER_MASTER};
use crate::model;
use crate::raw::{At, RMap, Raw};
use crate::scen_sign::{store, Signs, Store};
use crate::script::Judge;
use crate::sim::{Disk, Faults, Net, Queue, Saved};
use crate::typed::{show, Ps};
use crate::wallet::{self, Kind, Spend, Wallet};
use crate::{ensure, ev};

/// A way to finalise.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    /// Every input that can be, non-malleably or not.
    Whole { mall: bool, by_value: bool },
    /// The functions that stop at the first error.
    Old { mall: bool },
    One { i: usize, mall: bool, by_value: bool },
}

impl How {
    fn mall(self) -> bool {
        match self {
            How::Whole { mall, .. } | How::Old { mall } | How::One { mall, .. } => mall,
        }
    }
}

pub trait Flow: Signs {
    fn finalise(&self, how: How) -> (Self, Result<(), String>);
    fn pick(c: &mut Ctx, n: usize) -> How;
    /// Extracts in every way that does not look at the fee.
    fn extract(&self) -> R<Result<Transaction, String>>;
    /// Checks the final scripts.
    fn interpret(&self) -> Result<(), String>;
    /// The identity the roles tell, if there is one.
    fn ids(&self) -> Vec<String>;
}

impl Flow for v0::Psbt {
    fn finalise(&self, how: How) -> (Self, Result<(), String>) {
        let s = &pool().secp;
        let mut p = self.clone();
        let all = |r: Result<(), Vec<v0::miniscript::Error>>| r.map_err(|v| {
            v.into_iter().map(show).collect::<Vec<_>>().join("; ")
        });
        let moved = |r: Result<v0::Psbt, (v0::Psbt, Vec<v0::miniscript::Error>)>| match r {
            Ok(p) => (p, Ok(())),
            Err((p, v)) => (p, all(Err(v))),
        };
        let moved_one = |r: Result<v0::Psbt, (v0::Psbt, v0::miniscript::Error)>| match r {
            Ok(p) => (p, Ok(())),
            Err((p, e)) => (p, Err(show(e))),
        };
        let r = match how {
            How::Whole { mall: false, by_value: false } => all(p.finalize_mut(s)),
            How::Whole { mall: true, by_value: false } => all(p.finalize_mall_mut(s)),
            How::Whole { mall: false, by_value: true } => return moved(p.finalize(s)),
            How::Whole { mall: true, by_value: true } => return moved(p.finalize_mall(s)),
            #[allow(deprecated)]
            How::Old { mall: false } => v0::miniscript::finalize(&mut p, s).map_err(show),
            How::Old { mall: true } => v0::miniscript::finalize_mall(&mut p, s).map_err(show),
            How::One { i, mall: false, by_value: false } => p.finalize_inp_mut(s, i).map_err(show),
            How::One { i, mall: true, by_value: false } => p.finalize_inp_mall_mut(s, i).map_err(show),
            How::One { i, mall: false, by_value: true } => return moved_one(p.finalize_inp(s, i)),
            How::One { i, mall: true, by_value: true } => return moved_one(p.finalize_inp_mall(s, i)),
        };
        (p, r)
    }

    fn pick(c: &mut Ctx, n: usize) -> How {
        let mall = c.t.chance(1, 2);
        let by_value = c.t.chance(1, 2);
        match c.t.below(5) {
            0 | 1 => How::Whole { mall, by_value },
            2 => How::Old { mall },
            // Now and then an input that does not exist.
            _ => How::One { i: c.t.idx(n * 8 + 1) % (n + 1), mall, by_value },
        }
    }

    fn extract(&self) -> R<Result<Transaction, String>> {
        let a = PsbtExt::extract(self, &pool().secp).map_err(show);
        if let Ok(t) = &a {
            let b = self.clone().extract_tx_unchecked_fee_rate();
            ensure!(&b == t, "extractions-differ", "with and without the interpreter check");
        }
        Ok(a)
    }

    fn interpret(&self) -> Result<(), String> {
        v0::miniscript::interpreter_check(self, &pool().secp).map_err(show)
    }

    fn ids(&self) -> Vec<String> { vec![] }
}

impl Flow for v2::Psbt {
    fn finalise(&self, _: How) -> (Self, Result<(), String>) {
        let f = match v2::Finalizer::new(self.clone()) {
            Ok(f) => f,
            Err(e) => return (self.clone(), Err(show(e))),
        };
        match f.finalize(&pool().secp) {
            Ok(p) => (p, Ok(())),
            Err(e) => (self.clone(), Err(show(e))),
        }
    }

    fn pick(_: &mut Ctx, _: usize) -> How { How::Whole { mall: true, by_value: true } }

    fn extract(&self) -> R<Result<Transaction, String>> {
        let e = match v2::Extractor::new(self.clone()) {
            Ok(e) => e,
            Err(e) => return Ok(Err(show(e))),
        };
        Ok(e.extract_tx_unchecked_fee_rate().map_err(show))
    }

    fn interpret(&self) -> Result<(), String> {
        if !self.is_finalized() || self.iter_funding_utxos().any(|u| u.is_err()) {
            return Err("not finalised".into());
        }
        self.interpreter_check(&pool().secp).map_err(show)
    }

    fn ids(&self) -> Vec<String> {
        let mut v = vec![];
        if let Ok(f) = v2::Finalizer::new(self.clone()) {
            v.push(f.id().to_string());
        }
        if let Ok(f) = v2::Extractor::new(self.clone()) {
            v.push(f.id().to_string());
        }
        v
    }
}

pub fn is_final(m: &RMap) -> bool { m.contains_key(&vec![7u8]) || m.contains_key(&vec![8u8]) }

/// The output an input spends, as its own records tell.
fn claimed(m: &RMap, vout: u32) -> Result<Option<TxOut>, ()> {
    let w: Option<TxOut> = m.get(&vec![1u8]).and_then(|v| deserialize(v).ok());
    let n: Option<Transaction> = m.get(&vec![0u8]).and_then(|v| deserialize(v).ok());
    let n = n.map(|t| t.output.get(vout as usize).cloned());
    match (w, n) {
        (Some(w), Some(n)) if n.as_ref() != Some(&w) => Err(()),
        (Some(w), _) => Ok(Some(w)),
        (None, Some(n)) => Ok(n),
        (None, None) => Ok(None),
    }
}

/// The transaction with the final scripts of a PSBT.
pub fn with_scripts(tx: &Transaction, r: &Raw) -> Transaction {
    let mut tx = tx.clone();
    for (i, t) in tx.input.iter_mut().enumerate() {
        if let Some(s) = r.ins[i].get(&vec![7u8]) {
            t.script_sig = ScriptBuf::from_bytes(s.clone());
        }
        if let Some(s) = r.ins[i].get(&vec![8u8]) {
            t.witness = deserialize::<Witness>(s).expect("witness");
        }
    }
    tx
}

/// Whether an input of an honest copy carries all it takes to be finalised.
fn enough(s: &Spend, m: &RMap, mall: bool) -> bool {
    if !mall && !s.non_mall {
        return false;
    }
    if !s.recs.iter().all(|(k, v)| m.get(k) == Some(v)) {
        return false;
    }
    let pre: BTreeSet<usize> =
        (0..s.pres.len()).filter(|i| m.contains_key(&s.pre_rec(*i).0)).collect();
    let pre = s.usable(&pre);
    if s.kind.taproot() {
        if m.contains_key(&vec![0x13u8]) {
            return true;
        }
        return s.leaves.iter().any(|l| {
            let keys: BTreeSet<usize> = l
                .keys
                .iter()
                .copied()
                .filter(|k| m.contains_key(&tap_rec(*k, &l.hash[..])))
                .collect();
            l.pol.met(&keys, &pre)
        });
    }
    let keys: BTreeSet<usize> = s
        .keys
        .iter()
        .copied()
        .filter(|k| m.contains_key(&[&[2u8][..], &s.sig_pk(*k).to_bytes()].concat()))
        .collect();
    s.pol.met(&keys, &pre)
}

fn tap_rec(k: usize, leaf: &[u8]) -> Vec<u8> {
    [&[0x14u8][..], &wk(k).xonly.serialize(), leaf].concat()
}

fn has_utxo(m: &RMap) -> bool { m.contains_key(&vec![0u8]) || m.contains_key(&vec![1u8]) }

fn kept(v: u8, k: &[u8]) -> bool {
    match k[0] {
        0 | 1 => k.len() == 1,
        0xfc => true,
        0x0e..=0x12 if v == 2 => k.len() == 1,
        // What a finalised input may have besides: records nobody defined.
        t => t >= 0x30,
    }
}

/// Finalises an honest copy and judges the result.
fn finalise_honest<P: Flow>(c: &mut Ctx, w: &Wallet, outs: &[TxOut], p: &P, how: How, what: &str) -> R<P> {
    let pre = p.to_raw();
    let (q, r) = p.finalise(how);
    let post = q.to_raw();
    let n = w.spends.len();
    ensure!(post.g == pre.g && post.outs == pre.outs, "finaliser-changed-more", "{} {:?}: a global or output record", what, how);
    ensure!(post.ins.len() == n, "finaliser-changed-more", "{} {:?}: number of inputs", what, how);
    let utxos = pre.ins.iter().all(has_utxo);
    let good: Vec<bool> = w.spends.iter().enumerate().map(|(i, s)| utxos && enough(s, &pre.ins[i], how.mall())).collect();
    let tx = with_scripts(&w.tx, &post);
    let mut j = Judge::new(&tx, outs);
    let mut done = 0;
    for (i, s) in w.spends.iter().enumerate() {
        let (a, b) = (&pre.ins[i], &post.ins[i]);
        let tried = match how {
            How::One { i: k, .. } => k == i,
            _ => true,
        };
        if a == b {
            if tried && good[i] && !is_final(a) {
                // Version 2 and the old functions need all inputs.
                let all = match how {
                    How::Whole { .. } if P::V == 0 => true,
                    How::One { .. } => true,
                    How::Old { .. } => good[..=i].iter().all(|g| *g),
                    How::Whole { .. } => good.iter().all(|g| *g),
                };
                if all {
                    return fail(
                        "could-not-finalise",
                        format!("{} {:?}: input {} {:?} of {}: {:?}", what, how, i, s.kind, w.desc(), r),
                    );
                }
            }
            if r.is_ok() && tried {
                ensure!(is_final(a), "finalised-nothing", "{} {:?}: input {} {:?}", what, how, i, s.kind);
            }
            continue;
        }
        ensure!(tried, "finaliser-changed-more", "{} {:?}: input {}", what, how, i);
        ensure!(
            is_final(b),
            "error-left-traces",
            "{} {:?}: input {} {:?} changed but is not final", what, how, i, s.kind
        );
        for (k, v) in b {
            if k[..] == [7] || k[..] == [8] {
                continue;
            }
            ensure!(
                kept(P::V, k) && a.get(k) == Some(v),
                "finalised-input-wrong",
                "{} {:?}: input {} {:?} has {}", what, how, i, s.kind, hexs(&k[..core::cmp::min(8, k.len())])
            );
        }
        for k in a.keys().filter(|k| kept(P::V, k)) {
            ensure!(
                b.contains_key(k),
                "finalised-input-wrong",
                "{} {:?}: input {} {:?} lost {}", what, how, i, s.kind, hexs(&k[..core::cmp::min(8, k.len())])
            );
        }
        if let Err(e) = j.spends(i) {
            return fail("finalised-invalid", format!("{} {:?}: input {} {:?} of {}: {}", what, how, i, s.kind, w.desc(), e));
        }
        if let (Some((x, y)), false) = (s.alterable, how.mall()) {
            let pre: BTreeSet<usize> = [x, y].into_iter().filter(|i| a.contains_key(&s.pre_rec(*i).0)).collect();
            ensure!(
                s.usable(&pre).len() < 2,
                "finalised-alterable",
                "{} {:?}: input {} {:?} of {}", what, how, i, s.kind, w.desc()
            );
            c.probe("finalised-not-alterable-yet");
        }
        done += 1;
    }
    if r.is_err() && P::V == 2 {
        ensure!(post == pre, "error-left-traces", "{}", what);
    }
    if done > 0 {
        c.probe("finalised");
        c.state(&q.ser());
        if done < n {
            c.probe("finalised-some");
        }
        if !how.mall() {
            c.probe("finalised-non-malleably");
        }
    } else {
        c.probe("finaliser-refused");
    }
    identity(w, &q, what)?;
    extract_honest(c, w, outs, &q, what)?;
    Ok(q)
}

fn identity<P: Flow>(_w: &Wallet, p: &P, what: &str) -> R {
    if P::V == 2 {
        let want = model::id(&p.to_raw()).map(|t| t.to_string());
        for id in p.ids() {
            ensure!(Ok(&id) == want.as_ref(), "identity-wrong", "{}: {} instead of {:?}", what, id, want);
        }
    }
    Ok(())
}

/// Extracts from an honest copy and judges the transaction.
fn extract_honest<P: Flow>(c: &mut Ctx, w: &Wallet, outs: &[TxOut], p: &P, what: &str) -> R<bool> {
    let raw = p.to_raw();
    let fin = raw.ins.iter().all(is_final);
    match p.extract()? {
        Ok(tx) => {
            ensure!(fin, "extracted-unfinished", "{}", what);
            let want = with_scripts(&w.tx, &raw);
            ensure!(
                tx == want && serialize(&tx) == serialize(&want),
                "extracted-other-transaction",
                "{}: {:?} instead of {:?}", what, tx, want
            );
            let mut j = Judge::new(&tx, outs);
            for (i, s) in w.spends.iter().enumerate() {
                if let Err(e) = j.spends(i) {
                    return fail("extracted-invalid", format!("{}: input {} {:?} of {}: {}", what, i, s.kind, w.desc(), e));
                }
            }
            if let Err(e) = p.interpret() {
                return fail("interpreter-refused", format!("{}: {}: {}", what, w.desc(), e));
            }
            if P::V == 0 {
                creator(w, &tx)?;
            }
            c.probe("extracted");
            Ok(true)
        }
        Err(e) => {
            let all = raw.ins.iter().all(has_utxo);
            ensure!(!fin || !all, "could-not-extract", "{}: {}: {}", what, w.desc(), e);
            Ok(false)
        }
    }
}

/// The v0 creator takes the unsigned transaction and refuses one that has a script or a witness.
fn creator(w: &Wallet, signed: &Transaction) -> R {
    match psbt_v2::v0::Psbt::from_unsigned_tx(w.tx.clone()) {
        Ok(p) => {
            let mut g = crate::raw::RMap::new();
            g.insert(vec![0u8], crate::raw::write_unsigned_tx(&w.tx));
            let r = Ps::to_raw(&p);
            ensure!(
                r.g == g
                    && r.ins.len() == w.tx.input.len()
                    && r.outs.len() == w.tx.output.len()
                    && r.ins.iter().chain(&r.outs).all(|m| m.is_empty())
                    && p.version == 0,
                "created-wrong",
                "{:?} from {:?}", r, w.tx
            );
        }
        Err(e) => return fail("creator-refused", format!("{:?}: {}", w.tx, e)),
    }
    // Scripts and witnesses, those of one input, either of them.
    let n = signed.input.len();
    for k in 0..=3 * n {
        let mut t = w.tx.clone();
        let mut any = false;
        for i in 0..n {
            if k == 0 || (k - 1) / 3 == i {
                if k == 0 || (k - 1) % 3 != 0 {
                    t.input[i].witness = signed.input[i].witness.clone();
                }
                if k == 0 || (k - 1) % 3 != 1 {
                    t.input[i].script_sig = signed.input[i].script_sig.clone();
                }
                any |= !t.input[i].witness.is_empty() || !t.input[i].script_sig.is_empty();
            }
        }
        let got = psbt_v2::v0::Psbt::from_unsigned_tx(t.clone()).is_ok();
        ensure!(got != any, "creator-judged-wrong", "created: {} from {:?}", got, t);
    }
    Ok(())
}

struct Node<P: Ps> {
    up: bool,
    mem: P,
    first: P,
    disk: Disk,
    store: Store,
    masters: BTreeSet<usize>,
    pres: Vec<(usize, usize)>,
    old: Vec<Rc<Vec<u8>>>,
}

enum Ev {
    Tick(usize),
    Deliver(usize, Rc<Vec<u8>>, Option<usize>),
    Restart(usize),
}

/// Signs what the signer of the crate does not: taproot inputs of version 2 and inputs with
/// uncompressed keys.
pub fn foreign_sign<P: Ps>(c: &mut Ctx, w: &Wallet, outs: &[TxOut], p: &mut P, masters: &BTreeSet<usize>, all: bool) -> R {
    let secp = &pool().secp;
    let mut j = Judge::new(&w.tx, outs);
    let raw = p.to_raw();
    for (i, s) in w.spends.iter().enumerate() {
        if is_final(&raw.ins[i]) {
            continue;
        }
        let mine: Vec<usize> = s.all_keys().into_iter().filter(|k| masters.contains(&(k / PER_MASTER))).collect();
        if s.kind == Kind::PkhUncompressed && !mine.is_empty() {
            let (m, ty) = match w.ecdsa_msg(&mut j, i) {
                Ok(x) => x,
                Err(_) => continue,
            };
            for k in mine {
                let sig = secp.sign_ecdsa(&m, &wk(k).sk);
                let v = [&sig.serialize_der()[..], &[ty]].concat();
                p.apply(At::In(i), &[&[2u8][..], &s.sig_pk(k).to_bytes()].concat(), &v).expect("signature");
            }
        } else if s.kind.taproot() && P::V == 2 {
            for k in mine {
                let kp = wk(k).sk.keypair(secp);
                let ty = if s.sighash == Some(1) { &[1u8][..] } else { &[] };
                if s.internal == Some(k) && (all || !c.t.chance(1, 3)) {
                    if let Ok((m, _)) = w.tap_msg(&mut j, i, None) {
                        use psbt_v2::bitcoin::key::TapTweak;
                        use psbt_v2::bitcoin::taproot::TapNodeHash;
                        use psbt_v2::bitcoin::hashes::Hash;
                        let kp = kp.tap_tweak(secp, s.root.map(TapNodeHash::from_byte_array)).to_inner();
                        let sig = secp.sign_schnorr_no_aux_rand(&m, &kp);
                        p.apply(At::In(i), &[0x13], &[&sig.serialize()[..], ty].concat()).expect("signature");
                    }
                }
                for l in s.leaves.iter().filter(|l| l.keys.contains(&k)) {
                    if !all && c.t.chance(1, 4) {
                        continue;
                    }
                    if let Ok((m, _)) = w.tap_msg(&mut j, i, Some(l.hash)) {
                        let sig = secp.sign_schnorr_no_aux_rand(&m, &kp);
                        p.apply(At::In(i), &tap_rec(k, &l.hash[..]), &[&sig.serialize()[..], ty].concat()).expect("signature");
                    }
                }
            }
        }
    }
    Ok(())
}

/// Changes something on the way. Returns what, or nothing if there was nothing to change.
pub fn tamper(c: &mut Ctx, w: &Wallet, r: &mut Raw) -> Option<&'static str> {
    let n = w.spends.len();
    let i = c.t.idx(n);
    let of = |r: &Raw, t: u8| -> Vec<Vec<u8>> { r.ins[i].keys().filter(|k| k[0] == t).cloned().collect() };
    let other = |c: &mut Ctx, r: &Raw, t: u8| -> Option<Vec<u8>> {
        let v: Vec<Vec<u8>> = r.ins.iter().flat_map(|m| m.iter().filter(|x| x.0[0] == t).map(|x| x.1.clone())).collect();
        if v.is_empty() { None } else { Some(c.t.pick(&v).clone()) }
    };
    match c.t.below(18) {
        0 => {
            // Another signature under the same key.
            let ks = of(r, 2);
            if ks.is_empty() {
                return None;
            }
            let k = c.t.pick(&ks).clone();
            let ty = *r.ins[i][&k].last()?;
            let v = if c.t.chance(1, 2) {
                other(c, r, 2)?
            } else {
                [&pool().sigs[c.t.idx(8)].serialize_der()[..], &[ty]].concat()
            };
            r.ins[i].insert(k, v);
            Some("signature-replaced")
        }
        1 => {
            let ks = of(r, 2);
            if ks.is_empty() {
                return None;
            }
            let k = c.t.pick(&ks).clone();
            let v = r.ins[i].get_mut(&k)?;
            *v.last_mut()? = *c.t.pick(&[2u8, 1, 3, 0x81, 0x82, 0x83]);
            let ty = *v.last()?;
            if c.t.chance(1, 2) {
                // And the type the input asks for.
                r.ins[i].insert(vec![3], (ty as u32).to_le_bytes().to_vec());
            }
            Some("signature-type-changed")
        }
        2 => {
            // Signatures of two keys exchanged.
            let t = *c.t.pick(&[2u8, 0x14]);
            let ks = of(r, t);
            if ks.len() < 2 {
                return None;
            }
            let a = c.t.pick(&ks).clone();
            let b = c.t.pick(&ks).clone();
            let (x, y) = (r.ins[i][&a].clone(), r.ins[i][&b].clone());
            r.ins[i].insert(a, y);
            r.ins[i].insert(b, x);
            Some("signatures-swapped")
        }
        3 => {
            let mut ks = of(r, 0x13);
            ks.extend(of(r, 0x14));
            if ks.is_empty() {
                return None;
            }
            let k = c.t.pick(&ks).clone();
            let v = r.ins[i].get_mut(&k)?;
            match c.t.below(3) {
                0 => {
                    let s = pool().schnorr[c.t.idx(8)].serialize();
                    v[..64].copy_from_slice(&s);
                }
                1 => {
                    let b = c.t.idx(64);
                    v[b] ^= 1 << c.t.below(8);
                }
                _ => {
                    v.truncate(64);
                    v.push(*c.t.pick(&[1u8, 2, 3, 0x81, 0x82, 0x83]));
                }
            }
            Some("taproot-signature-changed")
        }
        4 => {
            // A key path signature that belongs to a leaf or the other way around.
            let l = of(r, 0x14);
            if let Some(k) = l.first() {
                let v = r.ins[i][k].clone();
                r.ins[i].insert(vec![0x13], v);
                return Some("leaf-signature-for-key-path");
            }
            let v = r.ins[i].get(&vec![0x13u8])?.clone();
            let s = &w.spends[i];
            let l = s.leaves.first()?;
            r.ins[i].remove(&vec![0x13u8]);
            for k in &l.keys {
                r.ins[i].insert(tap_rec(*k, &l.hash[..]), v.clone());
            }
            Some("key-path-signature-for-leaf")
        }
        5 | 6 => {
            // The sequence.
            let s = *c.t.pick(&[0xffff_ffffu32, 0, 1, 0xffff_fffe, 0x0040_0001, 40]);
            if w.v == 0 {
                edit_tx(r, |t| t.input[i].sequence.0 = s);
            } else {
                r.ins[i].insert(vec![0x10], s.to_le_bytes().to_vec());
            }
            Some("sequence-changed")
        }
        7 | 8 => {
            let l = *c.t.pick(&[0u32, 1, 30, 900_000, 500_000_001, 500_001_500]);
            if w.v == 0 {
                edit_tx(r, |t| t.lock_time = psbt_v2::bitcoin::absolute::LockTime::from_consensus(l));
            } else if c.t.chance(1, 2) {
                r.g.insert(vec![3], l.to_le_bytes().to_vec());
            } else if l > 0 {
                r.ins[i].insert(vec![if l < 500_000_000 { 0x12 } else { 0x11 }], l.to_le_bytes().to_vec());
            }
            Some("lock-time-changed")
        }
        9 => {
            let v = *c.t.pick(&[1i32, 0, 2, 3]);
            if w.v == 0 {
                edit_tx(r, |t| t.version.0 = v);
            } else {
                r.g.insert(vec![2], v.to_le_bytes().to_vec());
            }
            Some("version-changed")
        }
        10 => {
            let o = c.t.idx(w.tx.output.len());
            let d = c.t.range(1, 1000);
            if w.v == 0 {
                edit_tx(r, |t| {
                    let v = t.output[o].value.to_sat();
                    t.output[o].value = psbt_v2::bitcoin::Amount::from_sat(v.wrapping_add(d));
                });
            } else {
                let a = w.tx.output[o].value.to_sat() + d;
                r.outs[o].insert(vec![3], a.to_le_bytes().to_vec());
            }
            Some("amount-changed")
        }
        11 => {
            // The spent output.
            let s = &w.spends[i];
            let mut o = s.out.clone();
            if c.t.chance(1, 2) {
                o.value = psbt_v2::bitcoin::Amount::from_sat(o.value.to_sat().wrapping_add(c.t.range(1, 1000)));
            } else {
                o.script_pubkey = w.spends[c.t.idx(n)].out.script_pubkey.clone();
            }
            r.ins[i].remove(&vec![0u8]);
            r.ins[i].insert(vec![1], serialize(&o));
            Some("spent-output-changed")
        }
        12 => {
            let k = *c.t.pick(&[4u8, 5]);
            let from = *c.t.pick(&[5u8, 4]);
            let v = match other(c, r, from) {
                Some(v) => v,
                None => c.t.bytes(5),
            };
            r.ins[i].insert(vec![k], v);
            Some("script-replaced")
        }
        13 => {
            let ks = of(r, 0x15);
            if ks.is_empty() {
                return None;
            }
            let k = c.t.pick(&ks).clone();
            let v = r.ins[i][&k].clone();
            match c.t.below(3) {
                0 => {
                    let o = other(c, r, 0x15)?;
                    r.ins[i].insert(k, o);
                }
                1 => {
                    let mut k2 = k.clone();
                    k2[1] ^= 1;
                    r.ins[i].remove(&k);
                    r.ins[i].insert(k2, v);
                }
                _ => {
                    if k.len() == 34 {
                        return None;
                    }
                    let mut k2 = k.clone();
                    let b = c.t.range(34, k.len() as u64 - 1) as usize;
                    k2[b] ^= 0x10;
                    r.ins[i].remove(&k);
                    r.ins[i].insert(k2, v);
                }
            }
            Some("leaf-replaced")
        }
        14 => {
            // All records of another input.
            let k = c.t.idx(n);
            let m = r.ins[k].clone();
            for (key, v) in m {
                if !(w.v == 2 && matches!(key[0], 0x0e..=0x12)) && !(key[0] <= 1 && c.t.chance(1, 2)) {
                    r.ins[i].insert(key, v);
                }
            }
            Some("input-records-copied")
        }
        15 => {
            let ks: Vec<Vec<u8>> = r.ins[i].keys().filter(|k| !matches!(k[0], 0x0e..=0x0f)).cloned().collect();
            if ks.is_empty() {
                return None;
            }
            let k = c.t.pick(&ks).clone();
            r.ins[i].remove(&k);
            Some("record-removed")
        }
        16 => {
            // A signature moved to another key.
            let ks = of(r, 2);
            if ks.is_empty() {
                return None;
            }
            let k = c.t.pick(&ks).clone();
            let v = r.ins[i].remove(&k)?;
            let keys = w.spends[i].all_keys();
            let to = wk(*c.t.pick(&keys)).pk;
            r.ins[i].insert([&[2u8][..], &to.to_bytes()].concat(), v);
            Some("signature-moved")
        }
        _ => {
            let k = *c.t.pick(&[0x17u8, 0x18]);
            let v = wk(c.t.idx(crate::keys::N_WKEYS)).xonly.serialize().to_vec();
            r.ins[i].insert(vec![k], v);
            Some("taproot-key-or-root-replaced")
        }
    }
}

fn edit_tx(r: &mut Raw, f: impl FnOnce(&mut Transaction)) {
    let mut t = crate::raw::unsigned_tx(&r.g[&vec![0u8]]).expect("tx");
    f(&mut t);
    r.g.insert(vec![0], crate::raw::write_unsigned_tx(&t));
}

/// The transaction a PSBT describes.
fn tx_of(r: &Raw) -> Result<Transaction, ()> {
    if r.v == 0 {
        crate::raw::unsigned_tx(&r.g[&vec![0u8]]).map_err(|_| ())
    } else {
        model::tx(r)
    }
}

/// Judges the final inputs of a copy that somebody tampered with. `changed` are to be looked at.
fn judge_tampered(raw: &Raw, changed: &[usize], whole: bool, tx: Option<&Transaction>, what: &str, w: &Wallet) -> R {
    let base = match tx_of(raw) {
        Ok(t) => t,
        Err(()) => return fail("tampered-accepted", format!("{}: no lock time", what)),
    };
    let mut outs = vec![];
    for (i, m) in raw.ins.iter().enumerate() {
        match claimed(m, base.input[i].previous_output.vout) {
            Ok(Some(o)) => outs.push(o),
            // Two claims, nobody knows which one is true.
            Err(()) => return Ok(()),
            Ok(None) => return fail("tampered-accepted", format!("{}: nothing known of the output input {} spends", what, i)),
        }
    }
    let want = with_scripts(&base, raw);
    if let Some(t) = tx {
        ensure!(*t == want, "extracted-other-transaction", "{}", what);
    }
    let mut j = Judge::new(&want, &outs);
    for i in 0..raw.ins.len() {
        if !whole && !changed.contains(&i) {
            continue;
        }
        if let Err(e) = j.spends(i) {
            return fail("tampered-accepted", format!("{}: input {} of {}: {}", what, i, w.desc(), e));
        }
    }
    Ok(())
}

/// Finalises a copy somebody tampered with, from which nothing is kept.
fn finalise_tampered<P: Flow>(c: &mut Ctx, w: &Wallet, p: &P) -> R {
    let mut raw = p.to_raw();
    let mut what = vec![];
    for _ in 0..c.t.range(1, 2) {
        if let Some(x) = tamper(c, w, &mut raw) {
            what.push(x);
            c.fault(x);
        }
    }
    if what.is_empty() {
        return Ok(());
    }
    let what = what.join(", ");
    let mut p = match P::de(&raw.write()) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    if c.t.chance(1, 6) {
        // Preimages are verified when read, so this can only be done in memory.
        for (i, s) in w.spends.iter().enumerate() {
            if !s.pres.is_empty() {
                let k = s.pre_rec(c.t.idx(s.pres.len())).0;
                let n = *c.t.pick(&[32usize, 31, 33, 0]);
                let v = c.t.bytes(n);
                p.apply(At::In(i), &k, &v).expect("preimage");
                c.fault("preimage-wrong");
            }
        }
    }
    let how = P::pick(c, w.spends.len());
    ev!(c, "tampered: {}, finalised {:?}", what, how);
    let pre = p.to_raw();
    let (q, r) = p.finalise(how);
    let post = q.to_raw();
    ensure!(post.g == pre.g && post.outs == pre.outs, "finaliser-changed-more", "{}: a global or output record", what);
    let mut changed = vec![];
    for i in 0..pre.ins.len() {
        if pre.ins[i] != post.ins[i] {
            ensure!(is_final(&post.ins[i]), "error-left-traces", "{}: input {}", what, i);
            ensure!(
                how == How::Whole { mall: true, by_value: true } || !matches!(how, How::One { i: k, .. } if k != i),
                "finaliser-changed-more", "{}: input {}", what, i
            );
            changed.push(i);
        }
    }
    if r.is_err() && (P::V == 2 || matches!(how, How::One { .. })) {
        ensure!(changed.is_empty(), "error-left-traces", "{}", what);
    }
    if r.is_ok() {
        c.probe("tampered-but-valid");
    } else {
        c.probe("tampered-refused");
    }
    judge_tampered_if(&post, &changed, &what, w)?;
    if changed.len() == pre.ins.len() {
        if let Ok(tx) = q.extract()? {
            judge_tampered(&post, &changed, true, Some(&tx), &what, w)?;
        }
    }
    Ok(())
}

fn judge_tampered_if(post: &Raw, changed: &[usize], what: &str, w: &Wallet) -> R {
    if changed.is_empty() {
        return Ok(());
    }
    judge_tampered(post, changed, false, None, what, w)
}

/// Damages final scripts, which extraction or the interpreter must notice.
fn extract_tampered<P: Flow>(c: &mut Ctx, w: &Wallet, p: &P) -> R {
    let mut raw = p.to_raw();
    if !raw.ins.iter().all(is_final) {
        return Ok(());
    }
    let i = c.t.idx(raw.ins.len());
    let flip = |c: &mut Ctx, v: &mut Vec<u8>| -> bool {
        // Signatures and preimages.
        match v.len() {
            64 | 65 if v[0] != 4 || v.len() == 64 => {
                let b = c.t.idx(64);
                v[b] ^= 1 << c.t.below(8);
            }
            32 => {
                let b = c.t.idx(32);
                v[b] ^= 1 << c.t.below(8);
            }
            69..=73 if v[0] == 0x30 => {
                // Within r or s.
                let r = v[3] as usize;
                let b = if c.t.chance(1, 2) { 4 + r / 2 } else { 4 + r + 2 + 16 };
                v[b] ^= 1 << c.t.below(8);
            }
            _ => return false,
        }
        true
    };
    let s = raw.ins[i].get(&vec![7u8]).cloned().unwrap_or_default();
    let mut w8: Vec<Vec<u8>> = match raw.ins[i].get(&vec![8u8]) {
        Some(v) => deserialize::<Witness>(v).expect("witness").to_vec(),
        None => vec![],
    };
    if !w8.is_empty() {
        let k = c.t.idx(w8.len());
        let mut x = w8[k].clone();
        if !flip(c, &mut x) {
            return Ok(());
        }
        w8[k] = x;
        raw.ins[i].insert(vec![8], serialize(&Witness::from_slice(&w8)));
    } else {
        let mut b = psbt_v2::bitcoin::script::Builder::new();
        let mut done = false;
        for ins in ScriptBuf::from_bytes(s).instructions() {
            match ins {
                Ok(Instruction::PushBytes(p)) => {
                    let mut v = p.as_bytes().to_vec();
                    if !done {
                        done = flip(c, &mut v);
                    }
                    b = b.push_slice(psbt_v2::bitcoin::script::PushBytesBuf::try_from(v).expect("short"));
                }
                Ok(Instruction::Op(o)) => b = b.push_opcode(o),
                Err(_) => return Ok(()),
            }
        }
        if !done {
            return Ok(());
        }
        raw.ins[i].insert(vec![7], b.into_script().into_bytes());
    }
    c.fault("final-script-damaged");
    let p = match P::de(&raw.write()) {
        Ok(p) => p,
        Err(e) => return fail("decode-refused", format!("damaged final script: {}", e)),
    };
    if P::V == 0 {
        if let Ok(tx) = p.extract()? {
            judge_tampered(&raw, &[i], true, Some(&tx), "damaged final script", w)?;
        }
    }
    if p.interpret().is_ok() {
        judge_tampered(&raw, &[i], true, None, "damaged final script, interpreter", w)?;
    }
    c.probe("final-script-damaged");
    Ok(())
}

const KINDS: &[Kind] = &[
    Kind::Wpkh,
    Kind::Pkh,
    Kind::PkhUncompressed,
    Kind::ShWpkh,
    Kind::Wsh,
    Kind::Wsh,
    Kind::Sh,
    Kind::Sh,
    Kind::ShWsh,
    Kind::ShWsh,
    Kind::Bare,
    Kind::Pk,
    Kind::TrKey,
    Kind::TrScript,
    Kind::TrScript,
];

pub fn run<P: Flow>(c: &mut Ctx) -> R {
    let one_kind = [*c.t.pick(KINDS)];
    let kinds = if c.t.chance(1, 3) { &one_kind[..] } else { KINDS };
    let w = wallet::wallet(c, P::V, kinds);
    let outs = w.prevouts();
    let n = c.t.range(1, 4) as usize;
    let fl = Faults::swarm(c);
    ev!(c, "{}, {} parties", w.desc(), n);

    // What everybody starts from, and who adds the rest.
    let split = n > 1 && c.t.chance(1, 2);
    let mut first = w.bare.clone();
    let mut parts: Vec<Vec<(At, Vec<u8>, Vec<u8>)>> = vec![vec![]; n];
    for (i, s) in w.spends.iter().enumerate() {
        for (k, v) in &s.recs {
            let splittable = matches!(k[0], 0 | 1 | 4 | 5 | 6 | 0x15 | 0x16);
            if split && splittable && c.t.chance(1, 2) {
                let o = c.t.idx(n);
                parts[o].push((At::In(i), k.clone(), v.clone()));
                // Now and then two know it.
                if c.t.chance(1, 3) {
                    let o = c.t.idx(n);
                    parts[o].push((At::In(i), k.clone(), v.clone()));
                }
            } else {
                first.ins[i].insert(k.clone(), v.clone());
            }
        }
    }
    // Records that survive finalising, and some that do not.
    for _ in 0..c.t.below(5) {
        let len = c.t.below(6) as usize;
        let d = c.t.bytes(len);
        let v = c.t.bytes(len + 1);
        let i = c.t.idx(w.spends.len());
        let (k, v) = if c.t.chance(1, 2) {
            ([&[0xf1u8][..], &d].concat(), v)
        } else {
            ([&[0xfcu8][..], &crate::typed::prop_key(&d, 7, &v)].concat(), d)
        };
        let at = match c.t.below(6) {
            0 => At::G,
            1 => At::Out(c.t.idx(w.tx.output.len())),
            _ => At::In(i),
        };
        if c.t.chance(1, 2) {
            first.map_mut(at).insert(k, v);
        } else {
            let o = c.t.idx(n);
            parts[o].push((at, k, v));
        }
    }
    let mut nodes: Vec<Node<P>> = vec![];
    let mut unc = BTreeSet::new();
    let mut count: BTreeMap<usize, usize> = BTreeMap::new();
    for s in &w.spends {
        if s.kind == Kind::PkhUncompressed {
            unc.extend(s.keys.iter().copied());
        }
        for k in s.all_keys() {
            *count.entry(k).or_default() += 1;
        }
    }
    let shared: BTreeSet<usize> = count.iter().filter(|x| *x.1 > 1).map(|x| *x.0).collect();
    unc.retain(|k| !shared.contains(k));
    let mut held: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    let mut present = BTreeSet::new();
    let missing = c.t.chance(1, 3);
    for m in 0..N_MASTERS {
        if missing && c.t.chance(1, 5) {
            // Nobody signs for this one.
            continue;
        }
        present.insert(m);
        let o = c.t.idx(n);
        held[o].insert(m);
        if c.t.chance(1, 6) {
            let o = c.t.idx(n);
            held[o].insert(m);
        }
    }
    let mut pres: Vec<Vec<(usize, usize)>> = vec![vec![]; n];
    for (i, s) in w.spends.iter().enumerate() {
        for h in 0..s.pres.len() {
            if !(missing && c.t.chance(1, 3)) {
                let o = c.t.idx(n);
                pres[o].push((i, h));
            }
        }
    }
    let wire_first = match P::de(&first.write()) {
        Ok(p) => p,
        Err(e) => return fail("wallet-refused", format!("{}: {}", w.desc(), e)),
    };
    for i in 0..n {
        let mut mine = wire_first.clone();
        for (at, k, v) in &parts[i] {
            mine.apply(*at, k, v).unwrap_or_else(|e| panic!("harness: {}", e));
        }
        let st = if held[i].is_empty() {
            Store::BMap(BTreeMap::new(), BTreeMap::new())
        } else {
            store(c, &held[i], &unc, &shared)
        };
        nodes.push(Node {
            up: true,
            mem: mine.clone(),
            first: mine,
            disk: Disk::new(),
            store: st,
            masters: held[i].clone(),
            pres: pres[i].clone(),
            old: vec![],
        });
    }

    let mut net = Net::new();
    let mut q: Queue<Ev> = Queue::new();
    for i in 0..n {
        let d = c.t.below(20);
        q.after(c, d, Ev::Tick(i));
    }
    let mut left = *c.t.pick(&[25u64, 10, 50]);
    while left > 0 {
        let e = match q.pop(c) {
            Some(e) => e,
            None => break,
        };
        left -= 1;
        step(c, &w, &outs, &mut nodes, &mut net, &mut q, &fl, e)?;
    }

    // Faults stop: everybody contributes all of it to one party.
    ev!(c, "faults stop");
    net.heal();
    let who = c.t.idx(n);
    let mut all = nodes[who].mem.clone();
    let order = c.t.perm(n);
    for i in order {
        let mut p = nodes[i].first.clone();
        for (at, h) in nodes[i].pres.clone() {
            let (k, v) = w.spends[at].pre_rec(h);
            p.apply(At::In(at), &k, &v).expect("preimage");
        }
        for x in [&p, &nodes[i].mem] {
            all = match all.comb(x) {
                Ok(p) => p,
                Err(e) => return fail("combine-refused", format!("copies of {}: {}", w.desc(), e)),
            };
        }
    }
    for m in present.iter() {
        foreign_sign(c, &w, &outs, &mut all, &[*m].into(), true)?;
        let held = (0..PER_MASTER).map(|k| m * PER_MASTER + k).collect();
        match Store::Xpriv(pool().masters[*m], held).sign(&all) {
            Ok(o) => match o.psbt {
                Some(p) => all = p,
                None => return fail("signer-refused", format!("{}: {:?}", w.desc(), o.errs)),
            },
            Err(e) => return fail("signer-refused", format!("{}: {}", w.desc(), e)),
        }
    }
    let keys: BTreeSet<usize> =
        present.iter().flat_map(|m| (0..PER_MASTER).map(move |k| m * PER_MASTER + k)).collect();
    let known: BTreeSet<(usize, usize)> = pres.iter().flatten().copied().collect();
    let mut enough_for_all = true;
    let raw = all.to_raw();
    for (i, s) in w.spends.iter().enumerate() {
        let p: BTreeSet<usize> = known.iter().filter(|x| x.0 == i).map(|x| x.1).collect();
        let met = s.met(&keys, &p);
        enough_for_all &= met;
        if met && !is_final(&raw.ins[i]) && !enough(s, &raw.ins[i], true) {
            return fail("material-lost", format!("input {} {:?} of {}: {}", i, s.kind, w.desc(), all_keys(&raw.ins[i])));
        }
    }
    if c.t.chance(1, 2) {
        finalise_tampered(c, &w, &all)?;
    }
    let mut fin = all.clone();
    if P::V == 0 && c.t.chance(1, 2) {
        for i in c.t.perm(w.spends.len()) {
            let mall = c.t.chance(1, 2);
            fin = finalise_honest(c, &w, &outs, &fin, How::One { i, mall, by_value: false }, "at the end")?;
        }
    }
    fin = finalise_honest(c, &w, &outs, &fin, How::Whole { mall: true, by_value: true }, "at the end")?;
    let got = extract_honest(c, &w, &outs, &fin, "at the end")?;
    if enough_for_all {
        c.probe("enough-for-all");
        ensure!(got, "not-extracted", "{}", w.desc());
    } else {
        c.probe("not-enough");
    }
    extract_tampered(c, &w, &fin)?;
    c.state(&fin.ser());
    Ok(())
}

fn all_keys(m: &RMap) -> String { m.keys().map(|k| hexs(&k[..core::cmp::min(5, k.len())])).collect::<Vec<_>>().join(" ") }

#[allow(clippy::too_many_arguments)]
fn step<P: Flow>(
    c: &mut Ctx,
    w: &Wallet,
    outs: &[TxOut],
    nodes: &mut [Node<P>],
    net: &mut Net,
    q: &mut Queue<Ev>,
    fl: &Faults,
    e: Ev,
) -> R {
    match e {
        Ev::Restart(i) => {
            let n = &mut nodes[i];
            n.up = true;
            n.mem = n.first.clone();
            for (gen, payload) in n.disk.recover() {
                if let Ok(p) = P::de(&payload) {
                    n.disk.use_gen(Some(gen));
                    n.mem = p;
                    break;
                }
            }
            ev!(c, "party {} restarts", i);
            q.after(c, 5, Ev::Tick(i));
        }
        Ev::Deliver(to, b, cut) => {
            if !nodes[to].up {
                c.fault("net-to-crashed");
                return Ok(());
            }
            let got = match P::de(&b[..cut.unwrap_or(b.len())]) {
                Ok(p) => p,
                Err(e) => {
                    ensure!(cut.is_some(), "decode-refused", "{}", e);
                    return Ok(());
                }
            };
            let (x, y) = if c.t.chance(1, 2) { (&got, &nodes[to].mem) } else { (&nodes[to].mem, &got) };
            let m = match x.comb(y) {
                Ok(m) => m,
                Err(e) => return fail("combine-refused", format!("copies of {}: {}", w.desc(), e)),
            };
            ev!(c, "party {} combines", to);
            nodes[to].mem = m;
        }
        Ev::Tick(i) => {
            if !nodes[i].up {
                return Ok(());
            }
            if c.t.chance(fl.crash, 64) {
                c.fault("crash");
                nodes[i].up = false;
                nodes[i].disk.crash(c);
                ev!(c, "party {} crashes", i);
                let d = c.t.range(10, 500);
                q.after(c, d, Ev::Restart(i));
                return Ok(());
            }
            let k = nodes.len();
            let n = &mut nodes[i];
            match c.t.below(12) {
                0..=2 => {
                    let plan = if c.t.chance(1, 3) {
                        (0..c.t.range(1, 6)).map(|_| *c.t.pick(&[0u8, 1, 2, 0])).collect()
                    } else {
                        vec![]
                    };
                    n.store.plan(plan);
                    // An error here is for the signer's own property to judge.
                    if let Ok(o) = n.store.sign(&n.mem) {
                        if let Some(p) = o.psbt {
                            n.mem = p;
                        }
                    }
                    if c.t.chance(1, 2) {
                        foreign_sign(c, w, outs, &mut n.mem, &n.masters, false)?;
                    }
                    ev!(c, "party {} signs", i);
                }
                3 => {
                    if !n.pres.is_empty() {
                        let (at, h) = *c.t.pick(&n.pres);
                        if !is_final(&n.mem.to_raw().ins[at]) {
                            let (key, v) = w.spends[at].pre_rec(h);
                            n.mem.apply(At::In(at), &key, &v).expect("preimage");
                            ev!(c, "party {} adds a preimage", i);
                        }
                    }
                }
                4 | 5 => {
                    let how = P::pick(c, w.spends.len());
                    ev!(c, "party {} finalises {:?}", i, how);
                    let p = finalise_honest(c, w, outs, &n.mem, how, &format!("party {}", i))?;
                    if !c.t.chance(1, 3) {
                        n.mem = p;
                    }
                }
                6 => finalise_tampered(c, w, &n.mem)?,
                7 => {
                    let payload = n.mem.ser();
                    let how = match n.disk.save(c, fl, &payload).1 {
                        Saved::Synced => "synced",
                        Saved::Unsynced => "not synced",
                        Saved::Failed => "failed",
                    };
                    ev!(c, "party {} stores ({})", i, how);
                }
                _ if k > 1 => {
                    let b = if !n.old.is_empty() && c.t.chance(fl.stale, 64) {
                        c.fault("net-stale-resend");
                        let j = c.t.idx(n.old.len());
                        n.old[j].clone()
                    } else {
                        Rc::new(n.mem.ser())
                    };
                    n.old.push(b.clone());
                    let to = (i + 1 + c.t.idx(k - 1)) % k;
                    for (delay, cut) in net.send(c, fl, i, to, b.len()) {
                        q.after(c, delay, Ev::Deliver(to, b.clone(), cut));
                    }
                    ev!(c, "party {} sends to {}", i, to);
                }
                _ => {}
            }
            let d = 1 + c.t.below(30);
            q.after(c, d, Ev::Tick(i));
        }
    }
    Ok(())
}
