//! C17: parties collect finalised inputs and spent outputs over a faulty network, are told wrong
//! amounts, and extract under fee rate limits early and late.

use std::rc::Rc;

use psbt_v2::bitcoin::consensus::encode::{deserialize, serialize};
use psbt_v2::bitcoin::{absolute, transaction, Amount, FeeRate, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Witness};
use psbt_v2::{v0, v2};

use crate::ctx::{fail, Ctx, R};
use crate::gen;
use crate::model;
use crate::raw::{At, RMap, Raw};
use crate::scen_flow::with_scripts;
use crate::sim::{Disk, Faults, Net, Queue, Saved};
use crate::typed::{show, Ps};
use crate::wallet;
use crate::{ensure, ev};

/// 25,000 sat/vB.
const DEFAULT: u64 = 6_250_000;

#[derive(Debug, Clone, PartialEq)]
pub enum E {
    Missing,
    Negative,
    Overflow,
    /// Fee rate and, where told, the limit, in sat/kwu.
    TooHigh(u64, Option<u64>),
    Unfinished,
    LockTime,
    Other(String),
}

pub trait Fees: Ps {
    fn fee_of(&self) -> Result<u64, E>;
    /// Extracts under a limit, or the default one. The error comes with what it gave back.
    fn limited(&self, limit: Option<u64>, alt: bool) -> Result<Transaction, (E, Option<Transaction>)>;
    fn unchecked(&self) -> Result<Transaction, E>;
}

impl Fees for v0::Psbt {
    fn fee_of(&self) -> Result<u64, E> {
        use v0::bitcoin::Error as X;
        self.fee().map(|a| a.to_sat()).map_err(|e| match e {
            X::MissingUtxo | X::PsbtUtxoOutOfbounds => E::Missing,
            X::NegativeFee => E::Negative,
            X::FeeOverflow => E::Overflow,
            e => E::Other(show(e)),
        })
    }

    fn limited(&self, limit: Option<u64>, alt: bool) -> Result<Transaction, (E, Option<Transaction>)> {
        use v0::bitcoin::ExtractTxError as X;
        let p = self.clone();
        let r = match limit {
            None if alt => p.extract_tx(),
            None => p.extract_tx_fee_rate_limit(),
            Some(l) => p.extract_tx_with_fee_rate_limit(FeeRate::from_sat_per_kwu(l)),
        };
        r.map_err(|e| {
            let _ = show(e.clone());
            match e {
                X::AbsurdFeeRate { fee_rate, tx } => (E::TooHigh(fee_rate.to_sat_per_kwu(), None), Some(tx)),
                X::MissingInputValue { tx } => (E::Missing, Some(tx)),
                X::SendingTooMuch { psbt } => {
                    if psbt == *self {
                        (E::Negative, None)
                    } else {
                        (E::Other("the PSBT was touched".into()), None)
                    }
                }
                e => (E::Other(show(e)), None),
            }
        })
    }

    fn unchecked(&self) -> Result<Transaction, E> { Ok(self.clone().extract_tx_unchecked_fee_rate()) }
}

fn fee_err(e: psbt_v2::FeeError) -> E {
    use psbt_v2::FeeError as X;
    match e {
        X::FundingUtxo(_) => E::Missing,
        X::InputOverflow | X::OutputOverflow => E::Overflow,
        X::Negative => E::Negative,
        e => E::Other(show(e)),
    }
}

fn extractor(p: &v2::Psbt) -> Result<v2::Extractor, E> {
    v2::Extractor::new(p.clone()).map_err(|e| match e {
        v2::ExtractError::PsbtNotFinalized => E::Unfinished,
        v2::ExtractError::DetermineLockTime(_) => E::LockTime,
    })
}

fn tx_err(e: v2::ExtractTxError) -> E {
    match e {
        v2::ExtractTxError::Unfinalized => E::Unfinished,
        v2::ExtractTxError::DetermineLockTime(_) => E::LockTime,
        e => E::Other(show(e)),
    }
}

impl Fees for v2::Psbt {
    fn fee_of(&self) -> Result<u64, E> { self.fee().map(|a| a.to_sat()).map_err(fee_err) }

    fn limited(&self, limit: Option<u64>, alt: bool) -> Result<Transaction, (E, Option<Transaction>)> {
        use v2::ExtractTxFeeRateError as X;
        let x = extractor(self).map_err(|e| (e, None))?;
        let r = match limit {
            None if alt => x.extract_tx(),
            None => x.extract_tx_fee_rate_limit(),
            Some(l) => x.extract_tx_with_fee_rate_limit(FeeRate::from_sat_per_kwu(l)),
        };
        r.map_err(|e| {
            let _ = show(e.clone());
            let e = match e {
                X::Fee(e) => fee_err(e),
                X::FeeTooHigh { fee, max } => E::TooHigh(fee.to_sat_per_kwu(), Some(max.to_sat_per_kwu())),
                X::ExtractTx(e) => tx_err(e),
                e => E::Other(show(e)),
            };
            (e, None)
        })
    }

    fn unchecked(&self) -> Result<Transaction, E> { extractor(self)?.extract_tx_unchecked_fee_rate().map_err(tx_err) }
}

/// What the fee may be said to be. More than one answer where an input has two different UTXOs, or
/// where several things are wrong.
fn fees(r: &Raw, tx: &Transaction) -> Vec<Result<u64, E>> {
    let mut cands: Vec<Vec<Option<u64>>> = vec![];
    for (m, i) in r.ins.iter().zip(&tx.input) {
        let mut v: Vec<Option<u64>> = vec![];
        if let Some(w) = m.get(&vec![1u8]) {
            v.push(Some(deserialize::<TxOut>(w).expect("utxo").value.to_sat()));
        }
        if let Some(n) = m.get(&vec![0u8]) {
            let t = deserialize::<Transaction>(n).expect("transaction");
            match t.output.get(i.previous_output.vout as usize) {
                Some(o) => v.push(Some(o.value.to_sat())),
                None if v.is_empty() => v.push(None),
                None => {}
            }
        }
        if v.is_empty() {
            v.push(None);
        }
        v.dedup();
        cands.push(v);
    }
    let out: u128 = tx.output.iter().map(|o| o.value.to_sat() as u128).sum();
    let mut all: Vec<Vec<Option<u64>>> = vec![vec![]];
    for v in cands {
        all = all.into_iter().flat_map(|a| v.iter().map(move |x| [&a[..], &[*x]].concat()).collect::<Vec<_>>()).collect();
    }
    let mut answers = vec![];
    for a in all {
        let known: u128 = a.iter().flatten().map(|x| *x as u128).sum();
        let n = answers.len();
        if a.iter().any(|x| x.is_none()) {
            answers.push(Err(E::Missing));
        }
        if known > u64::MAX as u128 || out > u64::MAX as u128 {
            answers.push(Err(E::Overflow));
        }
        if answers.len() == n {
            answers.push(if known < out { Err(E::Negative) } else { Ok((known - out) as u64) });
        }
    }
    answers.sort_by_key(|a| format!("{:?}", a));
    answers.dedup();
    answers
}

fn transaction_of(r: &Raw) -> Result<Transaction, ()> {
    if r.v == 0 {
        crate::raw::unsigned_tx(&r.g[&vec![0u8]]).map_err(|_| ())
    } else {
        model::tx(r)
    }
}

/// Extracts from a copy in every way and judges the answers.
fn judge<P: Fees>(c: &mut Ctx, p: &P, limits: &[Option<u64>], what: &str) -> R {
    let raw = p.to_raw();
    let tx = match transaction_of(&raw) {
        Ok(t) => t,
        Err(()) => return fail("harness", "lock time"),
    };
    let want = with_scripts(&tx, &raw);
    let whole = P::V == 0 || raw.ins.iter().all(|m| m.contains_key(&vec![7u8]) && m.contains_key(&vec![8u8]));
    let answers = fees(&raw, &tx);
    let told = p.fee_of();
    ensure!(answers.contains(&told), "fee-wrong", "{}: {:?} is not one of {:?}", what, told, answers);
    match p.unchecked() {
        Ok(t) => {
            ensure!(whole, "extracted-unfinished", "{}", what);
            ensure!(t == want, "extracted-other-transaction", "{}, unchecked: {:?} instead of {:?}", what, t, want);
        }
        Err(e) => {
            ensure!(!whole && e == E::Unfinished, "could-not-extract", "{}, unchecked: {:?}", what, e);
        }
    }
    let weight = want.weight().to_wu() as u128;
    for limit in limits {
        let l = limit.unwrap_or(DEFAULT) as u128;
        let alt = c.t.chance(1, 2);
        let r = p.limited(*limit, alt);
        let what = format!("{}, limit {:?}, fee {:?}, weight {}", what, limit, answers, weight);
        if !whole {
            match r {
                Err((E::Unfinished, _)) => c.probe("unfinished-refused"),
                Err((e, _)) => return fail("error-wrong", format!("{}: {:?} for an unfinished PSBT", what, e)),
                Ok(_) => return fail("extracted-unfinished", what),
            }
            continue;
        }
        match r {
            Ok(t) => {
                ensure!(t == want, "extracted-other-transaction", "{}: {:?} instead of {:?}", what, t, want);
                let fine = answers.iter().any(|a| match a {
                    Ok(f) => *f as u128 * 1000 / weight <= l || *f > u64::MAX / 1000,
                    Err(_) => false,
                });
                ensure!(fine, "extracted-above-limit", "{}", what);
                c.probe("extracted");
                if answers.iter().any(|a| matches!(a, Ok(f) if *f as u128 * 1000 / weight == l)) {
                    c.probe("extracted-at-the-limit");
                }
            }
            Err((e, back)) => {
                if let Some(t) = back {
                    ensure!(t == want, "extracted-other-transaction", "{}: the error holds {:?}", what, t);
                }
                let fine = answers.iter().any(|a| match (&e, a) {
                    (E::TooHigh(rate, max), Ok(f)) => {
                        let exact = *f as u128 * 1000;
                        let r = exact / weight;
                        // Not above the limit is no reason.
                        exact > l * weight
                            && (*f > u64::MAX / 1000 || *rate as u128 == r || *rate as u128 == exact.div_ceil(weight))
                            && max.map_or(true, |m| m as u128 == l)
                    }
                    (E::TooHigh(_, _), Err(E::Overflow)) => P::V == 0,
                    (e, Err(x)) => e == x,
                    _ => false,
                });
                ensure!(fine, "refused-without-reason", "{}: {:?}", what, e);
                c.probe(match e {
                    E::Missing => "missing-utxo-refused",
                    E::Negative => "negative-refused",
                    E::Overflow => "overflow-refused",
                    E::TooHigh(u64::MAX, _) => "overflow-refused",
                    _ => "too-high-refused",
                });
            }
        }
    }
    Ok(())
}

/// The amounts of inputs and outputs that make a fee.
fn split(c: &mut Ctx, total: u64, n: usize) -> Vec<u64> {
    let mut left = total;
    let mut v = vec![];
    for k in 0..n {
        let x = if k + 1 == n { left } else { c.t.below(left / 2 + 1) };
        left -= x;
        v.push(x);
    }
    v
}

struct Setup {
    tx: Transaction,
    base: Raw,
    /// Records every input gets in time: UTXOs and final scripts.
    parts: Vec<(usize, Vec<u8>, Vec<u8>)>,
    limit: u64,
}

fn setup(c: &mut Ctx, v: u8) -> Setup {
    let nin = c.t.range(1, 4) as usize;
    let nout = c.t.range(1, 4) as usize;
    let mut tx = Transaction {
        version: transaction::Version(2),
        lock_time: absolute::LockTime::from_consensus(c.t.below(100) as u32),
        input: vec![],
        output: (0..nout).map(|_| TxOut { value: Amount::ZERO, script_pubkey: gen::script(c) }).collect(),
    };
    let mut prevs = vec![];
    let mut finals = vec![];
    for _ in 0..nin {
        let vout = c.t.below(3) as u32;
        prevs.push((gen::prev_tx(c, vout), vout));
        let (a, b) = *c.t.pick(&[(0u64, 100u64), (25, 100), (110, 0), (0, 65), (300, 0), (0, 0), (1, 1), (0, 2000)]);
        let a = c.t.bytes(a as usize);
        let wit = if b == 0 { Witness::new() } else { Witness::from_slice(&[c.t.bytes(b as usize), vec![1; 33]]) };
        finals.push((ScriptBuf::from_bytes(a), wit));
        tx.input.push(TxIn {
            previous_output: OutPoint::null(),
            script_sig: ScriptBuf::new(),
            sequence: Sequence(0xffff_fffd),
            witness: Witness::new(),
        });
    }
    // The amounts, so that the fee rate of the whole is around a limit.
    let mut signed = tx.clone();
    for (i, f) in signed.input.iter_mut().zip(&finals) {
        i.script_sig = f.0.clone();
        i.witness = f.1.clone();
    }
    let weight = signed.weight().to_wu() as u128;
    let limit = match c.t.below(6) {
        0..=2 => DEFAULT,
        3 => c.t.below(1000),
        4 => c.t.below(100_000_000),
        _ => *c.t.pick(&[0u64, 1, 250, DEFAULT - 1, DEFAULT + 1, u64::MAX]),
    };
    let at = (limit as u128 * weight / 1000).min(2_000_000_000_000_000) as u64;
    let above = (((limit as u128 + 1) * weight).div_ceil(1000)).min(2_000_000_000_000_000) as u64;
    let fee = match c.t.below(8) {
        0 | 1 => at,
        2 => at.saturating_sub(1),
        3 => above,
        4 => above + c.t.below(5),
        5 => 0,
        6 => c.t.below(2 * above + 10),
        _ => c.t.below(100_000),
    };
    let outs = match c.t.below(4) {
        0 => 0,
        1 => 2_099_999_999_999_999u64.saturating_sub(fee),
        _ => c.t.below(1_000_000_000),
    };
    let mut ins = split(c, outs + fee, nin);
    let mut vals = split(c, outs, nout);
    match c.t.below(12) {
        0 => {
            // The outputs are worth more.
            let o = c.t.idx(nout);
            let d = *c.t.pick(&[fee + 1, fee + 1, fee, fee + 1000, 2 * fee + 1]);
            vals[o] += d;
            c.fault("outputs-above-inputs");
        }
        1 => {
            let i = c.t.idx(nin);
            ins[i] = *c.t.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, u64::MAX / 1000 + 1]);
            if c.t.chance(1, 2) {
                let i = c.t.idx(nin);
                ins[i] = *c.t.pick(&[u64::MAX, 1 << 63]);
            }
            c.fault("huge-inputs");
        }
        2 => {
            let o = c.t.idx(nout);
            vals[o] = *c.t.pick(&[u64::MAX, u64::MAX - 1, 1 << 63]);
            if c.t.chance(1, 2) {
                let o = c.t.idx(nout);
                vals[o] = *c.t.pick(&[u64::MAX, 1 << 63]);
            }
            c.fault("huge-outputs");
        }
        _ => {}
    }
    for (o, v) in tx.output.iter_mut().zip(vals) {
        o.value = Amount::from_sat(v);
    }
    let mut parts = vec![];
    for (k, (prev, vout)) in prevs.iter_mut().enumerate() {
        prev.output[*vout as usize].value = Amount::from_sat(ins[k]);
        tx.input[k].previous_output = OutPoint { txid: prev.compute_txid(), vout: *vout };
        if c.t.chance(1, 30) {
            // Somebody promised an output that is not there.
            tx.input[k].previous_output.vout = prev.output.len() as u32 + c.t.below(2) as u32;
            c.fault("output-not-there");
        }
        let (n, w) = *c.t.pick(&[(false, true), (true, false), (true, true)]);
        if n {
            parts.push((k, vec![0], serialize(prev)));
        }
        if w {
            parts.push((k, vec![1], serialize(&prev.output[*vout as usize])));
        }
        let (s, wit) = &finals[k];
        if v == 2 || !s.is_empty() {
            parts.push((k, vec![7], s.to_bytes()));
        }
        if v == 2 || !wit.is_empty() {
            parts.push((k, vec![8], serialize(wit)));
        }
    }
    let base = wallet::bare(c, v, &tx);
    Setup { tx, base, parts, limit }
}

fn limits(c: &mut Ctx, s: &Setup, raw: &Raw) -> Vec<Option<u64>> {
    let mut v = vec![None];
    for _ in 0..c.t.range(1, 3) {
        let tx = with_scripts(&s.tx, raw);
        let rate = fees(raw, &s.tx)
            .into_iter()
            .flatten()
            .next()
            .map(|f| (f as u128 * 1000 / tx.weight().to_wu() as u128).min(u64::MAX as u128) as u64)
            .unwrap_or(s.limit);
        v.push(Some(match c.t.below(7) {
            0 => s.limit,
            1 => s.limit.saturating_sub(1),
            2 => rate,
            3 => rate.saturating_add(1),
            4 => rate.saturating_sub(1),
            5 => *c.t.pick(&[0, DEFAULT, u64::MAX]),
            _ => c.t.below(2 * DEFAULT),
        }));
    }
    v
}

/// A copy somebody lies about amounts in.
fn lied<P: Fees>(c: &mut Ctx, s: &Setup, p: &P) -> Option<P> {
    let mut r = p.to_raw();
    let i = c.t.idx(r.ins.len());
    let m: &mut RMap = &mut r.ins[i];
    let k = match c.t.below(5) {
        0 | 1 => {
            let mut o: TxOut = match m.get(&vec![1u8]) {
                Some(o) => deserialize(o).expect("utxo"),
                None => TxOut { value: Amount::from_sat(c.t.below(10_000_000)), script_pubkey: gen::script(c) },
            };
            let x = o.value.to_sat();
            o.value = Amount::from_sat(match c.t.below(4) {
                0 => x.wrapping_add(1),
                1 => x.wrapping_sub(1),
                2 => c.t.below(x / 2 + 10),
                _ => x.wrapping_mul(2),
            });
            m.insert(vec![1], serialize(&o));
            if c.t.chance(2, 3) {
                m.remove(&vec![0u8]);
            }
            "amount-wrong"
        }
        2 => {
            if m.remove(&vec![0u8]).is_none() & m.remove(&vec![1u8]).is_none() {
                return None;
            }
            "amount-withheld"
        }
        3 => {
            let k = *c.t.pick(&[7u8, 8]);
            m.remove(&vec![k])?;
            "final-script-withheld"
        }
        _ => {
            let mut t = gen::prev_tx(c, 0);
            let keep = c.t.idx(s.tx.input[i].previous_output.vout as usize + 2);
            t.output.truncate(core::cmp::max(keep, 1));
            m.insert(vec![0], serialize(&t));
            if c.t.chance(2, 3) {
                m.remove(&vec![1u8]);
            }
            "previous-transaction-wrong"
        }
    };
    c.fault(k);
    P::de(&r.write()).ok()
}

struct Node<P> {
    up: bool,
    mem: P,
    disk: Disk,
    todo: Vec<usize>,
    old: Vec<Rc<Vec<u8>>>,
}

enum Ev {
    Tick(usize),
    Deliver(usize, Rc<Vec<u8>>, Option<usize>),
    Restart(usize),
}

fn go<P: Fees>(c: &mut Ctx) -> R {
    let s = setup(c, P::V);
    let n = c.t.range(1, 3) as usize;
    let fl = Faults::swarm(c);
    ev!(c, "v{}, {} inputs, limit {}, {} parties", P::V, s.tx.input.len(), s.limit, n);
    let first = match P::de(&s.base.write()) {
        Ok(p) => p,
        Err(e) => return fail("decode-refused", e),
    };
    let mut nodes: Vec<Node<P>> = (0..n)
        .map(|_| Node { up: true, mem: first.clone(), disk: Disk::new(), todo: vec![], old: vec![] })
        .collect();
    for k in 0..s.parts.len() {
        let o = c.t.idx(n);
        nodes[o].todo.push(k);
    }
    let mut net = Net::new();
    let mut q: Queue<Ev> = Queue::new();
    for i in 0..n {
        let d = c.t.below(20);
        q.after(c, d, Ev::Tick(i));
    }
    let mut left = *c.t.pick(&[15u64, 8, 30]);
    while left > 0 {
        let e = match q.pop(c) {
            Some(e) => e,
            None => break,
        };
        left -= 1;
        match e {
            Ev::Restart(i) => {
                let n = &mut nodes[i];
                n.up = true;
                n.mem = first.clone();
                for (gen, payload) in n.disk.recover() {
                    if let Ok(p) = P::de(&payload) {
                        n.disk.use_gen(Some(gen));
                        n.mem = p;
                        break;
                    }
                }
                ev!(c, "party {} restarts", i);
                q.after(c, 5, Ev::Tick(i));
            }
            Ev::Deliver(to, b, cut) => {
                if !nodes[to].up {
                    c.fault("net-to-crashed");
                    continue;
                }
                let got = match P::de(&b[..cut.unwrap_or(b.len())]) {
                    Ok(p) => p,
                    Err(e) => {
                        ensure!(cut.is_some(), "decode-refused", "{}", e);
                        continue;
                    }
                };
                nodes[to].mem = match nodes[to].mem.comb(&got) {
                    Ok(m) => m,
                    Err(e) => return fail("combine-refused", e),
                };
                ev!(c, "party {} combines", to);
            }
            Ev::Tick(i) => {
                if !nodes[i].up {
                    continue;
                }
                if c.t.chance(fl.crash, 64) {
                    c.fault("crash");
                    nodes[i].up = false;
                    nodes[i].disk.crash(c);
                    ev!(c, "party {} crashes", i);
                    let d = c.t.range(10, 500);
                    q.after(c, d, Ev::Restart(i));
                    continue;
                }
                let n = &mut nodes[i];
                match c.t.below(8) {
                    0 | 1 => {
                        if !n.todo.is_empty() {
                            let k = *c.t.pick(&n.todo);
                            let (at, key, val) = &s.parts[k];
                            n.mem.apply(At::In(*at), key, val).expect("record");
                            ev!(c, "party {} adds record {} of input {}", i, key[0], at);
                        }
                    }
                    2 => {
                        let payload = n.mem.ser();
                        let how = match n.disk.save(c, &fl, &payload).1 {
                            Saved::Synced => "synced",
                            Saved::Unsynced => "not synced",
                            Saved::Failed => "failed",
                        };
                        ev!(c, "party {} stores ({})", i, how);
                    }
                    3 => {
                        let l = limits(c, &s, &n.mem.to_raw());
                        judge(c, &n.mem, &l, &format!("party {}", i))?;
                        ev!(c, "party {} tries to extract", i);
                    }
                    4 => {
                        if let Some(p) = lied(c, &s, &n.mem) {
                            let l = limits(c, &s, &p.to_raw());
                            judge(c, &p, &l, &format!("party {}, lied to", i))?;
                            ev!(c, "party {} tries to extract a lie", i);
                            // Now and then it believes it.
                            if c.t.chance(1, 6) {
                                n.mem = p;
                            }
                        }
                    }
                    _ if nodes.len() > 1 => {
                        let k = nodes.len();
                        let n = &mut nodes[i];
                        let b = if !n.old.is_empty() && c.t.chance(fl.stale, 64) {
                            c.fault("net-stale-resend");
                            let j = c.t.idx(n.old.len());
                            n.old[j].clone()
                        } else {
                            Rc::new(n.mem.ser())
                        };
                        n.old.push(b.clone());
                        let to = (i + 1 + c.t.idx(k - 1)) % k;
                        for (delay, cut) in net.send(c, &fl, i, to, b.len()) {
                            q.after(c, delay, Ev::Deliver(to, b.clone(), cut));
                        }
                        ev!(c, "party {} sends to {}", i, to);
                    }
                    _ => {}
                }
                let d = 1 + c.t.below(30);
                q.after(c, d, Ev::Tick(i));
            }
        }
    }
    // Faults stop: one copy gets every record.
    ev!(c, "faults stop");
    let mut all = first.clone();
    for k in c.t.perm(s.parts.len()) {
        let (at, key, val) = &s.parts[k];
        all.apply(At::In(*at), key, val).expect("record");
        if c.t.chance(1, 4) {
            let l = limits(c, &s, &all.to_raw());
            judge(c, &all, &l, "while collecting")?;
        }
    }
    let mut l = limits(c, &s, &all.to_raw());
    l.push(Some(s.limit));
    judge(c, &all, &l, "complete")?;
    c.probe("complete");
    for _ in 0..c.t.range(1, 3) {
        if let Some(p) = lied(c, &s, &all) {
            let l = limits(c, &s, &p.to_raw());
            judge(c, &p, &l, "complete, lied to")?;
        }
    }
    for n in &nodes {
        c.state(&n.mem.ser());
    }
    c.state(&all.ser());
    Ok(())
}

pub fn run(c: &mut Ctx) -> R {
    if c.t.chance(1, 2) {
        go::<v0::Psbt>(c)
    } else {
        go::<v2::Psbt>(c)
    }
}
