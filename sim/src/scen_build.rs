//! C08, C09: parties build a v2 PSBT together, handing copies on over a faulty network, with stale
//! copies, crashes and foreign software, and finally sign, finalise and extract it.

use std::collections::BTreeMap;
use std::rc::Rc;

use psbt_v2::bitcoin::{absolute, ecdsa, transaction, Amount, OutPoint, ScriptBuf, Sequence, TxOut, Txid};
use psbt_v2::bitcoin::hashes::Hash;
use psbt_v2::bitcoin::sighash::EcdsaSighashType;
use psbt_v2::v2::{
    self, Constructor, Creator, Extractor, Finalizer, Input, InputBuilder, InputsOnlyModifiable,
    Modifiable, Output, OutputBuilder, OutputsOnlyModifiable, Psbt, Signer, Updater,
};

use crate::ctx::{fail, Ctx, R};
use crate::gen::{self, merge_rec};
use crate::keys::{pk, pool, privkey, N_KEYS};
use crate::model;
use crate::raw::{compact, At, RMap, Raw};
use crate::scen_combine::check_model;
use crate::sim::{Disk, Faults, Net, Queue, Saved};
use crate::typed::{Enc, Ps};
use crate::{ensure, ev};

#[derive(Clone)]
struct Copy {
    p: Psbt,
    m: Raw,
}

/// What the parties of this run plan.
struct Plan {
    reqs: Vec<(Option<u32>, Option<u32>)>,
    /// All inputs can be signed and finalised in the end.
    signable: bool,
    facts: bool,
}

fn build(c: &Ctx) -> bool { c.focus == "C08" }
fn lock(c: &Ctx) -> bool { c.focus == "C09" }

/// Judges a copy against its model.
fn judge(c: &mut Ctx, x: &Copy, what: &str) -> R {
    let (p, m) = (&x.p, &x.m);
    if build(c) {
        ensure!(
            p.global.input_count == p.inputs.len() && p.global.output_count == p.outputs.len(),
            "count-mismatch",
            "{}: counts {} {} for {} {}", what, p.global.input_count, p.global.output_count, p.inputs.len(), p.outputs.len()
        );
        check_model(p, m, "not-what-was-built", what)?;
        let b = m.write();
        match Psbt::de(&b) {
            Ok(q) => ensure!(&q == p, "not-what-was-built", "{}: decodes to something else", what),
            Err(e) => return fail("not-what-was-built", format!("{}: refused: {}", what, e)),
        }
    }
    if lock(c) {
        let want = model::lock_time(m);
        let got = p.determine_lock_time();
        match (&got, &want) {
            (Ok(g), Ok(w)) => ensure!(g.to_consensus_u32() == *w, "lock-time-wrong", "{}: {} instead of {}", what, g, w),
            (Err(_), Err(())) => c.probe("lock-time-undetermined"),
            _ => return fail("lock-time-wrong", format!("{}: {:?} instead of {:?}", what, got, want)),
        }
        let s = Signer::new(p.clone());
        let u = Updater::new(p.clone());
        match want {
            Err(()) => {
                ensure!(s.is_err(), "role-without-lock-time", "{}: signer", what);
                ensure!(u.is_err(), "role-without-lock-time", "{}: updater", what);
            }
            Ok(_) => {
                let (s, u) = match (s, u) {
                    (Ok(s), Ok(u)) => (s, u),
                    _ => return fail("role-refused", format!("{}: lock time can be determined", what)),
                };
                let tx = model::tx(m).expect("lock time");
                let got = s.unsigned_tx();
                ensure!(got == tx, "unsigned-tx-wrong", "{}: {:?} instead of {:?}", what, got, tx);
                let id = model::id(m).expect("lock time");
                let got = s.id();
                ensure!(got == Ok(id), "id-wrong", "{}: signer says {:?} instead of {}", what, got, id);
                ensure!(u.id() == id, "id-wrong", "{}: updater says {} instead of {}", what, u.id(), id);
            }
        }
    }
    c.state(&m.write());
    Ok(())
}

fn put_u32(m: &mut RMap, k: u8, v: u32) { m.insert(vec![k], v.to_le_bytes().to_vec()); }

/// A new input and its records.
fn input(c: &mut Ctx, plan: &Plan) -> (Input, RMap) {
    let req = *c.t.pick(&plan.reqs);
    let mut m = RMap::new();
    let mut out = OutPoint { txid: Txid::from_byte_array(c.t.arr()), vout: c.t.below(4) as u32 };
    let time = |t| absolute::Time::from_consensus(t).expect("time");
    let height = |h| absolute::Height::from_consensus(h).expect("height");
    let key = c.t.idx(N_KEYS);
    let utxo = TxOut {
        value: Amount::from_sat(c.t.range(1_000, 1_000_000)),
        script_pubkey: ScriptBuf::new_p2wpkh(&pk(key).wpubkey_hash().expect("compressed")),
    };
    let fund = plan.signable || c.t.chance(1, 4);
    let prev = if fund && c.t.chance(1, 3) {
        let mut tx = gen::prev_tx(c, out.vout);
        tx.output[out.vout as usize] = utxo.clone();
        out.txid = tx.compute_txid();
        c.probe("funded-by-transaction");
        Some(tx)
    } else {
        None
    };
    m.insert(vec![0x0e], out.txid.as_byte_array().to_vec());
    put_u32(&mut m, 0x0f, out.vout);
    let mut b = InputBuilder::new(&out);
    if let Some(t) = req.0 {
        b = b.minimum_required_time_based_lock_time(time(t));
        put_u32(&mut m, 0x11, t);
    }
    if let Some(h) = req.1 {
        b = b.minimum_required_height_based_lock_time(height(h));
        put_u32(&mut m, 0x12, h);
    }
    if let Some(tx) = prev {
        m.insert(vec![0x00], psbt_v2::bitcoin::consensus::encode::serialize(&tx));
        b = b.legacy_fund(tx);
    } else if fund {
        m.insert(vec![0x01], psbt_v2::bitcoin::consensus::encode::serialize(&utxo));
        b = b.segwit_fund(utxo);
    }
    let mut i = b.build();
    if fund {
        let src = (psbt_v2::bitcoin::bip32::Fingerprint::from([1, 2, 3, 4]), crate::keys::path(&[key as u32]));
        m.insert([&[0x06u8][..], &pk(key).to_bytes()].concat(), crate::typed::key_source(&src));
        i.bip32_derivations.insert(pool().pks[key], src);
    }
    if c.t.chance(1, 4) {
        let s = gen::seq(c);
        put_u32(&mut m, 0x10, s);
        i.sequence = Some(Sequence(s));
    }
    (i, m)
}

fn output(c: &mut Ctx, plan: &Plan) -> (Output, RMap) {
    let mut o = gen::txout(c);
    if plan.signable {
        o.value = Amount::from_sat(c.t.below(300));
    }
    let mut m = RMap::new();
    m.insert(vec![0x03], o.value.to_sat().to_le_bytes().to_vec());
    m.insert(vec![0x04], o.script_pubkey.to_bytes());
    let mut r = if c.t.chance(1, 2) { OutputBuilder::new(o.clone()).build() } else { Output::new(o) };
    if c.t.chance(1, 4) {
        let s = gen::script(c);
        m.insert(vec![0x00], s.to_bytes());
        r.redeem_script = Some(s);
    }
    (r, m)
}

fn create(c: &mut Ctx) -> Copy {
    let mut m = Raw { v: 2, ..Default::default() };
    let mut cr = if c.t.chance(1, 4) { Creator::default() } else { Creator::new() };
    let mut version = 2i32;
    let mut flags = 0u8;
    for _ in 0..c.t.range(1, 4) {
        match c.t.below(5) {
            0 => {
                cr = cr.inputs_modifiable();
                flags |= 1;
            }
            1 => {
                cr = cr.outputs_modifiable();
                flags |= 2;
            }
            2 => {
                let v = crate::gen::num(c);
                cr = cr.fallback_lock_time(absolute::LockTime::from_consensus(v));
                put_u32(&mut m.g, 0x03, v);
            }
            3 => {
                version = *c.t.pick(&[1i32, 3, 2, -1, i32::MAX]);
                cr = cr.transaction_version(transaction::Version(version));
            }
            _ => {
                cr = cr.sighash_single();
                flags |= 4;
            }
        }
    }
    let p = match c.t.below(6) {
        0 | 1 => {
            flags |= 3;
            cr.constructor_modifiable().psbt()
        }
        2 => {
            flags = flags & !2 | 1;
            cr.constructor_inputs_only_modifiable().psbt()
        }
        3 => {
            flags = flags & !1 | 2;
            cr.constructor_outputs_only_modifiable().psbt()
        }
        4 => {
            // Creator and constructor in one, with nothing else chosen.
            m.g.remove(&vec![0x03u8]);
            version = 2;
            match c.t.below(3) {
                0 => {
                    flags = 3;
                    Constructor::<Modifiable>::default().psbt()
                }
                1 => {
                    flags = 1;
                    Constructor::<InputsOnlyModifiable>::default().psbt()
                }
                _ => {
                    flags = 2;
                    Constructor::<OutputsOnlyModifiable>::default().psbt()
                }
            }
        }
        _ => Ok(cr.psbt()),
    }
    .expect("no input requires a lock time");
    put_u32(&mut m.g, 0xfb, 2);
    put_u32(&mut m.g, 0x02, version as u32);
    m.g.insert(vec![0x04], compact(0));
    m.g.insert(vec![0x05], compact(0));
    m.g.insert(vec![0x06], vec![flags]);
    Copy { p, m }
}

fn add_in(m: &mut Raw, i: RMap) {
    m.ins.push(i);
    m.g.insert(vec![0x04], compact(m.ins.len() as u64));
}

fn add_out(m: &mut Raw, o: RMap) {
    m.outs.push(o);
    m.g.insert(vec![0x05], compact(m.outs.len() as u64));
}

fn flags(m: &mut Raw) -> &mut u8 { &mut m.g.get_mut(&vec![0x06u8]).expect("flags")[0] }

/// A party takes the constructor role for a while.
fn construct(c: &mut Ctx, x: &Copy, plan: &Plan) -> R<Option<Copy>> {
    let mut m = x.m.clone();
    // Once in a while more than fit a one-byte count.
    let n = if c.t.chance(1, 2000) { c.t.range(240, 300) } else { *c.t.pick(&[1u64, 2, 3, 0]) };
    let mut log = vec![];
    let finish_updater;
    let have = m.g[&vec![0x06u8]][0];
    macro_rules! closing {
        ($k:expr) => {
            match c.t.below(8) {
                6 => {
                    log.push("no more inputs");
                    *flags(&mut m) &= !1;
                    $k = $k.no_more_inputs();
                }
                7 => {
                    log.push("no more outputs");
                    *flags(&mut m) &= !2;
                    $k = $k.no_more_outputs();
                }
                _ => {}
            }
        };
    }
    macro_rules! check_made {
        ($r:expr, $need:expr, $name:expr) => {
            match $r {
                Ok(k) => {
                    if build(c) {
                        ensure!(have & $need == $need, "constructor-allowed", "{} with flags {:02x}", $name, have);
                    }
                    k
                }
                Err(_) => {
                    if build(c) {
                        ensure!(have & $need != $need, "constructor-refused", "{} with flags {:02x}", $name, have);
                    }
                    c.probe("constructor-refused");
                    ev!(c, "{} constructor refused", $name);
                    return Ok(None);
                }
            }
        };
    }
    macro_rules! done {
        ($k:expr) => {{
            finish_updater = c.t.chance(1, 12);
            if finish_updater {
                *flags(&mut m) &= !3;
                $k.updater().map(|u| u.psbt())
            } else {
                $k.psbt()
            }
        }};
    }
    let kind = match have & 3 {
        f if f == 0 || c.t.chance(1, 4) => c.t.below(3),
        3 => c.t.below(3),
        f => f as u64,
    };
    let r = match kind {
        0 => {
            let mut k = check_made!(Constructor::<Modifiable>::new(x.p.clone()), 3, "full");
            for _ in 0..n {
                if c.t.chance(1, 2) {
                    let (o, om) = output(c, plan);
                    k = k.output(o);
                    add_out(&mut m, om);
                    log.push("output");
                } else {
                    let (i, im) = input(c, plan);
                    k = k.input(i);
                    add_in(&mut m, im);
                    log.push("input");
                }
                closing!(k);
            }
            done!(k)
        }
        1 => {
            let mut k = check_made!(Constructor::<InputsOnlyModifiable>::new(x.p.clone()), 1, "inputs-only");
            for _ in 0..n {
                let (i, im) = input(c, plan);
                k = k.input(i);
                add_in(&mut m, im);
                log.push("input");
                closing!(k);
            }
            done!(k)
        }
        _ => {
            let mut k = check_made!(Constructor::<OutputsOnlyModifiable>::new(x.p.clone()), 2, "outputs-only");
            for _ in 0..n {
                let (o, om) = output(c, plan);
                k = k.output(o);
                add_out(&mut m, om);
                log.push("output");
                closing!(k);
            }
            done!(k)
        }
    };
    ev!(c, "constructs {:?}{}", log, if finish_updater { ", then the updater" } else { "" });
    match r {
        Ok(p) => {
            if lock(c) {
                ensure!(model::lock_time(&m).is_ok(), "role-without-lock-time", "constructor gives a PSBT without a lock time");
            }
            Ok(Some(Copy { p, m }))
        }
        Err(_) => {
            if lock(c) {
                ensure!(model::lock_time(&m).is_err(), "role-refused", "constructor withholds a PSBT whose lock time can be determined");
            }
            c.probe("lock-times-incompatible");
            Ok(None)
        }
    }
}

fn update(c: &mut Ctx, x: &Copy) -> R<Option<Copy>> {
    let u = match if c.t.chance(1, 2) { Updater::new(x.p.clone()) } else { Updater::try_from(x.p.clone()) } {
        Ok(u) => u,
        Err(_) => return Ok(None),
    };
    let n = x.m.ins.len();
    let i = c.t.idx(n + 1);
    let s = gen::seq(c);
    ev!(c, "sets sequence {} of {} to {:08x}", i, n, s);
    match u.set_sequence(Sequence(s), i) {
        Ok(u) => {
            if lock(c) {
                ensure!(i < n, "sequence-out-of-bounds", "input {} of {}", i, n);
            }
            let mut m = x.m.clone();
            put_u32(&mut m.ins[i], 0x10, s);
            if lock(c) {
                let want = model::id(&m).expect("determined above");
                ensure!(u.id() == want, "id-wrong", "after setting a sequence: {} instead of {}", u.id(), want);
                ensure!(model::id(&x.m) == Ok(want), "harness", "model id depends on the sequence");
            }
            Ok(Some(Copy { p: u.psbt(), m }))
        }
        Err(_) => {
            if lock(c) {
                ensure!(i >= n, "sequence-refused", "input {} of {}", i, n);
            }
            Ok(None)
        }
    }
}

/// A signer that signed with this type declares so in the flags.
fn declare(c: &mut Ctx, x: &Copy) -> R<Option<Copy>> {
    let mut s = match Signer::new(x.p.clone()) {
        Ok(s) => s,
        Err(_) => return Ok(None),
    };
    let ty = *c.t.pick(&[
        EcdsaSighashType::All,
        EcdsaSighashType::None,
        EcdsaSighashType::Single,
        EcdsaSighashType::AllPlusAnyoneCanPay,
        EcdsaSighashType::NonePlusAnyoneCanPay,
        EcdsaSighashType::SinglePlusAnyoneCanPay,
    ]);
    s.ecdsa_clear_tx_modifiable(ty);
    let mut m = x.m.clone();
    crate::model::signed_flags(flags(&mut m), ty.to_u32() as u8);
    let mut p = s.psbt();
    if !m.ins.is_empty() && c.t.chance(1, 2) {
        let i = c.t.idx(m.ins.len());
        let k = c.t.idx(N_KEYS);
        let sig = ecdsa::Signature { signature: pool().sigs[k % 8], sighash_type: ty };
        merge_rec(2, At::In(i), &mut m.ins[i], &[&[0x02u8][..], &pk(k).to_bytes()].concat(), &sig.to_vec());
        p.inputs[i].partial_sigs.entry(pk(k)).or_insert(sig);
    }
    ev!(c, "declares a {} signature", ty);
    Ok(Some(Copy { p, m }))
}

/// Software that does not use this library adds to the PSBT.
fn foreign(c: &mut Ctx, x: &Copy, plan: &Plan) -> R<Option<Copy>> {
    let mut m = x.m.clone();
    let what = match c.t.below(4) {
        0 => {
            let n = c.t.below(8) as u8;
            *flags(&mut m) = n;
            "sets the flags"
        }
        1 => {
            let (_, im) = input(c, plan);
            add_in(&mut m, im);
            "adds an input"
        }
        2 => {
            let (_, om) = output(c, plan);
            add_out(&mut m, om);
            "adds an output"
        }
        _ => {
            if m.ins.is_empty() {
                return Ok(None);
            }
            let i = c.t.idx(m.ins.len());
            let r = *c.t.pick(&plan.reqs);
            m.ins[i].remove(&vec![0x11u8]);
            m.ins[i].remove(&vec![0x12u8]);
            if let Some(t) = r.0 {
                put_u32(&mut m.ins[i], 0x11, t);
            }
            if let Some(h) = r.1 {
                put_u32(&mut m.ins[i], 0x12, h);
            }
            "changes a required lock time"
        }
    };
    ev!(c, "foreign software {}", what);
    match Psbt::de(&m.write()) {
        Ok(p) => Ok(Some(Copy { p, m })),
        Err(e) => fail("decode-refused", format!("foreign software {}: {}", what, e)),
    }
}

fn combine(c: &mut Ctx, x: &Copy, y: &Copy) -> R<Copy> {
    let r = match v2::combine(x.p.clone(), y.p.clone()) {
        Ok(r) => r,
        Err(e) => return fail("combine-refused", format!("copies of one transaction: {}", e)),
    };
    let mut m = gen::union(&x.m, &y.m);
    // Where the copies disagree either may win.
    let got = Psbt::to_raw(&r);
    for (at, mm) in [&x.m, &y.m].iter().flat_map(|r| r.maps()).map(|(at, m)| (at, m.clone())).collect::<Vec<_>>() {
        if at != At::G && !(matches!(at, At::In(i) if i < got.ins.len()) || matches!(at, At::Out(i) if i < got.outs.len())) {
            continue;
        }
        for (k, v) in mm {
            let theirs = |r: &Raw| r.map(at).get(&k).cloned();
            if (at, &k[..]) != (At::G, &[0x06u8][..]) && theirs(&x.m).is_some() && theirs(&y.m).is_some() && got.map(at).get(&k) == Some(&v) {
                m.map_mut(at).insert(k, v);
            }
        }
    }
    let _ = c;
    Ok(Copy { p: r, m })
}

/// Two parties change required lock times of one copy at the same time and then meet.
fn forked(c: &mut Ctx, x: &Copy, plan: &Plan) -> R {
    let mut both = vec![];
    for _ in 0..2 {
        let mut m = x.m.clone();
        for i in 0..m.ins.len() {
            let r = *c.t.pick(&plan.reqs);
            if c.t.chance(1, 2) {
                if c.t.chance(1, 4) {
                    m.ins[i].remove(&vec![0x11u8]);
                    m.ins[i].remove(&vec![0x12u8]);
                }
                if let (Some(t), true) = (r.0, c.t.chance(3, 4)) {
                    put_u32(&mut m.ins[i], 0x11, t);
                }
                if let (Some(h), true) = (r.1, c.t.chance(3, 4)) {
                    put_u32(&mut m.ins[i], 0x12, h);
                }
            }
        }
        match Psbt::de(&m.write()) {
            Ok(p) => both.push(Copy { p, m }),
            Err(e) => return fail("decode-refused", format!("changed lock times: {}", e)),
        }
    }
    ev!(c, "two parties change lock times");
    for (a, b) in [(&both[0], &both[1]), (&both[1], &both[0])] {
        judge(c, a, "changed lock times")?;
        let same = model::same_tx(&a.m, &b.m);
        match same {
            Some(true) => {
                let z = combine(c, a, b)?;
                ensure!(Signer::new(z.p).map(|s| s.id()) == Ok(Ok(model::id(&a.m).expect("same"))), "combine-changes-id", "changed lock times");
                c.probe("combined-after-lock-times-changed");
            }
            Some(false) => {
                if model::id(&a.m).is_ok() && model::id(&a.m) == model::id(&b.m) {
                    c.probe("union-is-another-transaction");
                }
                let r = v2::combine(a.p.clone(), b.p.clone());
                ensure!(
                    r.is_err(),
                    "combined-different-tx",
                    "{:?} with {:?} is {:?}",
                    model::id(&a.m), model::id(&b.m), r.map(|r| model::id(&Psbt::to_raw(&r)))
                );
            }
            None => {}
        }
    }
    Ok(())
}

struct Node {
    up: bool,
    mem: Option<Copy>,
    disk: Disk,
    written: BTreeMap<u64, Raw>,
}

#[derive(Clone)]
struct Msg {
    enc: Enc,
    bytes: Rc<Vec<u8>>,
    cut: Option<usize>,
    m: Rc<Raw>,
}

enum Ev {
    Tick(usize),
    Deliver(usize, Msg),
    Restart(usize),
}

fn keep(c: &mut Ctx, fl: &Faults, n: &mut Node, x: Copy, what: &str) -> R {
    judge(c, &x, what)?;
    let (gen, how) = n.disk.save(c, fl, &x.p.ser());
    if !matches!(how, Saved::Failed) || true {
        n.written.insert(gen, x.m.clone());
    }
    n.mem = Some(x);
    Ok(())
}

/// Signs, finalises and extracts; the identity stays what it is.
fn finish(c: &mut Ctx, x: &Copy) -> R {
    let id = match model::id(&x.m) {
        Ok(id) if !x.m.ins.is_empty() => id,
        _ => return Ok(()),
    };
    let tx = model::tx(&x.m).expect("has an id");
    let mut p = x.p.clone();
    for i in p.inputs.iter_mut() {
        // What others pretended to have signed.
        i.partial_sigs.clear();
    }
    let keys: BTreeMap<_, _> = (0..N_KEYS).map(|i| (pk(i), privkey(i))).collect();
    let s = match Signer::new(p) {
        Ok(s) => s,
        Err(_) => return fail("role-refused", "signer"),
    };
    let p = match s.sign(&keys, &pool().secp) {
        Ok((p, used)) => {
            if used.values().map(|v| v.len()).sum::<usize>() < x.m.ins.len() {
                // Some input has no UTXO.
                return Ok(());
            }
            p
        }
        Err(e) => return fail("signing-refused", format!("{:?}", e)),
    };
    let after = Signer::new(p.clone()).ok().and_then(|s| s.id().ok());
    ensure!(after == Some(id), "id-wrong", "after signing: {:?} instead of {}", after, id);
    let f = match Finalizer::new(p) {
        Ok(f) => f,
        Err(e) => return fail("finalizer-refused", format!("{}", e)),
    };
    ensure!(f.id() == id, "id-wrong", "finalizer: {} instead of {}", f.id(), id);
    let p = match f.finalize(&pool().secp) {
        Ok(p) => p,
        Err(e) => return fail("finalizer-refused", format!("{:?}", e)),
    };
    let after = Signer::new(p.clone()).ok().and_then(|s| s.id().ok());
    ensure!(after == Some(id), "id-wrong", "after finalising: {:?} instead of {}", after, id);
    let e = match Extractor::new(p) {
        Ok(e) => e,
        Err(e) => return fail("extractor-refused", format!("{}", e)),
    };
    ensure!(e.id() == id, "id-wrong", "extractor: {} instead of {}", e.id(), id);
    match e.extract_tx_unchecked_fee_rate() {
        Ok(mut t) => {
            for i in t.input.iter_mut() {
                i.witness.clear();
            }
            ensure!(t == tx, "unsigned-tx-wrong", "extracted {:?} instead of {:?}", t, tx);
        }
        Err(e) => return fail("extractor-refused", format!("{}", e)),
    }
    c.probe("finalised-with-same-id");
    Ok(())
}

pub fn run(c: &mut Ctx) -> R {
    let plan = Plan {
        reqs: {
            let mut r = gen::lock_reqs(c, 6);
            if c.t.chance(1, 4) {
                // One deadline for all, of either kind.
                let (t, h) = (500_000_000 + c.t.below(3) as u32, 1 + c.t.below(3) as u32);
                for x in r.iter_mut() {
                    *x = (x.0.and(Some(t)), x.1.and(Some(h)));
                }
            }
            if c.t.chance(1, 3) {
                // Parties that do not go together.
                r.push((Some(500_000_000 + c.t.below(3) as u32), None));
                r.push((None, Some(c.t.below(3) as u32)));
            }
            r
        },
        signable: c.t.chance(1, 3),
        facts: c.t.chance(1, 2),
    };
    let fl = Faults::swarm(c);
    let n = c.t.range(1, 4) as usize;
    let mut nodes: Vec<Node> = (0..n)
        .map(|_| Node { up: true, mem: None, disk: Disk::new(), written: BTreeMap::new() })
        .collect();
    let mut net = Net::new();
    let mut q: Queue<Ev> = Queue::new();
    let x = create(c);
    ev!(c, "created with flags {:02x}, reqs {:?}", x.m.g[&vec![0x06u8]][0], plan.reqs);
    keep(c, &fl, &mut nodes[0], x, "created")?;
    for i in 0..n {
        q.after(c, i as u64, Ev::Tick(i));
    }
    let steps = *c.t.pick(&[12u64, 6, 24, 40]);
    let mut done = 0;
    let mut sent: Vec<Msg> = vec![];
    while let Some(e) = q.pop(c) {
        match e {
            Ev::Tick(i) => {
                done += 1;
                if done > steps {
                    break;
                }
                if nodes[i].up {
                    if c.t.chance(fl.crash, 64) {
                        c.fault("crash");
                        ev!(c, "party {} crashes", i);
                        nodes[i].up = false;
                        nodes[i].mem = None;
                        nodes[i].disk.crash(c);
                        let d = 1 + c.t.below(400);
                        q.after(c, d, Ev::Restart(i));
                    } else if let Some(x) = nodes[i].mem.clone() {
                        ev!(c, "party {}", i);
                        let r = match c.t.below(16) {
                            0..=6 => construct(c, &x, &plan)?,
                            7..=8 => update(c, &x)?,
                            9 => declare(c, &x)?,
                            10 => foreign(c, &x, &plan)?,
                            12 if lock(c) => {
                                forked(c, &x, &plan)?;
                                None
                            }
                            11 if plan.facts => {
                                // Another record nobody has to understand.
                                let mut m = x.m.clone();
                                if !plan.signable && !m.ins.is_empty() && c.t.chance(1, 3) {
                                    // An input that somebody has finalised.
                                    let i = c.t.idx(m.ins.len());
                                    let (k, v) = if c.t.chance(1, 2) { (7, vec![0x51]) } else { (8, vec![1, 1, 7]) };
                                    m.ins[i].insert(vec![k], v);
                                    c.probe("input-finalised-early");
                                } else {
                                    let k = vec![0xf0, c.t.below(4) as u8];
                                    let v = c.t.bytes(3);
                                    m.g.entry(k).or_insert(v);
                                }
                                Some(Copy { p: Psbt::de(&m.write()).map_err(|e| fail::<()>("decode-refused", e).unwrap_err())?, m })
                            }
                            _ => None,
                        };
                        match r {
                            Some(x) => {
                                // The power may fail before anything is stored.
                                keep(c, &fl, &mut nodes[i], x, "worked on")?
                            }
                            None => judge(c, &x, "left alone")?,
                        }
                    }
                    if nodes[i].up && n > 1 {
                        if let Some(x) = nodes[i].mem.clone() {
                            let to = (i + 1 + c.t.idx(n - 1)) % n;
                            let e = *c.t.pick(&[Enc::Bytes, Enc::Bytes, Enc::Base64, Enc::Json, Enc::Bincode]);
                            let msg = if !sent.is_empty() && c.t.chance(fl.stale, 64) {
                                c.fault("stale-resend");
                                sent[c.t.idx(sent.len())].clone()
                            } else {
                                let b = match x.p.enc(e) {
                                    Ok(b) => b,
                                    Err(e) => return fail("encode-refused", e),
                                };
                                Msg { enc: e, bytes: Rc::new(b), cut: None, m: Rc::new(x.m) }
                            };
                            sent.push(msg.clone());
                            for (d, cut) in net.send(c, &fl, i, to, msg.bytes.len()) {
                                q.after(c, d, Ev::Deliver(to, Msg { cut, ..msg.clone() }));
                            }
                        }
                    }
                }
                let d = 1 + c.t.below(60);
                q.after(c, d, Ev::Tick(i));
            }
            Ev::Deliver(i, msg) => {
                if !nodes[i].up {
                    c.fault("delivered-to-dead");
                    continue;
                }
                let b = &msg.bytes[..msg.cut.unwrap_or(msg.bytes.len())];
                let y = match Psbt::dec(msg.enc, b) {
                    Ok(p) if msg.cut.is_none() => Copy { p, m: (*msg.m).clone() },
                    // A cut copy is not this property's business.
                    Ok(_) | Err(_) if msg.cut.is_some() => continue,
                    Ok(_) => unreachable!(),
                    Err(e) => return fail("decode-refused", format!("{:?}: {}", msg.enc, e)),
                };
                judge(c, &y, "received")?;
                let next = match nodes[i].mem.clone() {
                    None => Some(y),
                    Some(x) => {
                        let same = model::same_tx(&x.m, &y.m) == Some(true) && !model::xpub_conflict(&x.m, &y.m);
                        match c.t.below(4) {
                            0 | 1 if same => {
                                ev!(c, "party {} combines", i);
                                let z = combine(c, &x, &y)?;
                                if lock(c) {
                                    ensure!(model::id(&z.m) == model::id(&x.m), "combine-changes-id", "model of the union");
                                }
                                c.probe("combined");
                                Some(z)
                            }
                            0 | 1 if lock(c) && model::same_tx(&x.m, &y.m) == Some(false) => {
                                for (a, b) in [(&x, &y), (&y, &x)] {
                                    if let Ok(r) = v2::combine(a.p.clone(), b.p.clone()) {
                                        return fail("combined-different-tx", format!("{:?} {:?}: {:?}", model::id(&a.m), model::id(&b.m), model::id(&Psbt::to_raw(&r))));
                                    }
                                }
                                if model::id(&x.m).is_ok() && model::id(&x.m) == model::id(&y.m) {
                                    c.probe("union-is-another-transaction");
                                }
                                None
                            }
                            2 => None,
                            _ => {
                                ev!(c, "party {} takes the received copy", i);
                                Some(y)
                            }
                        }
                    }
                };
                if let Some(x) = next {
                    keep(c, &fl, &mut nodes[i], x, "after delivery")?;
                }
            }
            Ev::Restart(i) => {
                nodes[i].up = true;
                let mut found = None;
                for (gen, b) in nodes[i].disk.recover() {
                    let m = match nodes[i].written.get(&gen) {
                        Some(m) => m.clone(),
                        None => continue,
                    };
                    if b != m.write() {
                        c.fault("torn-record-found");
                        continue;
                    }
                    match Psbt::de(&b) {
                        Ok(p) => {
                            found = Some((gen, Copy { p, m }));
                            break;
                        }
                        Err(e) => return fail("decode-refused", format!("stored copy: {}", e)),
                    }
                }
                nodes[i].disk.use_gen(found.as_ref().map(|x| x.0));
                ev!(c, "party {} restarts with {}", i, if found.is_some() { "its copy" } else { "nothing" });
                nodes[i].mem = found.map(|x| x.1);
                if let Some(x) = nodes[i].mem.clone() {
                    judge(c, &x, "recovered")?;
                }
            }
        }
    }
    // Faults stop: somebody completes the PSBT for everybody.
    net.heal();
    let x = match nodes.iter().filter(|n| n.up).find_map(|n| n.mem.clone()) {
        Some(x) => x,
        None => create(c),
    };
    let mut m = x.m.clone();
    let p = match x.m.g[&vec![0x06u8]][0] & 3 {
        3 => Constructor::<Modifiable>::new(x.p.clone()).map(|k| k.updater()).ok(),
        1 => Constructor::<InputsOnlyModifiable>::new(x.p.clone()).map(|k| k.updater()).ok(),
        2 => Constructor::<OutputsOnlyModifiable>::new(x.p.clone()).map(|k| k.updater()).ok(),
        _ => Some(Updater::new(x.p.clone())),
    };
    let p = match p {
        Some(p) => p,
        None => {
            if build(c) {
                return fail("constructor-refused", format!("in the end, flags {:02x}", x.m.g[&vec![0x06u8]][0]));
            }
            return Ok(());
        }
    };
    *flags(&mut m) &= !3;
    match p {
        Ok(u) => {
            if lock(c) {
                ensure!(Ok(u.id()) == model::id(&m), "id-wrong", "in the end");
            }
            let x = Copy { p: u.psbt(), m };
            judge(c, &x, "completed")?;
            if build(c) {
                ensure!(Constructor::<Modifiable>::new(x.p.clone()).is_err(), "constructor-allowed", "on a completed PSBT");
                ensure!(Constructor::<InputsOnlyModifiable>::new(x.p.clone()).is_err(), "constructor-allowed", "on a completed PSBT");
                ensure!(Constructor::<OutputsOnlyModifiable>::new(x.p.clone()).is_err(), "constructor-allowed", "on a completed PSBT");
            }
            if lock(c) && plan.signable {
                finish(c, &x)?;
            }
            c.probe("completed");
        }
        Err(_) => {
            if lock(c) {
                ensure!(model::lock_time(&m).is_err(), "role-refused", "updater in the end");
            }
        }
    }
    Ok(())
}
