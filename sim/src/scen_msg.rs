//! C19: parties with part of the records of a PSBT ask for the messages to sign, at any time, as
//! they exchange copies, each with a cache that lives as long as the party.

use std::rc::Rc;

use psbt_v2::bitcoin::hashes::Hash;
use psbt_v2::bitcoin::secp256k1::Message;
use psbt_v2::bitcoin::sighash::{SighashCache, TapSighashType};
use psbt_v2::bitcoin::taproot::TapLeafHash;
use psbt_v2::bitcoin::Transaction;
use psbt_v2::v0::miniscript::{PsbtExt, PsbtSighashMsg};
use psbt_v2::{v0, v2};

use crate::ctx::{fail, Ctx, R};
use crate::gen::union;
use crate::raw::{RMap, Raw};
use crate::scen_combine::check_model;
use crate::script::Judge;
use crate::sim::{Faults, Net, Queue};
use crate::typed::{show, Ps};
use crate::wallet::{self, Kind, Spend, Wallet};
use crate::{ensure, ev};

type Cache = SighashCache<Transaction>;

/// What kind of message it is.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Sort {
    Legacy,
    Segwit,
    Tap,
}

trait Asks: Ps {
    fn ecdsa(&self, i: usize, cache: &mut Cache) -> Result<(Message, u32), String>;
    /// The function for every kind of input, if this version has it.
    fn any(&self, i: usize, cache: &mut Cache, leaf: Option<TapLeafHash>) -> Option<Result<(Message, Sort), String>>;
}

impl Asks for v0::Psbt {
    fn ecdsa(&self, i: usize, cache: &mut Cache) -> Result<(Message, u32), String> {
        self.sighash_ecdsa(i, cache).map(|(m, t)| (m, t.to_u32())).map_err(show)
    }
    fn any(&self, i: usize, cache: &mut Cache, leaf: Option<TapLeafHash>) -> Option<Result<(Message, Sort), String>> {
        Some(
            self.sighash_msg(i, cache, leaf)
                .map(|m| {
                    let s = match m {
                        PsbtSighashMsg::TapSighash(_) => Sort::Tap,
                        PsbtSighashMsg::LegacySighash(_) => Sort::Legacy,
                        PsbtSighashMsg::SegwitV0Sighash(_) => Sort::Segwit,
                    };
                    (m.to_secp_msg(), s)
                })
                .map_err(show),
        )
    }
}

impl Asks for v2::Psbt {
    fn ecdsa(&self, i: usize, cache: &mut Cache) -> Result<(Message, u32), String> {
        self.sighash_ecdsa(i, cache).map(|(m, t)| (m, t.to_u32())).map_err(show)
    }
    fn any(&self, _: usize, _: &mut Cache, _: Option<TapLeafHash>) -> Option<Result<(Message, Sort), String>> { None }
}

fn utxo_known(m: &RMap) -> bool { m.contains_key(&vec![0u8]) || m.contains_key(&vec![1u8]) }

fn scripts_known(s: &Spend, m: &RMap) -> bool {
    (s.redeem.is_none() || m.contains_key(&vec![4u8])) && (s.wscript.is_none() || m.contains_key(&vec![5u8]))
}

fn sort(k: Kind) -> Sort {
    if k.taproot() {
        Sort::Tap
    } else if k.v0() {
        Sort::Segwit
    } else {
        Sort::Legacy
    }
}

/// Asks for the messages of one input and judges the answers.
fn ask<P: Asks>(c: &mut Ctx, w: &Wallet, p: &P, m: &Raw, cache: &mut Cache, i: usize, who: &str) -> R {
    let outs = w.prevouts();
    let mut j = Judge::new(&w.tx, &outs);
    if i >= w.spends.len() {
        ensure!(p.ecdsa(i, cache).is_err(), "message-for-no-input", "{}: input {}", who, i);
        if let Some(r) = p.any(i, cache, None) {
            ensure!(r.is_err(), "message-for-no-input", "{}: input {}", who, i);
        }
        return Ok(());
    }
    let s = &w.spends[i];
    let map = &m.ins[i];
    let ty = crate::model::u32_of(map, 3);
    let known = utxo_known(map) && scripts_known(s, map);
    let what = format!("{} asks for input {} {:?} type {:?}", who, i, s.kind, ty);

    // ECDSA.
    let std = matches!(ty.unwrap_or(1), 1 | 2 | 3 | 0x81 | 0x82 | 0x83);
    let want = if s.kind.taproot() || !std {
        None
    } else {
        Some((j.ecdsa_hash(i, &s.script_code(), ty.unwrap_or(1) as u8, s.kind.v0()).expect("input exists"), ty.unwrap_or(1)))
    };
    match (p.ecdsa(i, cache), &want) {
        (Ok(g), Some(x)) => {
            ensure!(known, "message-out-of-nothing", "{}", what);
            ensure!(g == *x, "wrong-message", "{}: {:?} instead of {:?}", what, g, x);
            c.probe("ecdsa-message");
        }
        (Ok(_), None) => return fail("wrong-message", format!("{}: not an input for it", what)),
        (Err(e), Some(_)) => ensure!(!known, "message-refused", "{}: {}", what, e),
        (Err(_), None) => {}
    }

    // Any kind.
    let leaf = if s.kind.taproot() && c.t.chance(1, 2) {
        Some(if s.leaves.is_empty() || c.t.chance(1, 6) {
            TapLeafHash::from_byte_array(c.t.arr())
        } else {
            s.leaves[c.t.idx(s.leaves.len())].hash
        })
    } else {
        None
    };
    let got = match p.any(i, cache, leaf) {
        Some(g) => g,
        None => return Ok(()),
    };
    let want = if s.kind.taproot() {
        match TapSighashType::from_consensus_u8(ty.unwrap_or(0).try_into().unwrap_or(0xff)) {
            Ok(t) => j.tap_hash(i, t, leaf).ok(),
            Err(_) => None,
        }
    } else {
        want.map(|x| x.0)
    };
    let all = m.ins.iter().all(utxo_known);
    match (got, want) {
        (Ok((g, k)), Some(x)) => {
            ensure!(known, "message-out-of-nothing", "{} leaf {:?}", what, leaf);
            ensure!(g == x, "wrong-message", "{} leaf {:?}: {:?} instead of {:?}", what, leaf, g, x);
            ensure!(k == sort(s.kind), "wrong-message", "{}: a {:?} message", what, k);
            c.probe(match (k, leaf) {
                (Sort::Tap, None) => "key-path-message",
                (Sort::Tap, _) => "script-path-message",
                (Sort::Legacy, _) => "legacy-message",
                _ => "segwit-message",
            });
        }
        (Ok(_), None) => return fail("wrong-message", format!("{} leaf {:?}: there is no such message", what, leaf)),
        (Err(e), Some(_)) => {
            ensure!(!known || !all, "message-refused", "{} leaf {:?}: {}", what, leaf, e);
            c.probe("not-enough-known");
        }
        (Err(_), None) => c.probe("no-such-message"),
    }
    Ok(())
}

struct Node<P> {
    mem: P,
    model: Rc<Raw>,
    cache: Cache,
}

enum Ev {
    Tick(usize),
    Deliver(usize, usize, Rc<Vec<u8>>, Rc<Raw>, Option<usize>),
}

fn go<P: Asks>(c: &mut Ctx) -> R {
    let kinds: Vec<Kind> = wallet::ALL_KINDS.iter().copied().chain([Kind::PkhUncompressed]).collect();
    let mut w = wallet::wallet(c, P::V, &kinds);
    for s in w.spends.iter_mut() {
        if c.t.chance(1, 6) {
            c.fault("stray-script");
            s.recs.append(&mut wallet::stray(c, s));
        }
        let t = match c.t.below(4) {
            0 if s.kind.taproot() => *c.t.pick(&[0u32, 1, 2, 3, 0x81, 0x82, 0x83]),
            0 => *c.t.pick(&[1u32, 2, 3, 0x81, 0x82, 0x83]),
            1 if c.t.chance(1, 4) => *c.t.pick(&[0u32, 4, 0x80, 0x84, 0xff, 0x101, 0x8000_0001]),
            _ => continue,
        };
        s.sighash = Some(t);
        s.recs.insert(vec![3], t.to_le_bytes().to_vec());
    }
    ev!(c, "{}", w.desc());
    let n = c.t.range(1, 4) as usize;
    let mut nodes: Vec<Node<P>> = vec![];
    let mut all = w.bare.clone();
    for i in 0..n {
        let mut m = w.bare.clone();
        for (j, s) in w.spends.iter().enumerate() {
            let part = c.t.chance(1, 2);
            for (k, v) in &s.recs {
                if i == j % n && !part || c.t.chance(2, 3) {
                    m.ins[j].insert(k.clone(), v.clone());
                }
            }
        }
        all = union(&all, &m);
        match P::de(&m.write()) {
            Ok(p) => nodes.push(Node { mem: p, model: Rc::new(m), cache: SighashCache::new(w.tx.clone()) }),
            Err(e) => return fail("decode-refused", e),
        }
    }
    let fl = Faults::swarm(c);
    let mut net = Net::new();
    let mut q: Queue<Ev> = Queue::new();
    for i in 0..n {
        let d = c.t.below(20);
        q.after(c, d, Ev::Tick(i));
    }
    let mut left = *c.t.pick(&[16u64, 8, 32]);
    while left > 0 {
        let e = match q.pop(c) {
            Some(e) => e,
            None => break,
        };
        left -= 1;
        match e {
            Ev::Tick(i) => {
                if c.t.chance(fl.crash, 64) {
                    // The program starts again from what it last sent: only the cache is lost.
                    c.fault("restart");
                    nodes[i].cache = SighashCache::new(w.tx.clone());
                }
                if n > 1 && c.t.chance(1, 4) {
                    let to = (i + 1 + c.t.idx(n - 1)) % n;
                    let b = Rc::new(nodes[i].mem.ser());
                    for (d, cut) in net.send(c, &fl, i, to, b.len()) {
                        q.after(c, d, Ev::Deliver(i, to, b.clone(), nodes[i].model.clone(), cut));
                    }
                } else {
                    let k = c.t.idx(w.spends.len() + 1);
                    let k = if k == w.spends.len() && c.t.chance(3, 4) { 0 } else { k };
                    let x = &mut nodes[i];
                    ask(c, &w, &x.mem, &x.model, &mut x.cache, k, &format!("party {}", i))?;
                    ev!(c, "party {} asks for input {}", i, k);
                }
                let d = 1 + c.t.below(20);
                q.after(c, d, Ev::Tick(i));
            }
            Ev::Deliver(from, to, b, m, cut) => match cut {
                Some(k) => ensure!(P::de(&b[..k]).is_err(), "truncated-accepted", "{} of {}", k, b.len()),
                None => {
                    take(&mut nodes[to], &b, &m)?;
                    ev!(c, "party {} combines a copy from {}", to, from);
                }
            },
        }
    }
    // Everybody learns everything and asks for everything.
    let all = all.write();
    let all_m = Raw::parse(P::V, &all).expect("own");
    for x in nodes.iter_mut() {
        take(x, &all, &all_m)?;
        for i in c.t.perm(w.spends.len()) {
            for _ in 0..1 + w.spends[i].leaves.len() {
                ask(c, &w, &x.mem, &x.model, &mut x.cache, i, "a party at the end")?;
            }
        }
    }
    c.state(&nodes[0].mem.ser());
    Ok(())
}

fn take<P: Asks>(n: &mut Node<P>, b: &[u8], m: &Raw) -> R {
    let p = match P::de(b) {
        Ok(p) => p,
        Err(e) => return fail("decode-refused", e),
    };
    n.mem = match n.mem.comb(&p) {
        Ok(x) => x,
        Err(e) => return fail("combine-refused", e),
    };
    let u = union(&n.model, m);
    check_model(&n.mem, &u, "combine-wrong-union", "a copy")?;
    n.model = Rc::new(u);
    Ok(())
}

pub fn run(c: &mut Ctx) -> R {
    if c.t.chance(1, 3) {
        go::<v2::Psbt>(c)
    } else {
        go::<v0::Psbt>(c)
    }
}
