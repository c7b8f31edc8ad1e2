//! C15: PSBTs that are damaged, spliced or made by an attacker reach parties that use them in any
//! role and in any order.

use std::collections::BTreeSet;

use psbt_v2::bitcoin::consensus::encode::serialize;
use psbt_v2::bitcoin::hashes::Hash;
use psbt_v2::bitcoin::script::Builder;
use psbt_v2::bitcoin::sighash::{EcdsaSighashType, SighashCache};
use psbt_v2::bitcoin::taproot::{LeafVersion, TapLeafHash};
use psbt_v2::bitcoin::{absolute, opcodes, Amount, FeeRate, OutPoint, ScriptBuf, Sequence, Txid, TxOut, Witness};
use psbt_v2::v0::miniscript::PsbtExt;
use psbt_v2::{v0, v2};

use crate::ctx::{fail, Ctx, R};
use crate::gen;
use crate::keys::{origin, pool, wk, N_MASTERS, N_WKEYS};
use crate::raw::{RMap, Raw};
use crate::scen_damage::{damage, psbt};
use crate::scen_flow::{foreign_sign, tamper, Flow};
use crate::scen_sign::{store, Store};
use crate::typed::{key_source, show, Enc, ENCS};
use crate::wallet::{self, Wallet};
use crate::{alloc, ensure, ev};

/// Fee rates an application may ask for.
pub fn rate(c: &mut Ctx) -> FeeRate {
    FeeRate::from_sat_per_kwu(match c.t.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => c.t.u64(),
        3 => u64::MAX / 4 + 1,
        4 => 25_000 * 250,
        _ => c.t.below(10_000),
    })
}

pub trait Storm: Flow {
    /// One operation of some role. Returns what it made, if anything.
    fn op(c: &mut Ctx, p: &Self, others: &[Self]) -> (&'static str, Option<Self>);
}

fn signer(c: &mut Ctx) -> Store {
    let mut ms = BTreeSet::new();
    ms.insert(c.t.idx(N_MASTERS));
    if c.t.chance(1, 2) {
        ms.extend(0..N_MASTERS);
    }
    let mut s = store(c, &ms, &BTreeSet::new(), &BTreeSet::new());
    if c.t.chance(1, 3) {
        s.plan((0..c.t.range(1, 6)).map(|_| c.t.below(3) as u8).collect());
    }
    s
}

fn common<P: Flow>(c: &mut Ctx, p: &P, others: &[P], k: u64) -> (&'static str, Option<P>) {
    match k {
        0 => {
            let e = *c.t.pick(&ENCS);
            let b = p.enc(e).expect("encoding");
            (
                "encode",
                match P::dec(e, &b) {
                    Ok(q) => Some(q),
                    Err(x) if e == Enc::Json || e == Enc::Bincode => {
                        let _ = x;
                        None
                    }
                    Err(x) => panic!("decoded but cannot be read back: {}", x),
                },
            )
        }
        1 => {
            let _ = format!("{:?} {:#?}", p, p);
            let _ = p.to_raw();
            let _ = p.hex();
            ("inspect", None)
        }
        2 | 3 => {
            let o = if others.is_empty() || c.t.chance(1, 6) { p.clone() } else { c.t.pick(others).clone() };
            let (a, b) = if c.t.chance(1, 2) { (p, &o) } else { (&o, p) };
            ("combine", if c.t.chance(1, 2) { a.comb(b).ok() } else { a.comb_alt(b).ok() })
        }
        4 | 5 => {
            let s = signer(c);
            ("sign", s.sign(p).ok().and_then(|o| o.psbt))
        }
        6..=8 => {
            let n = p.to_raw().ins.len();
            let how = P::pick(c, n);
            let (q, r) = p.finalise(how);
            if r.is_ok() {
                c.probe("hostile-finalised");
            }
            ("finalise", Some(q))
        }
        9 => {
            if let Ok(Ok(_)) = p.extract() {
                c.probe("hostile-extracted");
            }
            ("extract", None)
        }
        _ => {
            let _ = p.interpret();
            let _ = p.ids();
            ("identify", None)
        }
    }
}

const COMMON: u64 = 11;

impl Storm for v0::Psbt {
    fn op(c: &mut Ctx, p: &Self, others: &[Self]) -> (&'static str, Option<Self>) {
        let n = p.inputs.len();
        let k = c.t.below(COMMON + 8);
        match k.saturating_sub(COMMON) {
            _ if k < COMMON => common(c, p, others, k),
            0 => {
                let _ = p.signer_checks().map_err(show);
                ("signer-checks", None)
            }
            1 => {
                let _ = p.fee().map_err(show);
                let _ = p.iter_funding_utxos().map(|u| u.map_err(show).is_ok()).count();
                for i in 0..n + 1 {
                    let _ = p.spend_utxo(i).map_err(show);
                }
                ("fee", None)
            }
            2 => {
                let mut cache = SighashCache::new(&p.unsigned_tx);
                for i in 0..n + 1 {
                    let _ = p.sighash_ecdsa(i, &mut cache).map_err(show);
                }
                ("sighash", None)
            }
            3 => {
                let mut cache = SighashCache::new(&p.unsigned_tx);
                for i in 0..n + 1 {
                    let _ = p.sighash_msg(i, &mut cache, None).map(|m| m.to_secp_msg()).map_err(show);
                    if let Some(x) = p.inputs.get(i) {
                        let _ = x.ecdsa_hash_ty();
                        let _ = x.taproot_hash_ty();
                        for (s, v) in x.tap_scripts.values().take(3) {
                            let h = TapLeafHash::from_script(s, *v);
                            let _ = p.sighash_msg(i, &mut cache, Some(h)).map(|m| m.to_secp_msg()).map_err(show);
                        }
                    }
                }
                ("sighash-msg", None)
            }
            4 => {
                let _ = p.clone().extract_tx().map_err(show);
                let _ = p.clone().extract_tx_fee_rate_limit().map_err(show);
                ("extract-limited", None)
            }
            5 => {
                let r = rate(c);
                let _ = p.clone().extract_tx_with_fee_rate_limit(r).map_err(show);
                ("extract-limited", None)
            }
            6 => {
                let _ = p.clone().extract_tx_unchecked_fee_rate();
                ("extract-unchecked", None)
            }
            _ => {
                use psbt_v2::v0::miniscript::PsbtInputSatisfier;
                use psbt_v2::miniscript::Satisfier;
                // What an application with a descriptor of its own asks.
                for i in 0..n {
                    let s = PsbtInputSatisfier::new(p, i);
                    let k = wk(c.t.idx(N_WKEYS));
                    let _ = Satisfier::<psbt_v2::bitcoin::PublicKey>::lookup_ecdsa_sig(&s, &k.pk);
                    let _ = Satisfier::<psbt_v2::bitcoin::PublicKey>::check_after(&s, absolute::LockTime::from_consensus(c.t.u32()));
                    let _ = Satisfier::<psbt_v2::bitcoin::PublicKey>::lookup_tap_key_spend_sig(&s);
                }
                ("satisfy", None)
            }
        }
    }
}

impl Storm for v2::Psbt {
    fn op(c: &mut Ctx, p: &Self, others: &[Self]) -> (&'static str, Option<Self>) {
        let n = p.inputs.len();
        let k = c.t.below(COMMON + 10);
        match k.saturating_sub(COMMON) {
            _ if k < COMMON => common(c, p, others, k),
            0 => {
                let _ = p.determine_lock_time().map_err(show);
                let _ = p.is_finalized();
                let _ = p.fee().map_err(show);
                let _ = p.iter_funding_utxos().map(|u| u.map_err(show).is_ok()).count();
                for i in &p.inputs {
                    let _ = i.funding_utxo().map_err(show);
                    let _ = i.ecdsa_hash_ty();
                    let _ = i.taproot_hash_ty();
                    let _ = i.is_finalized();
                }
                ("inspect", None)
            }
            1 => (
                "construct",
                v2::Constructor::<v2::Modifiable>::new(p.clone()).map_err(show).ok().and_then(|x| {
                    let op = OutPoint { txid: Txid::from_byte_array(c.t.arr()), vout: c.t.u32() };
                    let x = x.input(v2::InputBuilder::new(&op).build());
                    let x = if c.t.chance(1, 2) { x.no_more_inputs() } else { x };
                    let o = gen::txout(c);
                    x.output(v2::OutputBuilder::new(o).build()).psbt().map_err(show).ok()
                }),
            ),
            2 => (
                "construct",
                v2::Constructor::<v2::InputsOnlyModifiable>::new(p.clone()).map_err(show).ok().and_then(|x| {
                    let op = OutPoint { txid: Txid::from_byte_array(c.t.arr()), vout: c.t.u32() };
                    let b = v2::InputBuilder::new(&op);
                    let b = match c.t.below(3) {
                        0 => b,
                        1 => b.minimum_required_height_based_lock_time(absolute::Height::from_consensus(c.t.below(500_000_000) as u32).expect("height")),
                        _ => b.minimum_required_time_based_lock_time(absolute::Time::from_consensus(500_000_000 + c.t.below(1 << 31) as u32).expect("time")),
                    };
                    x.input(b.build()).no_more_outputs().psbt().map_err(show).ok()
                }),
            ),
            3 => (
                "construct",
                v2::Constructor::<v2::OutputsOnlyModifiable>::new(p.clone()).map_err(show).ok().and_then(|x| {
                    let o = gen::txout(c);
                    x.output(v2::OutputBuilder::new(o).build()).updater().map_err(show).ok().map(|u| {
                        let _ = u.id();
                        u.psbt()
                    })
                }),
            ),
            4 => (
                "update",
                v2::Updater::new(p.clone()).map_err(show).ok().and_then(|u| {
                    let _ = u.id();
                    let at = c.t.idx(n + 1);
                    u.set_sequence(Sequence(c.t.u32()), at).map_err(show).ok().map(|u| u.psbt())
                }),
            ),
            5 => (
                "signer",
                v2::Signer::new(p.clone()).map_err(show).ok().map(|mut s| {
                    let _ = s.id();
                    let _ = s.unsigned_tx();
                    s.ecdsa_clear_tx_modifiable(*c.t.pick(&[
                        EcdsaSighashType::All,
                        EcdsaSighashType::Single,
                        EcdsaSighashType::NonePlusAnyoneCanPay,
                    ]));
                    s.psbt()
                }),
            ),
            6 => {
                if let Ok(s) = v2::Signer::new(p.clone()) {
                    let tx = s.unsigned_tx();
                    let mut cache = SighashCache::new(&tx);
                    for i in 0..n + 1 {
                        let _ = p.sighash_ecdsa(i, &mut cache).map_err(show);
                    }
                }
                ("sighash", None)
            }
            7 => {
                // A public function like any other.
                let _ = p.interpreter_check(&pool().secp).map_err(show);
                ("interpret", None)
            }
            _ => {
                if let Ok(e) = v2::Extractor::new(p.clone()).map_err(show) {
                    let _ = e.id();
                    let _ = e.extract_tx().map_err(show);
                    let _ = e.extract_tx_fee_rate_limit().map_err(show);
                    let r = rate(c);
                    let _ = e.extract_tx_with_fee_rate_limit(r).map_err(show);
                }
                ("extract-limited", None)
            }
        }
    }
}

/// A script nobody sane would write.
fn weird_script(c: &mut Ctx, w: Option<&Wallet>, tap: bool) -> (ScriptBuf, Vec<usize>, RMap) {
    let mut pre = RMap::new();
    let k = c.t.idx(N_WKEYS);
    let key = |b: Builder, k: usize| if tap { b.push_x_only_key(&wk(k).xonly) } else { b.push_key(&wk(k).pk) };
    let sig = |b: Builder, k: usize| key(b, k).push_opcode(opcodes::all::OP_CHECKSIG);
    let s = match c.t.below(13) {
        0 => {
            // Deeply nested wrappers.
            let n = *c.t.pick(&[5u64, 60, 400, 401, 403, 3000, 30_000]);
            let mut v = sig(Builder::new(), k).into_bytes();
            let op = *c.t.pick(&[0x92u8, 0x69]);
            v.extend((0..n).map(|_| op));
            if op == 0x69 {
                v.push(0x51);
            }
            ScriptBuf::from_bytes(v)
        }
        1 => {
            // Nested branches.
            let n = *c.t.pick(&[3u64, 30, 200, 405, 5000]);
            let mut v = vec![];
            for _ in 0..n {
                v.extend([0x63, 0x00, 0x67]);
            }
            v.extend(sig(Builder::new(), k).into_bytes());
            v.extend((0..n).map(|_| 0x68));
            ScriptBuf::from_bytes(v)
        }
        2 => {
            // Multi signature with odd counts.
            let (m, n) = *c.t.pick(&[(0i64, 0i64), (1, 0), (3, 2), (20, 20), (21, 21), (-1, 1), (16, 16), (2, 3), (0, 3)]);
            let mut b = Builder::new().push_int(m);
            let real = c.t.below(4) as i64;
            for i in 0..(if c.t.chance(1, 2) { n } else { real }) {
                b = key(b, (k + i as usize) % N_WKEYS);
            }
            b.push_int(n).push_opcode(opcodes::all::OP_CHECKMULTISIG).into_script()
        }
        3 => {
            let n = c.t.range(1, 5);
            let mut b = sig(Builder::new(), k);
            for i in 0..n {
                b = key(b, (k + 1 + i as usize) % N_WKEYS).push_opcode(opcodes::all::OP_CHECKSIGADD);
            }
            let t = *c.t.pick(&[0i64, 1, 2, -1, 1000, i32::MAX as i64, 1 << 31]);
            b.push_int(t).push_opcode(opcodes::all::OP_NUMEQUAL).into_script()
        }
        4 => {
            // Time locks out of range.
            let v = *c.t.pick(&[0i64, -1, 1, 0xffff, 0x1_0000, 0x40_0000, 0x41_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 499_999_999, 500_000_000]);
            let op = if c.t.chance(1, 2) { opcodes::all::OP_CLTV } else { opcodes::all::OP_CSV };
            let b = key(Builder::new(), k).push_opcode(opcodes::all::OP_CHECKSIGVERIFY).push_int(v).push_opcode(op);
            b.into_script()
        }
        5 => {
            // Thresholds.
            let n = c.t.range(1, 4);
            let mut b = sig(Builder::new(), k);
            for i in 0..n {
                b = b.push_opcode(opcodes::all::OP_SWAP);
                b = sig(b, (k + 1 + i as usize) % N_WKEYS).push_opcode(opcodes::all::OP_ADD);
            }
            let t = *c.t.pick(&[0i64, 1, 2, -1, 100, i32::MAX as i64]);
            b.push_int(t).push_opcode(opcodes::all::OP_EQUAL).into_script()
        }
        6 => {
            // Hash locks with odd sizes, and preimages that really hash to them.
            let n = *c.t.pick(&[32i64, 32, 32, 31, 0, 33]);
            let (op, hn, ty) = *c.t.pick(&[
                (opcodes::all::OP_SHA256, 32, 0x0b),
                (opcodes::all::OP_HASH256, 32, 0x0d),
                (opcodes::all::OP_RIPEMD160, 20, 0x0a),
                (opcodes::all::OP_HASH160, 20, 0x0c),
            ]);
            let (rec, p) = {
                let n = *c.t.pick(&[32usize, 31, 33, 0, 12, 64, 520]);
                let p = c.t.bytes(n);
                (crate::gen::hash_rec(ty, &p), p)
            };
            let mut h = rec[1..].to_vec();
            if c.t.chance(1, 4) {
                let hn = *c.t.pick(&[hn, 32usize, 20, 33, 0]);
                h = c.t.bytes(hn);
            }
            if c.t.chance(7, 8) {
                pre.insert(rec, p);
            }
            let h = psbt_v2::bitcoin::script::PushBytesBuf::try_from(h).expect("short");
            let b = if c.t.chance(1, 4) {
                Builder::new()
            } else {
                key(Builder::new(), k).push_opcode(opcodes::all::OP_CHECKSIGVERIFY)
            };
            b.push_opcode(opcodes::all::OP_SIZE)
                .push_int(n)
                .push_opcode(opcodes::all::OP_EQUALVERIFY)
                .push_opcode(op)
                .push_slice(h)
                .push_opcode(opcodes::all::OP_EQUAL)
                .into_script()
        }
        7 => {
            // A public key hash.
            let h = if tap {
                psbt_v2::bitcoin::hashes::hash160::Hash::hash(&wk(k).xonly.serialize())
            } else {
                psbt_v2::bitcoin::hashes::hash160::Hash::hash(&wk(k).pk.to_bytes())
            };
            let b = Builder::new()
                .push_opcode(opcodes::all::OP_DUP)
                .push_opcode(opcodes::all::OP_HASH160)
                .push_slice(h.to_byte_array())
                .push_opcode(opcodes::all::OP_EQUALVERIFY);
            if c.t.chance(1, 2) {
                b.push_opcode(opcodes::all::OP_CHECKSIG).into_script()
            } else {
                sig(b.push_opcode(opcodes::all::OP_CHECKSIGVERIFY), (k + 1) % N_WKEYS).into_script()
            }
        }
        8 => gen::script(c),
        9 => {
            let n = c.t.below(40) as usize;
            ScriptBuf::from_bytes(c.t.bytes(n))
        }
        10 => {
            let ops = [0x51u8, 0x00, 0x63, 0x64, 0x67, 0x68, 0x69, 0x6b, 0x6c, 0x73, 0x7c, 0x82, 0x87, 0x88, 0x92, 0x93, 0x9a, 0x9b, 0x9c, 0xac, 0xad, 0xae, 0xb1, 0xb2, 0xba, 0x4c, 0xff, 0x01, 0x20];
            let n = c.t.below(24);
            ScriptBuf::from_bytes((0..n).map(|_| *c.t.pick(&ops)).collect())
        }
        _ => {
            // An honest one, perhaps with something changed.
            let mut v = match w {
                Some(w) => {
                    let s = c.t.pick(&w.spends);
                    if tap && !s.leaves.is_empty() {
                        c.t.pick(&s.leaves).script.to_bytes()
                    } else {
                        s.script_code().to_bytes()
                    }
                }
                None => sig(Builder::new(), k).into_bytes(),
            };
            if c.t.chance(2, 3) && !v.is_empty() {
                let i = c.t.idx(v.len());
                match c.t.below(3) {
                    0 => v[i] = c.t.below(256) as u8,
                    1 => {
                        v.remove(i);
                    }
                    _ => v.truncate(i),
                }
            }
            ScriptBuf::from_bytes(v)
        }
    };
    (s, vec![k, (k + 1) % N_WKEYS, (k + 2) % N_WKEYS], pre)
}

/// An input of an attacker's making.
fn weird_input(c: &mut Ctx, w: Option<&Wallet>, v: u8, m: &mut RMap, vout: u32) {
    let bip32: u8 = 6;
    let kind = c.t.below(9);
    let (s, ks, pre) = weird_script(c, w, kind >= 6);
    m.extend(pre);
    let mut spk = s.clone();
    match kind {
        0 | 1 => {
            m.insert(vec![4], s.to_bytes());
            spk = s.to_p2sh();
        }
        2 | 3 => {
            m.insert(vec![5], s.to_bytes());
            spk = s.to_p2wsh();
        }
        4 => {
            m.insert(vec![5], s.to_bytes());
            m.insert(vec![4], s.to_p2wsh().to_bytes());
            spk = s.to_p2wsh().to_p2sh();
        }
        5 => {}
        _ => {
            let ver = *c.t.pick(&[0xc0u8, 0xc0, 0xc0, 0xc2, 0x50, 0xfe]);
            let depth = *c.t.pick(&[0usize, 1, 2, 128]);
            let mut cb = vec![ver | c.t.below(2) as u8];
            cb.extend(wk(ks[0]).xonly.serialize());
            cb.extend(c.t.bytes(32 * depth));
            m.insert([&[0x15u8][..], &cb].concat(), [&s.to_bytes()[..], &[ver]].concat());
            let h = TapLeafHash::from_script(&s, LeafVersion::TapScript);
            for k in &ks {
                if c.t.chance(2, 3) {
                    let mut sig = pool().schnorr[c.t.idx(8)].serialize().to_vec();
                    if c.t.chance(1, 3) {
                        sig.push(*c.t.pick(&[1u8, 2, 3, 0x81, 0x82, 0x83]));
                    }
                    m.insert([&[0x14u8][..], &wk(*k).xonly.serialize(), &h[..]].concat(), sig);
                }
                if c.t.chance(1, 2) {
                    let mut o = vec![1];
                    o.extend_from_slice(&h[..]);
                    o.extend(key_source(&origin(*k)));
                    m.insert([&[0x16u8][..], &wk(*k).xonly.serialize()].concat(), o);
                }
            }
            if c.t.chance(1, 4) {
                m.insert(vec![0x13], pool().schnorr[c.t.idx(8)].serialize().to_vec());
            }
            if c.t.chance(1, 3) {
                m.insert(vec![0x17], wk(ks[0]).xonly.serialize().to_vec());
            }
            spk = ScriptBuf::from_bytes([&[0x51, 0x20][..], &wk(ks[1]).xonly.serialize()].concat());
        }
    }
    if kind < 6 {
        for k in &ks {
            let p = if c.t.chance(1, 8) { wallet::uncompressed(*k) } else { wk(*k).pk };
            if c.t.chance(2, 3) {
                let ty = *c.t.pick(&[1u8, 1, 1, 2, 3, 0x81, 0x82, 0x83]);
                let sig = [&pool().sigs[c.t.idx(8)].serialize_der()[..], &[ty]].concat();
                m.insert([&[2u8][..], &p.to_bytes()].concat(), sig);
            }
            if c.t.chance(1, 2) {
                m.insert([&[bip32][..], &wk(*k).pk.to_bytes()].concat(), key_source(&origin(*k)));
            }
        }
    }
    if c.t.chance(1, 10) {
        spk = ScriptBuf::from_bytes(match c.t.below(4) {
            0 => vec![],
            1 => [&[0x52u8, 0x20][..], &c.t.bytes(32)].concat(),
            2 => [&[0x51u8, 0x02][..], &c.t.bytes(2)].concat(),
            _ => [&[0x60u8, 0x28][..], &c.t.bytes(40)].concat(),
        });
    }
    let o = TxOut { value: Amount::from_sat(*c.t.pick(&[1000u64, 0, u64::MAX, 2_100_000_000_000_000])), script_pubkey: spk };
    match c.t.below(3) {
        0 => {
            m.remove(&vec![0u8]);
            m.insert(vec![1], serialize(&o));
        }
        1 => {
            let mut p = gen::prev_tx(c, core::cmp::min(vout, 3));
            if let Some(x) = p.output.get_mut(vout as usize) {
                *x = o;
            }
            m.remove(&vec![1u8]);
            m.insert(vec![0], serialize(&p));
            if v == 2 {
                m.insert(vec![0x0e], p.compute_txid().to_byte_array().to_vec());
            }
        }
        _ => {
            m.insert(vec![1], serialize(&o));
            let p = gen::prev_tx(c, 0);
            m.insert(vec![0], serialize(&p));
        }
    }
}

/// Changes a message in a way the decoders have no reason to refuse.
fn attack(c: &mut Ctx, w: Option<&Wallet>, r: &mut Raw) -> &'static str {
    let i = c.t.idx(core::cmp::max(r.ins.len(), 1));
    if r.ins.is_empty() {
        return "nothing";
    }
    let vout = if r.v == 0 {
        crate::raw::unsigned_tx(&r.g[&vec![0u8]]).map(|t| t.input[i].previous_output.vout).unwrap_or(0)
    } else {
        r.ins[i].get(&vec![0x0fu8]).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])).unwrap_or(0)
    };
    match c.t.below(12) {
        0..=3 => {
            if c.t.chance(1, 2) {
                let keep: RMap = r.ins[i].iter().filter(|(k, _)| matches!(k[0], 0x0e..=0x12) && r.v == 2).map(|(k, v)| (k.clone(), v.clone())).collect();
                r.ins[i] = keep;
            }
            let v = r.v;
            weird_input(c, w, v, &mut r.ins[i], vout);
            "input-made-up"
        }
        4 => {
            // Final scripts.
            let (s, ..) = weird_script(c, w, false);
            let n = *c.t.pick(&[0usize, 1, 2, 3, 5, 300]);
            let mut st: Vec<Vec<u8>> = (0..n).map(|_| match c.t.below(4) {
                0 => vec![],
                1 => [&pool().sigs[c.t.idx(8)].serialize_der()[..], &[1]].concat(),
                2 => wk(c.t.idx(N_WKEYS)).pk.to_bytes(),
                _ => { let n = c.t.below(40) as usize; c.t.bytes(n) }
            }).collect();
            if c.t.chance(1, 2) {
                st.push(s.to_bytes());
            }
            if c.t.chance(1, 3) {
                let k = *c.t.pick(&[32usize, 33, 64, 65, 0, 1]);
                st.push(c.t.bytes(k));
            }
            if c.t.chance(3, 4) {
                r.ins[i].insert(vec![8], serialize(&Witness::from_slice(&st)));
            }
            if c.t.chance(3, 4) {
                let sig = if c.t.chance(1, 2) { s.to_bytes() } else { gen::script(c).to_bytes() };
                r.ins[i].insert(vec![7], sig);
            }
            if c.t.chance(1, 2) {
                // All of them.
                for k in 0..r.ins.len() {
                    let e = ScriptBuf::new().to_bytes();
                    r.ins[k].entry(vec![7]).or_insert(e);
                    let e = serialize(&Witness::from_slice(&st));
                    r.ins[k].entry(vec![8]).or_insert(e);
                }
            }
            if c.t.chance(1, 4) {
                r.ins[i].remove(&vec![0u8]);
                r.ins[i].remove(&vec![1u8]);
            }
            "final-scripts-made-up"
        }
        5 => {
            // A previous transaction that does not have the output.
            let mut p = gen::prev_tx(c, 0);
            if c.t.chance(1, 2) {
                p.output.truncate(1);
            } else {
                p.input.clear();
                p.output.clear();
            }
            r.ins[i].insert(vec![0], if p.input.is_empty() { crate::raw::write_unsigned_tx(&p) } else { serialize(&p) });
            if c.t.chance(1, 2) {
                r.ins[i].remove(&vec![1u8]);
            }
            "previous-transaction-made-up"
        }
        6 => {
            let t = match c.t.below(4) {
                0 => c.t.u32(),
                1 => *c.t.pick(&[0u32, 4, 0x80, 0x84, 0x100, 0x101, 0xffff_ffff]),
                2 => 3,
                _ => 0x83,
            };
            r.ins[i].insert(vec![3], t.to_le_bytes().to_vec());
            "sighash-type-made-up"
        }
        7 => {
            if r.v == 2 {
                match c.t.below(4) {
                    0 => {
                        r.g.insert(vec![3], c.t.u32().to_le_bytes().to_vec());
                    }
                    1 => {
                        r.ins[i].insert(vec![0x11], (500_000_000 + c.t.below(1 << 31) as u32).to_le_bytes().to_vec());
                    }
                    2 => {
                        r.ins[i].insert(vec![0x12], (c.t.range(1, 499_999_999) as u32).to_le_bytes().to_vec());
                    }
                    _ => {
                        r.ins[i].insert(vec![0x10], c.t.u32().to_le_bytes().to_vec());
                    }
                }
            } else if let Ok(mut t) = crate::raw::unsigned_tx(&r.g[&vec![0u8]]) {
                t.lock_time = absolute::LockTime::from_consensus(c.t.u32());
                t.input[i].sequence = Sequence(c.t.u32());
                t.version.0 = *c.t.pick(&[0i32, -1, i32::MAX, i32::MIN, 1, 2]);
                r.g.insert(vec![0], crate::raw::write_unsigned_tx(&t));
            }
            "time-locks-made-up"
        }
        8 => {
            // Amounts that overflow.
            let a = *c.t.pick(&[u64::MAX, u64::MAX / 2 + 1, 0, 2_100_000_000_000_000, 1 << 63]);
            if r.v == 2 {
                for m in r.outs.iter_mut() {
                    if c.t.chance(1, 2) {
                        m.insert(vec![3], a.to_le_bytes().to_vec());
                    }
                }
            } else if let Ok(mut t) = crate::raw::unsigned_tx(&r.g[&vec![0u8]]) {
                for o in t.output.iter_mut() {
                    if c.t.chance(1, 2) {
                        o.value = Amount::from_sat(a);
                    }
                }
                r.g.insert(vec![0], crate::raw::write_unsigned_tx(&t));
            }
            for m in r.ins.iter_mut() {
                if c.t.chance(1, 2) {
                    m.insert(vec![1], serialize(&TxOut { value: Amount::from_sat(a), script_pubkey: gen::script(c) }));
                }
            }
            "amounts-made-up"
        }
        9 => {
            // A transaction without inputs or outputs.
            if r.v == 2 {
                if c.t.chance(1, 2) {
                    r.ins.clear();
                    r.g.insert(vec![4], vec![0]);
                }
                if c.t.chance(1, 2) {
                    r.outs.clear();
                    r.g.insert(vec![5], vec![0]);
                }
            } else if let Ok(mut t) = crate::raw::unsigned_tx(&r.g[&vec![0u8]]) {
                if c.t.chance(1, 2) {
                    t.input.clear();
                    r.ins.clear();
                }
                if c.t.chance(1, 2) {
                    t.output.clear();
                    r.outs.clear();
                }
                r.g.insert(vec![0], crate::raw::write_unsigned_tx(&t));
            }
            "maps-left-out"
        }
        10 => {
            // An input twice.
            let k = c.t.idx(r.ins.len());
            r.ins[i] = r.ins[k].clone();
            if r.v == 0 {
                if let Ok(mut t) = crate::raw::unsigned_tx(&r.g[&vec![0u8]]) {
                    t.input[i] = t.input[k].clone();
                    r.g.insert(vec![0], crate::raw::write_unsigned_tx(&t));
                }
            }
            "input-repeated"
        }
        _ => match w {
            Some(w) if r.ins.len() == w.spends.len() && r.outs.len() == w.tx.output.len() => tamper(c, w, r).unwrap_or("nothing"),
            _ => "nothing",
        },
    }
}

fn hostile<P: Storm>(c: &mut Ctx) -> (Vec<P>, Option<Wallet>) {
    let mut got: Vec<P> = vec![];
    let w = if c.t.chance(3, 4) { Some(wallet::wallet(c, P::V, wallet::ALL_KINDS)) } else { None };
    let mut base = match &w {
        Some(w) => w.raw.clone(),
        None => psbt(c, P::V),
    };
    if let Some(w) = &w {
        // Signed by some.
        if let Ok(mut p) = P::de(&base.write()) {
            let outs = w.prevouts();
            for m in 0..N_MASTERS {
                if c.t.chance(1, 2) {
                    let _ = foreign_sign(c, w, &outs, &mut p, &[m].into(), false);
                    let held = BTreeSet::new();
                    if let Some(q) = Store::Xpriv(pool().masters[m], held).sign(&p).ok().and_then(|o| o.psbt) {
                        p = q;
                    }
                }
            }
            if c.t.chance(1, 4) {
                let how = P::pick(c, w.spends.len());
                p = p.finalise(how).0;
            }
            base = p.to_raw();
        }
    }
    let n = c.t.range(1, 3);
    for _ in 0..n {
        for _try in 0..3 {
            let mut r = base.clone();
            let mut kinds = vec![];
            for _ in 0..*c.t.pick(&[1u64, 1, 2, 3, 6]) {
                let k = attack(c, w.as_ref(), &mut r);
                if k != "nothing" {
                    c.fault(k);
                }
                kinds.push(k);
            }
            let mut b = r.write();
            if c.t.chance(1, 4) {
                let other = base.write();
                let k = damage(c, &mut b, &other);
                c.fault(k);
                kinds.push(k);
            }
            match P::de(&b) {
                Ok(p) => {
                    ev!(c, "received ({})", kinds.join(", "));
                    got.push(p);
                    break;
                }
                Err(_) => c.probe("refused-at-decoding"),
            }
        }
    }
    if c.t.chance(1, 2) {
        if let Ok(p) = P::de(&base.write()) {
            got.push(p);
        }
    }
    (got, w)
}

fn go<P: Storm>(c: &mut Ctx) -> R {
    let (mut have, _w) = hostile::<P>(c);
    if have.is_empty() {
        return Ok(());
    }
    let n = *c.t.pick(&[8u64, 4, 16]);
    for _ in 0..n {
        c.now += 1 + c.t.below(50);
        let i = c.t.idx(have.len());
        let size = have.iter().map(|p| p.ser().len()).sum::<usize>();
        let s = alloc::start();
        let t = std::time::Instant::now();
        let (name, q) = P::op(c, &have[i], &have);
        let (peak, largest) = alloc::measure(s);
        // Scripts become trees of a few hundred bytes per byte, and errors tell about them.
        let bound = (72 << 20) + 2048 * size;
        ensure!(
            peak <= bound && largest <= bound,
            "allocates-too-much",
            "v{} {}: {} bytes at the peak, {} in one piece with PSBTs of {} bytes", P::V, name, peak, largest, size
        );
        if t.elapsed().as_secs() >= 20 {
            return fail("takes-too-long", format!("v{} {}", P::V, name));
        }
        c.probe(name);
        ev!(c, "{} with copy {}: {}", name, i, if q.is_some() { "done" } else { "nothing made" });
        if let Some(q) = q {
            // What a role makes can be sent and read by others.
            match P::de(&q.ser()) {
                Ok(_) => {}
                Err(e) => return fail("unreadable-result", format!("v{} after {}: {}", P::V, name, e)),
            }
            if have.len() < 5 {
                have.push(q);
            } else {
                have[i] = q;
            }
        }
    }
    for p in &have {
        c.state(&p.ser());
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> R {
    if c.t.chance(1, 2) {
        go::<v0::Psbt>(c)
    } else {
        go::<v2::Psbt>(c)
    }
}
