//! Generators: base PSBTs and records ("facts") that parties contribute to them.

use std::collections::BTreeSet;

use psbt_v2::bitcoin::consensus::encode::serialize;
use psbt_v2::bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use psbt_v2::bitcoin::secp256k1;
use psbt_v2::bitcoin::{
    absolute, transaction, Amount, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid,
    Witness,
};

use crate::ctx::Ctx;
use crate::keys::{cpk, path, pk, pool, N_KEYS};
use crate::raw::{compact, At, Raw};
use crate::typed::{key_source, prop_key};

/// Something one or more parties know and add to their copy.
#[derive(Clone, Debug)]
pub struct Fact {
    pub at: At,
    pub kind: &'static str,
    pub recs: Vec<(Vec<u8>, Vec<u8>)>,
    /// For the modifiable flags: bits cleared and bits set.
    pub flags: Option<(u8, u8)>,
}

fn key(t: u8, d: &[u8]) -> Vec<u8> {
    let mut o = vec![t];
    o.extend_from_slice(d);
    o
}

/// A length, small most of the time, at an encoding boundary once in a while.
pub fn len(c: &mut Ctx, small: u64) -> usize {
    match c.t.below(64) {
        0..=57 => c.t.range(0, small) as usize,
        58..=59 => 252,
        60..=61 => 253,
        62 => c.t.range(254, 1200) as usize,
        _ => *c.t.pick(&[600usize, 1023, 1024, 1025, 2000, 65535, 65536]),
    }
}

/// Any number, often one at an edge.
pub fn num(c: &mut Ctx) -> u32 {
    match c.t.below(4) {
        0 => c.t.below(300) as u32,
        1 | 2 => *c.t.pick(&[
            0u32,
            1,
            0xffff_ffff,
            0xffff_fffe,
            0x7fff_ffff,
            0x8000_0000,
            0x8000_0001,
            499_999_999,
            500_000_000,
            0xff,
            0x100,
            0xffff,
            0x1_0000,
            1 << 22,
            1 << 24,
        ]),
        _ => c.t.u32(),
    }
}

/// Bytes that now and then share a beginning, an end or everything with others.
pub fn confusable(c: &mut Ctx) -> Vec<u8> {
    c.t.pick(&[&b""[..], b"a", b"ab", b"b", b"abc", b"bc", &[0], &[0, 0], &[0xff], &[0xfc, 1, b'a']]).to_vec()
}

/// A hash, now and then one others have too.
pub fn hash(c: &mut Ctx) -> [u8; 32] {
    match c.t.below(6) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => [1; 32],
        _ => c.t.arr(),
    }
}

pub fn script(c: &mut Ctx) -> ScriptBuf {
    match c.t.below(6) {
        0 => ScriptBuf::from_bytes([&[0x00, 0x14][..], &c.t.bytes(20)].concat()),
        1 => ScriptBuf::from_bytes([&[0x76, 0xa9, 0x14][..], &c.t.bytes(20), &[0x88, 0xac]].concat()),
        2 => ScriptBuf::from_bytes([&[0x00, 0x20][..], &c.t.bytes(32)].concat()),
        3 => ScriptBuf::from_bytes([&[0xa9, 0x14][..], &c.t.bytes(20), &[0x87]].concat()),
        4 => ScriptBuf::from_bytes([&[0x51, 0x20][..], &c.t.bytes(32)].concat()),
        _ => {
            let n = len(c, 30);
            ScriptBuf::from_bytes(c.t.bytes(n))
        }
    }
}

pub fn amount(c: &mut Ctx) -> Amount {
    Amount::from_sat(match c.t.below(10) {
        0..=4 => c.t.range(1, 1_000_000),
        5 => 0,
        6 => 2_100_000_000_000_000,
        7 => *c.t.pick(&[1u64, u64::MAX, 1 << 32, 1 << 63, u32::MAX as u64, 2_100_000_000_000_001]),
        8 => c.t.u64(),
        _ => c.t.below(1 << 50),
    })
}

pub fn txout(c: &mut Ctx) -> TxOut { TxOut { value: amount(c), script_pubkey: script(c) } }

/// A previous transaction with at least `vout + 1` outputs.
pub fn prev_tx(c: &mut Ctx, vout: u32) -> Transaction {
    let nin = if c.t.chance(1, 256) { *c.t.pick(&[253u64, 20]) } else { c.t.range(1, 2) };
    let input = (0..nin)
        .map(|_| TxIn {
            previous_output: OutPoint { txid: Txid::from_byte_array(c.t.arr()), vout: c.t.below(4) as u32 },
            script_sig: if c.t.chance(1, 2) { script(c) } else { ScriptBuf::new() },
            sequence: Sequence(num(c)),
            witness: if c.t.chance(1, 3) {
                let n = c.t.range(0, 30) as usize;
                Witness::from_slice(&[c.t.bytes(n), c.t.bytes(3)])
            } else {
                Witness::new()
            },
        })
        .collect();
    let nout = vout as u64 + if c.t.chance(1, 256) { *c.t.pick(&[253u64, 20]) } else { c.t.range(1, 2) };
    Transaction {
        version: transaction::Version(*c.t.pick(&[1i32, 2, 2, 3, 0, -1])),
        lock_time: absolute::LockTime::from_consensus(if c.t.chance(1, 4) { num(c) } else { c.t.below(3) as u32 * 100 }),
        input,
        output: (0..nout).map(|_| txout(c)).collect(),
    }
}

pub struct Base {
    pub raw: Raw,
    /// The previous transaction of each input.
    pub prev: Vec<Transaction>,
    pub vouts: Vec<u32>,
}

/// How inputs pick their required lock times.
pub fn lock_reqs(c: &mut Ctx, n: usize) -> Vec<(Option<u32>, Option<u32>)> {
    // (time, height); one mood per PSBT so that most combinations are compatible.
    let mood = c.t.below(6);
    (0..n)
        .map(|_| {
            let t = Some(match c.t.below(16) {
                0 => *c.t.pick(&[500_000_000u32, u32::MAX, 1 << 31, u32::MAX - 1, (1 << 31) - 1]),
                1 => c.t.range(500_000_000, u32::MAX as u64) as u32,
                _ => 500_000_000 + c.t.below(1_000_000) as u32,
            });
            let h = Some(match c.t.below(16) {
                0 => *c.t.pick(&[499_999_999u32, 1, 2, 1 << 24, 0]),
                1 => c.t.range(1, 499_999_999) as u32,
                _ => c.t.below(800_000) as u32 + 1,
            });
            match (mood, c.t.below(3)) {
                (0 | 1, _) => (None, None),
                (2, x) => (None, if x == 0 { None } else { h }),
                (3, x) => (if x == 0 { None } else { t }, None),
                (4, x) => match x {
                    0 => (None, None),
                    1 => (t, h),
                    _ => (t, None),
                },
                (_, x) => match x {
                    0 => (None, h),
                    1 => (t, h),
                    _ => (if c.t.chance(1, 3) { t } else { None }, h),
                },
            }
        })
        .collect()
}

/// A base PSBT: the records that define the transaction.
pub fn base(c: &mut Ctx, v: u8) -> Base {
    if c.t.chance(1, 500) {
        // More maps than fit a one-byte count, or just as many as do.
        let n = *c.t.pick(&[253usize, 252, 255, 256, 300]);
        let m = c.t.range(1, 2) as usize;
        return match c.t.below(2) {
            0 => base_n(c, v, n, m),
            _ => base_n(c, v, m, n),
        };
    }
    let nin = match c.t.below(16) {
        0..=6 => 1,
        7..=10 => 2,
        11..=13 => 3,
        14 => 4,
        _ => 0,
    } as usize;
    let nout = match c.t.below(16) {
        0..=7 => 1,
        8..=11 => 2,
        12..=13 => 3,
        14 => 4,
        _ => 0,
    } as usize;
    base_n(c, v, nin, nout)
}

pub fn base_n(c: &mut Ctx, v: u8, nin: usize, nout: usize) -> Base {
    let mut raw = Raw { v, ..Default::default() };
    let mut prev = vec![];
    let mut vouts = vec![];
    let version = *c.t.pick(&[2i32, 1, 2, 3, -1, 0, i32::MIN]);
    for _ in 0..nin {
        let vout = c.t.below(3) as u32;
        prev.push(prev_tx(c, vout));
        // Possibly one that does not exist.
        vouts.push(if c.t.chance(1, 8) { num(c) } else { vout });
    }
    let outs: Vec<TxOut> = (0..nout).map(|_| txout(c)).collect();
    if v == 2 {
        raw.g.insert(vec![0xfb], 2u32.to_le_bytes().to_vec());
        raw.g.insert(vec![0x02], version.to_le_bytes().to_vec());
        if c.t.chance(1, 2) {
            let lt = if c.t.chance(1, 2) { num(c) } else { c.t.below(900_000) as u32 };
            raw.g.insert(vec![0x03], lt.to_le_bytes().to_vec());
        }
        raw.g.insert(vec![0x04], compact(nin as u64));
        raw.g.insert(vec![0x05], compact(nout as u64));
        let flags = if c.t.chance(1, 8) { c.t.below(256) as u8 } else { c.t.below(8) as u8 };
        raw.g.insert(vec![0x06], vec![flags]);
        let reqs = lock_reqs(c, nin);
        for i in 0..nin {
            let mut m = crate::raw::RMap::new();
            m.insert(vec![0x0e], prev[i].compute_txid().as_byte_array().to_vec());
            m.insert(vec![0x0f], vouts[i].to_le_bytes().to_vec());
            if c.t.chance(1, 3) {
                m.insert(vec![0x10], seq(c).to_le_bytes().to_vec());
            }
            if let Some(t) = reqs[i].0 {
                m.insert(vec![0x11], t.to_le_bytes().to_vec());
            }
            if let Some(h) = reqs[i].1 {
                m.insert(vec![0x12], h.to_le_bytes().to_vec());
            }
            raw.ins.push(m);
        }
        for o in &outs {
            let mut m = crate::raw::RMap::new();
            m.insert(vec![0x03], o.value.to_sat().to_le_bytes().to_vec());
            m.insert(vec![0x04], o.script_pubkey.to_bytes());
            raw.outs.push(m);
        }
    } else {
        let tx = Transaction {
            version: transaction::Version(version),
            lock_time: absolute::LockTime::from_consensus(if c.t.chance(1, 2) {
                num(c)
            } else {
                0
            }),
            input: (0..nin)
                .map(|i| TxIn {
                    previous_output: OutPoint { txid: prev[i].compute_txid(), vout: vouts[i] },
                    script_sig: ScriptBuf::new(),
                    sequence: Sequence(seq(c)),
                    witness: Witness::new(),
                })
                .collect(),
            output: outs,
        };
        raw.g.insert(vec![0x00], crate::raw::write_unsigned_tx(&tx));
        raw.ins = vec![Default::default(); nin];
        raw.outs = vec![Default::default(); nout];
    }
    Base { raw, prev, vouts }
}

pub fn seq(c: &mut Ctx) -> u32 {
    match c.t.below(5) {
        0 => 0xffff_ffff,
        1 => 0xffff_fffe,
        2 => 0xffff_fffd,
        3 => c.t.below(1 << 16) as u32,
        _ => num(c),
    }
}

fn der_sig(c: &mut Ctx) -> Vec<u8> {
    let p = pool();
    let mut s = if c.t.chance(1, 16) {
        // As short as they get.
        vec![0x30, 0x06, 0x02, 0x01, c.t.range(1, 127) as u8, 0x02, 0x01, c.t.range(1, 127) as u8]
    } else {
        c.t.pick(&p.sigs).serialize_der().to_vec()
    };
    s.push(*c.t.pick(&[0x01u8, 0x02, 0x03, 0x81, 0x82, 0x83]));
    s
}

fn schnorr_sig(c: &mut Ctx) -> Vec<u8> {
    let p = pool();
    let mut s = if c.t.chance(1, 4) { c.t.bytes(64) } else { c.t.pick(&p.schnorr).serialize().to_vec() };
    if c.t.chance(1, 2) {
        s.push(*c.t.pick(&[0x01u8, 0x02, 0x03, 0x81, 0x82, 0x83]));
    }
    s
}

pub fn rand_key_source(c: &mut Ctx) -> Vec<u8> {
    let mut o = match c.t.below(8) {
        0 => vec![0; 4],
        1 => vec![0xff; 4],
        _ => c.t.bytes(4),
    };
    let n = if c.t.chance(1, 64) {
        *c.t.pick(&[61usize, 62, 63, 64, 255, 256, 300])
    } else {
        *c.t.pick(&[2usize, 0, 1, 3, 5])
    };
    for _ in 0..n {
        let i = match c.t.below(8) {
            0 => num(c),
            _ => c.t.below(100) as u32 | if c.t.chance(1, 2) { 1 << 31 } else { 0 },
        };
        o.extend(i.to_le_bytes());
    }
    o
}

fn pubkey_any(c: &mut Ctx) -> Vec<u8> {
    let i = c.t.idx(N_KEYS);
    if c.t.chance(1, 6) {
        pool().pks[i].serialize_uncompressed().to_vec()
    } else {
        pk(i).to_bytes()
    }
}

fn tap_origin(c: &mut Ctx) -> Vec<u8> {
    let n = if c.t.chance(1, 64) { *c.t.pick(&[8u64, 252, 253, 16]) } else { c.t.below(4) };
    let hashes: std::collections::BTreeSet<[u8; 32]> = (0..n).map(|_| if n < 8 { hash(c) } else { c.t.arr() }).collect();
    // In any order.
    let mut hashes: Vec<_> = hashes.into_iter().collect();
    let r = c.t.idx(hashes.len().max(1));
    hashes.rotate_left(r);
    let mut o = compact(hashes.len() as u64);
    for h in hashes {
        o.extend(h);
    }
    o.extend(rand_key_source(c));
    o
}

/// The depths of the leaves of a random binary tree, from left to right.
fn tree_depths(c: &mut Ctx) -> Vec<u8> {
    let mut d = vec![0u8];
    if c.t.chance(1, 64) {
        // As deep as a tree may be.
        let n = *c.t.pick(&[128u8, 127, 64]);
        let mut d: Vec<u8> = (1..=n).collect();
        d.push(n);
        if c.t.chance(1, 2) {
            d.reverse();
        }
        return d;
    }
    let n = if c.t.chance(1, 32) { *c.t.pick(&[16u64, 40, 252, 253]) } else { c.t.below(6) };
    for _ in 0..n {
        let i = c.t.idx(d.len());
        if d[i] < 128 {
            d[i] += 1;
            d.insert(i, d[i]);
        }
    }
    d
}

fn leaf_version(c: &mut Ctx) -> u8 {
    match c.t.below(4) {
        0 => *c.t.pick(&[0xc2u8, 0xfe, 0x66, 0x00, 0x02]),
        1 => {
            let v = c.t.below(128) as u8 * 2;
            // The annex mark is none.
            if v == 0x50 { 0xc0 } else { v }
        }
        _ => 0xc0,
    }
}

fn tap_tree(c: &mut Ctx) -> Vec<u8> {
    let depths = tree_depths(c);
    let mut o = vec![];
    let empty = if c.t.chance(1, 10) { c.t.idx(depths.len()) } else { depths.len() };
    for (i, d) in depths.iter().enumerate() {
        o.push(*d);
        o.push(leaf_version(c));
        if i == empty {
            o.push(0);
            continue;
        }
        let n = len(c, 20);
        // Distinct leaves.
        let mut s = vec![i as u8];
        s.extend(c.t.bytes(n));
        o.extend(compact(s.len() as u64));
        o.extend(s);
    }
    crate::typed::canonical_tap_tree(&o)
}

fn preimage(c: &mut Ctx, t: u8) -> (Vec<u8>, Vec<u8>) {
    let n = if c.t.chance(1, 2) { 32 } else { len(c, 40) };
    let p = c.t.bytes(n);
    (hash_rec(t, &p), p)
}

/// The key of a preimage's record.
pub fn hash_rec(t: u8, p: &[u8]) -> Vec<u8> {
    let h = match t {
        0x0a => ripemd160::Hash::hash(p).to_byte_array().to_vec(),
        0x0b => sha256::Hash::hash(p).to_byte_array().to_vec(),
        0x0c => hash160::Hash::hash(p).to_byte_array().to_vec(),
        _ => sha256d::Hash::hash(p).to_byte_array().to_vec(),
    };
    key(t, &h)
}

fn sp_pair(c: &mut Ctx, ecdh: u8, dleq: u8) -> Vec<(Vec<u8>, Vec<u8>)> {
    let s = cpk(c.t.idx(N_KEYS)).to_bytes();
    let e = cpk(c.t.idx(N_KEYS)).to_bytes();
    vec![(key(ecdh, &s), e.to_vec()), (key(dleq, &s), c.t.bytes(64))]
}

fn unknown(c: &mut Ctx, at: At, v: u8) -> (Vec<u8>, Vec<u8>) {
    // Key types without a meaning in either version for this map.
    let t = loop_type(c, at, v);
    let n = len(c, 8);
    let d = if c.t.chance(1, 4) { confusable(c) } else { c.t.bytes(n) };
    let m = len(c, 24);
    (key(t, &d), if c.t.chance(1, 8) { confusable(c) } else { c.t.bytes(m) })
}

fn loop_type(c: &mut Ctx, at: At, v: u8) -> u8 {
    let special: &[u8] = match (at, v) {
        (At::G, 2) => &[0x09, 0xfa, 0xfd, 0xff, 0xf0],
        (At::G, _) => &[0x09, 0xfa, 0xfd, 0xff, 0xf0],
        (At::In(_), 2) => &[0x09, 0x19, 0x1a, 0x1c, 0x1f, 0xfb, 0xfd, 0xff],
        (At::In(_), _) => &[0x09, 0x19, 0x1a, 0x1c, 0x1f, 0xfb, 0xfd, 0xff],
        (At::Out(_), 2) => &[0x08, 0x0b, 0x20, 0xfb, 0xfd, 0xff],
        (At::Out(_), _) => &[0x08, 0x0b, 0x20, 0xfb, 0xfd, 0xff],
    };
    if c.t.chance(1, 2) {
        *c.t.pick(special)
    } else {
        c.t.range(0x21, 0xf0) as u8
    }
}

fn prop(c: &mut Ctx) -> (Vec<u8>, Vec<u8>) {
    let n = *c.t.pick(&[3usize, 0, 1, 10, 252, 253]);
    let prefix = c.t.bytes(n);
    let st = c.t.below(256) as u8;
    let n = if c.t.chance(1, 20) { *c.t.pick(&[1023usize, 1024, 1025, 1500, 3000]) } else { len(c, 12) };
    let kd = c.t.bytes(n);
    let m = len(c, 24);
    if c.t.chance(1, 4) {
        // The same letters cut in other places.
        let (prefix, kd) = (confusable(c), confusable(c));
        let st = *c.t.pick(&[0u8, 1, b'a', b'b', 0xff]);
        return (key(0xfc, &prop_key(&prefix, st, &kd)), confusable(c));
    }
    (key(0xfc, &prop_key(&prefix, st, &kd)), c.t.bytes(m))
}

fn f(at: At, kind: &'static str, recs: Vec<(Vec<u8>, Vec<u8>)>) -> Fact {
    Fact { at, kind, recs, flags: None }
}

/// What most facts of one PSBT are about: a map, and a number that stands for a kind.
pub type Focus = Option<(At, Option<u64>)>;

pub fn focus(c: &mut Ctx, b: &Base) -> Focus {
    if !c.t.chance(1, 12) {
        return None;
    }
    let at = b.raw.maps()[c.t.idx(b.raw.maps().len())].0;
    Some((at, if c.t.chance(1, 4) { None } else { Some(c.t.below(24)) }))
}

/// One compatible fact for a map of this base, or nothing if the drawn one is taken already.
pub fn fact(c: &mut Ctx, b: &Base, used: &mut BTreeSet<(At, Vec<u8>)>, focus: Focus) -> Option<Fact> {
    let v = b.raw.v;
    let maps: Vec<At> = b.raw.maps().iter().map(|(a, _)| *a).collect();
    let focus = if focus.is_some() && c.t.chance(1, 8) { None } else { focus };
    let at = match focus {
        Some((at, _)) => at,
        None if maps.len() > 1 && !c.t.chance(1, 4) => maps[1 + c.t.idx(maps.len() - 1)],
        None => At::G,
    };
    let focused = focus.and_then(|f| f.1);
    let kind = |c: &mut Ctx, n: u64| match focused {
        Some(k) => k % n,
        None => c.t.below(n),
    };
    let fact = match at {
        At::G => match kind(c, if v == 2 { 7 } else { 3 }) {
            0 => f(at, "unknown", vec![unknown(c, at, v)]),
            1 => f(at, "proprietary", vec![prop(c)]),
            2 => {
                let x = c.t.pick(&pool().all_xpubs).encode();
                f(at, "xpub", vec![(key(0x01, &x), rand_key_source(c))])
            }
            3 => f(at, "sp-share", sp_pair(c, 0x07, 0x08)),
            4 => {
                // A fallback does not change the transaction if an input requires a lock time.
                let req = b.raw.ins.iter().any(|m| m.contains_key(&vec![0x11u8]) || m.contains_key(&vec![0x12u8]));
                if !req {
                    return None;
                }
                f(at, "fallback", vec![(vec![0x03], num(c).to_le_bytes().to_vec())])
            }
            5 => {
                let bit = 1 << c.t.below(2);
                Fact { at, kind: "flag-clear", recs: vec![], flags: Some((bit, 0)) }
            }
            _ => {
                let bit = *c.t.pick(&[4u8, 8, 64, 128]);
                Fact { at, kind: "flag-set", recs: vec![], flags: Some((0, bit)) }
            }
        },
        At::In(i) => match kind(c, if v == 2 { 24 } else { 22 }) {
            0 => f(at, "unknown", vec![unknown(c, at, v)]),
            1 => f(at, "proprietary", vec![prop(c)]),
            2 | 3 => f(at, "partial-sig", vec![(key(0x02, &pubkey_any(c)), der_sig(c))]),
            4 => {
                let t = if c.t.chance(1, 4) { num(c) } else { *c.t.pick(&[1u32, 2, 3, 0x81, 0x82, 0x83]) };
                f(at, "sighash", vec![(vec![0x03], t.to_le_bytes().to_vec())])
            }
            5 => f(at, "redeem", vec![(vec![0x04], script(c).to_bytes())]),
            6 => f(at, "wscript", vec![(vec![0x05], script(c).to_bytes())]),
            7 => f(at, "bip32", vec![(key(0x06, &pk(c.t.idx(N_KEYS)).to_bytes()), rand_key_source(c))]),
            8 => f(at, "final-sig", vec![(vec![0x07], script(c).to_bytes())]),
            9 => {
                let n = if c.t.chance(1, 32) { *c.t.pick(&[11u64, 100, 252, 253]) } else { c.t.below(4) };
                let items: Vec<Vec<u8>> = (0..n)
                    .map(|_| {
                        let l = len(c, 70);
                        c.t.bytes(l)
                    })
                    .collect();
                f(at, "final-witness", vec![(vec![0x08], serialize(&Witness::from_slice(&items)))])
            }
            10 => f(at, "ripemd160", vec![preimage(c, 0x0a)]),
            11 => f(at, "sha256", vec![preimage(c, 0x0b)]),
            12 => f(at, "hash160", vec![preimage(c, 0x0c)]),
            13 => f(at, "hash256", vec![preimage(c, 0x0d)]),
            14 => f(at, "tap-key-sig", vec![(vec![0x13], schnorr_sig(c))]),
            15 => {
                let x = pool().xonly[c.t.idx(N_KEYS)].serialize();
                let h = hash(c);
                f(at, "tap-script-sig", vec![(key(0x14, &[x, h].concat()), schnorr_sig(c))])
            }
            16 => {
                let n = if c.t.chance(1, 32) { *c.t.pick(&[6usize, 7, 127, 128]) } else { c.t.below(4) as usize };
                let ver = leaf_version(c);
                let mut cb = vec![ver | c.t.below(2) as u8];
                cb.extend(pool().xonly[c.t.idx(N_KEYS)].serialize());
                cb.extend(c.t.bytes(32 * n));
                let mut val = script(c).to_bytes();
                val.push(ver);
                f(at, "tap-leaf", vec![(key(0x15, &cb), val)])
            }
            17 => {
                let x = pool().xonly[c.t.idx(N_KEYS)].serialize();
                f(at, "tap-bip32", vec![(key(0x16, &x), tap_origin(c))])
            }
            18 => f(at, "tap-internal", vec![(vec![0x17], pool().xonly[c.t.idx(N_KEYS)].serialize().to_vec())]),
            19 => f(at, "tap-root", vec![(vec![0x18], hash(c).to_vec())]),
            20 => f(at, "non-witness-utxo", vec![(vec![0x00], serialize(&b.prev[i]))]),
            21 => {
                let o = match b.prev[i].output.get(b.vouts[i] as usize) {
                    Some(o) => o.clone(),
                    None => txout(c),
                };
                f(at, "witness-utxo", vec![(vec![0x01], serialize(&o))])
            }
            22 => f(at, "sp-share", sp_pair(c, 0x1d, 0x1e)),
            _ => f(at, "sequence", vec![(vec![0x10], seq(c).to_le_bytes().to_vec())]),
        },
        At::Out(_) => match kind(c, if v == 2 { 9 } else { 8 }) {
            0 => f(at, "unknown", vec![unknown(c, at, v)]),
            1 => f(at, "proprietary", vec![prop(c)]),
            2 => f(at, "redeem", vec![(vec![0x00], script(c).to_bytes())]),
            3 => f(at, "wscript", vec![(vec![0x01], script(c).to_bytes())]),
            4 => f(at, "bip32", vec![(key(0x02, &pk(c.t.idx(N_KEYS)).to_bytes()), rand_key_source(c))]),
            5 => f(at, "tap-internal", vec![(vec![0x05], pool().xonly[c.t.idx(N_KEYS)].serialize().to_vec())]),
            6 => f(at, "tap-tree", vec![(vec![0x06], tap_tree(c))]),
            7 => {
                let x = pool().xonly[c.t.idx(N_KEYS)].serialize();
                f(at, "tap-bip32", vec![(key(0x07, &x), tap_origin(c))])
            }
            _ => {
                let mut info = cpk(c.t.idx(N_KEYS)).to_bytes().to_vec();
                info.extend(cpk(c.t.idx(N_KEYS)).to_bytes());
                let mut recs = vec![(vec![0x09], info)];
                if c.t.chance(1, 2) {
                    recs.push((vec![0x0a], num(c).to_le_bytes().to_vec()));
                }
                f(at, "sp-info", recs)
            }
        },
    };
    let mut fact = fact;
    if fact.flags.is_none() {
        // The same public key in its two encodings counts as one key for key origins only.
        for (k, _) in &fact.recs {
            if used.contains(&(at, k.clone())) || b.raw.map(at).contains_key(k) {
                return None;
            }
        }
        for (k, _) in &fact.recs {
            used.insert((at, k.clone()));
        }
        // A proprietary or unknown record is sometimes known in other maps as well.
        fact.recs.dedup();
    }
    Some(fact)
}

/// Several facts for one base.
pub fn facts(c: &mut Ctx, b: &Base, n: usize) -> Vec<Fact> {
    let mut used = BTreeSet::new();
    let mut out = vec![];
    let fo = focus(c, b);
    let n = if fo.is_some() { n * 2 } else { n };
    for _ in 0..n {
        if let Some(f) = fact(c, b, &mut used, fo) {
            // A chain of origins for one xpub, the longest one has to survive.
            if f.kind == "xpub" && c.t.chance(1, 2) {
                let v = f.recs[0].1.clone();
                let n = v.len() / 4 - 1;
                if n > 0 {
                    let drop = 1 + c.t.idx(n);
                    let mut w = c.t.bytes(4);
                    w.extend_from_slice(&v[4 + 4 * drop..]);
                    out.push(Fact { recs: vec![(f.recs[0].0.clone(), w)], ..f.clone() });
                }
            }
            out.push(f);
        }
    }
    out
}

/// Merges one record into a map model, by the rules of the combiner.
pub fn merge_rec(v: u8, at: At, m: &mut crate::raw::RMap, k: &[u8], val: &[u8]) {
    match m.get_mut(k) {
        None => {
            m.insert(k.to_vec(), val.to_vec());
        }
        Some(old) => {
            if at == At::G && k[0] == 0x01 {
                if val.len() > old.len() {
                    *old = val.to_vec();
                }
            } else if v == 2 && at == At::G && k == [0x06] {
                let (a, b) = (old[0], val[0]);
                old[0] = (a & b & 3) | ((a | b) & !3);
            }
        }
    }
}

/// The union of two raw PSBTs of one transaction.
pub fn union(a: &Raw, b: &Raw) -> Raw {
    let mut o = a.clone();
    for (at, m) in b.maps() {
        for (k, v) in m {
            merge_rec(a.v, at, o.map_mut(at), k, v);
        }
    }
    o
}

/// Applies a fact to a raw PSBT.
pub fn apply_raw(r: &mut Raw, f: &Fact) {
    if let Some((clear, set)) = f.flags {
        let fl = r.g.get_mut(&vec![0x06u8]).expect("v2");
        fl[0] = fl[0] & !clear | set;
        return;
    }
    let v = r.v;
    for (k, val) in &f.recs {
        merge_rec(v, f.at, r.map_mut(f.at), k, val);
    }
}

pub fn xpub_rec(i: usize, fp: [u8; 4], p: &[u32]) -> (Vec<u8>, Vec<u8>) {
    (
        key(0x01, &pool().xpubs[i].encode()),
        key_source(&(psbt_v2::bitcoin::bip32::Fingerprint::from(fp), path(p))),
    )
}

pub fn secp_pk(i: usize) -> secp256k1::PublicKey { pool().pks[i] }
