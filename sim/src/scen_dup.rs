//! C07: foreign writers that order records differently, replay journals, or leave records out.

use psbt_v2::{v0, v2};

use crate::ctx::{fail, Ctx, R};
use crate::gen::{apply_raw, base, fact, facts, Base};
use crate::raw::{compact, put, At, Raw};
use crate::scen_combine::check_model;
use crate::typed::{Enc, Ps};
use crate::{ensure, ev};

type Rec = (Vec<u8>, Vec<u8>);

/// The maps as lists of records in the order they are written.
#[derive(Clone)]
struct Journal {
    maps: Vec<(At, Vec<Rec>)>,
}

impl Journal {
    fn of(r: &Raw) -> Journal {
        Journal {
            maps: r
                .maps()
                .into_iter()
                .map(|(a, m)| (a, m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()))
                .collect(),
        }
    }

    fn shuffle(&mut self, c: &mut Ctx) {
        for (_, m) in self.maps.iter_mut() {
            let p = c.t.perm(m.len());
            *m = p.into_iter().map(|i| m[i].clone()).collect();
        }
    }

    fn write(&self) -> Vec<u8> {
        let mut o = b"psbt\xff".to_vec();
        for (_, m) in &self.maps {
            for (k, v) in m {
                put(&mut o, k, v);
            }
            o.push(0);
        }
        o
    }
}

/// Another valid value for a record.
fn alternative(c: &mut Ctx, b: &Base, at: At, rec: &Rec) -> Option<Vec<u8>> {
    let t = rec.0[0];
    let required: &[u8] = match (at, b.raw.v) {
        (At::G, 2) => &[2, 3, 6],
        (At::In(_), 2) => &[0x0e, 0x0f, 0x10],
        (At::Out(_), 2) => &[3, 4],
        _ => &[],
    };
    if required.contains(&t) && rec.0.len() == 1 {
        return Some(c.t.bytes(rec.1.len()));
    }
    for _ in 0..60 {
        let mut used = Default::default();
        if let Some(f) = fact(c, b, &mut used, Some((at, None))) {
            if f.at == at && f.recs.first().map(|r| r.0[0]) == Some(t) {
                return Some(f.recs[0].1.clone());
            }
        }
    }
    None
}

fn refused<P: Ps>(c: &mut Ctx, b: &[u8], class: &str, what: &str) -> R {
    let e = *c.t.pick(&[Enc::Bytes, Enc::Bytes, Enc::Base64]);
    // Text made here, so that nothing of the code under test takes part.
    let got = match e {
        Enc::Base64 => P::from_text(&crate::scen_damage::base64_text(b)),
        _ => P::de(b),
    };
    if got.is_ok() {
        return fail(class, what);
    }
    Ok(())
}

fn orders<P: Ps>(c: &mut Ctx, m: &Raw) -> R {
    let canonical = match P::de(&m.write()) {
        Ok(p) => p,
        Err(e) => return fail("decode-refused", format!("canonical order: {}", e)),
    };
    check_model(&canonical, m, "decode-wrong", "canonical order")?;
    let n = *c.t.pick(&[2u64, 1, 4]);
    for _ in 0..n {
        c.now += 1;
        let mut j = Journal::of(m);
        j.shuffle(c);
        c.fault("records-reordered");
        let b = j.write();
        match P::de(&b) {
            Ok(p) => {
                ensure!(p == canonical, "order-matters", "decodes differently: {:?}", p.to_raw().diff(m));
                ensure!(p.ser() == canonical.ser(), "order-matters", "serialises differently");
            }
            Err(e) => return fail("order-matters", format!("refused: {}", e)),
        }
        ev!(c, "records reordered, {} bytes", b.len());
    }
    c.state(&canonical.ser());
    Ok(())
}

fn replays<P: Ps>(c: &mut Ctx, b: &Base, m: &Raw) -> R {
    let n = *c.t.pick(&[4u64, 2, 8]);
    let explicit = P::V == 0 && c.t.chance(1, 2);
    for _ in 0..n {
        c.now += 1;
        let mut j = Journal::of(m);
        if explicit {
            // Version 0 may be stated.
            j.maps[0].1.push((vec![0xfb], vec![0; 4]));
        }
        if c.t.chance(1, 2) {
            j.shuffle(c);
        }
        // The journal is replayed from some record on.
        let full: Vec<usize> =
            j.maps.iter().enumerate().filter(|(_, x)| !x.1.is_empty()).map(|(i, _)| i).collect();
        let mi = full[c.t.idx(full.len())];
        let (at, map) = &mut j.maps[mi];
        let at = *at;
        let i = c.t.idx(map.len());
        let mut rec = map[i].clone();
        let mut how = "same value";
        if c.t.chance(1, 2) {
            if let Some(v) = alternative(c, b, at, &rec) {
                if v != rec.1 {
                    how = "another value";
                    rec.1 = v;
                }
            }
        }
        let pos = match c.t.below(3) {
            0 => i + 1,
            1 => map.len(),
            _ => c.t.idx(map.len() + 1),
        };
        map.insert(pos, rec.clone());
        if c.t.chance(1, 6) {
            // More of the journal follows.
            let again = map[c.t.idx(map.len())].clone();
            map.push(again);
        }
        c.fault("journal-replayed");
        let what = format!("v{} {:?} record {} repeated at {} of {} with {}", P::V, at, crate::ctx::short(&rec.0), pos, map.len(), how);
        ev!(c, "{}", what);
        refused::<P>(c, &j.write(), "duplicate-accepted", &what)?;
    }
    Ok(())
}

/// Records without a companion, of the wrong version or with wrong key data.
fn rules<P: Ps>(c: &mut Ctx, m: &Raw) -> R {
    let n = *c.t.pick(&[4u64, 2, 8]);
    for _ in 0..n {
        c.now += 1;
        let mut r = m.clone();
        let v2 = P::V == 2;
        let what: String;
        let ni = r.ins.len();
        let no = r.outs.len();
        match c.t.below(20) {
            0 if v2 => {
                let k = *c.t.pick(&[0x02u8, 0x04, 0x05, 0xfb]);
                r.g.remove(&vec![k]);
                what = format!("no global {:02x}", k);
            }
            1 if v2 && ni > 0 => {
                let k = *c.t.pick(&[0x0eu8, 0x0f]);
                let i = c.t.idx(ni);
                r.ins[i].remove(&vec![k]);
                what = format!("no input {:02x}", k);
            }
            2 if v2 && no > 0 => {
                let i = c.t.idx(no);
                r.outs[i].remove(&vec![0x03u8]);
                what = "no amount".into();
            }
            3 if v2 => {
                // A transaction has no place in version 2.
                let tx = psbt_v2::bitcoin::Transaction {
                    version: psbt_v2::bitcoin::transaction::Version::TWO,
                    lock_time: psbt_v2::bitcoin::absolute::LockTime::ZERO,
                    input: vec![],
                    output: vec![],
                };
                r.g.insert(vec![0x00], crate::raw::write_unsigned_tx(&tx));
                what = "unsigned transaction in v2".into();
            }
            4 => {
                let v = if v2 { *c.t.pick(&[0u32, 1, 3, 2 << 8, u32::MAX]) } else { *c.t.pick(&[1u32, 2, 3, u32::MAX]) };
                r.g.insert(vec![0xfb], v.to_le_bytes().to_vec());
                what = format!("version {}", v);
            }
            5 if v2 => {
                // More maps announced than there are.
                let k = *c.t.pick(&[4u8, 5]);
                let n = if k == 4 { ni } else { no } as u64 + 1 + c.t.below(3);
                r.g.insert(vec![k], compact(n));
                what = format!("global {:02x} announces {}", k, n);
            }
            6 => {
                // A record that has no key data gets some.
                let (at, k) = match pick_rec(c, &r, |at, k| single(P::V, at, k)) {
                    Some(x) => x,
                    None => continue,
                };
                let v = r.map_mut(at).remove(&k).unwrap();
                let n = 1 + c.t.idx(3);
                let mut k2 = k.clone();
                k2.extend(c.t.bytes(n));
                r.map_mut(at).insert(k2, v);
                what = format!("{:?} record {:02x} with key data", at, k[0]);
            }
            7 => {
                // Key data of the wrong length.
                let (at, k) = match pick_rec(c, &r, |at, k| keyed(P::V, at, k)) {
                    Some(x) => x,
                    None => continue,
                };
                let v = r.map_mut(at).remove(&k).unwrap();
                let mut k2 = k.clone();
                match c.t.below(3) {
                    0 => k2.truncate(1),
                    1 => {
                        k2.pop();
                    }
                    _ => k2.push(c.t.below(256) as u8),
                }
                r.map_mut(at).insert(k2, v);
                what = format!("{:?} record {} with key data of a wrong length", at, crate::ctx::short(&k));
            }
            8 => {
                // A preimage of something else.
                let (at, k) = match pick_rec(c, &r, |at, k| matches!(at, At::In(_)) && (0x0a..=0x0d).contains(&k[0])) {
                    Some(x) => x,
                    None => continue,
                };
                let v = r.map_mut(at).get_mut(&k).unwrap();
                if v.is_empty() || c.t.chance(1, 3) {
                    v.push(1);
                } else {
                    let i = c.t.idx(v.len());
                    v[i] ^= 1 << c.t.below(8);
                }
                what = format!("{:?} preimage {:02x} does not match", at, k[0]);
            }
            9 if v2 => {
                let pairs: &[(u8, u8)] = if ni > 0 && c.t.chance(1, 2) { &[(0x1d, 0x1e)] } else { &[(0x07, 0x08)] };
                let (e, d) = pairs[0];
                let at = if e == 0x1d { At::In(c.t.idx(ni)) } else { At::G };
                let m = r.map_mut(at);
                m.retain(|k, _| k[0] != e && k[0] != d);
                let key = crate::keys::cpk(c.t.idx(crate::keys::N_KEYS)).to_bytes();
                // Whether the proofs are those of the shares' keys is not the decoder's business.
                let half = c.t.below(2);
                if half == 0 {
                    m.insert([&[e][..], &key].concat(), crate::keys::cpk(c.t.idx(crate::keys::N_KEYS)).to_bytes().to_vec());
                } else {
                    m.insert([&[d][..], &key].concat(), c.t.bytes(64));
                }
                what = format!("{:?} half a silent payment share ({})", at, half);
            }
            10 if v2 && no > 0 => {
                let i = c.t.idx(no);
                r.outs[i].remove(&vec![0x09u8]);
                r.outs[i].insert(vec![0x0a], c.t.u32().to_le_bytes().to_vec());
                what = "a silent payment label without info".into();
            }
            11 if !v2 => {
                // Records of version 2 only.
                if ni > 0 && c.t.chance(1, 2) {
                    let (k, n) = *c.t.pick(&[(0x0eu8, 32usize), (0x0f, 4), (0x10, 4), (0x11, 4), (0x12, 4)]);
                    let i = c.t.idx(ni);
                    r.ins[i].insert(vec![k], c.t.bytes(n));
                    what = format!("input {:02x} in v0", k);
                } else {
                    let (k, n) = *c.t.pick(&[(0x02u8, 4usize), (0x03, 4), (0x04, 1), (0x05, 1), (0x06, 1)]);
                    r.g.insert(vec![k], c.t.bytes(n));
                    what = format!("global {:02x} in v0", k);
                }
            }
            12 if !v2 => {
                // The unsigned transaction is already signed, in part.
                let mut tx = crate::raw::unsigned_tx(&m.g[&vec![0x00]]).expect("tx");
                if tx.input.is_empty() {
                    continue;
                }
                let i = c.t.idx(tx.input.len());
                let n = 1 + c.t.idx(3);
                let b = c.t.bytes(n);
                if c.t.chance(1, 2) {
                    tx.input[i].script_sig = psbt_v2::bitcoin::ScriptBuf::from_bytes(b);
                    what = format!("script sig in input {} of the unsigned transaction", i);
                } else {
                    tx.input[i].witness.push(b);
                    what = format!("witness in input {} of the unsigned transaction", i);
                }
                let b = psbt_v2::bitcoin::consensus::serialize(&tx);
                if matches!(crate::raw::unsigned_tx(&b), Ok(t) if t.input.iter().all(|i| i.script_sig.is_empty())) {
                    // By coincidence also a transaction without inputs in the format used here.
                    continue;
                }
                r.g.insert(vec![0x00], b);
            }
            13 if !v2 => {
                let tx = r.g.get_mut(&vec![0x00]).expect("tx");
                match c.t.below(3) {
                    0 => {
                        r.g.remove(&vec![0x00]);
                        what = "no unsigned transaction".into();
                    }
                    1 => {
                        tx.push(c.t.below(256) as u8);
                        what = "unsigned transaction with a byte more".into();
                    }
                    _ => {
                        tx.pop();
                        what = "unsigned transaction with a byte less".into();
                    }
                }
            }
            14 if !v2 => {
                // One input or output more than there are maps.
                let mut tx = crate::raw::unsigned_tx(&m.g[&vec![0x00]]).expect("tx");
                if !tx.input.is_empty() && c.t.chance(1, 2) {
                    let i = tx.input[0].clone();
                    tx.input.push(i);
                } else {
                    tx.output.push(psbt_v2::bitcoin::TxOut::NULL);
                }
                r.g.insert(vec![0x00], crate::raw::write_unsigned_tx(&tx));
                what = "a map less than the transaction has inputs and outputs".into();
            }
            15 => {
                // The version has four bytes.
                let n = *c.t.pick(&[3usize, 0, 1, 2, 5, 8]);
                let mut v = vec![0; n];
                if v2 && n > 0 {
                    v[0] = 2;
                }
                r.g.insert(vec![0xfb], v);
                what = format!("version of {} bytes", n);
            }
            16 => {
                // A key's origin: a fingerprint and whole steps.
                let origin = |at: At, k: &[u8]| match at {
                    At::G => k[0] == 1,
                    At::In(_) => matches!(k[0], 6 | 0x16),
                    At::Out(_) => matches!(k[0], 2 | 7),
                };
                let (at, k) = match pick_rec(c, &r, |at, k| k.len() > 1 && origin(at, k)) {
                    Some(x) => x,
                    None => {
                        // None there: an extended key, or a key, with one that is broken.
                        let i = c.t.idx(crate::keys::N_KEYS);
                        if ni > 0 {
                            (At::In(c.t.idx(ni)), [&[6][..], &crate::keys::cpk(i).to_bytes()].concat())
                        } else {
                            continue;
                        }
                    }
                };
                let short = c.t.chance(1, 4);
                let tap = !matches!(at, At::G) && matches!((at, k[0]), (At::In(_), 0x16) | (At::Out(_), 7));
                let v = r.map_mut(at).entry(k.clone()).or_insert_with(|| vec![1, 2, 3, 4]);
                if short && !tap {
                    let n = c.t.idx(4);
                    v.truncate(n);
                } else {
                    let n = 1 + c.t.idx(3);
                    v.extend(c.t.bytes(n));
                }
                what = format!("{:?} origin {} of {} bytes", at, crate::ctx::short(&k), v.len());
            }
            17 if v2 && ni > 0 => {
                // A time where a height belongs and the other way round.
                let i = c.t.idx(ni);
                let (k, v) = if c.t.chance(1, 2) {
                    (0x12u8, *c.t.pick(&[500_000_000u32, 500_000_001, 1 << 29, 1 << 30, 1 << 31, u32::MAX - 1, u32::MAX]))
                } else {
                    (0x11, *c.t.pick(&[499_999_999u32, 0, 1, 65_535, 1 << 28, 400_000_000]))
                };
                r.ins[i].insert(vec![k], v.to_le_bytes().to_vec());
                what = format!("In({}) {:02x} requires {}", i, k, v);
            }
            18 => {
                // Not a key, not a signature, not a script's place in a tree.
                let (at, k, v) = malformed(c, &r, P::V);
                let (k, v) = match k {
                    Some(k) => (k, v),
                    None => continue,
                };
                what = format!("{:?} record {} malformed: {}", at, crate::ctx::short(&k), crate::ctx::short(&v));
                r.map_mut(at).insert(k, v);
            }
            _ => {
                // Value of a wrong length, where the length is fixed.
                let (at, k) = match pick_rec(c, &r, |at, k| fixed(P::V, at, k)) {
                    Some(x) => x,
                    None => continue,
                };
                let v = r.map_mut(at).get_mut(&k).unwrap();
                // Some writers pad the counts (as the BIP-375 test vectors do), they are read.
                let count = P::V == 2 && at == At::G && (k == [0x04] || k == [0x05]);
                if count || c.t.chance(1, 2) {
                    v.pop();
                } else {
                    v.push(c.t.below(256) as u8);
                }
                what = format!("{:?} record {} with a value of {} bytes", at, crate::ctx::short(&k), v.len());
            }
        }
        c.fault("rule-broken");
        ev!(c, "v{} {}", P::V, what);
        let mut j = Journal::of(&r);
        if c.t.chance(1, 2) {
            j.shuffle(c);
        }
        refused::<P>(c, &j.write(), "invalid-accepted", &format!("v{} {}", P::V, what))?;
    }
    Ok(())
}

/// A record whose key or value no one can read.
fn malformed(c: &mut Ctx, r: &Raw, _v: u8) -> (At, Option<Vec<u8>>, Vec<u8>) {
    let none = (At::G, None, vec![]);
    let (ni, no) = (r.ins.len(), r.outs.len());
    // Neither a coordinate nor a key: greater than the field's size.
    let bad_x = [0xffu8; 32];
    let bad_pk = |c: &mut Ctx| -> Vec<u8> {
        match c.t.below(3) {
            0 => [&[*c.t.pick(&[0u8, 1, 5, 8, 0xff])][..], &crate::keys::cpk(0).to_bytes()[1..]].concat(),
            1 => [&[2u8][..], &bad_x].concat(),
            _ => vec![0; 33],
        }
    };
    let kind = c.t.below(10);
    if (kind == 5 || kind == 7) && no > 0 {
        let at = At::Out(c.t.idx(no));
        return match kind {
            5 => (at, Some(vec![5]), bad_x.to_vec()),
            _ => {
                // A tree that is no tree: too deep, not full, too full, of nothing, a length that lies.
                let v = match c.t.below(5) {
                    0 => vec![129, 0xc0, 1, 0x51],
                    1 => vec![1, 0xc0, 1, 0x51],
                    2 => vec![1, 0xc0, 1, 0x51, 1, 0xc0, 1, 0x51, 1, 0xc0, 1, 0x51],
                    3 => vec![],
                    _ => vec![0, 0xc0, 2, 0x51],
                };
                (at, Some(vec![6]), v)
            }
        };
    }
    if ni == 0 {
        return none;
    }
    let at = At::In(c.t.idx(ni));
    let sig = |n: usize| vec![1u8; n];
    match kind {
        0 => (at, Some([&[6][..], &bad_pk(c)].concat()), vec![1, 2, 3, 4]),
        1 => (at, Some([&[2][..], &bad_pk(c)].concat()), good_ecdsa()),
        2 => (at, Some(vec![0x17]), bad_x.to_vec()),
        3 => {
            let n = *c.t.pick(&[63usize, 0, 1, 66, 128]);
            (at, Some(vec![0x13]), sig(n))
        }
        4 => {
            let k = crate::keys::cpk(c.t.idx(crate::keys::N_KEYS)).to_bytes();
            let n = *c.t.pick(&[63usize, 0, 1, 66, 128]);
            (at, Some([&[0x14][..], &k[1..], &[7; 32]].concat()), sig(n))
        }
        5 => (at, Some([&[0x16][..], &bad_x].concat()), vec![0, 1, 2, 3, 4]),
        6 => {
            let k = crate::keys::cpk(c.t.idx(crate::keys::N_KEYS)).to_bytes();
            let mut v = good_ecdsa();
            match c.t.below(4) {
                0 => v.clear(),
                1 => v[0] = 0x31,
                2 => v[1] += 1,
                _ => v.truncate(1),
            }
            (at, Some([&[2][..], &k].concat()), v)
        }
        7 => (at, Some([&[0x14][..], &bad_x, &[7; 32]].concat()), sig(64)),
        8 => {
            // A control block is 33 bytes and at most 128 hashes, its leaf has a version.
            let k = crate::keys::cpk(c.t.idx(crate::keys::N_KEYS)).to_bytes();
            let n = *c.t.pick(&[0usize, 1, 31, 33, 32 * 129]);
            let mut v = vec![0x51, 0xc0];
            if n == 0 {
                v.clear();
            }
            (at, Some([&[0x15, 0xc0][..], &k[1..], &vec![7; n]].concat()), v)
        }
        _ => {
            // The leaf hashes of a key end before they should.
            let k = crate::keys::cpk(c.t.idx(crate::keys::N_KEYS)).to_bytes();
            let v = match c.t.below(3) {
                0 => [&[1u8][..], &[7; 31]].concat(),
                1 => [&[2u8][..], &[7; 36]].concat(),
                _ => vec![],
            };
            (at, Some([&[0x16][..], &k[1..]].concat()), v)
        }
    }
}

/// A signature that can be read.
fn good_ecdsa() -> Vec<u8> {
    let mut v = vec![0x30, 6, 2, 1, 1, 2, 1, 1];
    v.push(1);
    v
}

fn pick_rec(c: &mut Ctx, r: &Raw, f: impl Fn(At, &[u8]) -> bool) -> Option<(At, Vec<u8>)> {
    let all: Vec<(At, Vec<u8>)> = r
        .maps()
        .into_iter()
        .flat_map(|(a, m)| m.keys().map(move |k| (a, k.clone())))
        .filter(|(a, k)| f(*a, k))
        .collect();
    if all.is_empty() {
        return None;
    }
    let i = c.t.idx(all.len());
    Some(all[i].clone())
}

/// Records whose key is the type alone.
fn single(v: u8, at: At, k: &[u8]) -> bool {
    k.len() == 1
        && match at {
            At::G => v == 2 && matches!(k[0], 2 | 3 | 4 | 5 | 6 | 0xfb) || v == 0 && matches!(k[0], 0 | 0xfb),
            At::In(_) =>
                matches!(k[0], 0 | 1 | 3 | 4 | 5 | 7 | 8 | 0x13 | 0x17 | 0x18)
                    || v == 2 && (0x0e..=0x12).contains(&k[0]),
            At::Out(_) => matches!(k[0], 0 | 1 | 5 | 6) || v == 2 && matches!(k[0], 3 | 4 | 9 | 0x0a),
        }
}

/// Records whose key data has a fixed length.
fn keyed(v: u8, at: At, k: &[u8]) -> bool {
    k.len() > 1
        && match at {
            At::G => k[0] == 1 || v == 2 && matches!(k[0], 7 | 8),
            At::In(_) =>
                matches!(k[0], 2 | 6 | 0x0a..=0x0d | 0x14 | 0x16) || v == 2 && matches!(k[0], 0x1d | 0x1e),
            At::Out(_) => matches!(k[0], 2 | 7),
        }
}

/// Records whose value has a fixed length.
fn fixed(v: u8, at: At, k: &[u8]) -> bool {
    match at {
        At::G => v == 2 && matches!(k[0], 2 | 3 | 4 | 5 | 6 | 7 | 8 | 0xfb),
        At::In(_) =>
            matches!(k[0], 3 | 0x17 | 0x18) || v == 2 && matches!(k[0], 0x0e..=0x12 | 0x1d | 0x1e),
        At::Out(_) => k[0] == 5 || v == 2 && matches!(k[0], 3 | 9 | 0x0a),
    }
}

fn go<P: Ps>(c: &mut Ctx) -> R {
    let b = base(c, P::V);
    let nf = *c.t.pick(&[6usize, 1, 12, 20]);
    let fs = facts(c, &b, nf);
    let mut m = b.raw.clone();
    for f in &fs {
        apply_raw(&mut m, f);
    }
    ev!(c, "v{} {} in {} out, {:?}", P::V, m.ins.len(), m.outs.len(), fs.iter().map(|f| f.kind).collect::<Vec<_>>());
    orders::<P>(c, &m)?;
    replays::<P>(c, &b, &m)?;
    rules::<P>(c, &m)
}

pub fn run(c: &mut Ctx) -> R {
    if c.t.chance(1, 2) {
        go::<v0::Psbt>(c)
    } else {
        go::<v2::Psbt>(c)
    }
}
