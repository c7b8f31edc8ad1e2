//! Reference models over raw records: BIP-370 lock time, transaction and identity.

use psbt_v2::bitcoin::hashes::Hash;
use psbt_v2::bitcoin::{
    absolute, transaction, Amount, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid,
    Witness,
};

use crate::raw::{RMap, Raw};

pub fn u32_of(m: &RMap, k: u8) -> Option<u32> {
    m.get(&vec![k]).map(|v| u32::from_le_bytes(v[..].try_into().expect("u32")))
}

/// The lock time BIP-370 prescribes, an error if inputs require incompatible kinds.
pub fn lock_time(r: &Raw) -> Result<u32, ()> {
    let reqs: Vec<(Option<u32>, Option<u32>)> = r
        .ins
        .iter()
        .map(|m| (u32_of(m, 0x11), u32_of(m, 0x12)))
        .filter(|x| x.0.is_some() || x.1.is_some())
        .collect();
    if reqs.is_empty() {
        return Ok(u32_of(&r.g, 0x03).unwrap_or(0));
    }
    if reqs.iter().all(|x| x.1.is_some()) {
        return Ok(reqs.iter().map(|x| x.1.unwrap()).max().unwrap());
    }
    if reqs.iter().all(|x| x.0.is_some()) {
        return Ok(reqs.iter().map(|x| x.0.unwrap()).max().unwrap());
    }
    Err(())
}

/// The unsigned transaction of a v2 PSBT.
pub fn tx(r: &Raw) -> Result<Transaction, ()> {
    assert_eq!(r.v, 2);
    Ok(Transaction {
        version: transaction::Version(u32_of(&r.g, 0x02).expect("tx version") as i32),
        lock_time: absolute::LockTime::from_consensus(lock_time(r)?),
        input: r
            .ins
            .iter()
            .map(|m| TxIn {
                previous_output: OutPoint {
                    txid: Txid::from_slice(&m[&vec![0x0eu8]]).expect("txid"),
                    vout: u32_of(m, 0x0f).expect("vout"),
                },
                script_sig: ScriptBuf::new(),
                sequence: Sequence(u32_of(m, 0x10).unwrap_or(0xffff_ffff)),
                witness: Witness::new(),
            })
            .collect(),
        output: r
            .outs
            .iter()
            .map(|m| TxOut {
                value: Amount::from_sat(u64::from_le_bytes(
                    m[&vec![0x03u8]][..].try_into().expect("amount"),
                )),
                script_pubkey: ScriptBuf::from_bytes(
                    m.get(&vec![0x04u8]).cloned().unwrap_or_default(),
                ),
            })
            .collect(),
    })
}

/// The identity of a v2 PSBT.
pub fn id(r: &Raw) -> Result<Txid, ()> {
    let mut t = tx(r)?;
    for i in t.input.iter_mut() {
        i.sequence = Sequence(0);
    }
    // Hash the plain encoding, also for a transaction without inputs.
    Ok(Txid::from_raw_hash(psbt_v2::bitcoin::hashes::sha256d::Hash::hash(
        &crate::raw::write_unsigned_tx(&t),
    )))
}

/// What two copies must agree on to be of one transaction.
pub fn same_tx(a: &Raw, b: &Raw) -> Option<bool> {
    if a.v == 0 {
        return Some(a.g[&vec![0u8]] == b.g[&vec![0u8]]);
    }
    if let (Ok(x), Ok(y)) = (id(a), id(b)) {
        if x != y {
            return Some(false);
        }
        // Both may require a time, and only together support a height for all inputs.
        return id(&crate::gen::union(a, b)).ok().map(|z| z == x);
    }
    // The lock time of one or both is not determined: the rest has to agree, and what the lock
    // time is nobody can compare.
    let strip = |r: &Raw| {
        let mut r = r.clone();
        r.g.remove(&vec![0x03u8]);
        for m in r.ins.iter_mut() {
            m.remove(&vec![0x11u8]);
            m.remove(&vec![0x12u8]);
        }
        r
    };
    if id(&strip(a)) == id(&strip(b)) {
        None
    } else {
        Some(false)
    }
}

/// Merging the origins of one xpub: the longer one if the other is its suffix.
pub fn xpub_merge(a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    if a == b {
        return Some(a.to_vec());
    }
    let (s, l) = if a.len() < b.len() { (a, b) } else { (b, a) };
    if s.len() < l.len() && l.ends_with(&s[4..]) {
        Some(l.to_vec())
    } else {
        None
    }
}

/// True if both copies know an xpub with origins that cannot be reconciled.
pub fn xpub_conflict(a: &Raw, b: &Raw) -> bool {
    a.g.iter()
        .filter(|(k, _)| k[0] == 0x01 && k.len() == 79)
        .any(|(k, v)| b.g.get(k).map_or(false, |w| xpub_merge(v, w).is_none()))
}

/// The modifiable flags after adding a signature of a type, BIP-370.
pub fn signed_flags(f: &mut u8, ty: u8) {
    if ty & 0x80 == 0 {
        *f &= !1;
    }
    if ty & 0x1f != 2 {
        *f &= !2;
    }
    if ty & 0x1f == 3 {
        *f |= 4;
    }
}
