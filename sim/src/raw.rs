//! An independent reader and writer of the PSBT container format (BIP-174, BIP-370): maps of raw
//! key-value records, no knowledge of the code under test.

use std::collections::BTreeMap;

use psbt_v2::bitcoin::consensus::encode::deserialize;
use psbt_v2::bitcoin::Transaction;

/// `<keytype><keydata>` to value.
pub type RMap = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Raw {
    pub v: u8,
    pub g: RMap,
    pub ins: Vec<RMap>,
    pub outs: Vec<RMap>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum At {
    G,
    In(usize),
    Out(usize),
}

pub fn compact(n: u64) -> Vec<u8> {
    match n {
        0..=252 => vec![n as u8],
        253..=0xffff => [&[0xfd][..], &(n as u16).to_le_bytes()].concat(),
        0x1_0000..=0xffff_ffff => [&[0xfe][..], &(n as u32).to_le_bytes()].concat(),
        _ => [&[0xff][..], &n.to_le_bytes()].concat(),
    }
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}

impl<'a> Rd<'a> {
    pub fn take(&mut self, n: u64) -> Result<&'a [u8], String> {
        if n > (self.b.len() - self.p) as u64 {
            return Err(format!("short read at {}", self.p));
        }
        let n = n as usize;
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }

    pub fn compact(&mut self) -> Result<u64, String> {
        let (n, min) = match self.take(1)?[0] {
            0xff => (u64::from_le_bytes(self.take(8)?.try_into().unwrap()), 0x1_0000_0000),
            0xfe => (u32::from_le_bytes(self.take(4)?.try_into().unwrap()) as u64, 0x1_0000),
            0xfd => (u16::from_le_bytes(self.take(2)?.try_into().unwrap()) as u64, 0xfd),
            x => (x as u64, 0),
        };
        if n < min {
            return Err("non-minimal compact size".into());
        }
        Ok(n)
    }

    fn map(&mut self) -> Result<RMap, String> {
        let mut m = RMap::new();
        loop {
            let klen = self.compact()?;
            if klen == 0 {
                return Ok(m);
            }
            let k = self.take(klen)?.to_vec();
            let vlen = self.compact()?;
            let v = self.take(vlen)?.to_vec();
            if m.insert(k, v).is_some() {
                return Err("duplicate key".into());
            }
        }
    }
}

impl Raw {
    pub fn parse(v: u8, b: &[u8]) -> Result<Raw, String> {
        let mut r = Rd { b, p: 0 };
        if r.take(5)? != b"psbt\xff" {
            return Err("bad magic".into());
        }
        let g = r.map()?;
        let (nin, nout) = if v == 2 {
            let n = |k: u8| -> Result<u64, String> {
                let v = g.get(&vec![k]).ok_or("missing count")?;
                let mut r = Rd { b: v, p: 0 };
                let n = r.compact()?;
                if r.p != v.len() {
                    return Err("bad count".into());
                }
                Ok(n)
            };
            (n(4)?, n(5)?)
        } else {
            let tx = g.get(&vec![0u8]).ok_or("missing tx")?;
            let tx: Transaction = unsigned_tx(tx)?;
            (tx.input.len() as u64, tx.output.len() as u64)
        };
        let mut ins = vec![];
        for _ in 0..nin {
            ins.push(r.map()?);
        }
        let mut outs = vec![];
        for _ in 0..nout {
            outs.push(r.map()?);
        }
        if r.p != b.len() {
            return Err("trailing bytes".into());
        }
        Ok(Raw { v, g, ins, outs })
    }

    pub fn write(&self) -> Vec<u8> {
        let mut o = b"psbt\xff".to_vec();
        for m in self.maps() {
            for (k, v) in m.1 {
                put(&mut o, k, v);
            }
            o.push(0);
        }
        o
    }

    pub fn maps(&self) -> Vec<(At, &RMap)> {
        let mut v = vec![(At::G, &self.g)];
        v.extend(self.ins.iter().enumerate().map(|(i, m)| (At::In(i), m)));
        v.extend(self.outs.iter().enumerate().map(|(i, m)| (At::Out(i), m)));
        v
    }

    pub fn map(&self, at: At) -> &RMap {
        match at {
            At::G => &self.g,
            At::In(i) => &self.ins[i],
            At::Out(i) => &self.outs[i],
        }
    }

    pub fn map_mut(&mut self, at: At) -> &mut RMap {
        match at {
            At::G => &mut self.g,
            At::In(i) => &mut self.ins[i],
            At::Out(i) => &mut self.outs[i],
        }
    }

    /// The first difference between two raw PSBTs, for messages.
    pub fn diff(&self, other: &Raw) -> Option<String> {
        if self.v != other.v || self.ins.len() != other.ins.len() || self.outs.len() != other.outs.len()
        {
            return Some(format!(
                "shape v{} {}in {}out vs v{} {}in {}out",
                self.v,
                self.ins.len(),
                self.outs.len(),
                other.v,
                other.ins.len(),
                other.outs.len()
            ));
        }
        for ((at, a), (_, b)) in self.maps().into_iter().zip(other.maps()) {
            for (k, v) in a {
                match b.get(k) {
                    None => return Some(format!("{:?} key {} only on the left", at, crate::ctx::short(k))),
                    Some(w) if w != v =>
                        return Some(format!(
                            "{:?} key {}: {} vs {}",
                            at,
                            crate::ctx::short(k),
                            crate::ctx::short(v),
                            crate::ctx::short(w)
                        )),
                    _ => {}
                }
            }
            for k in b.keys() {
                if !a.contains_key(k) {
                    return Some(format!("{:?} key {} only on the right", at, crate::ctx::short(k)));
                }
            }
        }
        None
    }
}

pub fn put(o: &mut Vec<u8>, k: &[u8], v: &[u8]) {
    o.extend(compact(k.len() as u64));
    o.extend_from_slice(k);
    o.extend(compact(v.len() as u64));
    o.extend_from_slice(v);
}

/// Reads an unsigned transaction (never with a witness, so a transaction without inputs is not
/// mistaken for the marker of the extended encoding).
pub fn unsigned_tx(b: &[u8]) -> Result<Transaction, String> {
    use psbt_v2::bitcoin::absolute::LockTime;
    use psbt_v2::bitcoin::transaction::Version;
    let mut r = Rd { b, p: 0 };
    let version = Version(i32::from_le_bytes(r.take(4)?.try_into().unwrap()));
    let n = r.compact()?;
    let mut input = vec![];
    for _ in 0..n {
        let s = r.p;
        r.take(36)?;
        let l = r.compact()?;
        r.take(l)?;
        r.take(4)?;
        input.push(deserialize(&b[s..r.p]).map_err(|e| e.to_string())?);
    }
    let n = r.compact()?;
    let mut output = vec![];
    for _ in 0..n {
        let s = r.p;
        r.take(8)?;
        let l = r.compact()?;
        r.take(l)?;
        output.push(deserialize(&b[s..r.p]).map_err(|e| e.to_string())?);
    }
    let lock_time =
        LockTime::from_consensus(u32::from_le_bytes(r.take(4)?.try_into().unwrap()));
    if r.p != b.len() {
        return Err("trailing bytes in tx".into());
    }
    Ok(Transaction { version, lock_time, input, output })
}

/// Writes an unsigned transaction without the extended encoding.
pub fn write_unsigned_tx(tx: &Transaction) -> Vec<u8> {
    use psbt_v2::bitcoin::consensus::encode::serialize;
    let mut o = tx.version.0.to_le_bytes().to_vec();
    o.extend(compact(tx.input.len() as u64));
    for i in &tx.input {
        o.extend(serialize(i));
    }
    o.extend(compact(tx.output.len() as u64));
    for x in &tx.output {
        o.extend(serialize(x));
    }
    o.extend(tx.lock_time.to_consensus_u32().to_le_bytes());
    o
}

/// Where a byte encoding has its lengths and records.
#[derive(Default, Debug)]
pub struct Layout {
    /// Position and size of each length prefix.
    pub lens: Vec<(usize, usize)>,
    /// Key start, value start and value end of each record, with the map it is in.
    pub recs: Vec<(usize, usize, usize, usize)>,
    /// Positions of the map separators.
    pub seps: Vec<usize>,
}

/// The layout of a well-formed encoding.
pub fn layout(b: &[u8]) -> Layout {
    let mut l = Layout::default();
    let mut r = Rd { b, p: 5 };
    let mut map = 0;
    while r.p < b.len() {
        let s = r.p;
        let n = match r.compact() {
            Ok(n) => n,
            Err(_) => break,
        };
        if n == 0 {
            l.seps.push(s);
            map += 1;
            continue;
        }
        l.lens.push((s, r.p - s));
        let ks = r.p;
        if r.take(n).is_err() {
            break;
        }
        let s = r.p;
        let n = match r.compact() {
            Ok(n) => n,
            Err(_) => break,
        };
        l.lens.push((s, r.p - s));
        let vs = r.p;
        if r.take(n).is_err() {
            break;
        }
        l.recs.push((ks, vs, r.p, map));
    }
    l
}
