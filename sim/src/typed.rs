//! The two PSBT versions behind one interface, with an independent mapping between the public
//! fields of the structs and raw records.

use psbt_v2::bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource, Xpub};
use psbt_v2::bitcoin::consensus::encode::{deserialize, serialize};
use psbt_v2::bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use psbt_v2::bitcoin::key::{CompressedPublicKey, PublicKey, XOnlyPublicKey};
use psbt_v2::bitcoin::secp256k1;
use psbt_v2::bitcoin::taproot::{
    self, ControlBlock, LeafVersion, TapLeafHash, TapNodeHash, TapTree, TaprootBuilder,
};
use psbt_v2::bitcoin::{absolute, ecdsa, Amount, ScriptBuf, Sequence, Transaction, TxOut, Witness};
use psbt_v2::{v0, v2, PsbtSighashType};

use crate::raw::{compact, At, RMap, Raw, Rd};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc {
    Bytes,
    Base64,
    Hex,
    Json,
    Bincode,
    /// JSON with spaces, read from a stream.
    JsonStream,
    /// JSON as a tree in memory, written and read again with its keys in another order.
    JsonTree,
    /// The maps one by one.
    Pieces,
    /// As the object of one of the roles.
    Role(u8),
}

pub const ENCS: [Enc; 5] = [Enc::Bytes, Enc::Base64, Enc::Hex, Enc::Json, Enc::Bincode];

/// All of them.
pub const ALL_ENCS: [Enc; 14] = [
    Enc::Bytes,
    Enc::Base64,
    Enc::Hex,
    Enc::Json,
    Enc::Bincode,
    Enc::JsonStream,
    Enc::JsonTree,
    Enc::Pieces,
    Enc::Role(0),
    Enc::Role(1),
    Enc::Role(2),
    Enc::Role(3),
    Enc::Role(4),
    Enc::Role(5),
];

fn to<T: serde::Serialize>(binary: bool, x: &T) -> Result<Vec<u8>, String> {
    if binary {
        bincode::serialize(x).map_err(es)
    } else {
        serde_json::to_vec(x).map_err(es)
    }
}

fn of<T: serde::de::DeserializeOwned>(binary: bool, b: &[u8]) -> Result<T, String> {
    if binary {
        bincode::deserialize(b).map_err(es)
    } else {
        serde_json::from_slice(b).map_err(es)
    }
}

/// Reads a few bytes at a time.
struct Slow<'a>(&'a [u8]);

impl std::io::Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = core::cmp::min(core::cmp::min(buf.len(), 7), self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// Length-prefixed pieces.
fn join(v: &[Vec<u8>]) -> Vec<u8> {
    let mut o = (v.len() as u32).to_le_bytes().to_vec();
    for x in v {
        o.extend((x.len() as u32).to_le_bytes());
        o.extend(x);
    }
    o
}

fn split(b: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut d = b;
    let mut num = |d: &mut &[u8]| -> Result<usize, String> {
        let x = d.get(..4).ok_or("short")?;
        let n = u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize;
        *d = &d[4..];
        Ok(n)
    };
    let n = num(&mut d)?;
    let mut v = vec![];
    for _ in 0..n {
        let k = num(&mut d)?;
        v.push(d.get(..k).ok_or("short")?.to_vec());
        d = &d[k..];
    }
    Ok(v)
}

pub trait Ps: Clone + PartialEq + core::fmt::Debug + 'static {
    const V: u8;
    fn ser(&self) -> Vec<u8>;
    fn de(b: &[u8]) -> Result<Self, String>;
    /// `self` combined with `other`.
    fn comb(&self, other: &Self) -> Result<Self, String>;
    /// Combines through the other public function if there is one.
    fn comb_alt(&self, other: &Self) -> Result<Self, String>;
    /// Like `comb`, with what is left of `self`.
    fn comb_keep(&self, other: &Self) -> (Result<Self, String>, Self) {
        (self.comb(other), self.clone())
    }
    fn text(&self) -> String;
    fn from_text(s: &str) -> Result<Self, String>;
    fn json(&self) -> Result<Vec<u8>, String>;
    fn from_json(b: &[u8]) -> Result<Self, String>;
    fn bincode(&self) -> Result<Vec<u8>, String>;
    fn from_bincode(b: &[u8]) -> Result<Self, String>;
    /// JSON by other ways than the usual.
    fn json2(&self, tree: bool) -> Result<Vec<u8>, String>;
    fn from_json2(b: &[u8], tree: bool) -> Result<Self, String>;
    fn pieces(&self) -> Result<Vec<Vec<u8>>, String>;
    fn from_pieces(v: &[Vec<u8>]) -> Result<Self, String>;
    /// The object of a role that holds this PSBT, if it allows that.
    fn role(&self, _: u8) -> Option<Result<Vec<u8>, String>> { None }
    fn from_role(_: u8, _: &[u8]) -> Result<Self, String> { Err("no such role".into()) }
    fn hex(&self) -> String;
    /// The records of this PSBT, from its public fields only.
    fn to_raw(&self) -> Raw;
    /// Sets the public field for one record (of a kind a party may contribute).
    fn apply(&mut self, at: At, k: &[u8], v: &[u8]) -> Result<(), String>;

    fn enc(&self, e: Enc) -> Result<Vec<u8>, String> {
        Ok(match e {
            Enc::Bytes => self.ser(),
            Enc::Base64 => self.text().into_bytes(),
            Enc::Hex => self.hex().into_bytes(),
            Enc::Json => self.json()?,
            Enc::Bincode => self.bincode()?,
            Enc::JsonStream => self.json2(false)?,
            Enc::JsonTree => self.json2(true)?,
            Enc::Pieces => join(&self.pieces()?),
            Enc::Role(r) => match self.role(r) {
                Some(b) => [&[r][..], &b?].concat(),
                None => [&[0xff][..], &self.bincode()?].concat(),
            },
        })
    }

    fn dec(e: Enc, b: &[u8]) -> Result<Self, String> {
        match e {
            Enc::Bytes => Self::de(b),
            Enc::Base64 => Self::from_text(core::str::from_utf8(b).map_err(|e| e.to_string())?),
            Enc::Hex => Self::de(&unhex(b)?),
            Enc::Json => Self::from_json(b),
            Enc::Bincode => Self::from_bincode(b),
            Enc::JsonStream => Self::from_json2(b, false),
            Enc::JsonTree => Self::from_json2(b, true),
            Enc::Pieces => Self::from_pieces(&split(b)?),
            Enc::Role(_) => match b.split_first() {
                None => Err("empty".into()),
                Some((0xff, b)) => Self::from_bincode(b),
                Some((r, b)) => Self::from_role(*r, b),
            },
        }
    }
}

pub fn unhex(b: &[u8]) -> Result<Vec<u8>, String> {
    if b.len() % 2 != 0 {
        return Err("odd hex".into());
    }
    let d = |c: u8| (c as char).to_digit(16).ok_or_else(|| "bad hex".to_string());
    b.chunks(2).map(|c| Ok((d(c[0])? << 4 | d(c[1])?) as u8)).collect()
}

pub fn key_source(v: &KeySource) -> Vec<u8> {
    let mut o = v.0.as_bytes().to_vec();
    for c in &v.1 {
        o.extend(u32::from(*c).to_le_bytes());
    }
    o
}

pub fn parse_key_source(v: &[u8]) -> Result<KeySource, String> {
    if v.len() < 4 || v.len() % 4 != 0 {
        return Err("bad key source".into());
    }
    let fp: [u8; 4] = v[..4].try_into().unwrap();
    let path: Vec<ChildNumber> = v[4..]
        .chunks(4)
        .map(|c| ChildNumber::from(u32::from_le_bytes(c.try_into().unwrap())))
        .collect();
    Ok((Fingerprint::from(fp), DerivationPath::from(path)))
}

fn k(t: u8, d: impl AsRef<[u8]>) -> Vec<u8> {
    let mut o = vec![t];
    o.extend_from_slice(d.as_ref());
    o
}

fn pk_bytes(p: &PublicKey) -> Vec<u8> { p.to_bytes() }

fn tap_origin(v: &(Vec<TapLeafHash>, KeySource)) -> Vec<u8> {
    let mut o = compact(v.0.len() as u64);
    for h in &v.0 {
        o.extend_from_slice(h.as_byte_array());
    }
    o.extend(key_source(&v.1));
    o
}

fn parse_tap_origin(v: &[u8]) -> Result<(Vec<TapLeafHash>, KeySource), String> {
    let mut r = Rd { b: v, p: 0 };
    let n = r.compact()?;
    let mut hs = vec![];
    for _ in 0..n {
        hs.push(TapLeafHash::from_slice(r.take(32)?).map_err(|e| e.to_string())?);
    }
    Ok((hs, parse_key_source(&v[r.p..])?))
}

fn tap_tree(t: &TapTree) -> Vec<u8> {
    let mut o = vec![];
    for l in t.script_leaves() {
        o.push(l.merkle_branch().len() as u8);
        o.push(l.version().to_consensus());
        o.extend(compact(l.script().len() as u64));
        o.extend_from_slice(l.script().as_bytes());
    }
    o
}

/// Siblings in a taproot tree have no order, the bitcoin crate sorts them by hash.
pub fn canonical_tap_tree(v: &[u8]) -> Vec<u8> {
    tap_tree(&parse_tap_tree(v).expect("harness: taproot tree"))
}

fn parse_tap_tree(v: &[u8]) -> Result<TapTree, String> {
    let mut r = Rd { b: v, p: 0 };
    let mut b = TaprootBuilder::new();
    while r.p < v.len() {
        let h = r.take(2)?;
        let n = r.compact()?;
        let s = ScriptBuf::from_bytes(r.take(n)?.to_vec());
        let ver = LeafVersion::from_consensus(h[1]).map_err(|e| e.to_string())?;
        b = b.add_leaf_with_ver(h[0], s, ver).map_err(|e| format!("{:?}", e))?;
    }
    TapTree::try_from(b).map_err(|e| e.to_string())
}

fn one<T>(m: &mut RMap, t: u8, f: &Option<T>, to: impl Fn(&T) -> Vec<u8>) {
    if let Some(v) = f {
        m.insert(vec![t], to(v));
    }
}

fn es<T>(e: T) -> String
where
    T: core::fmt::Debug,
{
    format!("{:?}", e)
}

// The records that inputs of both versions share.
macro_rules! input_to_raw {
    ($i:expr, $m:ident, $bip32:ident, $prop:ident, $unk:ident) => {
        one(&mut $m, 0x00, &$i.non_witness_utxo, |x| serialize(x));
        one(&mut $m, 0x01, &$i.witness_utxo, |x| serialize(x));
        for (p, s) in &$i.partial_sigs {
            $m.insert(k(0x02, pk_bytes(p)), s.to_vec());
        }
        one(&mut $m, 0x03, &$i.sighash_type, |x| x.to_u32().to_le_bytes().to_vec());
        one(&mut $m, 0x04, &$i.redeem_script, |x| x.to_bytes());
        one(&mut $m, 0x05, &$i.witness_script, |x| x.to_bytes());
        for (p, s) in &$i.$bip32 {
            $m.insert(k(0x06, p.serialize()), key_source(s));
        }
        one(&mut $m, 0x07, &$i.final_script_sig, |x| x.to_bytes());
        one(&mut $m, 0x08, &$i.final_script_witness, |x| serialize(x));
        for (h, p) in &$i.ripemd160_preimages {
            $m.insert(k(0x0a, h.as_byte_array()), p.clone());
        }
        for (h, p) in &$i.sha256_preimages {
            $m.insert(k(0x0b, h.as_byte_array()), p.clone());
        }
        for (h, p) in &$i.hash160_preimages {
            $m.insert(k(0x0c, h.as_byte_array()), p.clone());
        }
        for (h, p) in &$i.hash256_preimages {
            $m.insert(k(0x0d, h.as_byte_array()), p.clone());
        }
        one(&mut $m, 0x13, &$i.tap_key_sig, |x| x.to_vec());
        for ((x, h), s) in &$i.tap_script_sigs {
            $m.insert(k(0x14, [&x.serialize()[..], h.as_byte_array()].concat()), s.to_vec());
        }
        for (c, (s, v)) in &$i.tap_scripts {
            let mut val = s.to_bytes();
            val.push(v.to_consensus());
            $m.insert(k(0x15, c.serialize()), val);
        }
        for (x, o) in &$i.tap_key_origins {
            $m.insert(k(0x16, x.serialize()), tap_origin(o));
        }
        one(&mut $m, 0x17, &$i.tap_internal_key, |x| x.serialize().to_vec());
        one(&mut $m, 0x18, &$i.tap_merkle_root, |x| x.as_byte_array().to_vec());
        for (pk, v) in &$i.$prop {
            $m.insert(k(0xfc, prop_key(&pk.prefix, pk.subtype, &pk.key)), v.clone());
        }
        for (uk, v) in &$i.$unk {
            $m.insert(k(uk.type_value, &uk.key), v.clone());
        }
    };
}

macro_rules! output_to_raw {
    ($o:expr, $m:ident, $bip32:ident, $prop:ident, $unk:ident) => {
        one(&mut $m, 0x00, &$o.redeem_script, |x| x.to_bytes());
        one(&mut $m, 0x01, &$o.witness_script, |x| x.to_bytes());
        for (p, s) in &$o.$bip32 {
            $m.insert(k(0x02, p.serialize()), key_source(s));
        }
        one(&mut $m, 0x05, &$o.tap_internal_key, |x| x.serialize().to_vec());
        one(&mut $m, 0x06, &$o.tap_tree, tap_tree);
        for (x, o) in &$o.tap_key_origins {
            $m.insert(k(0x07, x.serialize()), tap_origin(o));
        }
        for (pk, v) in &$o.$prop {
            $m.insert(k(0xfc, prop_key(&pk.prefix, pk.subtype, &pk.key)), v.clone());
        }
        for (uk, v) in &$o.$unk {
            $m.insert(k(uk.type_value, &uk.key), v.clone());
        }
    };
}

macro_rules! common_apply {
    ($raw:path, $x:expr, $key:expr, $val:expr, $prop:ident, $unk:ident) => {{
        use $raw as raw;
        if $key[0] == 0xfc {
            let (prefix, subtype, key) = parse_prop_key(&$key[1..])?;
            $x.$prop.insert(raw::ProprietaryKey { prefix, subtype, key }, $val.to_vec());
        } else {
            $x.$unk.insert(
                raw::Key { type_value: $key[0], key: $key[1..].to_vec() },
                $val.to_vec(),
            );
        }
    }};
}

macro_rules! input_apply {
    ($raw:path, $i:expr, $key:expr, $v:expr, $bip32:ident, $prop:ident, $unk:ident) => {{
        let d = &$key[1..];
        match $key[0] {
            0x00 => $i.non_witness_utxo = Some(deserialize::<Transaction>($v).map_err(es)?),
            0x01 => $i.witness_utxo = Some(deserialize::<TxOut>($v).map_err(es)?),
            0x02 => {
                $i.partial_sigs.insert(
                    PublicKey::from_slice(d).map_err(es)?,
                    ecdsa::Signature::from_slice($v).map_err(es)?,
                );
            }
            0x03 =>
                $i.sighash_type = Some(PsbtSighashType::from_u32(u32::from_le_bytes(
                    $v.try_into().map_err(es)?,
                ))),
            0x04 => $i.redeem_script = Some(ScriptBuf::from_bytes($v.to_vec())),
            0x05 => $i.witness_script = Some(ScriptBuf::from_bytes($v.to_vec())),
            0x06 => {
                $i.$bip32.insert(
                    secp256k1::PublicKey::from_slice(d).map_err(es)?,
                    parse_key_source($v)?,
                );
            }
            0x07 => $i.final_script_sig = Some(ScriptBuf::from_bytes($v.to_vec())),
            0x08 => $i.final_script_witness = Some(deserialize::<Witness>($v).map_err(es)?),
            0x0a => {
                $i.ripemd160_preimages
                    .insert(ripemd160::Hash::from_slice(d).map_err(es)?, $v.to_vec());
            }
            0x0b => {
                $i.sha256_preimages.insert(sha256::Hash::from_slice(d).map_err(es)?, $v.to_vec());
            }
            0x0c => {
                $i.hash160_preimages.insert(hash160::Hash::from_slice(d).map_err(es)?, $v.to_vec());
            }
            0x0d => {
                $i.hash256_preimages.insert(sha256d::Hash::from_slice(d).map_err(es)?, $v.to_vec());
            }
            0x13 => $i.tap_key_sig = Some(taproot::Signature::from_slice($v).map_err(es)?),
            0x14 => {
                let x = XOnlyPublicKey::from_slice(&d[..32]).map_err(es)?;
                let h = TapLeafHash::from_slice(&d[32..]).map_err(es)?;
                $i.tap_script_sigs
                    .insert((x, h), taproot::Signature::from_slice($v).map_err(es)?);
            }
            0x15 => {
                let (ver, s) = $v.split_last().ok_or("empty leaf script")?;
                $i.tap_scripts.insert(
                    ControlBlock::decode(d).map_err(es)?,
                    (
                        ScriptBuf::from_bytes(s.to_vec()),
                        LeafVersion::from_consensus(*ver).map_err(es)?,
                    ),
                );
            }
            0x16 => {
                $i.tap_key_origins
                    .insert(XOnlyPublicKey::from_slice(d).map_err(es)?, parse_tap_origin($v)?);
            }
            0x17 => $i.tap_internal_key = Some(XOnlyPublicKey::from_slice($v).map_err(es)?),
            0x18 => $i.tap_merkle_root = Some(TapNodeHash::from_slice($v).map_err(es)?),
            _ => common_apply!($raw, $i, $key, $v, $prop, $unk),
        }
    }};
}

macro_rules! output_apply {
    ($raw:path, $o:expr, $key:expr, $v:expr, $bip32:ident, $prop:ident, $unk:ident) => {{
        let d = &$key[1..];
        match $key[0] {
            0x00 => $o.redeem_script = Some(ScriptBuf::from_bytes($v.to_vec())),
            0x01 => $o.witness_script = Some(ScriptBuf::from_bytes($v.to_vec())),
            0x02 => {
                $o.$bip32.insert(
                    secp256k1::PublicKey::from_slice(d).map_err(es)?,
                    parse_key_source($v)?,
                );
            }
            0x05 => $o.tap_internal_key = Some(XOnlyPublicKey::from_slice($v).map_err(es)?),
            0x06 => $o.tap_tree = Some(parse_tap_tree($v)?),
            0x07 => {
                $o.tap_key_origins
                    .insert(XOnlyPublicKey::from_slice(d).map_err(es)?, parse_tap_origin($v)?);
            }
            _ => common_apply!($raw, $o, $key, $v, $prop, $unk),
        }
    }};
}

pub fn prop_key(prefix: &[u8], subtype: u8, key: &[u8]) -> Vec<u8> {
    let mut o = compact(prefix.len() as u64);
    o.extend_from_slice(prefix);
    o.push(subtype);
    o.extend_from_slice(key);
    o
}

fn parse_prop_key(d: &[u8]) -> Result<(Vec<u8>, u8, Vec<u8>), String> {
    let mut r = Rd { b: d, p: 0 };
    let n = r.compact()?;
    let prefix = r.take(n)?.to_vec();
    let subtype = r.take(1)?[0];
    Ok((prefix, subtype, d[r.p..].to_vec()))
}

fn cpk(d: &[u8]) -> Result<CompressedPublicKey, String> {
    CompressedPublicKey::from_slice(d).map_err(es)
}

impl Ps for v0::Psbt {
    const V: u8 = 0;
    fn ser(&self) -> Vec<u8> { self.serialize() }
    fn de(b: &[u8]) -> Result<Self, String> { v0::Psbt::deserialize(b).map_err(show) }
    fn comb(&self, other: &Self) -> Result<Self, String> {
        let mut s = self.clone();
        s.combine(other.clone()).map_err(show)?;
        Ok(s)
    }
    fn comb_alt(&self, other: &Self) -> Result<Self, String> { self.comb(other) }
    fn comb_keep(&self, other: &Self) -> (Result<Self, String>, Self) {
        let mut s = self.clone();
        let r = s.combine(other.clone()).map_err(show);
        (r.map(|_| s.clone()), s)
    }
    fn text(&self) -> String { self.to_string() }
    fn from_text(s: &str) -> Result<Self, String> { s.parse::<v0::Psbt>().map_err(show) }
    fn json(&self) -> Result<Vec<u8>, String> { serde_json::to_vec(self).map_err(es) }
    fn from_json(b: &[u8]) -> Result<Self, String> { serde_json::from_slice(b).map_err(es) }
    fn bincode(&self) -> Result<Vec<u8>, String> { bincode::serialize(self).map_err(es) }
    fn from_bincode(b: &[u8]) -> Result<Self, String> { bincode::deserialize(b).map_err(es) }
    fn json2(&self, tree: bool) -> Result<Vec<u8>, String> {
        if tree {
            serde_json::to_vec(&serde_json::to_value(self).map_err(es)?).map_err(es)
        } else {
            serde_json::to_vec_pretty(self).map_err(es)
        }
    }
    fn from_json2(b: &[u8], tree: bool) -> Result<Self, String> {
        if tree {
            let v: serde_json::Value = serde_json::from_slice(b).map_err(es)?;
            serde_json::from_value(v).map_err(es)
        } else {
            serde_json::from_reader(Slow(b)).map_err(es)
        }
    }
    fn pieces(&self) -> Result<Vec<Vec<u8>>, String> {
        let mut rest = self.clone();
        let ins = core::mem::take(&mut rest.inputs);
        let outs = core::mem::take(&mut rest.outputs);
        let mut v = vec![(ins.len() as u32).to_le_bytes().to_vec(), to(true, &rest)?];
        for (n, i) in ins.iter().enumerate() {
            v.push(to(n % 2 == 0, i)?);
        }
        for (n, o) in outs.iter().enumerate() {
            v.push(to(n % 2 == 1, o)?);
        }
        Ok(v)
    }
    fn from_pieces(v: &[Vec<u8>]) -> Result<Self, String> {
        if v.len() < 2 || v[0].len() != 4 {
            return Err("short".into());
        }
        let n = u32::from_le_bytes([v[0][0], v[0][1], v[0][2], v[0][3]]) as usize;
        let mut p: Self = of(true, &v[1])?;
        for (k, b) in v[2..].iter().enumerate() {
            if k < n {
                p.inputs.push(of(k % 2 == 0, b)?);
            } else {
                p.outputs.push(of((k - n) % 2 == 1, b)?);
            }
        }
        Ok(p)
    }
    fn hex(&self) -> String { self.serialize_hex() }

    fn to_raw(&self) -> Raw {
        let mut g = RMap::new();
        g.insert(vec![0x00], crate::raw::write_unsigned_tx(&self.unsigned_tx));
        for (x, s) in &self.xpub {
            g.insert(k(0x01, x.encode()), key_source(s));
        }
        if self.version > 0 {
            g.insert(vec![0xfb], self.version.to_le_bytes().to_vec());
        }
        for (pk, v) in &self.proprietary {
            g.insert(k(0xfc, prop_key(&pk.prefix, pk.subtype, &pk.key)), v.clone());
        }
        for (uk, v) in &self.unknown {
            g.insert(k(uk.type_value, &uk.key), v.clone());
        }
        let mut ins = vec![];
        for i in &self.inputs {
            let mut m = RMap::new();
            input_to_raw!(i, m, bip32_derivation, proprietary, unknown);
            ins.push(m);
        }
        let mut outs = vec![];
        for o in &self.outputs {
            let mut m = RMap::new();
            output_to_raw!(o, m, bip32_derivation, proprietary, unknown);
            outs.push(m);
        }
        Raw { v: 0, g, ins, outs }
    }

    fn apply(&mut self, at: At, key: &[u8], v: &[u8]) -> Result<(), String> {
        match at {
            At::G => match key[0] {
                0x01 => {
                    self.xpub
                        .insert(Xpub::decode(&key[1..]).map_err(es)?, parse_key_source(v)?);
                }
                _ => common_apply!(psbt_v2::v0::bitcoin::raw, self, key, v, proprietary, unknown),
            },
            At::In(i) => {
                let i = &mut self.inputs[i];
                input_apply!(
                    psbt_v2::v0::bitcoin::raw,
                    i,
                    key,
                    v,
                    bip32_derivation,
                    proprietary,
                    unknown
                )
            }
            At::Out(o) => {
                let o = &mut self.outputs[o];
                output_apply!(
                    psbt_v2::v0::bitcoin::raw,
                    o,
                    key,
                    v,
                    bip32_derivation,
                    proprietary,
                    unknown
                )
            }
        }
        Ok(())
    }
}

impl Ps for v2::Psbt {
    const V: u8 = 2;
    fn ser(&self) -> Vec<u8> { self.serialize() }
    fn de(b: &[u8]) -> Result<Self, String> { v2::Psbt::deserialize(b).map_err(show) }
    fn comb(&self, other: &Self) -> Result<Self, String> {
        self.clone().combine_with(other.clone()).map_err(show)
    }
    fn comb_alt(&self, other: &Self) -> Result<Self, String> {
        v2::combine(self.clone(), other.clone()).map_err(show)
    }
    fn text(&self) -> String { self.to_string() }
    fn from_text(s: &str) -> Result<Self, String> { s.parse::<v2::Psbt>().map_err(show) }
    fn json(&self) -> Result<Vec<u8>, String> { serde_json::to_vec(self).map_err(es) }
    fn from_json(b: &[u8]) -> Result<Self, String> { serde_json::from_slice(b).map_err(es) }
    fn bincode(&self) -> Result<Vec<u8>, String> { bincode::serialize(self).map_err(es) }
    fn from_bincode(b: &[u8]) -> Result<Self, String> { bincode::deserialize(b).map_err(es) }
    fn json2(&self, tree: bool) -> Result<Vec<u8>, String> {
        if tree {
            serde_json::to_vec(&serde_json::to_value(self).map_err(es)?).map_err(es)
        } else {
            serde_json::to_vec_pretty(self).map_err(es)
        }
    }
    fn from_json2(b: &[u8], tree: bool) -> Result<Self, String> {
        if tree {
            let v: serde_json::Value = serde_json::from_slice(b).map_err(es)?;
            serde_json::from_value(v).map_err(es)
        } else {
            serde_json::from_reader(Slow(b)).map_err(es)
        }
    }
    fn pieces(&self) -> Result<Vec<Vec<u8>>, String> {
        let mut v = vec![(self.inputs.len() as u32).to_le_bytes().to_vec(), to(false, &self.global)?];
        for (n, i) in self.inputs.iter().enumerate() {
            v.push(to(n % 2 == 0, i)?);
        }
        for (n, o) in self.outputs.iter().enumerate() {
            v.push(to(n % 2 == 1, o)?);
        }
        Ok(v)
    }
    fn from_pieces(v: &[Vec<u8>]) -> Result<Self, String> {
        if v.len() < 2 || v[0].len() != 4 {
            return Err("short".into());
        }
        let n = u32::from_le_bytes([v[0][0], v[0][1], v[0][2], v[0][3]]) as usize;
        let mut p = v2::Psbt { global: of(false, &v[1])?, inputs: vec![], outputs: vec![] };
        for (k, b) in v[2..].iter().enumerate() {
            if k < n {
                p.inputs.push(of(k % 2 == 0, b)?);
            } else {
                p.outputs.push(of((k - n) % 2 == 1, b)?);
            }
        }
        Ok(p)
    }
    fn role(&self, r: u8) -> Option<Result<Vec<u8>, String>> {
        use psbt_v2::v2::*;
        let p = self.clone();
        p.determine_lock_time().ok()?;
        let binary = r % 2 == 0;
        Some(match r {
            0 => to(binary, &Updater::new(p).ok()?),
            1 => to(binary, &Signer::new(p).ok()?),
            2 => to(binary, &Constructor::<Modifiable>::new(p).ok()?),
            3 => to(binary, &Constructor::<InputsOnlyModifiable>::new(p).ok()?),
            4 => to(binary, &Constructor::<OutputsOnlyModifiable>::new(p).ok()?),
            _ => to(binary, &Signer::new(Updater::new(p).ok()?.psbt()).ok()?),
        })
    }
    fn from_role(r: u8, b: &[u8]) -> Result<Self, String> {
        use psbt_v2::v2::*;
        let binary = r % 2 == 0;
        match r {
            0 => Ok(of::<Updater>(binary, b)?.psbt()),
            1 | 5 => Ok(of::<Signer>(binary, b)?.psbt()),
            2 => of::<Constructor<Modifiable>>(binary, b)?.psbt().map_err(es),
            3 => of::<Constructor<InputsOnlyModifiable>>(binary, b)?.psbt().map_err(es),
            4 => of::<Constructor<OutputsOnlyModifiable>>(binary, b)?.psbt().map_err(es),
            _ => Err("no such role".into()),
        }
    }
    fn hex(&self) -> String { self.serialize_hex() }

    fn to_raw(&self) -> Raw {
        let gl = &self.global;
        let mut g = RMap::new();
        g.insert(vec![0xfb], gl.version.to_u32().to_le_bytes().to_vec());
        g.insert(vec![0x02], gl.tx_version.0.to_le_bytes().to_vec());
        one(&mut g, 0x03, &gl.fallback_lock_time, |x| x.to_consensus_u32().to_le_bytes().to_vec());
        g.insert(vec![0x04], compact(gl.input_count as u64));
        g.insert(vec![0x05], compact(gl.output_count as u64));
        g.insert(vec![0x06], vec![gl.tx_modifiable_flags]);
        for (x, s) in &gl.xpubs {
            g.insert(k(0x01, x.encode()), key_source(s));
        }
        for (s, e) in &gl.sp_ecdh_shares {
            g.insert(k(0x07, s.to_bytes()), e.to_bytes().to_vec());
        }
        for (s, d) in &gl.sp_dleq_proofs {
            g.insert(k(0x08, s.to_bytes()), d.0.to_vec());
        }
        for (pk, v) in &gl.proprietaries {
            g.insert(k(0xfc, prop_key(&pk.prefix, pk.subtype, &pk.key)), v.clone());
        }
        for (uk, v) in &gl.unknowns {
            g.insert(k(uk.type_value, &uk.key), v.clone());
        }
        let mut ins = vec![];
        for i in &self.inputs {
            let mut m = RMap::new();
            m.insert(vec![0x0e], i.previous_txid.as_byte_array().to_vec());
            m.insert(vec![0x0f], i.spent_output_index.to_le_bytes().to_vec());
            one(&mut m, 0x10, &i.sequence, |x| x.0.to_le_bytes().to_vec());
            one(&mut m, 0x11, &i.min_time, |x| x.to_consensus_u32().to_le_bytes().to_vec());
            one(&mut m, 0x12, &i.min_height, |x| x.to_consensus_u32().to_le_bytes().to_vec());
            input_to_raw!(i, m, bip32_derivations, proprietaries, unknowns);
            for (s, e) in &i.sp_ecdh_shares {
                m.insert(k(0x1d, s.to_bytes()), e.to_bytes().to_vec());
            }
            for (s, d) in &i.sp_dleq_proofs {
                m.insert(k(0x1e, s.to_bytes()), d.0.to_vec());
            }
            ins.push(m);
        }
        let mut outs = vec![];
        for o in &self.outputs {
            let mut m = RMap::new();
            m.insert(vec![0x03], o.amount.to_sat().to_le_bytes().to_vec());
            m.insert(vec![0x04], o.script_pubkey.to_bytes());
            output_to_raw!(o, m, bip32_derivations, proprietaries, unknowns);
            one(&mut m, 0x09, &o.sp_v0_info, |x| x.clone());
            one(&mut m, 0x0a, &o.sp_v0_label, |x| x.to_le_bytes().to_vec());
            outs.push(m);
        }
        Raw { v: 2, g, ins, outs }
    }

    fn apply(&mut self, at: At, key: &[u8], v: &[u8]) -> Result<(), String> {
        let u32le = |v: &[u8]| -> Result<u32, String> {
            Ok(u32::from_le_bytes(v.try_into().map_err(es)?))
        };
        match at {
            At::G => {
                let g = &mut self.global;
                match key[0] {
                    0x01 => {
                        g.xpubs.insert(Xpub::decode(&key[1..]).map_err(es)?, parse_key_source(v)?);
                    }
                    0x03 =>
                        g.fallback_lock_time =
                            Some(absolute::LockTime::from_consensus(u32le(v)?)),
                    0x06 => g.tx_modifiable_flags = v[0],
                    0x07 => {
                        g.sp_ecdh_shares.insert(cpk(&key[1..])?, cpk(v)?);
                    }
                    0x08 => {
                        g.sp_dleq_proofs
                            .insert(cpk(&key[1..])?, v2::DleqProof(v.try_into().map_err(es)?));
                    }
                    _ => common_apply!(psbt_v2::raw, g, key, v, proprietaries, unknowns),
                }
            }
            At::In(i) => {
                let i = &mut self.inputs[i];
                match key[0] {
                    0x10 => i.sequence = Some(Sequence(u32le(v)?)),
                    0x11 =>
                        i.min_time =
                            Some(absolute::Time::from_consensus(u32le(v)?).map_err(es)?),
                    0x12 =>
                        i.min_height =
                            Some(absolute::Height::from_consensus(u32le(v)?).map_err(es)?),
                    0x1d => {
                        i.sp_ecdh_shares.insert(cpk(&key[1..])?, cpk(v)?);
                    }
                    0x1e => {
                        i.sp_dleq_proofs
                            .insert(cpk(&key[1..])?, v2::DleqProof(v.try_into().map_err(es)?));
                    }
                    _ => input_apply!(
                        psbt_v2::raw,
                        i,
                        key,
                        v,
                        bip32_derivations,
                        proprietaries,
                        unknowns
                    ),
                }
            }
            At::Out(o) => {
                let o = &mut self.outputs[o];
                match key[0] {
                    0x03 => o.amount = Amount::from_sat(u64::from_le_bytes(v.try_into().map_err(es)?)),
                    0x09 => o.sp_v0_info = Some(v.to_vec()),
                    0x0a => o.sp_v0_label = Some(u32le(v)?),
                    _ => output_apply!(
                        psbt_v2::raw,
                        o,
                        key,
                        v,
                        bip32_derivations,
                        proprietaries,
                        unknowns
                    ),
                }
            }
        }
        Ok(())
    }
}

/// Formats an error in every way a party could, including its sources.
pub fn show<E: std::error::Error>(e: E) -> String {
    let mut s = format!("{}", e);
    let d = format!("{:?}", e);
    let mut src = e.source();
    let mut depth = 0;
    while let Some(x) = src {
        s.push_str(": ");
        s.push_str(&x.to_string());
        src = x.source();
        depth += 1;
        if depth > 16 {
            break;
        }
    }
    if s.is_empty() {
        s = d;
    }
    s
}
