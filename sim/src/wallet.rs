//! Wallets: transactions that spend outputs of every supported script type, with the records an
//! updater adds and the material it takes to spend them.

use std::collections::{BTreeMap, BTreeSet};

use psbt_v2::bitcoin::consensus::encode::serialize;
use psbt_v2::bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use psbt_v2::bitcoin::secp256k1::Message;
use psbt_v2::bitcoin::sighash::TapSighashType;
use psbt_v2::bitcoin::taproot::{LeafVersion, TapLeafHash, TaprootBuilder};
use psbt_v2::bitcoin::{
    absolute, transaction, Amount, OutPoint, PublicKey, ScriptBuf, Sequence, Transaction, TxIn,
    TxOut, Witness, XOnlyPublicKey,
};
use psbt_v2::miniscript::{self, BareCtx, Legacy, Miniscript, Segwitv0, Tap};

use crate::ctx::{hexs, Ctx};
use crate::gen;
use crate::keys::{origin, wk, N_MASTERS, N_WKEYS, PER_MASTER};
use crate::raw::{compact, RMap, Raw};
use crate::script::Judge;
use crate::typed::key_source;

/// What it takes to satisfy a script.
#[derive(Clone, Debug)]
pub enum Pol {
    Key(usize),
    Hash(usize),
    /// A time lock, true if this transaction meets it.
    Lock(bool),
    And(Vec<Pol>),
    Or(Vec<Pol>),
    Thresh(usize, Vec<Pol>),
}

impl Pol {
    pub fn met(&self, keys: &BTreeSet<usize>, pre: &BTreeSet<usize>) -> bool {
        match self {
            Pol::Key(k) => keys.contains(k),
            Pol::Hash(h) => pre.contains(h),
            Pol::Lock(b) => *b,
            Pol::And(v) => v.iter().all(|p| p.met(keys, pre)),
            Pol::Or(v) => v.iter().any(|p| p.met(keys, pre)),
            Pol::Thresh(n, v) => v.iter().filter(|p| p.met(keys, pre)).count() >= *n,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Pkh,
    PkhUncompressed,
    Wpkh,
    ShWpkh,
    Pk,
    Bare,
    Sh,
    Wsh,
    ShWsh,
    TrKey,
    TrScript,
}

impl Kind {
    pub fn legacy(self) -> bool { matches!(self, Kind::Pkh | Kind::PkhUncompressed | Kind::Pk | Kind::Bare | Kind::Sh) }
    pub fn taproot(self) -> bool { matches!(self, Kind::TrKey | Kind::TrScript) }
    /// The signature hash is the one of segwit version 0.
    pub fn v0(self) -> bool { matches!(self, Kind::Wpkh | Kind::ShWpkh | Kind::Wsh | Kind::ShWsh) }
}

pub struct Leaf {
    pub script: ScriptBuf,
    pub hash: TapLeafHash,
    pub control: Vec<u8>,
    pub keys: Vec<usize>,
    pub pol: Pol,
}

pub struct Spend {
    pub kind: Kind,
    pub out: TxOut,
    pub prev: Transaction,
    pub vout: u32,
    pub redeem: Option<ScriptBuf>,
    pub wscript: Option<ScriptBuf>,
    /// The ECDSA keys of the script.
    pub keys: Vec<usize>,
    /// How the input can be spent with ECDSA signatures, or along the taproot key path.
    pub pol: Pol,
    pub internal: Option<usize>,
    pub leaves: Vec<Leaf>,
    pub root: Option<[u8; 32]>,
    /// Preimages by number: record type, hash, preimage.
    pub pres: Vec<(u8, Vec<u8>, Vec<u8>)>,
    pub sequence: u32,
    pub sighash: Option<u32>,
    /// The script can also be spent by a finaliser that avoids malleable witnesses.
    pub non_mall: bool,
    /// With both of these preimages known everybody can swap them in the witness.
    pub alterable: Option<(usize, usize)>,
    pub desc: String,
    /// The output descriptor, with plain public keys.
    pub full: String,
    /// What the updater adds: UTXOs, scripts, key origins, sighash type.
    pub recs: RMap,
}

pub struct Wallet {
    pub v: u8,
    pub tx: Transaction,
    pub spends: Vec<Spend>,
    /// The PSBT without and with the updater's records.
    pub bare: Raw,
    pub raw: Raw,
}

/// What the transaction offers to time locks.
struct Locks {
    time: bool,
    lock_time: u32,
    version: i32,
}

#[derive(Clone, Copy, PartialEq)]
enum In {
    Bare,
    Legacy,
    Segwit,
    Tap,
}

struct Tmpl {
    s: String,
    /// The same in a descriptor.
    d: String,
    pol: Pol,
    keys: Vec<usize>,
    alterable: Option<(usize, usize)>,
}

fn key_str(i: usize, x: In) -> String {
    if x == In::Tap {
        hexs(&wk(i).xonly.serialize())
    } else {
        hexs(&wk(i).pk.to_bytes())
    }
}

fn fresh_keys(c: &mut Ctx, n: usize, used: &mut BTreeSet<usize>) -> Vec<usize> {
    // Distinct keys, those of the first owners most of the time.
    let mut v = vec![];
    while v.len() < n {
        let mut k = c.t.idx(N_MASTERS) * PER_MASTER + c.t.idx(PER_MASTER);
        while used.contains(&k) {
            k = (k + 1) % (N_MASTERS * PER_MASTER);
        }
        used.insert(k);
        v.push(k);
    }
    v
}

fn new_pre(c: &mut Ctx, pres: &mut Vec<(u8, Vec<u8>, Vec<u8>)>) -> (String, usize) {
    // A hash of anything but 32 bytes is a condition nobody can meet.
    let n = if c.t.chance(1, 12) { *c.t.pick(&[31usize, 33, 0, 1, 20, 64]) } else { 32 };
    let p = c.t.bytes(n);
    let (t, name, h) = match c.t.below(4) {
        0 => (0x0bu8, "sha256", sha256::Hash::hash(&p).to_byte_array().to_vec()),
        1 => (0x0a, "ripemd160", ripemd160::Hash::hash(&p).to_byte_array().to_vec()),
        2 => (0x0c, "hash160", hash160::Hash::hash(&p).to_byte_array().to_vec()),
        _ => (0x0d, "hash256", sha256d::Hash::hash(&p).to_byte_array().to_vec()),
    };
    let s = format!("{}({})", name, hexs(&h));
    pres.push((t, h, p));
    (s, pres.len() - 1)
}

/// A time lock fragment and whether the transaction meets it.
fn lock(c: &mut Ctx, l: &Locks, seq: u32) -> (String, bool) {
    if c.t.chance(1, 2) {
        let base = if l.time { 500_000_000 } else { 1 };
        let n = match c.t.below(4) {
            0 => core::cmp::max(l.lock_time, 1),
            1 => c.t.range(base as u64, core::cmp::max(l.lock_time, base) as u64) as u32,
            2 => core::cmp::max(l.lock_time, 1) + 1,
            _ => if l.time { 7 } else { 500_000_007 },
        };
        let same = (n < 500_000_000) == (l.lock_time < 500_000_000);
        let met = same && n <= l.lock_time && seq != 0xffff_ffff;
        (format!("after({})", n), met)
    } else {
        let s = seq & 0x0040_ffff;
        let n = match c.t.below(4) {
            0 if s & 0xffff > 0 => s,
            1 if s & 0xffff > 0 => s & 0x0040_0000 | 1,
            2 => (s & 0x0040_0000 | (s & 0xffff) + 1) & 0x0040_ffff,
            _ => (s ^ 0x0040_0000) & 0x0040_0000 | 5,
        };
        let n = if n & 0xffff == 0 { n | 9 } else { n };
        let met = l.version as u32 >= 2
            && seq & (1 << 31) == 0
            && n & (1 << 22) == seq & (1 << 22)
            && n & 0xffff <= seq & 0xffff;
        (format!("older({})", n), met)
    }
}

fn tmpl(
    c: &mut Ctx,
    x: In,
    l: &Locks,
    seq: u32,
    pres: &mut Vec<(u8, Vec<u8>, Vec<u8>)>,
    used: &mut BTreeSet<usize>,
) -> Tmpl {
    if x != In::Bare && used.len() < 24 && c.t.chance(1, 12) {
        // Many signers.
        let n = c.t.range(4, 8) as usize;
        let m = c.t.range(1, n as u64) as usize;
        let ks = fresh_keys(c, n, used);
        let mut k: Vec<String> = ks.iter().map(|i| key_str(*i, x)).collect();
        let pol = Pol::Thresh(m, ks.iter().map(|i| Pol::Key(*i)).collect());
        let name = if x == In::Tap { "multi_a" } else { "multi" };
        let mut d = format!("{}({},{})", name, m, k.join(","));
        let mut s = d.clone();
        if x != In::Tap && c.t.chance(1, 3) {
            k.sort();
            s = format!("{}({},{})", name, m, k.join(","));
            d = format!("sorted{}", d);
        }
        return Tmpl { s, d, pol, keys: ks, alterable: None };
    }
    let mut ks = fresh_keys(c, 4, used);
    let k: Vec<String> = ks.iter().map(|i| key_str(*i, x)).collect();
    let p: Vec<Pol> = ks.iter().map(|i| Pol::Key(*i)).collect();
    let multi = |m: usize, n: usize| {
        let name = if x == In::Tap { "multi_a" } else { "multi" };
        (format!("{}({},{})", name, m, k[..n].join(",")), Pol::Thresh(m, p[..n].to_vec()), n)
    };
    let pick = if x == In::Bare { c.t.below(3) } else { c.t.below(16) };
    let mut alterable = None;
    let (s, pol, n) = match pick {
        0 => multi(2, 3),
        1 => multi(1, 2),
        2 => multi(3, 3),
        3 => (format!("pk({})", k[0]), p[0].clone(), 1),
        4 => (format!("pkh({})", k[0]), p[0].clone(), 1),
        5 => (format!("and_v(v:pk({}),pk({}))", k[0], k[1]), Pol::And(p[..2].to_vec()), 2),
        6 => (format!("or_d(pk({}),pkh({}))", k[0], k[1]), Pol::Or(p[..2].to_vec()), 2),
        // To spend with the second key alone, the first one has to be known.
        15 => (format!("or_d(pkh({}),pk({}))", k[0], k[1]), Pol::Or(p[..2].to_vec()), 2),
        7 => {
            let (ls, met) = lock(c, l, seq);
            (format!("and_v(v:pk({}),{})", k[0], ls), Pol::And(vec![p[0].clone(), Pol::Lock(met)]), 1)
        }
        8 => {
            let (ls, met) = lock(c, l, seq);
            (
                format!("andor(pk({}),{},pk({}))", k[0], ls, k[1]),
                Pol::Or(vec![Pol::And(vec![p[0].clone(), Pol::Lock(met)]), p[1].clone()]),
                2,
            )
        }
        9 => {
            let (ls, met) = lock(c, l, seq);
            let (ms, mp, _) = multi(2, 2);
            (
                format!("or_d({},and_v(v:pkh({}),{}))", ms, k[2], ls),
                Pol::Or(vec![mp, Pol::And(vec![p[2].clone(), Pol::Lock(met)])]),
                3,
            )
        }
        10 => {
            let (hs, h) = new_pre(c, pres);
            (format!("and_v(v:pk({}),{})", k[0], hs), Pol::And(vec![p[0].clone(), Pol::Hash(h)]), 1)
        }
        11 => {
            let (hs, h) = new_pre(c, pres);
            let (ls, met) = lock(c, l, seq);
            (
                format!("andor(pk({}),{},and_v(v:pk({}),{}))", k[0], hs, k[1], ls),
                Pol::Or(vec![
                    Pol::And(vec![p[0].clone(), Pol::Hash(h)]),
                    Pol::And(vec![p[1].clone(), Pol::Lock(met)]),
                ]),
                2,
            )
        }
        12 if c.t.chance(1, 5) => (
            // As many as there are.
            format!("thresh(2,pk({}),s:pk({}))", k[0], k[1]),
            Pol::Thresh(2, p[..2].to_vec()),
            2,
        ),
        14 => {
            let (a, i) = new_pre(c, pres);
            let (b, j) = new_pre(c, pres);
            alterable = Some((i, j));
            (
                format!("and_v(v:pk({}),or_i({},{}))", k[0], a, b),
                Pol::And(vec![p[0].clone(), Pol::Or(vec![Pol::Hash(i), Pol::Hash(j)])]),
                1,
            )
        }
        12 => (
            format!("thresh(2,pk({}),s:pk({}),s:pk({}))", k[0], k[1], k[2]),
            Pol::Thresh(2, p[..3].to_vec()),
            3,
        ),
        _ => {
            let (hs, h) = new_pre(c, pres);
            (
                format!("or_i(and_v(v:{},pk({})),and_v(v:pk({}),pk({})))", hs, k[0], k[1], k[2]),
                Pol::Or(vec![
                    Pol::And(vec![Pol::Hash(h), p[0].clone()]),
                    Pol::And(p[1..3].to_vec()),
                ]),
                3,
            )
        }
    };
    for u in ks.drain(n..) {
        used.remove(&u);
    }
    let mut d = s.clone();
    if (x == In::Legacy || x == In::Segwit) && s.starts_with("multi(") && c.t.chance(1, 3) {
        // A sortedmulti, whose keys may be in any order in the descriptor.
        let mut sorted = k[..n].to_vec();
        sorted.sort();
        let end = s.find(',').expect("multi");
        d = format!("sorted{}", s);
        return Tmpl { s: format!("{},{})", &s[..end], sorted.join(",")), d, pol, keys: ks, alterable };
    }
    Tmpl { s, d, pol, keys: ks, alterable }
}

fn compile(s: &str, x: In) -> (ScriptBuf, bool) {
    fn done<P: miniscript::ToPublicKey, C: miniscript::ScriptContext>(m: Miniscript<P, C>) -> (ScriptBuf, bool) {
        (m.encode(), m.sanity_check().is_ok())
    }
    match x {
        In::Bare => done(Miniscript::<PublicKey, BareCtx>::from_str_insane(s).expect(s)),
        In::Legacy => done(Miniscript::<PublicKey, Legacy>::from_str_insane(s).expect(s)),
        In::Segwit => done(Miniscript::<PublicKey, Segwitv0>::from_str_insane(s).expect(s)),
        In::Tap => done(Miniscript::<XOnlyPublicKey, Tap>::from_str_insane(s).expect(s)),
    }
}

pub fn uncompressed(i: usize) -> PublicKey { PublicKey::new_uncompressed(wk(i).pk.inner) }

fn key(t: u8, d: &[u8]) -> Vec<u8> { [&[t], d].concat() }

fn spend(c: &mut Ctx, kinds: &[Kind], l: &Locks, value: u64, used: &mut BTreeSet<usize>) -> Spend {
    let kind = *c.t.pick(kinds);
    let sequence = match c.t.below(6) {
        0 | 1 => 0xffff_fffe,
        2 => c.t.range(1, 20) as u32,
        3 => 0x0040_0000 | c.t.range(1, 20) as u32,
        4 => 0xffff_ffff,
        _ => 0xffff_fffd,
    };
    let mut pres = vec![];
    let mut redeem = None;
    let mut wscript = None;
    let mut internal = None;
    let mut leaves = vec![];
    let mut root = None;
    let mut non_mall = true;
    let mut alterable = None;
    let mut desc = String::new();
    let full;
    let (mut keys, pol);
    let spk;
    match kind {
        Kind::Pkh | Kind::PkhUncompressed | Kind::Wpkh | Kind::ShWpkh | Kind::Pk => {
            keys = fresh_keys(c, 1, used);
            pol = Pol::Key(keys[0]);
            let p = wk(keys[0]).pk;
            let ks = key_str(keys[0], In::Bare);
            full = match kind {
                Kind::Pkh => format!("pkh({})", ks),
                Kind::PkhUncompressed => format!("pkh({})", hexs(&uncompressed(keys[0]).to_bytes())),
                Kind::Wpkh => format!("wpkh({})", ks),
                Kind::Pk => format!("pk({})", ks),
                _ => format!("sh(wpkh({}))", ks),
            };
            spk = match kind {
                Kind::Pkh => ScriptBuf::new_p2pkh(&p.pubkey_hash()),
                Kind::PkhUncompressed => ScriptBuf::new_p2pkh(&uncompressed(keys[0]).pubkey_hash()),
                Kind::Wpkh => ScriptBuf::new_p2wpkh(&p.wpubkey_hash().unwrap()),
                Kind::Pk => ScriptBuf::new_p2pk(&p),
                _ => {
                    let r = ScriptBuf::new_p2wpkh(&p.wpubkey_hash().unwrap());
                    let s = r.to_p2sh();
                    redeem = Some(r);
                    s
                }
            };
        }
        Kind::Bare | Kind::Sh | Kind::Wsh | Kind::ShWsh => {
            let x = match kind {
                Kind::Bare => In::Bare,
                Kind::Sh => In::Legacy,
                _ => In::Segwit,
            };
            let t = tmpl(c, x, l, sequence, &mut pres, used);
            let (s, sane) = compile(&t.s, x);
            non_mall = sane;
            alterable = t.alterable;
            desc = t.s;
            full = match kind {
                Kind::Bare => t.d,
                Kind::Sh => format!("sh({})", t.d),
                Kind::Wsh => format!("wsh({})", t.d),
                _ => format!("sh(wsh({}))", t.d),
            };
            keys = t.keys;
            pol = t.pol;
            spk = match kind {
                Kind::Bare => s,
                Kind::Sh => {
                    let o = s.to_p2sh();
                    redeem = Some(s);
                    o
                }
                Kind::Wsh => {
                    let o = s.to_p2wsh();
                    wscript = Some(s);
                    o
                }
                _ => {
                    let r = s.to_p2wsh();
                    let o = r.to_p2sh();
                    wscript = Some(s);
                    redeem = Some(r);
                    o
                }
            };
        }
        Kind::TrKey | Kind::TrScript => {
            keys = fresh_keys(c, 1, used);
            internal = Some(keys[0]);
            pol = Pol::Key(keys[0]);
            let secp = &crate::keys::pool().secp;
            let mut b = TaprootBuilder::new();
            let depths: &[u8] = if kind == Kind::TrKey {
                &[]
            } else {
                c.t.pick(&[&[0u8][..], &[1, 1], &[1, 2, 2], &[2, 2, 2, 2]])
            };
            let mut parts = vec![];
            for d in depths {
                let t = tmpl(c, In::Tap, l, sequence, &mut pres, used);
                let (s, sane) = compile(&t.s, In::Tap);
                non_mall &= sane;
                desc.push_str(&t.s);
                if c.t.chance(1, 6) {
                    // The next leaf may use the same keys, but for the internal one.
                    used.retain(|k| !t.keys.contains(k));
                }
                b = b.add_leaf(*d, s.clone()).expect("depths");
                parts.push((s, t));
            }
            let l: Vec<&str> = parts.iter().map(|x: &(ScriptBuf, Tmpl)| &x.1.d[..]).collect();
            let tree = match depths {
                [] => String::new(),
                [_] => format!(",{}", l[0]),
                [_, _] => format!(",{{{},{}}}", l[0], l[1]),
                [_, _, _] => format!(",{{{},{{{},{}}}}}", l[0], l[1], l[2]),
                _ => format!(",{{{{{},{}}},{{{},{}}}}}", l[0], l[1], l[2], l[3]),
            };
            full = format!("tr({}{})", key_str(keys[0], In::Tap), tree);
            let info = b.finalize(secp, wk(keys[0]).xonly).expect("complete tree");
            root = info.merkle_root().map(|r| r.to_byte_array());
            for (s, t) in parts {
                let cb = info
                    .control_block(&(s.clone(), LeafVersion::TapScript))
                    .expect("leaf of the tree");
                leaves.push(Leaf {
                    hash: TapLeafHash::from_script(&s, LeafVersion::TapScript),
                    script: s,
                    control: cb.serialize(),
                    keys: t.keys,
                    pol: t.pol,
                });
            }
            spk = ScriptBuf::new_p2tr_tweaked(info.output_key());
        }
    }
    let out = TxOut { value: Amount::from_sat(value), script_pubkey: spk };
    let vout = c.t.below(3) as u32;
    let mut prev = gen::prev_tx(c, vout);
    prev.output[vout as usize] = out.clone();
    if !kind.legacy() && c.t.chance(1, 2) {
        // Spends a segwit output itself.
        prev.input[0].witness = Witness::from_slice(&[c.t.bytes(4)]);
    }
    let sighash = if c.t.chance(1, 2) {
        None
    } else if kind.taproot() {
        // Others are refused by the finalisers.
        Some(1)
    } else {
        Some(*c.t.pick(&[1u32, 2, 3, 0x81, 0x82, 0x83]))
    };
    let mut recs = RMap::new();
    let (nw, w) = if kind.legacy() { (true, false) } else { *c.t.pick(&[(false, true), (true, true), (true, false)]) };
    if nw {
        recs.insert(vec![0x00], serialize(&prev));
    }
    if w {
        recs.insert(vec![0x01], serialize(&out));
    }
    if let Some(t) = sighash {
        recs.insert(vec![0x03], t.to_le_bytes().to_vec());
    }
    if let Some(s) = &redeem {
        recs.insert(vec![0x04], s.to_bytes());
    }
    if let Some(s) = &wscript {
        recs.insert(vec![0x05], s.to_bytes());
    }
    if kind.taproot() {
        let mut by_key: BTreeMap<usize, Vec<TapLeafHash>> = BTreeMap::new();
        by_key.insert(keys[0], vec![]);
        for lf in &leaves {
            for k in &lf.keys {
                by_key.entry(*k).or_default().push(lf.hash);
            }
            recs.insert(key(0x15, &lf.control), [lf.script.as_bytes(), &[0xc0]].concat());
        }
        for (k, hs) in by_key {
            let mut v = compact(hs.len() as u64);
            for h in &hs {
                v.extend(h.to_byte_array());
            }
            v.extend(key_source(&origin(k)));
            recs.insert(key(0x16, &wk(k).xonly.serialize()), v);
        }
        recs.insert(vec![0x17], wk(keys[0]).xonly.serialize().to_vec());
        if let Some(r) = root {
            recs.insert(vec![0x18], r.to_vec());
        }
        keys.clear();
    } else {
        for k in &keys {
            recs.insert(key(0x06, &wk(*k).pk.to_bytes()), key_source(&origin(*k)));
        }
    }
    Spend {
        kind,
        out,
        prev,
        vout,
        redeem,
        wscript,
        keys,
        pol,
        internal,
        leaves,
        root,
        pres,
        sequence,
        sighash,
        non_mall,
        alterable,
        desc,
        full,
        recs,
    }
}

impl Spend {
    /// All keys that can contribute.
    pub fn all_keys(&self) -> Vec<usize> {
        let mut v = self.keys.clone();
        v.extend(self.internal);
        v.extend(self.leaves.iter().flat_map(|l| l.keys.iter().copied()));
        v.sort();
        v.dedup();
        v
    }

    /// The public key under which an ECDSA signature of this key belongs.
    pub fn sig_pk(&self, k: usize) -> PublicKey {
        if self.kind == Kind::PkhUncompressed {
            uncompressed(k)
        } else {
            wk(k).pk
        }
    }

    /// Can the input be spent with the signatures of these keys and these preimages?
    pub fn met(&self, keys: &BTreeSet<usize>, pre: &BTreeSet<usize>) -> bool {
        let pre = &self.usable(pre);
        self.pol.met(keys, pre) || self.leaves.iter().any(|l| l.pol.met(keys, pre))
    }

    pub fn script_code(&self) -> ScriptBuf {
        match self.kind {
            Kind::Wpkh => pkh_code(self.out.script_pubkey.as_bytes()),
            Kind::ShWpkh => pkh_code(self.redeem.as_ref().unwrap().as_bytes()),
            Kind::Wsh | Kind::ShWsh => self.wscript.clone().unwrap(),
            Kind::Sh => self.redeem.clone().unwrap(),
            _ => self.out.script_pubkey.clone(),
        }
    }

    /// The preimages a script accepts.
    pub fn usable(&self, pre: &BTreeSet<usize>) -> BTreeSet<usize> {
        pre.iter().copied().filter(|i| self.pres[*i].2.len() == 32).collect()
    }

    pub fn pre_rec(&self, i: usize) -> (Vec<u8>, Vec<u8>) {
        let (t, h, p) = &self.pres[i];
        (key(*t, h), p.clone())
    }
}

/// Records of scripts that have nothing to do with the output the input spends.
pub fn stray(c: &mut Ctx, s: &Spend) -> RMap {
    let mut r = RMap::new();
    let of = |c: &mut Ctx| match c.t.below(5) {
        0 => ScriptBuf::new_p2wpkh(&wk(c.t.idx(N_WKEYS)).pk.wpubkey_hash().expect("compressed")),
        1 => ScriptBuf::from_bytes([&[0u8, 32][..], &c.t.bytes(32)].concat()),
        2 => ScriptBuf::from_bytes([&[0x51u8, 32][..], &c.t.bytes(32)].concat()),
        3 => ScriptBuf::new_p2pkh(&wk(c.t.idx(N_WKEYS)).pk.pubkey_hash()),
        _ => gen::script(c),
    };
    if s.redeem.is_none() && c.t.chance(1, 2) {
        let x = of(c);
        r.insert(vec![4], x.into_bytes());
    }
    if s.wscript.is_none() && c.t.chance(1, 2) {
        let x = of(c);
        r.insert(vec![5], x.into_bytes());
    }
    r
}

fn pkh_code(wpkh: &[u8]) -> ScriptBuf {
    ScriptBuf::from_bytes([&[0x76, 0xa9, 0x14][..], &wpkh[2..], &[0x88, 0xac]].concat())
}

pub const ALL_KINDS: &[Kind] = &[
    Kind::Wpkh,
    Kind::Pkh,
    Kind::ShWpkh,
    Kind::Wsh,
    Kind::Sh,
    Kind::ShWsh,
    Kind::Bare,
    Kind::Pk,
    Kind::TrKey,
    Kind::TrScript,
];

pub const ECDSA_KINDS: &[Kind] = &[
    Kind::Wpkh,
    Kind::Pkh,
    Kind::ShWpkh,
    Kind::Wsh,
    Kind::Sh,
    Kind::ShWsh,
    Kind::Bare,
    Kind::Pk,
];

pub fn wallet(c: &mut Ctx, v: u8, kinds: &[Kind]) -> Wallet {
    let nin = *c.t.pick(&[1usize, 1, 2, 2, 3, 4]);
    let nin = if c.t.chance(1, 24) { c.t.range(5, 9) as usize } else { nin };
    let nout = *c.t.pick(&[1usize, 2, 2, 3, 5]);
    wallet_n(c, v, kinds, nin, nout)
}

pub fn wallet_n(c: &mut Ctx, v: u8, kinds: &[Kind], nin: usize, nout: usize) -> Wallet {
    let version = *c.t.pick(&[2i32, 2, 2, 1, 3, 2, 2, 0]);
    let time = c.t.chance(1, 3);
    let lock_time = match c.t.below(4) {
        0 => 0,
        1 if !time => c.t.range(1, 50) as u32,
        _ if time => 500_000_000 + c.t.below(1000) as u32,
        _ => c.t.range(100, 900_000) as u32,
    };
    let l = Locks { time: lock_time >= 500_000_000, lock_time, version };
    let mut used = BTreeSet::new();
    let mut spends: Vec<Spend> = vec![];
    let mut total = 0;
    for _ in 0..nin {
        let value = c.t.range(1_000, 1_000_000);
        total += value;
        // Now and then several inputs share a key.
        if c.t.chance(1, 4) || used.len() > 18 {
            used.clear();
        }
        spends.push(spend(c, kinds, &l, value, &mut used));
    }
    let mut outs = vec![];
    let mut left = total - core::cmp::min(total / 2, 300);
    for _ in 0..nout {
        let x = c.t.below(left / 2 + 1);
        left -= x;
        outs.push(TxOut { value: Amount::from_sat(x), script_pubkey: gen::script(c) });
    }
    let tx = Transaction {
        version: transaction::Version(version),
        lock_time: absolute::LockTime::from_consensus(lock_time),
        input: spends
            .iter()
            .map(|s| TxIn {
                previous_output: OutPoint { txid: s.prev.compute_txid(), vout: s.vout },
                script_sig: ScriptBuf::new(),
                sequence: Sequence(s.sequence),
                witness: Witness::new(),
            })
            .collect(),
        output: outs,
    };
    let bare = bare(c, v, &tx);
    let mut raw = bare.clone();
    for (i, s) in spends.iter().enumerate() {
        raw.ins[i].extend(s.recs.clone());
    }
    Wallet { v, tx, spends, bare, raw }
}

/// A PSBT of a transaction without any other records.
pub fn bare(c: &mut Ctx, v: u8, tx: &Transaction) -> Raw {
    let mut r = Raw { v, ..Default::default() };
    if v == 0 {
        r.g.insert(vec![0], crate::raw::write_unsigned_tx(tx));
        r.ins = vec![Default::default(); tx.input.len()];
        r.outs = vec![Default::default(); tx.output.len()];
        return r;
    }
    let lt = tx.lock_time.to_consensus_u32();
    r.g.insert(vec![0xfb], 2u32.to_le_bytes().to_vec());
    r.g.insert(vec![0x02], tx.version.0.to_le_bytes().to_vec());
    r.g.insert(vec![0x04], compact(tx.input.len() as u64));
    r.g.insert(vec![0x05], compact(tx.output.len() as u64));
    let flags = *c.t.pick(&[3u8, 0, 1, 2, 7, 4, 0x83]);
    r.g.insert(vec![0x06], vec![flags]);
    // The lock time comes from an input or from the fallback.
    let by_input = lt > 0 && c.t.chance(1, 2);
    let who = c.t.idx(core::cmp::max(tx.input.len(), 1));
    if by_input {
        if c.t.chance(1, 3) {
            r.g.insert(vec![0x03], c.t.u32().to_le_bytes().to_vec());
        }
    } else if lt > 0 || c.t.chance(1, 4) {
        r.g.insert(vec![0x03], lt.to_le_bytes().to_vec());
    }
    for (i, t) in tx.input.iter().enumerate() {
        let mut m = RMap::new();
        m.insert(vec![0x0e], t.previous_output.txid.to_byte_array().to_vec());
        m.insert(vec![0x0f], t.previous_output.vout.to_le_bytes().to_vec());
        if t.sequence.0 != 0xffff_ffff || c.t.chance(1, 2) {
            m.insert(vec![0x10], t.sequence.0.to_le_bytes().to_vec());
        }
        if by_input && (i == who || c.t.chance(1, 3)) {
            let time = lt >= 500_000_000;
            let lo = if time { 500_000_000 } else { 0 };
            let val = if i == who { lt } else { c.t.range(lo, lt as u64) as u32 };
            m.insert(vec![if time { 0x11 } else { 0x12 }], val.to_le_bytes().to_vec());
            if !time && c.t.chance(1, 4) {
                // Height is preferred where both would do.
                m.insert(vec![0x11], (500_000_000 + c.t.below(1000) as u32).to_le_bytes().to_vec());
            }
        }
        r.ins.push(m);
    }
    for o in &tx.output {
        let mut m = RMap::new();
        m.insert(vec![0x03], o.value.to_sat().to_le_bytes().to_vec());
        m.insert(vec![0x04], o.script_pubkey.to_bytes());
        r.outs.push(m);
    }
    r
}

impl Wallet {
    pub fn prevouts(&self) -> Vec<TxOut> { self.spends.iter().map(|s| s.out.clone()).collect() }

    pub fn desc(&self) -> String {
        let v: Vec<String> = self
            .spends
            .iter()
            .map(|s| {
                format!(
                    "{:?}{}{}",
                    s.kind,
                    if s.desc.is_empty() { String::new() } else { format!(" {}", short_keys(&s.desc)) },
                    s.sighash.map(|t| format!(" type {:02x}", t)).unwrap_or_default()
                )
            })
            .collect();
        format!("v{} lock {} version {}: {}", self.v, self.tx.lock_time.to_consensus_u32(), self.tx.version.0, v.join("; "))
    }

    pub fn ecdsa_msg(&self, j: &mut Judge, i: usize) -> Result<(Message, u8), String> {
        let s = &self.spends[i];
        let ty = s.sighash.unwrap_or(1) as u8;
        Ok((j.ecdsa_hash(i, &s.script_code(), ty, s.kind.v0())?, ty))
    }

    pub fn tap_msg(&self, j: &mut Judge, i: usize, leaf: Option<TapLeafHash>) -> Result<(Message, TapSighashType), String> {
        let ty = match self.spends[i].sighash {
            None => TapSighashType::Default,
            Some(t) => TapSighashType::from_consensus_u8(t as u8).map_err(|e| e.to_string())?,
        };
        Ok((j.tap_hash(i, ty, leaf)?, ty))
    }
}

fn short_keys(s: &str) -> String {
    // Long hex strings down to their beginning.
    let mut o = String::new();
    let mut run = 0;
    for ch in s.chars() {
        run = if ch.is_ascii_hexdigit() { run + 1 } else { 0 };
        if run <= 8 {
            o.push(ch);
        }
    }
    o
}
