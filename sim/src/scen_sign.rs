//! C10, C11: a PSBT is handed from signer to signer, whose key stores fail, refuse or answer
//! differently from call to call, with crashes that lose signatures and stale copies.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

use psbt_v2::bitcoin::bip32::{KeySource, Xpriv};
use psbt_v2::bitcoin::key::{PrivateKey, PublicKey};
use psbt_v2::bitcoin::secp256k1::{self, Message, Secp256k1, Signing};
use psbt_v2::bitcoin::sighash::{EcdsaSighashType, SighashCache};
use psbt_v2::bitcoin::{NetworkKind, TxOut, XOnlyPublicKey};
use psbt_v2::{v0, v2};

use crate::ctx::{fail, hexs, Ctx, R};
use crate::gen;
use crate::keys::{origin, pool, wk, N_MASTERS, N_WKEYS, PER_MASTER};
use crate::model;
use crate::raw::{At, Raw};
use crate::script::Judge;
use crate::typed::{show, Ps};
use crate::wallet::{self, Kind, Wallet};
use crate::{ensure, ev};

/// What a signer says.
pub struct Out<P> {
    pub psbt: Option<P>,
    pub used: BTreeMap<usize, BTreeSet<Vec<u8>>>,
    pub errs: BTreeMap<usize, String>,
}

pub trait Signs: Ps {
    fn sign_by<K: v0::bitcoin::GetKey + v2::GetKey>(&self, k: &K) -> Result<Out<Self>, String>;
    /// The signature hash and type of an ECDSA input.
    fn sighash(&self, i: usize) -> Result<(Message, u8), String>;
}

impl Signs for v0::Psbt {
    fn sign_by<K: v0::bitcoin::GetKey + v2::GetKey>(&self, k: &K) -> Result<Out<Self>, String> {
        let mut p = self.clone();
        let (used, errs) = match p.sign(k, &pool().secp) {
            Ok(u) => (u, Default::default()),
            Err(x) => x,
        };
        let used = used
            .into_iter()
            .map(|(i, u)| {
                let s = match u {
                    v0::bitcoin::SigningKeys::Ecdsa(v) => v.iter().map(|k| k.to_bytes()).collect(),
                    v0::bitcoin::SigningKeys::Schnorr(v) => v.iter().map(|k| k.serialize().to_vec()).collect(),
                };
                (i, s)
            })
            .collect();
        Ok(Out { psbt: Some(p), used, errs: errs.into_iter().map(|(i, e)| (i, show(e))).collect() })
    }
    fn sighash(&self, i: usize) -> Result<(Message, u8), String> {
        let mut cache = SighashCache::new(&self.unsigned_tx);
        self.sighash_ecdsa(i, &mut cache).map(|(m, t)| (m, t as u8)).map_err(show)
    }
}

impl Signs for v2::Psbt {
    fn sign_by<K: v0::bitcoin::GetKey + v2::GetKey>(&self, k: &K) -> Result<Out<Self>, String> {
        let s = v2::Signer::new(self.clone()).map_err(show)?;
        let (psbt, used, errs) = match s.sign(k, &pool().secp) {
            Ok((p, u)) => (Some(p), u, Default::default()),
            Err((u, e)) => (None, u, e),
        };
        let used = used.into_iter().map(|(i, v)| (i, v.iter().map(|k| k.to_bytes()).collect())).collect();
        Ok(Out { psbt, used, errs: errs.into_iter().map(|(i, e)| (i, show(e))).collect() })
    }
    fn sighash(&self, i: usize) -> Result<(Message, u8), String> {
        let s = v2::Signer::new(self.clone()).map_err(show)?;
        let tx = s.unsigned_tx();
        let mut cache = SighashCache::new(&tx);
        self.sighash_ecdsa(i, &mut cache).map(|(m, t)| (m, t as u8)).map_err(show)
    }
}

fn by_origin(s: &KeySource) -> Option<usize> {
    static M: OnceLock<BTreeMap<Vec<u8>, usize>> = OnceLock::new();
    M.get_or_init(|| (0..N_WKEYS).map(|i| (crate::typed::key_source(&origin(i)), i)).collect())
        .get(&crate::typed::key_source(s))
        .copied()
}

fn by_pk(p: &PublicKey) -> Option<usize> {
    static M: OnceLock<BTreeMap<secp256k1::PublicKey, usize>> = OnceLock::new();
    M.get_or_init(|| (0..N_WKEYS).map(|i| (wk(i).pk.inner, i)).collect()).get(&p.inner).copied()
}

pub fn private(i: usize, compressed: bool) -> PrivateKey {
    PrivateKey { compressed, network: NetworkKind::Test, inner: wk(i).sk }
}

/// A key store that answers as it likes.
pub struct Hsm {
    held: BTreeSet<usize>,
    bip32: bool,
    by_pk: bool,
    /// Keys known as uncompressed ones.
    unc: BTreeSet<usize>,
    /// Keys of several inputs, one answer per session so that all of them get it.
    shared: BTreeSet<usize>,
    st: RefCell<St>,
}

#[derive(Default)]
struct St {
    /// Coming answers: 0 the key, 1 none, 2 an error.
    plan: Vec<u8>,
    memo: BTreeMap<(usize, bool), u8>,
    got: BTreeMap<usize, bool>,
    got_bip: BTreeSet<usize>,
    calls: u64,
    failed: u64,
    refused: u64,
}

#[derive(Debug)]
pub enum Never {
    /// The device is gone.
    Gone,
}

impl Hsm {
    fn answer(&self, k: Option<usize>, bip32: bool) -> Result<Option<PrivateKey>, Never> {
        let mut st = self.st.borrow_mut();
        st.calls += 1;
        let k = match k {
            Some(k) if self.held.contains(&k) => k,
            _ => return Ok(None),
        };
        if !(if bip32 { self.bip32 } else { self.by_pk }) {
            return if k % 2 == 0 { Err(Never::Gone) } else { Ok(None) };
        }
        let a = match st.memo.get(&(k, bip32)) {
            Some(a) if self.shared.contains(&k) => *a,
            _ => {
                let a = st.plan.pop().unwrap_or(0);
                st.memo.insert((k, bip32), a);
                a
            }
        };
        match a {
            0 => {
                let comp = !self.unc.contains(&k);
                st.got.insert(k, comp);
                if bip32 {
                    st.got_bip.insert(k);
                }
                Ok(Some(private(k, comp)))
            }
            1 => {
                st.refused += 1;
                Ok(None)
            }
            _ => {
                st.failed += 1;
                Err(Never::Gone)
            }
        }
    }
}

impl v0::bitcoin::GetKey for Hsm {
    type Error = Never;
    fn get_key<C: Signing>(&self, r: v0::bitcoin::KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, Never> {
        match r {
            v0::bitcoin::KeyRequest::Pubkey(p) => self.answer(by_pk(&p), false),
            v0::bitcoin::KeyRequest::Bip32(s) => self.answer(by_origin(&s), true),
            _ => Ok(None),
        }
    }
}

impl v2::GetKey for Hsm {
    type Error = Never;
    fn get_key<C: Signing>(&self, r: v2::KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, Never> {
        match r {
            v2::KeyRequest::Pubkey(p) => self.answer(by_pk(&p), false),
            v2::KeyRequest::Bip32(s) => self.answer(by_origin(&s), true),
            _ => Ok(None),
        }
    }
}

/// The key stores the crate supports, and the one above.
pub enum Store {
    Xpriv(Xpriv, BTreeSet<usize>),
    BMap(BTreeMap<PublicKey, PrivateKey>, BTreeMap<usize, bool>),
    HMap(HashMap<PublicKey, PrivateKey>, BTreeMap<usize, bool>),
    Hsm(Hsm),
}

impl Store {
    fn name(&self) -> &'static str {
        match self {
            Store::Xpriv(..) => "xpriv",
            Store::BMap(..) => "tree map",
            Store::HMap(..) => "hash map",
            Store::Hsm(..) => "hsm",
        }
    }

    /// Everything this store could ever give.
    fn held(&self) -> BTreeSet<usize> {
        match self {
            Store::Xpriv(_, h) => h.clone(),
            Store::BMap(_, h) | Store::HMap(_, h) => h.keys().copied().collect(),
            Store::Hsm(h) => h.held.clone(),
        }
    }

    pub fn sign<P: Signs>(&self, p: &P) -> Result<Out<P>, String> {
        match self {
            Store::Xpriv(k, _) => p.sign_by(k),
            Store::BMap(k, _) => p.sign_by(k),
            Store::HMap(k, _) => p.sign_by(k),
            Store::Hsm(k) => p.sign_by(k),
        }
    }

    /// The keys given since the last call, and those given by their origin.
    fn gave(&self) -> (BTreeMap<usize, bool>, BTreeSet<usize>) {
        match self {
            Store::Xpriv(_, h) =>
                (h.iter().map(|k| (*k, true)).collect(), h.clone()),
            Store::BMap(_, h) | Store::HMap(_, h) => (h.clone(), BTreeSet::new()),
            Store::Hsm(h) => {
                let st = h.st.borrow();
                (st.got.clone(), st.got_bip.clone())
            }
        }
    }

    /// Starts a session with an answer plan.
    pub fn plan(&mut self, plan: Vec<u8>) {
        if let Store::Hsm(h) = self {
            *h.st.borrow_mut() = St { plan, ..Default::default() };
        }
    }
}

fn of_masters(ms: &BTreeSet<usize>) -> BTreeSet<usize> {
    ms.iter().flat_map(|m| (0..PER_MASTER).map(move |i| m * PER_MASTER + i)).collect()
}

/// A child of a master, whose keys must not be taken for its parent's.
fn decoy(c: &mut Ctx) -> Store {
    let p = pool();
    let path: Vec<u32> = (0..c.t.range(1, 2)).map(|_| c.t.below(8) as u32).collect();
    let x = p.masters[c.t.idx(N_MASTERS)].derive_priv(&p.secp, &crate::keys::path(&path)).expect("child");
    Store::Xpriv(x, BTreeSet::new())
}

pub fn store(c: &mut Ctx, ms: &BTreeSet<usize>, unc: &BTreeSet<usize>, shared: &BTreeSet<usize>) -> Store {
    let p = pool();
    let held = of_masters(ms);
    let kind = match c.t.below(8) {
        k if k < 3 && ms.len() > 1 => k + 3,
        k => k,
    };
    let map = |c: &mut Ctx| -> BTreeMap<usize, bool> {
        let some = c.t.chance(1, 4);
        held.iter()
            .filter(|_| !some || c.t.chance(3, 4))
            .map(|k| (*k, !unc.contains(k)))
            .collect()
    };
    match kind {
        0 | 1 | 2 => {
            let m = *ms.iter().next().expect("a master");
            Store::Xpriv(p.masters[m], held)
        }
        3 => {
            let h = map(c);
            Store::BMap(h.iter().map(|(k, z)| (wk(*k).pk, private(*k, *z))).collect(), h)
        }
        4 => {
            let h = map(c);
            Store::HMap(h.iter().map(|(k, z)| (wk(*k).pk, private(*k, *z))).collect(), h)
        }
        _ => {
            let (bip32, by_pk) = *c.t.pick(&[(true, true), (true, true), (true, false), (false, true)]);
            Store::Hsm(Hsm {
                held,
                bip32,
                by_pk,
                unc: unc.clone(),
                shared: shared.clone(),
                st: RefCell::new(St::default()),
            })
        }
    }
}

/// Why an input cannot be signed.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Broken {
    /// Its type is unknown.
    Type,
    /// Its type is known, its signature hash is not.
    Hash,
}

struct Run<'a> {
    w: &'a Wallet,
    outs: &'a [TxOut],
    /// Verified signatures.
    good: BTreeSet<Vec<u8>>,
}

impl<'a> Run<'a> {
    fn ecdsa_ok(&mut self, i: usize, key: &[u8], sig: &[u8]) -> Result<(), String> {
        let mut memo = vec![i as u8];
        memo.extend(key);
        memo.extend(sig);
        if self.good.contains(&memo) {
            return Ok(());
        }
        let mut j = Judge::new(&self.w.tx, self.outs);
        let (m, ty) = self.w.ecdsa_msg(&mut j, i)?;
        let (t, der) = sig.split_last().ok_or("empty signature")?;
        if *t != ty {
            return Err(format!("type {:02x} instead of {:02x}", t, ty));
        }
        let s = secp256k1::ecdsa::Signature::from_der(der).map_err(|e| e.to_string())?;
        let k = secp256k1::PublicKey::from_slice(key).map_err(|e| e.to_string())?;
        pool().secp.verify_ecdsa(&m, &s, &k).map_err(|e| e.to_string())?;
        self.good.insert(memo);
        Ok(())
    }

    fn schnorr_ok(&mut self, i: usize, key: &[u8], leaf: Option<usize>, sig: &[u8]) -> Result<(), String> {
        let mut memo = vec![i as u8, leaf.map_or(255, |l| l as u8)];
        memo.extend(key);
        memo.extend(sig);
        if self.good.contains(&memo) {
            return Ok(());
        }
        let mut j = Judge::new(&self.w.tx, self.outs);
        let (m, ty) = self.w.tap_msg(&mut j, i, leaf.map(|l| self.w.spends[i].leaves[l].hash))?;
        let (s, t) = match sig.len() {
            64 => (sig, 0u8),
            65 if sig[64] != 0 => (&sig[..64], sig[64]),
            n => return Err(format!("signature of {} bytes", n)),
        };
        if t != ty as u8 {
            return Err(format!("type {:02x} instead of {:02x}", t, ty as u8));
        }
        let s = secp256k1::schnorr::Signature::from_slice(s).map_err(|e| e.to_string())?;
        let k = XOnlyPublicKey::from_slice(key).map_err(|e| e.to_string())?;
        pool().secp.verify_schnorr(&s, &m, &k).map_err(|e| e.to_string())?;
        self.good.insert(memo);
        Ok(())
    }

    /// One signing session on a copy, judged. Returns the copy signed.
    fn session<P: Signs>(
        &mut self,
        c: &mut Ctx,
        p: &P,
        s: &Store,
        broken: &BTreeMap<usize, Broken>,
        what: &str,
    ) -> R<Option<P>> {
        let pre = p.to_raw();
        let o = match s.sign(p) {
            Ok(o) => o,
            Err(e) => return fail("signer-refused", format!("{}: {}", what, e)),
        };
        let (got, got_bip) = s.gave();
        let held = s.held();
        if let Store::Hsm(h) = s {
            let st = h.st.borrow();
            for _ in 0..st.failed {
                c.fault("key-store-failed");
            }
            for _ in 0..st.refused {
                c.fault("key-store-refused");
            }
        }
        let w = self.w;
        let post = o.psbt.as_ref().map(|p| p.to_raw());
        let mut flags = pre.g.get(&vec![6u8]).map(|v| v[0]).unwrap_or(0);
        for (i, sp) in w.spends.iter().enumerate() {
            let used = o.used.get(&i).cloned().unwrap_or_default();
            let err = o.errs.get(&i);
            let tap = sp.kind.taproot();
            let listed = |k: &usize| sp.all_keys().contains(k);
            let b = broken.get(&i);
            if let Some(e) = err {
                match b {
                    None => return fail("error-for-a-good-input", format!("{}: input {} {:?}: {}", what, i, sp.kind, e)),
                    Some(Broken::Type) if P::V == 0 => {}
                    Some(_) => ensure!(
                        held.iter().any(|k| listed(k)),
                        "error-without-a-key",
                        "{}: input {} {:?}: {}", what, i, sp.kind, e
                    ),
                }
            }
            if b.is_some() {
                ensure!(used.is_empty(), "reported-but-not-signed", "{}: input {} {:?} cannot be signed", what, i, sp.kind);
                if let Some(r) = &post {
                    ensure!(
                        r.ins[i] == pre.ins[i],
                        "unsignable-input-changed",
                        "{}: input {} {:?}", what, i, sp.kind
                    );
                }
                if b == Some(&Broken::Hash) && !tap && got.keys().any(|k| sp.keys.contains(k)) {
                    ensure!(err.is_some(), "error-swallowed", "{}: input {} {:?}", what, i, sp.kind);
                }
                continue;
            }
            // The signatures that have to be there now, by record key.
            let mut want: BTreeMap<Vec<u8>, (Vec<u8>, Option<usize>)> = BTreeMap::new();
            let mut report = BTreeSet::new();
            let mut may_report = BTreeSet::new();
            if !tap {
                for k in &sp.keys {
                    if let Some(comp) = got.get(k) {
                        let mut pk = wk(*k).pk;
                        pk.compressed = *comp;
                        let b = pk.to_bytes();
                        want.insert([&[2u8][..], &b].concat(), (b.clone(), None));
                        report.insert(b);
                    }
                }
                if !report.is_empty() && P::V == 2 {
                    model::signed_flags(&mut flags, sp.sighash.unwrap_or(1) as u8);
                }
            } else if P::V == 0 {
                for k in sp.all_keys() {
                    if !got_bip.contains(&k) {
                        continue;
                    }
                    let x = wk(k).xonly.serialize().to_vec();
                    may_report.insert(x.clone());
                    if sp.internal == Some(k) && !pre.ins[i].contains_key(&vec![0x13u8]) {
                        let out = sp.out.script_pubkey.as_bytes()[2..].to_vec();
                        want.insert(vec![0x13], (out, None));
                        report.insert(x.clone());
                    }
                    for (l, leaf) in sp.leaves.iter().enumerate().filter(|(_, l)| l.keys.contains(&k)) {
                        let rk = [&[0x14u8][..], &x, &leaf.hash[..]].concat();
                        if !pre.ins[i].contains_key(&rk) {
                            want.insert(rk, (x.clone(), Some(l)));
                            report.insert(x.clone());
                        }
                    }
                }
            }
            may_report.extend(report.iter().cloned());
            ensure!(
                report.is_subset(&used) && used.is_subset(&may_report),
                "report-wrong",
                "{}: input {} {:?} reported {:?} instead of {:?}",
                what, i, sp.kind,
                used.iter().map(|u| hexs(&u[..5])).collect::<Vec<_>>(),
                report.iter().map(|u| hexs(&u[..5])).collect::<Vec<_>>()
            );
            let r = match &post {
                Some(r) => r,
                None => continue,
            };
            for (k, (key, leaf)) in &want {
                let v = match r.ins[i].get(k) {
                    Some(v) => v,
                    None => return fail("signature-missing", format!("{}: input {} {:?} key {}", what, i, sp.kind, hexs(&key[..5]))),
                };
                let ok = if tap { self.schnorr_ok(i, key, *leaf, v) } else { self.ecdsa_ok(i, key, v) };
                if let Err(e) = ok {
                    return fail("signature-invalid", format!("{}: input {} {:?} key {}: {}", what, i, sp.kind, hexs(&key[..5]), e));
                }
                c.probe(if leaf.is_some() {
                    "signed-taproot-script"
                } else if tap {
                    "signed-taproot-key"
                } else if key.len() == 65 {
                    "signed-uncompressed"
                } else {
                    "signed-ecdsa"
                });
            }
            for (k, v) in &r.ins[i] {
                if !want.contains_key(k) {
                    ensure!(
                        pre.ins[i].get(k) == Some(v),
                        "record-changed",
                        "{}: input {} {:?} record {}", what, i, sp.kind, hexs(&k[..core::cmp::min(8, k.len())])
                    );
                }
            }
            for k in pre.ins[i].keys() {
                ensure!(
                    r.ins[i].contains_key(k),
                    "record-lost",
                    "{}: input {} {:?} record {}", what, i, sp.kind, hexs(&k[..core::cmp::min(8, k.len())])
                );
            }
        }
        if o.errs.is_empty() {
            ensure!(post.is_some(), "error-without-reason", "{}", what);
        }
        for i in o.errs.keys().chain(o.used.keys()) {
            ensure!(*i < w.spends.len(), "report-wrong", "{}: input {} does not exist", what, i);
        }
        if let Some(r) = &post {
            let mut g = pre.g.clone();
            if P::V == 2 {
                g.insert(vec![6], vec![flags]);
                let f = r.g.get(&vec![6u8]).map(|v| v[0]);
                ensure!(f == Some(flags), "flags-wrong", "{}: {:02x?} instead of {:02x}", what, f, flags);
            }
            ensure!(r.g == g && r.outs == pre.outs, "record-changed", "{}: a global or output record", what);
        }
        Ok(o.psbt)
    }
}

/// Cripples some inputs of a copy so that they cannot be signed.
fn cripple(c: &mut Ctx, w: &Wallet, r: &mut Raw) -> BTreeMap<usize, Broken> {
    let mut out = BTreeMap::new();
    let mut lost_utxo = false;
    let mut changed_utxo = false;
    for (i, s) in w.spends.iter().enumerate() {
        if !c.t.chance(1, 2) {
            continue;
        }
        let m = &mut r.ins[i];
        let b = match c.t.below(4) {
            0 => {
                m.remove(&vec![0u8]);
                m.remove(&vec![1u8]);
                lost_utxo = true;
                Broken::Type
            }
            1 => {
                // A later witness version.
                let mut o: TxOut = s.out.clone();
                let spk = [&[0x52u8, 32][..], &c.t.bytes(32)].concat();
                o.script_pubkey = psbt_v2::bitcoin::ScriptBuf::from_bytes(spk);
                m.remove(&vec![0u8]);
                m.insert(vec![1], psbt_v2::bitcoin::consensus::encode::serialize(&o));
                changed_utxo = true;
                Broken::Type
            }
            2 => {
                let t = *c.t.pick(&[4u32, 0x84, 0x100, 0xff, 5]);
                m.insert(vec![3], t.to_le_bytes().to_vec());
                Broken::Hash
            }
            _ => {
                let k = match s.kind {
                    Kind::Sh | Kind::ShWpkh => 4u8,
                    Kind::Wsh => 5,
                    Kind::ShWsh => *c.t.pick(&[4u8, 5]),
                    _ => continue,
                };
                m.remove(&vec![k]);
                Broken::Hash
            }
        };
        out.insert(i, b);
    }
    // Taproot signatures commit to all spent outputs.
    for (i, s) in w.spends.iter().enumerate() {
        if s.kind.taproot() && (lost_utxo || changed_utxo) && !out.contains_key(&i) {
            if s.sighash.unwrap_or(0) & 0x80 == 0 {
                if changed_utxo && !lost_utxo {
                    // Signs for another output, which this scenario does not judge.
                    return BTreeMap::new();
                }
                out.insert(i, Broken::Hash);
            }
        }
    }
    out
}

/// Records that the signer must not touch.
fn decorate(c: &mut Ctx, r: &mut Raw) {
    let maps: Vec<At> = r.maps().iter().map(|(a, _)| *a).collect();
    for _ in 0..c.t.below(5) {
        let at = *c.t.pick(&maps);
        let n = c.t.below(6) as usize;
        let d = c.t.bytes(n);
        let v = c.t.bytes(n + 1);
        if c.t.chance(1, 2) {
            r.map_mut(at).insert([&[0xf1u8][..], &d].concat(), v);
        } else {
            let k = crate::typed::prop_key(&d, 7, &v);
            r.map_mut(at).insert([&[0xfcu8][..], &k].concat(), d);
        }
    }
    if c.t.chance(1, 3) {
        let k = pool().xpubs[c.t.idx(N_MASTERS)].encode();
        r.g.insert([&[1u8][..], &k].concat(), gen::rand_key_source(c));
    }
    // Signatures, origins and preimages of others.
    for m in r.ins.iter_mut() {
        if c.t.chance(1, 4) {
            let h: [u8; 32] = c.t.arr();
            let pre = psbt_v2::bitcoin::hashes::Hash::to_byte_array(<psbt_v2::bitcoin::hashes::sha256::Hash as psbt_v2::bitcoin::hashes::Hash>::hash(&h));
            m.insert([&[0x0bu8][..], &pre].concat(), h.to_vec());
        }
        if c.t.chance(1, 4) {
            let k = c.t.idx(crate::keys::N_KEYS);
            m.insert([&[2u8][..], &crate::keys::pk(k).to_bytes()].concat(), [&pool().sigs[k % 8].serialize_der()[..], &[1]].concat());
        }
    }
}

const KINDS: &[Kind] = &[
    Kind::Wpkh,
    Kind::Pkh,
    Kind::PkhUncompressed,
    Kind::ShWpkh,
    Kind::Wsh,
    Kind::Sh,
    Kind::ShWsh,
    Kind::Bare,
    Kind::Pk,
    Kind::TrKey,
    Kind::TrScript,
    Kind::TrScript,
];

pub fn run<P: Signs>(c: &mut Ctx) -> R {
    let one_kind = [*c.t.pick(KINDS)];
    let kinds = if c.t.chance(1, 4) { &one_kind[..] } else { KINDS };
    let mut w = wallet::wallet(c, P::V, kinds);
    let nout = w.tx.output.len();
    let mut single_missing = BTreeMap::new();
    let mut raw = w.raw.clone();
    for (i, s) in w.spends.iter_mut().enumerate() {
        if c.t.chance(1, 6) {
            c.fault("stray-script");
            raw.ins[i].append(&mut wallet::stray(c, s));
        }
        if s.kind.taproot() && c.t.chance(1, 4) {
            // What only a finaliser needs.
            raw.ins[i].retain(|k, _| k[0] != 0x15);
            c.probe("leaf-scripts-left-out");
        }
        // Other taproot types can be signed as well.
        if s.kind.taproot() && c.t.chance(1, 2) {
            let t = *c.t.pick(&[0u32, 1, 2, 3, 0x81, 0x82, 0x83]);
            s.sighash = Some(t);
            raw.ins[i].insert(vec![3], t.to_le_bytes().to_vec());
            if t & 3 == 3 && i >= nout {
                single_missing.insert(i, Broken::Hash);
            }
        }
        if !s.kind.taproot() && c.t.chance(1, 8) {
            // A signature from before something was changed.
            for k in s.keys.clone() {
                if c.t.chance(1, 2) {
                    c.fault("stale-signature");
                    let v = [&pool().sigs[k % 8].serialize_der()[..], &[*c.t.pick(&[1u8, 3, 0x82])]].concat();
                    raw.ins[i].insert([&[2u8][..], &s.sig_pk(k).to_bytes()].concat(), v);
                }
            }
        }
    }
    decorate(c, &mut raw);
    let outs = w.prevouts();
    ev!(c, "{}", w.desc());
    let start = match P::de(&raw.write()) {
        Ok(p) => p,
        Err(e) => return fail("wallet-refused", format!("{}: {}", w.desc(), e)),
    };
    let mut run = Run { w: &w, outs: &outs, good: BTreeSet::new() };

    // The signature hashes offered to other software.
    for (i, s) in w.spends.iter().enumerate() {
        let got = start.sighash(i);
        if s.kind.taproot() {
            ensure!(got.is_err(), "sighash-wrong", "input {} {:?} is no ECDSA input", i, s.kind);
        } else {
            let mut j = Judge::new(&w.tx, &outs);
            let want = w.ecdsa_msg(&mut j, i);
            ensure!(got == want, "sighash-wrong", "input {} {:?}: {:?} instead of {:?}", i, s.kind, got, want);
        }
    }
    if P::V == 2 && c.t.chance(1, 8) {
        announce(c, &start)?;
    }

    // Who holds what.
    let mut count: BTreeMap<usize, usize> = BTreeMap::new();
    let mut unc = BTreeSet::new();
    for s in &w.spends {
        for k in s.all_keys() {
            *count.entry(k).or_default() += 1;
        }
        if s.kind == Kind::PkhUncompressed {
            unc.extend(s.keys.iter().copied());
        }
    }
    let shared: BTreeSet<usize> = count.iter().filter(|x| *x.1 > 1).map(|x| *x.0).collect();
    unc.retain(|k| !shared.contains(k));
    let n = c.t.range(1, 4) as usize;
    let mut parties: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    for m in 0..N_MASTERS {
        let p = c.t.idx(n);
        parties[p].insert(m);
        if c.t.chance(1, 6) {
            let p = c.t.idx(n);
            parties[p].insert(m);
        }
    }
    parties.retain(|p| !p.is_empty());
    let mut stores: Vec<Store> = parties.iter().map(|m| store(c, m, &unc, &shared)).collect();
    if c.t.chance(1, 4) {
        stores.push(decoy(c));
        parties.push(BTreeSet::new());
    }
    let n = stores.len();
    for (i, s) in stores.iter().enumerate() {
        ev!(c, "party {} holds masters {:?} in a {}", i, parties[i], s.name());
    }

    // What a run without failures gives.
    let mut reference = start.clone();
    for (i, s) in stores.iter_mut().enumerate() {
        s.plan(vec![]);
        match run.session(c, &reference, s, &single_missing, &format!("reference party {}", i))? {
            Some(p) => reference = p,
            // The version 2 signer gives nothing back with an error.
            None => {
                ensure!(!single_missing.is_empty(), "error-without-reason", "reference party {}", i);
                return Ok(());
            }
        }
    }

    // Any collection of the same keys signs the same.
    if c.t.chance(1, 6) {
        collections(c, &start, &w)?;
    }

    let faulty = !c.t.chance(1, 4);
    let mut cur = start.clone();
    let mut saved: Vec<P> = vec![start.clone(); n];
    for _ in 0..c.t.range(1, 2 + 2 * n as u64) {
        c.now += c.t.range(1, 1000);
        let who = c.t.idx(n);
        let plan = if faulty && c.t.chance(3, 4) {
            (0..c.t.range(1, 10)).map(|_| *c.t.pick(&[0u8, 1, 2, 0])).collect()
        } else {
            vec![]
        };
        stores[who].plan(plan);
        if c.t.chance(1, 4) {
            // On a copy that lost something on the way, from which nothing is kept.
            let mut r = cur.to_raw();
            let mut broken = cripple(c, &w, &mut r);
            if !broken.is_empty() {
                for (i, b) in &single_missing {
                    broken.entry(*i).or_insert(*b);
                }
                c.fault("record-missing");
                let p = match P::de(&r.write()) {
                    Ok(p) => p,
                    Err(e) => return fail("wallet-refused", format!("crippled: {}", e)),
                };
                ev!(c, "party {} signs a copy with {:?}", who, broken);
                run.session(c, &p, &stores[who], &broken, &format!("party {} on a crippled copy", who))?;
                continue;
            }
        }
        ev!(c, "party {} signs", who);
        if let Some(p) = run.session(c, &cur, &stores[who], &single_missing, &format!("party {}", who))? {
            cur = p;
        }
        if faulty && c.t.chance(1, 6) {
            c.fault("crash-before-save");
            cur = saved[who].clone();
        } else if faulty && c.t.chance(1, 6) {
            c.fault("stale-copy");
            saved[who] = cur.clone();
            cur = c.t.pick(&saved).clone();
        } else {
            saved[who] = cur.clone();
        }
        // Over the wire to the next one.
        let b = cur.ser();
        cur = match P::de(&b) {
            Ok(p) => p,
            Err(e) => return fail("wallet-refused", format!("on the way: {}", e)),
        };
        c.state(&b);
    }
    // Everything works in the end, in any order.
    for who in c.t.perm(n) {
        stores[who].plan(vec![]);
        if let Some(p) = run.session(c, &cur, &stores[who], &single_missing, &format!("party {} at the end", who))? {
            cur = p;
        }
    }
    c.probe("converged");
    if cur != reference {
        let d = cur.to_raw().diff(&reference.to_raw()).unwrap_or_default();
        return fail("not-converged", format!("{}: {}", w.desc(), d));
    }
    c.state(&cur.ser());
    Ok(())
}

/// Hardware signers sign elsewhere and announce the type they used.
fn announce<P: Signs>(c: &mut Ctx, p: &P) -> R {
    let mut r = p.to_raw();
    let f = c.t.below(256) as u8;
    r.g.insert(vec![6], vec![f]);
    let q = match v2::Psbt::de(&r.write()) {
        Ok(p) => p,
        Err(e) => return fail("wallet-refused", e),
    };
    let mut s = match v2::Signer::new(q) {
        Ok(s) => s,
        Err(e) => return fail("signer-refused", show(e)),
    };
    let mut want = f;
    for _ in 0..c.t.range(1, 3) {
        let t = *c.t.pick(&[1u8, 2, 3, 0x81, 0x82, 0x83]);
        s.ecdsa_clear_tx_modifiable(EcdsaSighashType::from_consensus(t as u32));
        model::signed_flags(&mut want, t);
    }
    let got = s.psbt().to_raw();
    r.g.insert(vec![6], vec![want]);
    ensure!(got == r, "flags-wrong", "announced from {:02x}: {}", f, got.diff(&r).unwrap_or_default());
    Ok(())
}

/// Signs with the same keys held in every collection.
fn collections<P: Signs>(c: &mut Ctx, start: &P, w: &Wallet) -> R {
    let p = pool();
    let ms: BTreeSet<usize> = (0..N_MASTERS).filter(|_| c.t.chance(3, 4)).collect();
    let held = of_masters(&ms);
    let xs: Vec<Xpriv> = ms.iter().map(|m| p.masters[*m]).collect();
    let mut chain = start.clone();
    let step = |p: &P, s: &Store| -> R<Option<P>> {
        match s.sign(p) {
            Ok(o) => Ok(o.psbt),
            Err(e) => fail("signer-refused", e),
        }
    };
    for i in c.t.perm(xs.len()) {
        match step(&chain, &Store::Xpriv(xs[i], held.clone()))? {
            Some(p) => chain = p,
            None => return Ok(()),
        }
    }
    let hm: BTreeMap<usize, bool> = held.iter().map(|k| (*k, true)).collect();
    let bm: BTreeMap<PublicKey, PrivateKey> = held.iter().map(|k| (wk(*k).pk, private(*k, true))).collect();
    let hmap: HashMap<PublicKey, PrivateKey> = bm.iter().map(|(k, v)| (*k, *v)).collect();
    let tap = P::V == 0 && w.spends.iter().any(|s| s.kind.taproot());
    for s in [
        Store::BMap(bm, hm.clone()),
        Store::HMap(hmap, hm.clone()),
    ] {
        let got = match step(start, &s)? {
            Some(p) => p,
            None => return Ok(()),
        };
        let mut want = chain.to_raw();
        if tap && matches!(s, Store::BMap(..) | Store::HMap(..)) {
            // Maps are not asked for taproot keys.
            for m in want.ins.iter_mut() {
                m.retain(|k, _| k[0] != 0x13 && k[0] != 0x14);
            }
        }
        let got = got.to_raw();
        ensure!(got == want, "collection-differs", "{}: {}", s.name(), got.diff(&want).unwrap_or_default());
    }
    c.probe("collections-compared");
    Ok(())
}

