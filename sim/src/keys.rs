//! A fixed pool of keys, so that no run needs any other source of randomness.

use std::sync::OnceLock;

use psbt_v2::bitcoin::bip32::{ChildNumber, DerivationPath, Xpriv, Xpub};
use psbt_v2::bitcoin::hashes::{sha256, Hash};
use psbt_v2::bitcoin::key::{CompressedPublicKey, PrivateKey, PublicKey, XOnlyPublicKey};
use psbt_v2::bitcoin::secp256k1::{self, All, Secp256k1, SecretKey};
use psbt_v2::bitcoin::{Network, NetworkKind};

pub struct Pool {
    pub secp: Secp256k1<All>,
    pub sks: Vec<SecretKey>,
    pub pks: Vec<secp256k1::PublicKey>,
    pub xonly: Vec<XOnlyPublicKey>,
    pub masters: Vec<Xpriv>,
    pub xpubs: Vec<Xpub>,
    /// Those and others, some of which differ in one field only.
    pub all_xpubs: Vec<Xpub>,
    /// A few DER signatures.
    pub sigs: Vec<secp256k1::ecdsa::Signature>,
    pub schnorr: Vec<secp256k1::schnorr::Signature>,
}

pub const N_KEYS: usize = 32;
pub const N_MASTERS: usize = 6;

pub fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let secp = Secp256k1::new();
        let h = |s: &str, i: usize| {
            sha256::Hash::hash(format!("psbt-sim {} {}", s, i).as_bytes()).to_byte_array()
        };
        let sks: Vec<SecretKey> =
            (0..N_KEYS).map(|i| SecretKey::from_slice(&h("key", i)).unwrap()).collect();
        let pks: Vec<_> = sks.iter().map(|s| s.public_key(&secp)).collect();
        let xonly = pks.iter().map(|p| p.x_only_public_key().0).collect();
        let masters: Vec<Xpriv> = (0..N_MASTERS)
            .map(|i| Xpriv::new_master(Network::Regtest, &h("master", i)).unwrap())
            .collect();
        let xpubs: Vec<Xpub> = masters.iter().map(|m| Xpub::from_priv(&secp, m)).collect();
        let mut all_xpubs = xpubs.clone();
        for (i, m) in masters.iter().enumerate() {
            let child = m.derive_priv(&secp, &path(&[i as u32 | 1 << 31, i as u32])).unwrap();
            let child = Xpub::from_priv(&secp, &child);
            all_xpubs.push(child);
            let same = |f: &dyn Fn(&mut Xpub)| {
                let mut x = child;
                f(&mut x);
                x
            };
            all_xpubs.push(same(&|x| x.network = NetworkKind::Main));
            all_xpubs.push(same(&|x| x.depth = 255));
            all_xpubs.push(same(&|x| x.parent_fingerprint = Default::default()));
            all_xpubs.push(same(&|x| x.child_number = ChildNumber::from(77)));
            all_xpubs.push(same(&|x| x.chain_code = xpubs[i].chain_code));
        }
        let sigs = (0..8)
            .map(|i| {
                secp.sign_ecdsa(&secp256k1::Message::from_digest(h("msg", i)), &sks[i])
            })
            .collect();
        let schnorr = (0..8)
            .map(|i| {
                secp.sign_schnorr_no_aux_rand(
                    &secp256k1::Message::from_digest(h("msg", i)),
                    &sks[i].keypair(&secp),
                )
            })
            .collect();
        Pool { secp, sks, pks, xonly, masters, xpubs, all_xpubs, sigs, schnorr }
    })
}

pub fn pk(i: usize) -> PublicKey { PublicKey::new(pool().pks[i]) }

pub fn cpk(i: usize) -> CompressedPublicKey { CompressedPublicKey(pool().pks[i]) }

pub fn privkey(i: usize) -> PrivateKey {
    PrivateKey { compressed: true, network: NetworkKind::Test, inner: pool().sks[i] }
}

pub fn path(v: &[u32]) -> DerivationPath {
    DerivationPath::from(v.iter().map(|x| ChildNumber::from(*x)).collect::<Vec<_>>())
}

/// A wallet key with a known origin.
pub struct WKey {
    pub master: usize,
    pub path: Vec<u32>,
    pub sk: SecretKey,
    pub pk: PublicKey,
    pub xonly: XOnlyPublicKey,
}

pub const PER_MASTER: usize = 7;
pub const N_WKEYS: usize = N_MASTERS * PER_MASTER;

pub fn wkeys() -> &'static [WKey] {
    static K: OnceLock<Vec<WKey>> = OnceLock::new();
    K.get_or_init(|| {
        let p = pool();
        let mut v = vec![];
        for (master, m) in p.masters.iter().enumerate() {
            for i in 0..PER_MASTER as u32 {
                let path: Vec<u32> = match i {
                    0 => vec![0],
                    1 => vec![1 << 31 | 84, 1 << 31, 3],
                    2 => vec![0, 1, 2],
                    3 => vec![1 << 31 | 5],
                    4 => vec![7, 7],
                    6 => vec![],
                    _ => vec![1 << 31 | 48, 1 << 31 | 1, 1 << 31, 0, 9],
                };
                let x = m.derive_priv(&p.secp, &self::path(&path)).unwrap();
                let sk = x.private_key;
                let pk = PublicKey::new(sk.public_key(&p.secp));
                v.push(WKey { master, path, sk, pk, xonly: sk.x_only_public_key(&p.secp).0 });
            }
        }
        v
    })
}

pub fn wk(i: usize) -> &'static WKey { &wkeys()[i] }

pub fn fingerprint(master: usize) -> psbt_v2::bitcoin::bip32::Fingerprint {
    pool().masters[master].fingerprint(&pool().secp)
}

/// The origin of a wallet key.
pub fn origin(i: usize) -> psbt_v2::bitcoin::bip32::KeySource {
    static F: OnceLock<Vec<psbt_v2::bitcoin::bip32::Fingerprint>> = OnceLock::new();
    let f = F.get_or_init(|| (0..N_MASTERS).map(fingerprint).collect());
    (f[wk(i).master], path(&wk(i).path))
}
