//! Direct demonstrations of the known findings, see known-findings.txt. They tell whether a listed
//! finding is still there when no run of a batch met it.

use std::panic::{catch_unwind, AssertUnwindSafe};

use psbt_v2::bitcoin::absolute::LockTime;
use psbt_v2::bitcoin::hashes::Hash;
use psbt_v2::bitcoin::secp256k1::{Message, Secp256k1};
use psbt_v2::bitcoin::sighash::{EcdsaSighashType, SighashCache};
use psbt_v2::bitcoin::transaction::Version;
use psbt_v2::bitcoin::{ecdsa, Amount, OutPoint, PublicKey, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid, Witness};
use psbt_v2::miniscript::{Miniscript, Segwitv0};
use psbt_v2::v0;
use psbt_v2::v0::miniscript::PsbtExt;

use crate::keys::wk;

/// A v0 PSBT with one P2WSH input for a script over the first two keys, fully signed.
fn signed_wsh(script: &str) -> v0::Psbt {
    let secp = Secp256k1::new();
    let ms = script.replace('A', &wk(0).pk.to_string()).replace('B', &wk(1).pk.to_string());
    let ws = Miniscript::<PublicKey, Segwitv0>::from_str_insane(&ms).expect("miniscript").encode();
    let out = TxOut { value: Amount::from_sat(10_000), script_pubkey: ws.to_p2wsh() };
    let tx = Transaction {
        version: Version::TWO,
        lock_time: LockTime::ZERO,
        input: vec![TxIn {
            previous_output: OutPoint { txid: Txid::from_byte_array([7; 32]), vout: 0 },
            script_sig: ScriptBuf::new(),
            sequence: Sequence::MAX,
            witness: Witness::new(),
        }],
        output: vec![TxOut { value: Amount::from_sat(9_000), script_pubkey: ScriptBuf::new() }],
    };
    let h = SighashCache::new(&tx).p2wsh_signature_hash(0, &ws, out.value, EcdsaSighashType::All).expect("sighash");
    let mut p = v0::Psbt::from_unsigned_tx(tx).expect("unsigned");
    for k in [wk(0), wk(1)] {
        let sig = secp.sign_ecdsa(&Message::from_digest(h.to_byte_array()), &k.sk);
        p.inputs[0].partial_sigs.insert(k.pk, ecdsa::Signature { signature: sig, sighash_type: EcdsaSighashType::All });
    }
    p.inputs[0].witness_utxo = Some(out);
    p.inputs[0].witness_script = Some(ws);
    p
}

/// Whether a finding's failure is still there.
pub fn shows(class: &str) -> bool {
    let r = match class {
        "panic@miniscript-12.2.0/src/miniscript/satisfy.rs:1026" => catch_unwind(AssertUnwindSafe(|| {
            let mut p = signed_wsh("thresh(2,pk(A),s:pk(B))");
            let _ = p.finalize_mut(&Secp256k1::new());
        })),
        _ => return false,
    };
    match (r, crate::run::take_panic()) {
        (Err(_), Some((loc, _))) => class == format!("panic@{}", loc),
        _ => false,
    }
}
