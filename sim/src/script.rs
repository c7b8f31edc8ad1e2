//! A small script interpreter, written for this simulator: the judge of what a finaliser made. It
//! shares nothing with the interpreter the code under test uses.

use psbt_v2::bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use psbt_v2::bitcoin::secp256k1::{self, Message};
use psbt_v2::bitcoin::sighash::{EcdsaSighashType, Prevouts, SighashCache, TapSighashType};
use psbt_v2::bitcoin::taproot::{LeafVersion, TapLeafHash, TapNodeHash, TapTweakHash};
use psbt_v2::bitcoin::{Script, ScriptBuf, Transaction, TxOut, XOnlyPublicKey};

use crate::keys::pool;

type E = Result<(), String>;

enum Sv {
    Base,
    V0,
    Tap(TapLeafHash),
}

pub struct Judge<'a> {
    tx: &'a Transaction,
    outs: &'a [TxOut],
    cache: SighashCache<&'a Transaction>,
}

fn err<T>(s: &str) -> Result<T, String> { Err(s.to_string()) }

fn truthy(v: &[u8]) -> bool {
    match v.iter().rposition(|b| *b != 0) {
        None => false,
        Some(i) => !(i == v.len() - 1 && v[i] == 0x80),
    }
}

fn num(v: &[u8], max: usize) -> Result<i64, String> {
    if v.len() > max {
        return err("number too long");
    }
    if v.is_empty() {
        return Ok(0);
    }
    let last = v[v.len() - 1];
    if last & 0x7f == 0 && (v.len() == 1 || v[v.len() - 2] & 0x80 == 0) {
        return err("number not minimal");
    }
    let mut r: i64 = 0;
    for (i, b) in v.iter().enumerate() {
        let b = if i == v.len() - 1 { b & 0x7f } else { *b };
        r |= (b as i64) << (8 * i);
    }
    Ok(if last & 0x80 != 0 { -r } else { r })
}

fn enc(n: i64) -> Vec<u8> {
    let mut v = vec![];
    let mut a = n.unsigned_abs();
    while a > 0 {
        v.push(a as u8);
        a >>= 8;
    }
    if let Some(l) = v.last().copied() {
        if l & 0x80 != 0 {
            v.push(if n < 0 { 0x80 } else { 0 });
        } else if n < 0 {
            *v.last_mut().unwrap() |= 0x80;
        }
    }
    v
}

impl<'a> Judge<'a> {
    pub fn new(tx: &'a Transaction, outs: &'a [TxOut]) -> Self {
        assert_eq!(tx.input.len(), outs.len());
        Judge { tx, outs, cache: SighashCache::new(tx) }
    }

    /// Does input `i` of the transaction satisfy the output it spends?
    pub fn spends(&mut self, i: usize) -> E {
        let spk = &self.outs[i].script_pubkey.clone();
        let sig = self.tx.input[i].script_sig.clone();
        let wit: Vec<Vec<u8>> = self.tx.input[i].witness.to_vec();
        if spk.is_p2sh() || spk.is_witness_program() {
            // Nothing but pushes.
            if !sig.is_push_only() {
                return err("script sig is not push only");
            }
        }
        let mut stack = vec![];
        self.eval(i, &sig, &mut stack, &Sv::Base)?;
        if let Some(v) = spk.witness_version() {
            if !sig.is_empty() {
                return err("script sig of a witness program is not empty");
            }
            return self.program(i, v.to_num(), &spk.as_bytes()[2..], wit, spk);
        }
        let after_sig = stack.clone();
        self.eval(i, spk, &mut stack, &Sv::Base)?;
        match stack.pop() {
            Some(v) if truthy(&v) => {}
            _ => return err("script pubkey not satisfied"),
        }
        if spk.is_p2sh() {
            let mut stack = after_sig;
            let redeem = ScriptBuf::from_bytes(stack.pop().ok_or("no redeem script")?);
            if redeem.is_witness_program() {
                if !stack.is_empty() {
                    return err("script sig has more than the redeem script");
                }
                let v = redeem.witness_version().expect("program").to_num();
                if v != 0 {
                    return err("nested program of an unknown version");
                }
                return self.program(i, v, &redeem.as_bytes()[2..], wit, spk);
            }
            self.eval(i, &redeem, &mut stack, &Sv::Base)?;
            if stack.len() != 1 || !truthy(&stack[0]) {
                return err("redeem script not satisfied");
            }
        } else if !stack.is_empty() {
            return err("stack not clean");
        }
        if !wit.is_empty() {
            return err("unexpected witness");
        }
        Ok(())
    }

    fn program(&mut self, i: usize, v: u8, p: &[u8], mut wit: Vec<Vec<u8>>, _spk: &Script) -> E {
        match (v, p.len()) {
            (0, 20) => {
                if wit.len() != 2 {
                    return err("p2wpkh needs two items");
                }
                let code = [&[0x76, 0xa9, 0x14][..], p, &[0x88, 0xac]].concat();
                let mut stack = wit;
                if stack[1].len() != 33 {
                    return err("uncompressed key in segwit");
                }
                self.eval(i, Script::from_bytes(&code), &mut stack, &Sv::V0)?;
                one_true(&stack)
            }
            (0, 32) => {
                let s = wit.pop().ok_or("no witness script")?;
                if sha256::Hash::hash(&s).as_byte_array() != p {
                    return err("wrong witness script");
                }
                self.eval(i, Script::from_bytes(&s), &mut wit, &Sv::V0)?;
                one_true(&wit)
            }
            (1, 32) => {
                let out_key = XOnlyPublicKey::from_slice(p).map_err(|_| "bad output key")?;
                if wit.is_empty() {
                    return err("empty taproot witness");
                }
                if wit.len() >= 2 && wit.last().unwrap().first() == Some(&0x50) {
                    return err("annex");
                }
                if wit.len() == 1 {
                    return if self.schnorr(i, &wit[0], &out_key, None)? { Ok(()) } else { err("empty signature") };
                }
                let control = wit.pop().unwrap();
                let script = wit.pop().unwrap();
                if control.len() < 33 || (control.len() - 33) % 32 != 0 || control.len() > 33 + 128 * 32 {
                    return err("bad control block size");
                }
                let ver = control[0] & 0xfe;
                let lv = LeafVersion::from_consensus(ver).map_err(|_| "bad leaf version")?;
                let leaf = TapLeafHash::from_script(Script::from_bytes(&script), lv);
                let mut h = TapNodeHash::from(leaf);
                for n in control[33..].chunks(32) {
                    h = TapNodeHash::from_node_hashes(
                        h,
                        TapNodeHash::from_slice(n).expect("32 bytes"),
                    );
                }
                let internal = XOnlyPublicKey::from_slice(&control[1..33]).map_err(|_| "bad internal key")?;
                let tweak = TapTweakHash::from_key_and_tweak(internal, Some(h)).to_scalar();
                let (key, parity) = internal.add_tweak(&pool().secp, &tweak).map_err(|_| "bad tweak")?;
                if key != out_key || parity.to_u8() != control[0] & 1 {
                    return err("control block does not commit");
                }
                if ver != 0xc0 {
                    return err("unknown leaf version");
                }
                self.eval(i, Script::from_bytes(&script), &mut wit, &Sv::Tap(leaf))?;
                one_true(&wit)
            }
            _ => err("unknown program"),
        }
    }

    fn schnorr(&mut self, i: usize, sig: &[u8], key: &XOnlyPublicKey, leaf: Option<TapLeafHash>) -> Result<bool, String> {
        if sig.is_empty() {
            return Ok(false);
        }
        let ty = match sig.len() {
            64 => TapSighashType::Default,
            65 if sig[64] == 0 => return err("explicit default type"),
            65 => TapSighashType::from_consensus_u8(sig[64]).map_err(|_| "bad taproot hash type")?,
            _ => return err("bad schnorr signature size"),
        };
        let prev = Prevouts::All(self.outs);
        let h = match leaf {
            None => self.cache.taproot_key_spend_signature_hash(i, &prev, ty),
            Some(l) => self.cache.taproot_script_spend_signature_hash(i, &prev, l, ty),
        }
        .map_err(|e| e.to_string())?;
        let s = secp256k1::schnorr::Signature::from_slice(&sig[..64]).map_err(|_| "bad schnorr signature")?;
        pool()
            .secp
            .verify_schnorr(&s, &Message::from_digest(h.to_byte_array()), key)
            .map_err(|_| "wrong schnorr signature".to_string())?;
        Ok(true)
    }

    fn ecdsa(&mut self, i: usize, code: &Script, sig: &[u8], key: &[u8], sv: &Sv) -> Result<bool, String> {
        if sig.is_empty() {
            return Ok(false);
        }
        let (der, ty) = (&sig[..sig.len() - 1], sig[sig.len() - 1]);
        if !matches!(ty, 1 | 2 | 3 | 0x81 | 0x82 | 0x83) {
            return err("bad hash type");
        }
        let s = secp256k1::ecdsa::Signature::from_der(der).map_err(|_| "bad signature encoding")?;
        let mut low = s;
        low.normalize_s();
        if low != s {
            return err("high s");
        }
        if !(key.len() == 33 && (key[0] == 2 || key[0] == 3) || key.len() == 65 && key[0] == 4) {
            return err("bad key encoding");
        }
        if matches!(sv, Sv::V0) && key.len() != 33 {
            return err("uncompressed key in segwit");
        }
        let k = secp256k1::PublicKey::from_slice(key).map_err(|_| "bad key")?;
        let m = self.ecdsa_hash(i, code, ty, matches!(sv, Sv::V0))?;
        Ok(pool().secp.verify_ecdsa(&m, &s, &k).is_ok())
    }

    /// The message an ECDSA signature signs.
    pub fn ecdsa_hash(&mut self, i: usize, code: &Script, ty: u8, v0: bool) -> Result<Message, String> {
        let d: [u8; 32] = if v0 {
            let ty = EcdsaSighashType::from_consensus(ty as u32);
            self.cache
                .p2wsh_signature_hash(i, code, self.outs[i].value, ty)
                .map_err(|e| e.to_string())?
                .to_byte_array()
        } else {
            self.cache
                .legacy_signature_hash(i, code, ty as u32)
                .map_err(|e| e.to_string())?
                .to_byte_array()
        };
        Ok(Message::from_digest(d))
    }

    pub fn tap_hash(&mut self, i: usize, ty: TapSighashType, leaf: Option<TapLeafHash>) -> Result<Message, String> {
        let prev = Prevouts::All(self.outs);
        match leaf {
            None => self.cache.taproot_key_spend_signature_hash(i, &prev, ty),
            Some(l) => self.cache.taproot_script_spend_signature_hash(i, &prev, l, ty),
        }
        .map(|h| Message::from_digest(h.to_byte_array()))
        .map_err(|e| e.to_string())
    }

    fn eval(&mut self, i: usize, script: &Script, stack: &mut Vec<Vec<u8>>, sv: &Sv) -> E {
        let b = script.as_bytes();
        let mut pc = 0;
        let mut alt: Vec<Vec<u8>> = vec![];
        let mut cond: Vec<bool> = vec![];
        fn pop(s: &mut Vec<Vec<u8>>) -> Result<Vec<u8>, String> { s.pop().ok_or_else(|| "stack empty".to_string()) }
        while pc < b.len() {
            let op = b[pc];
            pc += 1;
            let run = cond.iter().all(|c| *c);
            if op <= 0x4e {
                let n = match op {
                    0..=0x4b => op as usize,
                    0x4c => {
                        let n = *b.get(pc).ok_or("short push")? as usize;
                        pc += 1;
                        n
                    }
                    0x4d => {
                        let n = b.get(pc..pc + 2).ok_or("short push")?;
                        pc += 2;
                        u16::from_le_bytes([n[0], n[1]]) as usize
                    }
                    _ => return err("huge push"),
                };
                let d = b.get(pc..pc + n).ok_or("short push")?;
                pc += n;
                if run {
                    stack.push(d.to_vec());
                }
                continue;
            }
            if !run && !(0x63..=0x68).contains(&op) {
                continue;
            }
            match op {
                0x4f => stack.push(enc(-1)),
                0x51..=0x60 => stack.push(enc((op - 0x50) as i64)),
                0x61 => {}
                0x63 | 0x64 => {
                    let mut v = false;
                    if run {
                        let x = pop(stack)?;
                        if !matches!(sv, Sv::Base) && !(x.is_empty() || x == [1]) {
                            return err("minimal if");
                        }
                        v = truthy(&x) == (op == 0x63);
                    }
                    cond.push(v);
                }
                0x67 => {
                    let c = cond.last_mut().ok_or("unbalanced")?;
                    *c = !*c;
                }
                0x68 => {
                    cond.pop().ok_or("unbalanced")?;
                }
                0x69 => {
                    if !truthy(&pop(stack)?) {
                        return err("verify");
                    }
                }
                0x6a => return err("return"),
                0x6b => alt.push(pop(stack)?),
                0x6c => stack.push(pop(&mut alt)?),
                0x73 => {
                    let x = stack.last().ok_or("stack empty")?.clone();
                    if truthy(&x) {
                        stack.push(x);
                    }
                }
                0x74 => stack.push(enc(stack.len() as i64)),
                0x75 => {
                    pop(stack)?;
                }
                0x76 => {
                    let x = stack.last().ok_or("stack empty")?.clone();
                    stack.push(x);
                }
                0x78 => {
                    let n = stack.len();
                    let x = stack.get(n.wrapping_sub(2)).ok_or("stack empty")?.clone();
                    stack.push(x);
                }
                0x7c => {
                    let (a, c) = (pop(stack)?, pop(stack)?);
                    stack.push(a);
                    stack.push(c);
                }
                0x82 => {
                    let n = stack.last().ok_or("stack empty")?.len();
                    stack.push(enc(n as i64));
                }
                0x87 | 0x88 => {
                    let e = pop(stack)? == pop(stack)?;
                    if op == 0x87 {
                        stack.push(enc(e as i64));
                    } else if !e {
                        return err("equalverify");
                    }
                }
                0x91 | 0x92 => {
                    let x = num(&pop(stack)?, 4)?;
                    stack.push(enc(((x == 0) == (op == 0x91)) as i64));
                }
                0x93 | 0x9a | 0x9b | 0x9c | 0x9d | 0x9e => {
                    let y = num(&pop(stack)?, 4)?;
                    let x = num(&pop(stack)?, 4)?;
                    match op {
                        0x93 => stack.push(enc(x + y)),
                        0x9a => stack.push(enc((x != 0 && y != 0) as i64)),
                        0x9b => stack.push(enc((x != 0 || y != 0) as i64)),
                        0x9c => stack.push(enc((x == y) as i64)),
                        0x9e => stack.push(enc((x != y) as i64)),
                        _ =>
                            if x != y {
                                return err("numequalverify");
                            },
                    }
                }
                0xa6 => {
                    let x = pop(stack)?;
                    stack.push(ripemd160::Hash::hash(&x).to_byte_array().to_vec());
                }
                0xa8 => {
                    let x = pop(stack)?;
                    stack.push(sha256::Hash::hash(&x).to_byte_array().to_vec());
                }
                0xa9 => {
                    let x = pop(stack)?;
                    stack.push(hash160::Hash::hash(&x).to_byte_array().to_vec());
                }
                0xaa => {
                    let x = pop(stack)?;
                    stack.push(sha256d::Hash::hash(&x).to_byte_array().to_vec());
                }
                0xac | 0xad => {
                    let key = pop(stack)?;
                    let sig = pop(stack)?;
                    let ok = match sv {
                        Sv::Tap(l) => {
                            let k = XOnlyPublicKey::from_slice(&key).map_err(|_| "bad x-only key")?;
                            self.schnorr(i, &sig, &k, Some(*l))?
                        }
                        _ => self.ecdsa(i, script, &sig, &key, sv)?,
                    };
                    if !ok && !sig.is_empty() {
                        return err("wrong signature");
                    }
                    if op == 0xac {
                        stack.push(enc(ok as i64));
                    } else if !ok {
                        return err("checksigverify");
                    }
                }
                0xba => {
                    let l = match sv {
                        Sv::Tap(l) => *l,
                        _ => return err("checksigadd outside tapscript"),
                    };
                    let key = pop(stack)?;
                    let n = num(&pop(stack)?, 4)?;
                    let sig = pop(stack)?;
                    let k = XOnlyPublicKey::from_slice(&key).map_err(|_| "bad x-only key")?;
                    let ok = self.schnorr(i, &sig, &k, Some(l))?;
                    stack.push(enc(n + ok as i64));
                }
                0xae | 0xaf => {
                    if matches!(sv, Sv::Tap(_)) {
                        return err("checkmultisig in tapscript");
                    }
                    let n = num(&pop(stack)?, 4)?;
                    if !(0..=20).contains(&n) {
                        return err("bad key count");
                    }
                    let mut keys = vec![];
                    for _ in 0..n {
                        keys.push(pop(stack)?);
                    }
                    let m = num(&pop(stack)?, 4)?;
                    if !(0..=n).contains(&m) {
                        return err("bad signature count");
                    }
                    let mut sigs = vec![];
                    for _ in 0..m {
                        sigs.push(pop(stack)?);
                    }
                    if !pop(stack)?.is_empty() {
                        return err("null dummy");
                    }
                    let (mut ki, mut si) = (0, 0);
                    let mut ok = true;
                    while si < sigs.len() {
                        if keys.len() - ki < sigs.len() - si {
                            ok = false;
                            break;
                        }
                        if self.ecdsa(i, script, &sigs[si], &keys[ki], sv)? {
                            si += 1;
                        }
                        ki += 1;
                    }
                    if !ok && sigs.iter().any(|s| !s.is_empty()) {
                        return err("null fail");
                    }
                    if op == 0xae {
                        stack.push(enc(ok as i64));
                    } else if !ok {
                        return err("checkmultisigverify");
                    }
                }
                0xb1 => {
                    let n = num(stack.last().ok_or("stack empty")?, 5)?;
                    let lt = self.tx.lock_time.to_consensus_u32() as i64;
                    if n < 0 || (n < 500_000_000) != (lt < 500_000_000) || n > lt {
                        return err("lock time not reached");
                    }
                    if self.tx.input[i].sequence.0 == 0xffff_ffff {
                        return err("lock time disabled by a final sequence");
                    }
                }
                0xb2 => {
                    let n = num(stack.last().ok_or("stack empty")?, 5)?;
                    if n < 0 {
                        return err("negative sequence");
                    }
                    let n = n as u64;
                    if n & (1 << 31) == 0 {
                        let s = self.tx.input[i].sequence.0 as u64;
                        if (self.tx.version.0 as u32) < 2 {
                            return err("relative lock time in version 1");
                        }
                        if s & (1 << 31) != 0 {
                            return err("relative lock time disabled");
                        }
                        if n & (1 << 22) != s & (1 << 22) || n & 0xffff > s & 0xffff {
                            return err("relative lock time not reached");
                        }
                    }
                }
                _ => return Err(format!("opcode {:02x}", op)),
            }
        }
        if !cond.is_empty() {
            return err("unbalanced");
        }
        Ok(())
    }
}

fn one_true(s: &[Vec<u8>]) -> E {
    if s.len() == 1 && truthy(&s[0]) {
        Ok(())
    } else {
        err("stack not clean and true")
    }
}
