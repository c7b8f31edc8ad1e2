//! C06: bytes damaged on links and disks reach the decoders.

use psbt_v2::{v0, v2};

use crate::alloc;
use crate::ctx::{fail, Ctx, R};
use crate::gen::{apply_raw, base, facts};
use crate::raw::{compact, layout, Raw};
use crate::typed::{Enc, Ps};
use crate::{ensure, ev};

/// A random well-formed PSBT.
pub fn psbt(c: &mut Ctx, v: u8) -> Raw {
    let b = base(c, v);
    let nf = *c.t.pick(&[4usize, 0, 1, 10, 20]);
    let fs = facts(c, &b, nf);
    let mut m = b.raw.clone();
    for f in &fs {
        apply_raw(&mut m, f);
    }
    m
}

/// A length somebody could claim.
fn claim(c: &mut Ctx, was: u64) -> Vec<u8> {
    let n = match c.t.below(12) {
        0 => was.wrapping_add(1),
        1 => was.wrapping_sub(1),
        2 => 0,
        3 => c.t.below(300),
        4 => 3_999_999 + c.t.below(4),
        5 => 1 << 31,
        6 => 0xffff_ffff,
        7 => 1 << 62,
        8 => u64::MAX,
        9 => 1 << c.t.below(64),
        10 => 0x0200_0000 + c.t.below(2),
        _ => c.t.u64(),
    };
    if c.t.chance(1, 8) {
        // A longer encoding than necessary.
        let mut o = vec![*c.t.pick(&[0xfdu8, 0xfe, 0xff])];
        let w = match o[0] {
            0xfd => 2,
            0xfe => 4,
            _ => 8,
        };
        o.extend_from_slice(&n.to_le_bytes()[..w]);
        return o;
    }
    compact(n)
}

fn replace(b: &mut Vec<u8>, at: usize, len: usize, with: &[u8]) {
    b.splice(at..at + len, with.iter().copied());
}

/// Damages bytes in one way.
pub fn damage(c: &mut Ctx, b: &mut Vec<u8>, other: &[u8]) -> &'static str {
    if b.is_empty() {
        return "nothing";
    }
    let l = layout(b);
    match c.t.below(14) {
        0 | 1 => {
            let i = c.t.idx(b.len());
            b[i] ^= 1 << c.t.below(8);
            "bit-flip"
        }
        2 => {
            let i = c.t.idx(b.len());
            b[i] = *c.t.pick(&[0u8, 1, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff]);
            "byte-overwritten"
        }
        3 => {
            let i = c.t.idx(b.len());
            let n = core::cmp::min(b.len() - i, 1 + c.t.idx(40));
            let x = *c.t.pick(&[0u8, 0xff]);
            for y in &mut b[i..i + n] {
                *y = x;
            }
            "block-blanked"
        }
        4 => {
            let i = c.t.idx(b.len());
            let n = core::cmp::min(b.len() - i, 1 + c.t.idx(40));
            b.drain(i..i + n);
            "block-lost"
        }
        5 => {
            let i = c.t.idx(b.len());
            let n = core::cmp::min(b.len() - i, 1 + c.t.idx(80));
            let s = b[i..i + n].to_vec();
            let j = c.t.idx(b.len() + 1);
            replace(b, j, 0, &s);
            "block-repeated"
        }
        6 => {
            let i = c.t.idx(b.len());
            let j = c.t.idx(other.len());
            b.truncate(i);
            b.extend_from_slice(&other[j..]);
            "spliced"
        }
        7 | 8 if !l.lens.is_empty() => {
            let (p, n) = *c.t.pick(&l.lens);
            let was = crate::raw::Rd { b: &b[p..], p: 0 }.compact().unwrap_or(0);
            let x = claim(c, was);
            replace(b, p, n, &x);
            "length-changed"
        }
        9 | 10 if !l.recs.is_empty() => {
            // A record's value with its length right, but other contents.
            let (_, vs, ve, _) = *c.t.pick(&l.recs);
            let mut v = b[vs..ve].to_vec();
            match c.t.below(5) {
                0 => {
                    let n = c.t.idx(v.len() + 1);
                    v.truncate(n);
                }
                1 => {
                    let n = 1 + c.t.idx(8);
                    v.extend(c.t.bytes(n));
                }
                2 => {
                    // What may be a count at its start, or somewhere else.
                    let i = if c.t.chance(1, 2) { 0 } else { c.t.idx(v.len() + 1) };
                    let n = core::cmp::min(v.len() - i, *c.t.pick(&[1usize, 0]));
                    let was = v.get(i).copied().unwrap_or(0) as u64;
                    let x = claim(c, was);
                    v.splice(i..i + n, x);
                }
                3 => {
                    let n = c.t.idx(70);
                    v = c.t.bytes(n);
                }
                _ =>
                    if !v.is_empty() {
                        let i = c.t.idx(v.len());
                        v[i] ^= 1 << c.t.below(8);
                    },
            }
            let mut x = compact(v.len() as u64);
            x.extend(v);
            let old = compact((ve - vs) as u64).len();
            replace(b, vs - old, ve - vs + old, &x);
            "value-changed"
        }
        11 if !l.recs.is_empty() => {
            let (ks, vs, ve, _) = *c.t.pick(&l.recs);
            match c.t.below(3) {
                0 => b[ks] = c.t.below(0x20) as u8,
                1 => b[ks] = c.t.below(256) as u8,
                _ => {
                    // Moves the record into another map.
                    let old = compact((ve - vs) as u64).len();
                    let kl = vs - old - ks;
                    let start = ks - compact(kl as u64).len();
                    let rec: Vec<u8> = b.drain(start..ve).collect();
                    let l = layout(b);
                    if let Some(p) = l.seps.get(c.t.idx(core::cmp::max(1, l.seps.len()))) {
                        replace(b, *p, 0, &rec);
                    }
                }
            }
            "key-changed"
        }
        12 => {
            let n = 1 + c.t.idx(20);
            let x = c.t.bytes(n);
            let i = c.t.idx(b.len() + 1);
            replace(b, i, 0, &x);
            "noise-inserted"
        }
        _ => {
            let n = c.t.idx(b.len());
            b.truncate(n);
            "truncated"
        }
    }
}

/// A record with a claim about the number of maps.
fn counts(c: &mut Ctx, r: &Raw) -> Option<Vec<u8>> {
    if r.v != 2 {
        return None;
    }
    let mut r = r.clone();
    let k = *c.t.pick(&[4u8, 5]);
    let was = if k == 4 { r.ins.len() } else { r.outs.len() } as u64;
    let x = claim(c, was);
    r.g.insert(vec![k], x);
    Some(r.write())
}

/// A large message, such as nobody but an attacker sends, whose size is in one place.
fn bulky(c: &mut Ctx, m: &Raw) -> (Raw, &'static str) {
    let mut r = m.clone();
    let n = *c.t.pick(&[2_000usize, 10_000, 60_000]);
    let pk = crate::gen::secp_pk(3).serialize();
    let origin = || [7u8; 4].iter().copied().chain((0..n).flat_map(|i| (i as u32).to_le_bytes())).collect::<Vec<u8>>();
    let pick = c.t.below(9);
    let what = match pick {
        0 => {
            let (k, v) = crate::gen::xpub_rec(0, [1, 2, 3, 4], &(0..n as u32).collect::<Vec<_>>());
            r.g.insert(k, v);
            "xpub"
        }
        1 if !r.ins.is_empty() => {
            r.ins[0].insert([&[6][..], &pk].concat(), origin());
            "key-origin"
        }
        2 if !r.outs.is_empty() => {
            r.outs[0].insert([&[2][..], &pk].concat(), origin());
            "key-origin"
        }
        3 if !r.ins.is_empty() => {
            let v = [compact(n as u64), vec![0; n]].concat();
            r.ins[0].insert(vec![8], v);
            "witness"
        }
        4 if !r.outs.is_empty() => {
            let mut v = compact(n as u64);
            v.resize(v.len() + 32 * n, 5);
            v.extend([7; 8]);
            r.outs[0].insert([&[7][..], &pk[1..]].concat(), v);
            "leaf-hashes"
        }
        5 => {
            for i in 0..n as u32 {
                r.g.insert([&[0xf1][..], &i.to_be_bytes()].concat(), vec![]);
            }
            "unknown-records"
        }
        6 if !r.ins.is_empty() => {
            for i in 0..n as u32 {
                r.ins[0].insert([&[0xfc, 0, 0][..], &i.to_be_bytes()].concat(), vec![]);
            }
            "proprietary-records"
        }
        7 if !r.ins.is_empty() => {
            // Version, one input, outputs of zero and an empty script.
            let mut v = [&[2, 0, 0, 0, 1][..], &[9; 36], &[0], &[0xff; 4], &compact(n as u64)].concat();
            v.resize(v.len() + 9 * n + 4, 0);
            r.ins[0].insert(vec![0], v);
            "transaction"
        }
        _ => {
            r.g.insert(vec![0xf1], vec![3; 8 * n]);
            "value"
        }
    };
    (r, what)
}

/// Decodes with everything measured; what is accepted has to be stable.
pub fn decode_checked<P: Ps>(e: Enc, b: &[u8], what: &str) -> R<Option<P>> {
    let s = alloc::start();
    let got = P::dec(e, b);
    let (peak, largest) = alloc::measure(s);
    // The bitcoin crate's witness decoder alone takes up to 60 MB for any claimed size.
    let bound = (72 << 20) + 64 * b.len();
    ensure!(
        peak <= bound && largest <= bound,
        "allocates-too-much",
        "v{} {:?}, {}: {} bytes at the peak, {} in one piece for a message of {} bytes",
        P::V, e, what, peak, largest, b.len()
    );
    match got {
        Err(err) => {
            ensure!(!err.is_empty(), "empty-error", "{}", what);
            Ok(None)
        }
        Ok(p) => {
            let b1 = p.ser();
            match P::de(&b1) {
                Ok(p1) => {
                    ensure!(p1 == p, "unstable", "v{} {:?}, {}: reads back differently: {:?}", P::V, e, what, p1.to_raw().diff(&p.to_raw()));
                    ensure!(p1.ser() == b1, "unstable", "v{} {:?}, {}: serialises differently", P::V, e, what);
                }
                Err(err) => return fail("unreadable", format!("v{} {:?}, {}: what was accepted cannot be read back: {}", P::V, e, what, err)),
            }
            Ok(Some(p))
        }
    }
}

fn both(c: &mut Ctx, v: u8, b: &[u8], kinds: &str, cut: bool) -> R {
    let e = *c.t.pick(&[Enc::Bytes, Enc::Base64, Enc::Hex]);
    let mut wire = match e {
        Enc::Bytes => b.to_vec(),
        Enc::Hex => crate::ctx::hexs(b).into_bytes(),
        _ => base64(b),
    };
    let mut text = false;
    if e != Enc::Bytes && c.t.chance(1, 4) && !wire.is_empty() {
        // Damage to the text itself.
        text = true;
        c.fault("text-damaged");
        let i = c.t.idx(wire.len());
        match c.t.below(4) {
            0 => wire[i] = *c.t.pick(b"=A0z+/-_ \n\xc3"),
            1 => {
                wire.remove(i);
            }
            2 => wire.truncate(i),
            _ => wire.insert(i, *c.t.pick(b"=A0z+/ \n")),
        }
    }
    let own_cut = cut && !text;
    for d in [0u8, 2] {
        let ok = if d == 0 {
            decode_checked::<v0::Psbt>(e, &wire, kinds)?.is_some()
        } else {
            decode_checked::<v2::Psbt>(e, &wire, kinds)?.is_some()
        };
        if ok && own_cut {
            return fail("truncated-accepted", format!("a v{} PSBT cut to {} bytes, by v{}", v, b.len(), d));
        }
        if ok {
            c.probe("damaged-but-accepted");
        }
        ev!(c, "v{} decoder, {:?} {}: {}", d, e, kinds, if ok { "accepted" } else { "refused" });
    }
    Ok(())
}

pub fn base64_text(b: &[u8]) -> String { String::from_utf8(base64(b)).expect("ascii") }

fn base64(b: &[u8]) -> Vec<u8> {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    for ch in b.chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= ch.len() {
                o.push(T[(n >> (18 - 6 * i) & 63) as usize]);
            } else {
                o.push(b'=');
            }
        }
    }
    o
}

pub fn run(c: &mut Ctx) -> R {
    let v = *c.t.pick(&[2u8, 0]);
    let m = psbt(c, v);
    let good = m.write();
    let v2nd = *c.t.pick(&[2u8, 0]);
    let other = psbt(c, v2nd).write();
    ev!(c, "v{}, {} bytes", v, good.len());
    if c.t.chance(1, 250) {
        let (m, what) = bulky(c, &m);
        let b = m.write();
        c.fault("bulky");
        ev!(c, "{} bytes, most of them {}", b.len(), what);
        let ok = match v {
            0 => decode_checked::<v0::Psbt>(Enc::Bytes, &b, what)?.is_some(),
            _ => decode_checked::<v2::Psbt>(Enc::Bytes, &b, what)?.is_some(),
        };
        if ok {
            c.probe("bulky-accepted");
        }
        both(c, v, &b, what, false)?;
    }
    // The sender repeats itself until an undamaged copy arrives.
    let n = *c.t.pick(&[6u64, 2, 12]);
    for _ in 0..n {
        c.now += 1 + c.t.below(100);
        match c.t.below(12) {
            0 => {
                c.fault("truncated");
                let k = c.t.idx(good.len());
                both(c, v, &good[..k], "truncated", true)?;
            }
            1 => {
                if let Some(b) = counts(c, &m) {
                    c.fault("count-changed");
                    both(c, v, &b, "count-changed", false)?;
                }
            }
            _ => {
                let mut b = good.clone();
                let mut kinds = vec![];
                let k = *c.t.pick(&[1u64, 1, 2, 4]);
                for _ in 0..k {
                    let kind = damage(c, &mut b, &other);
                    c.fault(kind);
                    kinds.push(kind);
                }
                both(c, v, &b, &kinds.join(","), false)?;
            }
        }
    }
    // The undamaged copy is read by its own version only.
    let (a, b) = (
        decode_checked::<v0::Psbt>(Enc::Bytes, &good, "undamaged")?.map(|p| p.to_raw()),
        decode_checked::<v2::Psbt>(Enc::Bytes, &good, "undamaged")?.map(|p| p.to_raw()),
    );
    let (own, foreign) = if v == 0 { (a, b) } else { (b, a) };
    ensure!(own.as_ref() == Some(&m), "decode-wrong", "the undamaged copy");
    ensure!(foreign.is_none(), "other-version-accepted", "a v{} PSBT", v);
    c.state(&good);
    Ok(())
}
