//! C14: proprietary keys written to and read from streams that stall, interrupt and fail.

use psbt_v2::bitcoin::consensus::encode::{deserialize, serialize};
use psbt_v2::bitcoin::consensus::{Decodable, Encodable};
use psbt_v2::bitcoin::io::{self, Error, ErrorKind};

use crate::ctx::{fail, Ctx, R};
use crate::typed::prop_key;
use crate::{ensure, ev};

const KINDS: [ErrorKind; 6] = [
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::Other,
];

/// One end of a stream: a schedule of how calls end.
struct Flow<'a> {
    c: &'a mut Ctx,
    max: u64,
    interrupt: u64,
    /// Fails once this many bytes went through.
    fail: Option<(usize, ErrorKind)>,
    pos: usize,
    calls: u64,
}

impl Flow<'_> {
    /// The number of bytes the next call moves.
    fn step(&mut self, want: usize, left: usize) -> Result<usize, Error> {
        self.calls += 1;
        // A bounded number of interruptions in a row.
        if self.c.t.chance(self.interrupt, 64) && self.calls < 10_000 {
            self.c.fault("stream-interrupted");
            return Err(ErrorKind::Interrupted.into());
        }
        if let Some((at, kind)) = self.fail {
            if self.pos >= at {
                self.c.fault("stream-failed");
                return Err(kind.into());
            }
        }
        let mut n = core::cmp::min(want, left);
        if let Some((at, _)) = self.fail {
            n = core::cmp::min(n, at - self.pos);
        }
        if n > 1 {
            let m = core::cmp::min(n as u64, self.max);
            let k = 1 + self.c.t.below(m) as usize;
            if k < n {
                self.c.fault("stream-short");
            }
            n = k;
        }
        self.pos += n;
        Ok(n)
    }
}

struct Src<'a> {
    f: Flow<'a>,
    data: &'a [u8],
}

impl io::Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
        let p = self.f.pos;
        let n = self.f.step(buf.len(), self.data.len() - p)?;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        Ok(n)
    }
}

struct Sink<'a> {
    f: Flow<'a>,
    out: Vec<u8>,
}

impl io::Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> Result<usize, Error> {
        let n = self.f.step(buf.len(), usize::MAX)?;
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<(), Error> { Ok(()) }
}

fn kind_of(e: &psbt_v2::bitcoin::consensus::encode::Error) -> Option<ErrorKind> {
    match e {
        psbt_v2::bitcoin::consensus::encode::Error::Io(e) => Some(e.kind()),
        _ => None,
    }
}

macro_rules! module {
    ($name:ident, $raw:path) => {
        mod $name {
            use super::*;
            use $raw as raw;

            pub fn run(c: &mut Ctx) -> R {
                let lens = [3usize, 0, 1, 10, 252, 253, 300];
                let n = *c.t.pick(&lens);
                let prefix = c.t.bytes(n);
                let subtype = c.t.below(256) as u8;
                let n = match c.t.below(40) {
                    0..=29 => c.t.below(40) as usize,
                    30..=35 => *c.t.pick(&[63usize, 64, 65, 127, 128, 129]),
                    36..=38 => *c.t.pick(&[1023usize, 1024, 1025, 4096, 5000]),
                    _ => c.t.range(60_000, 70_000) as usize,
                };
                let kd = c.t.bytes(n);
                let key = raw::ProprietaryKey { prefix: prefix.clone(), subtype, key: kd.clone() };
                let want = prop_key(&prefix, subtype, &kd);
                let head = want.len() - kd.len();
                ev!(c, "key of {} + 1 + {} bytes", prefix.len(), kd.len());
                // In memory.
                let full = raw::Key { type_value: 0xfc, key: want.clone() };
                ensure!(serialize(&key) == want, "encode-wrong", "in memory");
                ensure!(key.to_key() == full, "encode-wrong", "to_key");
                match <raw::ProprietaryKey>::try_from(full.clone()) {
                    Ok(k) => ensure!(k == key, "decode-wrong", "try_from"),
                    Err(e) => return fail("decode-refused", format!("try_from: {}", e)),
                }
                let other = raw::Key { type_value: c.t.below(0xfc) as u8, key: want.clone() };
                ensure!(
                    <raw::ProprietaryKey>::try_from(other).is_err(),
                    "decode-accepted", "a key that is not proprietary"
                );
                match deserialize::<raw::ProprietaryKey>(&want) {
                    Ok(k) => ensure!(k == key, "decode-wrong", "in memory"),
                    Err(e) => return fail("decode-refused", format!("in memory: {}", e)),
                }
                // A writer that tries again on a new connection until it succeeds.
                let mut stored = None;
                for attempt in 0..6 {
                    let fault = attempt < 5 && c.t.chance(1, 2);
                    let fail_at = if fault {
                        let at = if c.t.chance(1, 2) { c.t.idx(want.len()) } else { core::cmp::min(c.t.idx(head + 2), want.len() - 1) };
                        Some((at, *c.t.pick(&KINDS)))
                    } else {
                        None
                    };
                    let max = *c.t.pick(&[1 << 20, 1u64, 2, 7, 64]);
                    let interrupt = *c.t.pick(&[0u64, 0, 8, 40]);
                    let mut w = Sink {
                        f: Flow { c: &mut *c, max, interrupt, fail: fail_at, pos: 0, calls: 0 },
                        out: vec![],
                    };
                    let r = key.consensus_encode(&mut w);
                    let out = w.out;
                    match (r, fail_at) {
                        (Ok(n), None) => {
                            ensure!(out == want, "encode-wrong", "on a stream");
                            ensure!(n == out.len(), "encode-wrong-length", "{} reported, {} written", n, out.len());
                            ev!(c, "written, {} at a time", max);
                            stored = Some(out);
                            break;
                        }
                        (Ok(_), Some((at, _))) =>
                            return fail("failure-hidden", format!("writing succeeded though the stream failed at {}", at)),
                        (Err(e), None) =>
                            return fail("encode-failed", format!("on a working stream: {:?}", e)),
                        (Err(e), Some((at, kind))) => {
                            ensure!(e.kind() == kind, "wrong-failure", "{:?} instead of {:?}", e.kind(), kind);
                            ensure!(want.starts_with(&out) && out.len() == at, "encode-wrong", "before the failure");
                            ev!(c, "writing fails at {} with {:?}", at, kind);
                        }
                    }
                }
                let stored = stored.expect("the last attempt has no faults");
                for attempt in 0..6 {
                    let mode = if attempt < 5 { c.t.below(4) } else { 0 };
                    let max = *c.t.pick(&[1 << 20, 1u64, 2, 7, 64]);
                    let interrupt = *c.t.pick(&[0u64, 0, 8, 40]);
                    let (fail_at, cut) = match mode {
                        1 => (Some((c.t.idx(stored.len() + 1), *c.t.pick(&KINDS))), stored.len()),
                        2 => {
                            let k = core::cmp::min(head + 1, stored.len() + 1);
                            (Some((c.t.idx(k), *c.t.pick(&KINDS))), stored.len())
                        }
                        3 => (None, c.t.idx(head)),
                        _ => (None, stored.len()),
                    };
                    let mut r = Src {
                        f: Flow { c: &mut *c, max, interrupt, fail: fail_at, pos: 0, calls: 0 },
                        data: &stored[..cut],
                    };
                    let got = <raw::ProprietaryKey>::consensus_decode(&mut r);
                    match (got, fail_at) {
                        (Ok(_), Some((at, _))) =>
                            return fail("failure-hidden", format!("reading succeeded though the stream failed at {}", at)),
                        (Err(e), Some((at, kind))) => {
                            ensure!(kind_of(&e) == Some(kind), "wrong-failure", "{:?} instead of {:?}", e, kind);
                            ev!(c, "reading fails at {} with {:?}", at, kind);
                        }
                        (Ok(_), None) if cut < stored.len() =>
                            return fail("truncated-accepted", format!("cut to {} of {}", cut, head)),
                        (Err(_), None) if cut < head => {
                            c.fault("stream-cut-short");
                            ev!(c, "a stream of {} bytes is refused", cut);
                        }
                        (Err(e), None) =>
                            return fail("decode-refused", format!("on a working stream: {}", e)),
                        (Ok(k), None) => {
                            ensure!(k == key, "decode-wrong", "read {} at a time", max);
                            ev!(c, "read, {} at a time", max);
                            break;
                        }
                    }
                }
                c.state(&want);
                Ok(())
            }
        }
    };
}

module!(v2m, psbt_v2::raw);
module!(v0m, psbt_v2::v0::bitcoin::raw);

pub fn run(c: &mut Ctx) -> R {
    if c.t.chance(1, 2) {
        v0m::run(c)
    } else {
        v2m::run(c)
    }
}
