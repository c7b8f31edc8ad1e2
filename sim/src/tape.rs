//! The choice tape: every decision of a run is drawn here, so a seed (or a recorded tape) is one
//! exactly repeatable execution.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

/// A source of choices. By convention the choice 0 is always the simplest one (no fault, the first
/// alternative, the shortest length), so that a shrunk tape is a simple run.
pub struct Tape {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub rec: Vec<u64>,
    /// Where draws are written at once, for runs that may end the process.
    pub sink: Option<std::fs::File>,
}

impl Tape {
    pub fn seeded(seed: u64) -> Self {
        Tape { rng: Some(Rng::new(mix(seed))), replay: vec![], rec: Vec::with_capacity(1024), sink: None }
    }

    pub fn replay(tape: Vec<u64>) -> Self { Tape { rng: None, replay: tape, rec: vec![], sink: None } }

    /// A number below `n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match self.rng {
            Some(ref mut rng) => rng.next() % n,
            None => match self.replay.get(self.rec.len()) {
                Some(v) => v % n,
                None => 0,
            },
        };
        self.rec.push(v);
        if let Some(f) = &mut self.sink {
            let _ = std::io::Write::write_all(f, &v.to_le_bytes());
        }
        v
    }

    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        hi << 32 | lo
    }

    pub fn u32(&mut self) -> u32 { self.below(1 << 32) as u32 }

    /// A number in `lo..=hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }

    /// True with probability `num / den`; the choice 0 means false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }

    pub fn idx(&mut self, len: usize) -> usize { self.below(len as u64) as usize }

    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        // One draw per 7 bytes keeps tapes short.
        let mut out = Vec::with_capacity(len);
        if len > 64 {
            // Long strings are expanded from one draw.
            let mut r = Rng::new(self.below(1 << 32));
            while out.len() < len {
                out.extend_from_slice(&r.next().to_le_bytes());
            }
            out.truncate(len);
            return out;
        }
        while out.len() < len {
            let v = self.below(1 << 56);
            let n = core::cmp::min(7, len - out.len());
            out.extend_from_slice(&v.to_le_bytes()[..n]);
        }
        out
    }

    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        a.copy_from_slice(&self.bytes(N));
        a
    }

    /// A random permutation of `0..n` (all-zero choices give the identity).
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut left: Vec<usize> = (0..n).collect();
        let mut out = Vec::with_capacity(n);
        while !left.is_empty() {
            let i = self.idx(left.len());
            out.push(left.remove(i));
        }
        out
    }
}
