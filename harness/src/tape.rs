//! Every random choice of the harness is read from a tape of u32 words drawn by proptest.
//! An exhausted tape yields zeros, and zero always selects the simplest alternative, so that
//! proptest's shrinking of the vector (dropping and lowering words) shrinks the case.
#[derive(Clone)]
pub struct Tape<'a> {
    t: &'a [u32],
    pos: usize,
    /// continuation after the drawn words (a pure function of one drawn seed)
    cont: Option<u64>,
}

impl<'a> Tape<'a> {
    pub fn new(t: &'a [u32]) -> Self {
        Tape { t, pos: 0, cont: None }
    }
    pub fn seeded(t: &'a [u32], seed: u64) -> Self {
        Tape { t, pos: 0, cont: Some(seed) }
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.t.len() && self.cont.is_none()
    }
    pub fn raw(&mut self) -> u32 {
        if self.pos < self.t.len() {
            self.pos += 1;
            return self.t[self.pos - 1];
        }
        match &mut self.cont {
            None => 0,
            Some(s) => {
                *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let mut z = *s;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                ((z ^ (z >> 31)) >> 16) as u32
            }
        }
    }
    /// 0..n, 0 when exhausted.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            self.raw();
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability pct/100; false when exhausted.
    pub fn pct(&mut self, pct: u32) -> bool {
        self.raw() as u64 >= (1u64 << 32) * (100 - pct.min(100)) as u64 / 100 && pct > 0
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.below(v.len())]
    }
    /// Weighted choice; index 0 when exhausted.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
    pub fn u32(&mut self) -> u32 {
        self.raw()
    }
    pub fn u64(&mut self) -> u64 {
        ((self.raw() as u64) << 32) | self.raw() as u64
    }
    /// An integer biased towards boundaries.
    pub fn edge_u32(&mut self) -> u32 {
        match self.weighted(&[4, 6, 3, 3]) {
            0 => self.below(17) as u32,
            1 => *self.pick(&[
                0u32, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 4095, 4096,
                65535, 65536, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffc, 0xffff_fffd,
                0xffff_fffe, 0xffff_ffff, 0x0100_0000, 0x0001_0000, 0x00ff_00ff,
            ]),
            2 => 1u32 << self.below(32),
            _ => self.raw(),
        }
    }
}
