//! Deterministic generator (splitmix64) with boundary-biased draws.

#[derive(Clone)]
pub struct Rng(u64, [u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xCBF2_9CE4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01B3))
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0x9E37_79B9_7F4A_7C15u64 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w)).wrapping_add(0x9E37_79B9_7F4A_7C15);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed ^ 0x5DEE_CE66_D1CE_4E5B), [0; 4]) }

    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn u8(&mut self) -> u8 { self.u64() as u8 }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64 }
    }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// uniform in a..=b
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn urange(&mut self, a: usize, b: usize) -> usize { self.range(a as u64, b as u64) as usize }
    pub fn one_in(&mut self, n: u64) -> bool { self.below(n) == 0 }
    pub fn coin(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T { s[self.idx(s.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n { v.extend_from_slice(&self.u64().to_le_bytes()); }
        v.truncate(n);
        v
    }
    /// n-bit value, biased towards boundaries and single bits
    pub fn bits(&mut self, n: u32) -> u64 {
        let max = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
        self.edge(max)
    }
    /// value in 0..=max, biased towards boundaries and towards values drawn before
    pub fn edge(&mut self, max: u64) -> u64 {
        if max == 0 { return 0; }
        let nb = 64 - max.leading_zeros();
        let v = match self.below(13) {
            12 => { let i = self.idx(4); self.1[i].saturating_sub(self.below(8).saturating_sub(6)) }
            0 => 0,
            1 => max,
            2 => 1u64 << self.below(u64::from(nb)),
            3 => max ^ (1u64 << self.below(u64::from(nb))),
            4 => self.below(16),
            5 => (1u64 << self.below(u64::from(nb))) - 1,
            6 => max - self.below(16).min(max),
            _ => if max == u64::MAX { self.u64() } else { self.below(max + 1) },
        };
        let v = if v > max { self.below(max.saturating_add(1).max(1)) } else { v };
        let i = self.idx(4);
        self.1[i] = v;
        v
    }
    /// contents of some descriptor or packet: noise, repeats, text, well-known values
    pub fn body(&mut self, n: usize) -> Vec<u8> {
        const KNOWN: [&[u8]; 24] = [
            b"AC-3", b"EAC3", b"HDMV", b"DTS1", b"DTS2", b"DTS3", b"BSSD", b"Opus", b"HEVC", b"CUEI", b"GA94", b"VC-1", b"KLVA", b"ID3 ", b"SCTE", b"AV01", b"drac", b"LU-A",
            b"eng", b"und", &[0, 0, 1], &[0x47], &[0xFF, 0xFF], &[0, 0],
        ];
        let mut v = match self.below(8) {
            0 => { let b = self.e8(); vec![b; n] }
            1 => (0..n).map(|_| self.range(0x20, 0x7E) as u8).collect(),
            2 => { let k = self.urange(1, 8); let p = self.bytes(k); (0..n).map(|i| p[i % k]).collect() }
            3 => (0..n).map(|_| self.e8()).collect(),
            _ => self.bytes(n),
        };
        if self.one_in(3) {
            let k = self.pick(&KNOWN);
            let at = if self.coin() { 0 } else { self.idx(n + 1) };
            for (d, s) in v.iter_mut().skip(at).zip(k) { *d = *s; }
        }
        v
    }
    /// a packet: 188 bytes, now and then with more behind them
    pub fn packet(&mut self) -> Vec<u8> {
        let n = match self.below(64) { 0..=5 => self.urange(189, 600), 6 => self.long().max(188), _ => 188 };
        self.bytes(n)
    }
    /// a length in the neighbourhood of a power of two or of a multiple of a round number, up to 2^17
    pub fn long(&mut self) -> usize {
        if cfg!(miri) { return self.urange(0, 600); }
        let n = match self.below(8) {
            0..=3 => 1u64 << self.range(7, 17),
            4 => 188 * self.range(1, 400),
            5 => 1000 * self.range(1, 100),
            _ => self.range(200, 100_000),
        };
        (n + self.below(9)).saturating_sub(4) as usize
    }
    pub fn e8(&mut self) -> u8 { self.bits(8) as u8 }
    pub fn e16(&mut self) -> u16 { self.bits(16) as u16 }
    /// small counts favoured, occasionally large
    pub fn count(&mut self, max: usize) -> usize {
        match self.below(8) {
            0 => 0.min(max),
            1 => 1.min(max),
            2 | 3 => self.urange(0, 4.min(max)),
            4 | 5 => self.urange(0, (max / 8).max(1).min(max)),
            _ => self.urange(0, max),
        }
    }
}
