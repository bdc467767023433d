//! Deterministic generation and reporting.
use std::alloc::{alloc, dealloc, Layout};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, case: u64, salt: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ case.wrapping_mul(0xbf58_476d_1ce4_e5b9) ^ salt);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    /// any 64 bits: random widths, powers of two and their neighbours, extremes
    pub fn bits(&mut self) -> u64 {
        match self.below(8) {
            0 => self.pick(&[0, 1, 2, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MIN as u64, 127, 128, 255, 256]),
            1 => (1u64 << self.below(64)).wrapping_add(self.below(3)).wrapping_sub(1),
            2 => !((1u64 << self.below(64)).wrapping_add(self.below(3)).wrapping_sub(1)),
            3 => self.next(),
            _ => self.next() >> self.below(64),
        }
    }
    pub fn float(&mut self) -> f64 {
        match self.below(6) {
            0 => self.pick(&[0.0, -0.0, 1.0, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324]),
            1 => f64::from_bits(self.next() & !(0x7ffu64 << 52) | (self.below(0x7ff) << 52)),
            _ => (self.next() >> 11) as f64 / 1e6 - 4e9,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

/// exactly `len` bytes of heap, 8-byte aligned: reading past the end is an error a sanitizer sees
pub struct Exact {
    ptr: *mut u8,
    len: usize,
}

impl Exact {
    pub fn new(bytes: &[u8]) -> Self {
        let ptr = unsafe { alloc(Layout::from_size_align(bytes.len().max(1), 8).unwrap()) };
        unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), ptr, bytes.len()) };
        Exact { ptr, len: bytes.len() }
    }
    /// the same bytes, for values whose lifetime the borrow checker must not tie to them
    pub fn forever(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}

impl Drop for Exact {
    fn drop(&mut self) {
        unsafe { dealloc(self.ptr, Layout::from_size_align(self.len.max(1), 8).unwrap()) }
    }
}

#[derive(Default)]
pub struct Rec {
    pub counts: std::collections::BTreeMap<String, u64>,
    pub keys: std::collections::BTreeSet<u64>,
    pub fails: Vec<(u64, String, String)>,
    pub case: u64,
    pub lines: Vec<String>,
}

impl Rec {
    pub fn count(&mut self, name: &str) {
        self.add(name, 1)
    }
    pub fn add(&mut self, name: &str, n: u64) {
        *self.counts.entry(name.to_string()).or_default() += n;
    }
    pub fn seen<T: std::hash::Hash>(&mut self, key: T) {
        use std::hash::{DefaultHasher, Hash, Hasher};
        let mut h = DefaultHasher::new();
        key.hash(&mut h);
        Hash::hash(&0u8, &mut h);
        self.keys.insert(h.finish());
    }
    pub fn fail(&mut self, sig: &str, msg: String) {
        if self.fails.len() < 40 {
            let m: String = msg.chars().take(1500).map(|c| if c == '\n' || c == '\t' { ' ' } else { c }).collect();
            self.fails.push((self.case, sig.to_string(), m));
        }
    }
    pub fn print(&self) {
        for (n, c) in &self.counts {
            println!("C\t{n}\t{c}");
        }
        for l in &self.lines {
            println!("{l}");
        }
        for k in &self.keys {
            println!("K\t{k:x}");
        }
        for (c, s, m) in &self.fails {
            println!("F\t{c}\t{s}\t{m}");
        }
        println!("END");
    }
}
