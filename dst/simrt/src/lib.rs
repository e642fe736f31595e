//! Deterministic simulation runtime.
//!
//! One simulated process ("incarnation") runs inside one forked OS process. All
//! its threads are real OS threads, but exactly one of them holds the baton at any
//! time, and who gets the baton next is decided by a seeded PRNG (or by a recorded
//! trace). Files, clocks, entropy, futexes, semaphores and thread creation are
//! intercepted at the libc boundary (see `interpose`), rayon is replaced by a shim
//! that asks this scheduler for every decision.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
pub mod alloc;
pub mod disk;
pub mod interpose;
pub mod rt;

pub use rt::*;

/// xoshiro256++ seeded by splitmix64: the only source of randomness of the simulator.
#[derive(Clone, Debug)]
pub struct Prng([u64; 4]);

impl Prng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed ^ 0x9E37_79B9_7F4A_7C15;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            *v = x ^ (x >> 31);
        }
        Prng(s)
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn ppm(&mut self, p: u32) -> bool {
        p > 0 && self.below(1_000_000) < p as u64
    }
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
}

/// Mix several integers into one seed.
pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        let mut r = Prng::new(h ^ p.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        h = r.next();
    }
    h
}
