//! Small property-based testing engine: all randomness is a sequence of recorded choices, so any
//! generated value can be shrunk and replayed by editing / re-reading that sequence.
pub mod json;
pub mod rng;
pub mod runner;
pub mod guide;
pub mod cfg;

pub use json::J;
pub use rng::Src;
pub use runner::{main, Cx, Suite, TrackAlloc};

use std::hash::{Hash, Hasher};

/// stable 64-bit hash (FNV-1a)
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}
