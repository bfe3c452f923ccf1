//! Fast 64-bit hasher (folded 128-bit multiplication).
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Clone)]
pub struct Fx(u64);
impl Default for Fx {
    fn default() -> Fx {
        Fx(0x9E37_79B9_7F4A_7C15)
    }
}
impl Fx {
    pub fn new() -> Fx {
        Fx::default()
    }
    #[inline]
    fn mix(&mut self, x: u64) {
        let p = ((self.0 ^ x) as u128).wrapping_mul(0xD6E8_FEB8_6659_FD93_A076_1D64_78BD_642F_u128 | 1);
        self.0 = (p as u64) ^ ((p >> 64) as u64).rotate_left(23) ^ 0x2545_F491_4F6C_DD1D;
    }
}
impl Hasher for Fx {
    #[inline]
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.mix(u64::from_le_bytes(x));
        }
        self.mix(b.len() as u64);
    }
    #[inline]
    fn write_u8(&mut self, i: u8) {
        self.mix(i as u64)
    }
    #[inline]
    fn write_u16(&mut self, i: u16) {
        self.mix(i as u64)
    }
    #[inline]
    fn write_u32(&mut self, i: u32) {
        self.mix(i as u64)
    }
    #[inline]
    fn write_u64(&mut self, i: u64) {
        self.mix(i)
    }
    #[inline]
    fn write_usize(&mut self, i: usize) {
        self.mix(i as u64)
    }
    #[inline]
    fn write_u128(&mut self, i: u128) {
        self.mix(i as u64);
        self.mix((i >> 64) as u64)
    }
}
pub type B = BuildHasherDefault<Fx>;
pub type HashMap<K, V> = std::collections::HashMap<K, V, B>;
pub type HashSet<K> = std::collections::HashSet<K, B>;
