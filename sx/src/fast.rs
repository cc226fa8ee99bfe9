//! Hash tables with a cheap hash for small integer keys.
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Fx {
    fn mix(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.mix(u64::from_le_bytes(v));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.mix(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.mix(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.mix(v)
    }
    fn write_usize(&mut self, v: usize) {
        self.mix(v as u64)
    }
    fn write_i128(&mut self, v: i128) {
        self.mix(v as u64);
        self.mix((v >> 64) as u64)
    }
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
pub type HashSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;
