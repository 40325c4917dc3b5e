//! Stand-in for ethereum-types: a 256-bit unsigned integer, divisible by a 64-bit one.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct U256([u64; 4]);
impl U256 {
    pub fn from_big_endian(b: &[u8]) -> Self {
        let mut r = [0u8; 32];
        r[32 - b.len()..].copy_from_slice(b);
        let mut w = [0; 4];
        for (i, c) in r.chunks(8).enumerate() {
            w[i] = u64::from_be_bytes(c.try_into().unwrap());
        }
        U256(w)
    }
    pub fn to_big_endian(self) -> [u8; 32] {
        let mut r = [0; 32];
        for (i, w) in self.0.iter().enumerate() {
            r[8 * i..8 * i + 8].copy_from_slice(&w.to_be_bytes());
        }
        r
    }
    pub fn low_u64(&self) -> u64 {
        self.0[3]
    }
    /// Only for divisors that fit in 64 bits.
    pub fn div_mod(self, n: U256) -> (U256, U256) {
        assert_eq!(n.0[..3], [0; 3]);
        let n = n.0[3];
        assert!(n != 0, "division by zero");
        let (mut q, mut r) = ([0; 4], 0u64);
        for i in 0..4 {
            let x = u128::from(r) << 64 | u128::from(self.0[i]);
            q[i] = (x / u128::from(n)) as u64;
            r = (x % u128::from(n)) as u64;
        }
        (U256(q), U256([0, 0, 0, r]))
    }
}
impl From<u64> for U256 {
    fn from(n: u64) -> Self {
        U256([0, 0, 0, n])
    }
}
impl From<u32> for U256 {
    fn from(n: u32) -> Self {
        U256([0, 0, 0, n.into()])
    }
}
