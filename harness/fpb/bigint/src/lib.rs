//! Stand-in for num-bigint: a 64-bit unsigned integer with the byte and bit views of the real one.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct BigUint(pub u64);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct BigInt(pub i64);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sign { Minus, NoSign, Plus }
impl BigInt {
    pub fn from_bytes_le(_s: Sign, _b: &[u8]) -> BigInt { unimplemented!() }
    pub fn from_slice(_s: Sign, _b: &[u32]) -> BigInt { unimplemented!() }
}
impl core::fmt::Display for BigInt { fn fmt(&self, _f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
impl core::fmt::Display for BigUint { fn fmt(&self, _f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
macro_rules! from { ($($t:ty)*) => { $(impl From<$t> for BigUint { fn from(v: $t) -> BigUint { BigUint(v as u64) } })* } }
from! { u8 u16 u32 u64 usize }
impl BigUint {
    pub const ZERO: BigUint = BigUint(0);
    pub fn from_slice(d: &[u32]) -> BigUint { BigUint(d[0] as u64) }
    pub fn bits(&self) -> u64 { (64 - self.0.leading_zeros()) as u64 }
    pub fn bit(&self, i: u64) -> bool { i < 64 && self.0 >> i & 1 == 1 }
    pub fn is_zero(&self) -> bool { self.0 == 0 }
    /// little-endian bytes without leading zeros (one zero byte for zero), as num-bigint gives them
    pub fn to_bytes_le(&self) -> Vec<u8> {
        let n = if self.0 == 0 { 1 } else { ((self.bits() + 7) / 8) as usize };
        let mut v = self.0.to_le_bytes().to_vec();
        v.truncate(n);
        v
    }
    pub fn to_bytes_be(&self) -> Vec<u8> { let mut v = self.to_bytes_le(); v.reverse(); v }
    pub fn to_u64_digits(&self) -> Vec<u64> { if self.0 == 0 { vec![] } else { vec![self.0] } }
    pub fn to_u32_digits(&self) -> Vec<u32> {
        if self.0 == 0 { vec![] } else if self.0 >> 32 == 0 { vec![self.0 as u32] } else { vec![self.0 as u32, (self.0 >> 32) as u32] }
    }
}
