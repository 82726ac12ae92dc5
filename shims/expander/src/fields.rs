//! Stand-ins for Expander's `mersenne31`, `babybear`, `goldilocks`, `gf2`.
use crate::arith::{Ext, ExtensionField, Field, Simd, SimdField, U256};
use crate::serdes_impl::{ExpSerde, SerdeResult};
use crate::{field_ops, small_prime_field};
use rand::RngCore;
use std::io::{Read, Write};

small_prime_field!(M31, u32, u64, 0x7fff_ffff, "Mersenne 31", 32);
small_prime_field!(BabyBear, u32, u64, 0x7800_0001, "Baby Bear Field", 32);
small_prime_field!(Goldilocks, u64, u128, 0xffff_ffff_0000_0001u64, "Goldilocks", 64);

impl From<u64> for Goldilocks {
    fn from(x: u64) -> Self {
        Goldilocks::new(x)
    }
}

pub type M31x16 = Simd<M31, 16>;
pub type BabyBearx16 = Simd<BabyBear, 16>;
pub type Goldilocksx8 = Simd<Goldilocks, 8>;
pub type GF2x8 = Simd<GF2, 8>;

pub type M31Ext3 = Ext<M31, 3, 5>;
pub type BabyBearExt4 = Ext<BabyBear, 4, 11>;
pub type GoldilocksExt2 = Ext<Goldilocks, 2, 7>;

#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
pub struct GF2 {
    pub v: u8,
}
impl std::fmt::Debug for GF2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl GF2 {
    fn f_add(&self, o: &Self) -> Self {
        GF2 { v: self.v ^ o.v }
    }
    fn f_sub(&self, o: &Self) -> Self {
        GF2 { v: self.v ^ o.v }
    }
    fn f_mul(&self, o: &Self) -> Self {
        GF2 { v: self.v & o.v }
    }
    fn f_neg(&self) -> Self {
        *self
    }
}
field_ops!([] GF2);
impl From<u32> for GF2 {
    fn from(x: u32) -> Self {
        GF2 { v: (x & 1) as u8 }
    }
}
impl From<bool> for GF2 {
    fn from(x: bool) -> Self {
        GF2 { v: x as u8 }
    }
}
impl ExpSerde for GF2 {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.v.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(GF2 { v: u8::deserialize_from(r)? & 1 })
    }
}
impl Field for GF2 {
    const NAME: &'static str = "Galois Field 2";
    const SIZE: usize = 1;
    const FIELD_SIZE: usize = 1;
    const ZERO: Self = GF2 { v: 0 };
    const ONE: Self = GF2 { v: 1 };
    const MODULUS: U256 = U256::new(2);
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        GF2 { v: (rng.next_u32() & 1) as u8 }
    }
    fn inv(&self) -> Option<Self> {
        if self.v == 0 {
            None
        } else {
            Some(*self)
        }
    }
    fn to_u256(&self) -> U256 {
        U256::new(self.v as u128)
    }
    fn from_u256(v: U256) -> Self {
        GF2 { v: (v.as_u128() & 1) as u8 }
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        GF2 { v: b[0] & 1 }
    }
}
impl SimdField for GF2 {
    type Scalar = GF2;
    const PACK_SIZE: usize = 1;
    fn scale(&self, c: &Self) -> Self {
        *self * *c
    }
    fn pack_full(b: &Self) -> Self {
        *b
    }
    fn pack(b: &[Self]) -> Self {
        assert_eq!(b.len(), 1);
        b[0]
    }
    fn unpack(&self) -> Vec<Self> {
        vec![*self]
    }
}

/// GF(2^128), x^128 + x^7 + x^2 + x + 1
#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct GF2_128 {
    pub v: u128,
}
impl GF2_128 {
    fn f_add(&self, o: &Self) -> Self {
        GF2_128 { v: self.v ^ o.v }
    }
    fn f_sub(&self, o: &Self) -> Self {
        self.f_add(o)
    }
    fn f_neg(&self) -> Self {
        *self
    }
    fn f_mul(&self, o: &Self) -> Self {
        let mut r = 0u128;
        let mut a = self.v;
        let mut b = o.v;
        while b != 0 {
            if b & 1 == 1 {
                r ^= a;
            }
            let top = a >> 127;
            a <<= 1;
            if top == 1 {
                a ^= 0x87;
            }
            b >>= 1;
        }
        GF2_128 { v: r }
    }
}
field_ops!([] GF2_128);
impl From<u32> for GF2_128 {
    fn from(x: u32) -> Self {
        GF2_128 { v: (x & 1) as u128 }
    }
}
impl ExpSerde for GF2_128 {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.v.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(GF2_128 { v: u128::deserialize_from(r)? })
    }
}
impl Field for GF2_128 {
    const NAME: &'static str = "Galois Field 2^128";
    const SIZE: usize = 16;
    const FIELD_SIZE: usize = 128;
    const ZERO: Self = GF2_128 { v: 0 };
    const ONE: Self = GF2_128 { v: 1 };
    const MODULUS: U256 = U256::new(2);
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        GF2_128 { v: (rng.next_u64() as u128) << 64 | rng.next_u64() as u128 }
    }
    fn inv(&self) -> Option<Self> {
        unimplemented!("not needed by the stand-in")
    }
    fn to_u256(&self) -> U256 {
        U256::new(self.v)
    }
    fn from_u256(v: U256) -> Self {
        GF2_128 { v: v.as_u128() & 1 }
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        GF2_128 { v: u128::from_le_bytes(b[..16].try_into().unwrap()) }
    }
}
impl ExtensionField for GF2_128 {
    type BaseField = GF2;
    fn embed(b: &GF2) -> Self {
        GF2_128 { v: b.v as u128 }
    }
}
