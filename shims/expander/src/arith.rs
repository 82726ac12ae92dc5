//! Stand-in for Expander's `arith` (Field, SimdField, BN254 Fr), written from the mathematics.
use crate::serdes_impl::{ExpSerde, SerdeError, SerdeResult};
pub use ethnum::U256;
use rand::RngCore;
use std::fmt::Debug;
use std::hash::Hash;
use std::io::{Read, Write};
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

pub trait Field:
    Copy
    + Clone
    + Debug
    + Default
    + PartialEq
    + Eq
    + PartialOrd
    + Ord
    + Hash
    + From<u32>
    + Neg<Output = Self>
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + for<'a> MulAssign<&'a Self>
    + Sum
    + Product
    + for<'a> Sum<&'a Self>
    + for<'a> Product<&'a Self>
    + ExpSerde
    + Send
    + Sync
    + 'static
{
    const NAME: &'static str;
    const SIZE: usize;
    const FIELD_SIZE: usize;
    const ZERO: Self;
    const ONE: Self;
    const MODULUS: U256;

    fn zero() -> Self {
        Self::ZERO
    }
    fn one() -> Self {
        Self::ONE
    }
    fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    fn random_unsafe(rng: impl RngCore) -> Self;
    fn random_bool(mut rng: impl RngCore) -> Self {
        Self::from(rng.next_u32() & 1)
    }
    fn exp(&self, mut e: u128) -> Self {
        let mut r = Self::ONE;
        let mut b = *self;
        while e > 0 {
            if e & 1 == 1 {
                r *= b;
            }
            b *= b;
            e >>= 1;
        }
        r
    }
    fn inv(&self) -> Option<Self>;
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn mul_by_2(&self) -> Self {
        self.double()
    }
    fn to_u256(&self) -> U256;
    fn from_u256(v: U256) -> Self;
    fn as_u32_unchecked(&self) -> u32 {
        self.to_u256().as_u32()
    }
    /// 64 uniform bytes
    fn from_uniform_bytes(b: &[u8]) -> Self;
}

pub trait SimdField: From<Self::Scalar> + Field {
    type Scalar: Field;
    const PACK_SIZE: usize;
    fn scale(&self, c: &Self::Scalar) -> Self;
    fn pack_full(b: &Self::Scalar) -> Self;
    fn pack(b: &[Self::Scalar]) -> Self;
    fn unpack(&self) -> Vec<Self::Scalar>;
    fn index(&self, i: usize) -> Self::Scalar {
        self.unpack()[i]
    }
}

/// operator impls on top of inherent f_add / f_sub / f_mul / f_neg
#[macro_export]
macro_rules! field_ops {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> std::ops::Neg for $t { type Output = Self; #[inline(always)] fn neg(self) -> Self { self.f_neg() } }
        $crate::field_ops!(@bin [$($g)*] $t, Add, add, AddAssign, add_assign, f_add);
        $crate::field_ops!(@bin [$($g)*] $t, Sub, sub, SubAssign, sub_assign, f_sub);
        $crate::field_ops!(@bin [$($g)*] $t, Mul, mul, MulAssign, mul_assign, f_mul);
        impl<$($g)*> std::iter::Sum for $t { fn sum<It: Iterator<Item = Self>>(it: It) -> Self { it.fold(<Self as $crate::arith::Field>::ZERO, |a, b| a + b) } }
        impl<$($g)*> std::iter::Product for $t { fn product<It: Iterator<Item = Self>>(it: It) -> Self { it.fold(<Self as $crate::arith::Field>::ONE, |a, b| a * b) } }
        impl<'q, $($g)*> std::iter::Sum<&'q $t> for $t { fn sum<It: Iterator<Item = &'q Self>>(it: It) -> Self { it.fold(<Self as $crate::arith::Field>::ZERO, |a, b| a + *b) } }
        impl<'q, $($g)*> std::iter::Product<&'q $t> for $t { fn product<It: Iterator<Item = &'q Self>>(it: It) -> Self { it.fold(<Self as $crate::arith::Field>::ONE, |a, b| a * *b) } }
    };
    (@bin [$($g:tt)*] $t:ty, $tr:ident, $f:ident, $tra:ident, $fa:ident, $inh:ident) => {
        impl<$($g)*> std::ops::$tr for $t { type Output = Self; #[inline(always)] fn $f(self, o: Self) -> Self { self.$inh(&o) } }
        impl<'q, $($g)*> std::ops::$tr<&'q $t> for $t { type Output = Self; #[inline(always)] fn $f(self, o: &'q Self) -> Self { self.$inh(o) } }
        impl<$($g)*> std::ops::$tra for $t { #[inline(always)] fn $fa(&mut self, o: Self) { *self = self.$inh(&o); } }
        impl<'q, $($g)*> std::ops::$tra<&'q $t> for $t { #[inline(always)] fn $fa(&mut self, o: &'q Self) { *self = self.$inh(o); } }
    };
}

/// small prime field, canonical representation in an unsigned integer
#[macro_export]
macro_rules! small_prime_field {
    ($name:ident, $int:ty, $wide:ty, $p:expr, $fname:expr, $bits:expr) => {
        #[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[repr(transparent)]
        pub struct $name {
            pub v: $int,
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.v)
            }
        }
        impl std::fmt::Display for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.v)
            }
        }
        impl $name {
            pub const P: $int = $p;
            #[inline(always)]
            pub const fn new(v: $int) -> Self {
                $name { v: v % $p }
            }
            #[inline(always)]
            fn f_add(&self, o: &Self) -> Self {
                let s = self.v as $wide + o.v as $wide;
                $name { v: (if s >= $p as $wide { s - $p as $wide } else { s }) as $int }
            }
            #[inline(always)]
            fn f_sub(&self, o: &Self) -> Self {
                $name { v: if self.v >= o.v { self.v - o.v } else { ((self.v as $wide) + ($p as $wide) - (o.v as $wide)) as $int } }
            }
            #[inline(always)]
            fn f_mul(&self, o: &Self) -> Self {
                $name { v: ((self.v as $wide * o.v as $wide) % ($p as $wide)) as $int }
            }
            #[inline(always)]
            fn f_neg(&self) -> Self {
                $name { v: if self.v == 0 { 0 } else { $p - self.v } }
            }
        }
        $crate::field_ops!([] $name);
        impl From<u32> for $name {
            #[inline(always)]
            fn from(x: u32) -> Self {
                $name { v: ((x as $wide) % ($p as $wide)) as $int }
            }
        }
        impl $crate::serdes_impl::ExpSerde for $name {
            fn serialize_into<W: std::io::Write>(&self, w: W) -> $crate::serdes_impl::SerdeResult<()> {
                self.v.serialize_into(w)
            }
            fn deserialize_from<R: std::io::Read>(r: R) -> $crate::serdes_impl::SerdeResult<Self> {
                let v = <$int as $crate::serdes_impl::ExpSerde>::deserialize_from(r)?;
                Ok($name { v: v % $p })
            }
        }
        impl $crate::arith::Field for $name {
            const NAME: &'static str = $fname;
            const SIZE: usize = std::mem::size_of::<$int>();
            const FIELD_SIZE: usize = $bits;
            const ZERO: Self = $name { v: 0 };
            const ONE: Self = $name { v: 1 };
            const MODULUS: ethnum::U256 = ethnum::U256::new($p as u128);
            fn random_unsafe(mut rng: impl rand::RngCore) -> Self {
                $name { v: (rng.next_u64() % ($p as u64)) as $int }
            }
            fn inv(&self) -> Option<Self> {
                if self.v == 0 { None } else { Some(self.exp(($p - 2) as u128)) }
            }
            fn to_u256(&self) -> ethnum::U256 {
                ethnum::U256::new(self.v as u128)
            }
            fn from_u256(x: ethnum::U256) -> Self {
                $name { v: (x % <Self as $crate::arith::Field>::MODULUS).as_u128() as $int }
            }
            fn from_uniform_bytes(b: &[u8]) -> Self {
                let mut a = [0u8; 16];
                a.copy_from_slice(&b[..16]);
                $name { v: (u128::from_le_bytes(a) % ($p as u128)) as $int }
            }
        }
        impl $crate::arith::SimdField for $name {
            type Scalar = $name;
            const PACK_SIZE: usize = 1;
            fn scale(&self, c: &Self) -> Self { *self * *c }
            fn pack_full(b: &Self) -> Self { *b }
            fn pack(b: &[Self]) -> Self { assert_eq!(b.len(), 1); b[0] }
            fn unpack(&self) -> Vec<Self> { vec![*self] }
        }
    };
}

/// N lanes of a field
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
pub struct Simd<F: Field, const N: usize>(pub [F; N]);
impl<F: Field, const N: usize> Debug for Simd<F, N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", &self.0[..])
    }
}
impl<F: Field, const N: usize> Default for Simd<F, N> {
    fn default() -> Self {
        Simd([F::ZERO; N])
    }
}
impl<F: Field, const N: usize> Simd<F, N> {
    #[inline(always)]
    fn f_add(&self, o: &Self) -> Self {
        let mut r = *self;
        for i in 0..N {
            r.0[i] += o.0[i];
        }
        r
    }
    #[inline(always)]
    fn f_sub(&self, o: &Self) -> Self {
        let mut r = *self;
        for i in 0..N {
            r.0[i] -= o.0[i];
        }
        r
    }
    #[inline(always)]
    fn f_mul(&self, o: &Self) -> Self {
        let mut r = *self;
        for i in 0..N {
            r.0[i] *= o.0[i];
        }
        r
    }
    #[inline(always)]
    fn f_neg(&self) -> Self {
        let mut r = *self;
        for i in 0..N {
            r.0[i] = -r.0[i];
        }
        r
    }
}
field_ops!([F: Field, const N: usize] Simd<F, N>);
impl<F: Field, const N: usize> From<u32> for Simd<F, N> {
    fn from(x: u32) -> Self {
        Simd([F::from(x); N])
    }
}
impl<F: Field, const N: usize> From<F> for Simd<F, N> {
    fn from(x: F) -> Self {
        Simd([x; N])
    }
}
impl<F: Field, const N: usize> ExpSerde for Simd<F, N> {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.0.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(Simd(<[F; N]>::deserialize_from(r)?))
    }
}
impl<F: Field, const N: usize> Field for Simd<F, N> {
    const NAME: &'static str = F::NAME;
    const SIZE: usize = F::SIZE * N;
    const FIELD_SIZE: usize = F::FIELD_SIZE;
    const ZERO: Self = Simd([F::ZERO; N]);
    const ONE: Self = Simd([F::ONE; N]);
    const MODULUS: U256 = F::MODULUS;
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        let mut r = Self::ZERO;
        for x in r.0.iter_mut() {
            *x = F::random_unsafe(&mut rng);
        }
        r
    }
    fn inv(&self) -> Option<Self> {
        let mut r = *self;
        for x in r.0.iter_mut() {
            *x = x.inv()?;
        }
        Some(r)
    }
    fn to_u256(&self) -> U256 {
        unimplemented!("to_u256 of a SIMD value")
    }
    fn from_u256(v: U256) -> Self {
        Simd([F::from_u256(v); N])
    }
    fn from_uniform_bytes(_b: &[u8]) -> Self {
        unimplemented!()
    }
}
impl<F: Field, const N: usize> SimdField for Simd<F, N> {
    type Scalar = F;
    const PACK_SIZE: usize = N;
    fn scale(&self, c: &F) -> Self {
        let mut r = *self;
        for x in r.0.iter_mut() {
            *x *= *c;
        }
        r
    }
    fn pack_full(b: &F) -> Self {
        Simd([*b; N])
    }
    fn pack(b: &[F]) -> Self {
        Simd(b.to_vec().try_into().expect("pack: wrong length"))
    }
    fn unpack(&self) -> Vec<F> {
        self.0.to_vec()
    }
}

// ---------------------------------------------------------------- BN254 scalar field

const P: [u64; 4] = [
    0x43e1f593f0000001,
    0x2833e84879b97091,
    0xb85045b68181585d,
    0x30644e72e131a029,
];
const NP: u64 = 0xc2e1f593efffffff;

const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) {
    let t = a as u128 + b as u128 + c as u128;
    (t as u64, (t >> 64) as u64)
}
const fn sbb(a: u64, b: u64, br: u64) -> (u64, u64) {
    let t = (a as u128).wrapping_sub(b as u128 + br as u128);
    (t as u64, ((t >> 64) as u64) & 1)
}
const fn sub_p(a: [u64; 4], carry: u64) -> [u64; 4] {
    let (r0, b) = sbb(a[0], P[0], 0);
    let (r1, b) = sbb(a[1], P[1], b);
    let (r2, b) = sbb(a[2], P[2], b);
    let (r3, b) = sbb(a[3], P[3], b);
    if carry == 1 || b == 0 {
        [r0, r1, r2, r3]
    } else {
        a
    }
}
const fn add_mod(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
    let (r0, c) = adc(a[0], b[0], 0);
    let (r1, c) = adc(a[1], b[1], c);
    let (r2, c) = adc(a[2], b[2], c);
    let (r3, c) = adc(a[3], b[3], c);
    sub_p([r0, r1, r2, r3], c)
}
const fn pow2_mod(n: usize) -> [u64; 4] {
    let mut r = [1, 0, 0, 0];
    let mut i = 0;
    while i < n {
        r = add_mod(r, r);
        i += 1;
    }
    r
}
const R1: [u64; 4] = pow2_mod(256);
const R2: [u64; 4] = pow2_mod(512);

#[inline(always)]
const fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    let mut i = 0;
    while i < 4 {
        let mut c = 0u128;
        let mut j = 0;
        while j < 4 {
            let x = a[i] as u128 * b[j] as u128 + t[j] as u128 + c;
            t[j] = x as u64;
            c = x >> 64;
            j += 1;
        }
        let x = t[4] as u128 + c;
        t[4] = x as u64;
        t[5] = (x >> 64) as u64;
        let m = t[0].wrapping_mul(NP);
        let x = m as u128 * P[0] as u128 + t[0] as u128;
        let mut c = x >> 64;
        let mut j = 1;
        while j < 4 {
            let x = m as u128 * P[j] as u128 + t[j] as u128 + c;
            t[j - 1] = x as u64;
            c = x >> 64;
            j += 1;
        }
        let x = t[4] as u128 + c;
        t[3] = x as u64;
        t[4] = t[5] + (x >> 64) as u64;
        i += 1;
    }
    sub_p([t[0], t[1], t[2], t[3]], t[4])
}

/// BN254 scalar, Montgomery form (always reduced, so derived Eq/Hash are by value)
#[derive(Copy, Clone, Default, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct Fr([u64; 4]);

impl Fr {
    pub const fn from_raw(v: [u64; 4]) -> Self {
        let mut v = v;
        // v < 2^256 < 6p
        let mut i = 0;
        while i < 6 {
            v = sub_p(v, 0);
            i += 1;
        }
        Fr(mont_mul(&v, &R2))
    }
    pub const fn zero() -> Self {
        Fr([0; 4])
    }
    pub const fn one() -> Self {
        Fr(R1)
    }
    fn canon(&self) -> [u64; 4] {
        mont_mul(&self.0, &[1, 0, 0, 0])
    }
    pub fn to_repr(&self) -> [u8; 32] {
        let c = self.canon();
        let mut b = [0u8; 32];
        for i in 0..4 {
            b[i * 8..i * 8 + 8].copy_from_slice(&c[i].to_le_bytes());
        }
        b
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.to_repr()
    }
    #[inline(always)]
    fn f_add(&self, o: &Self) -> Self {
        Fr(add_mod(self.0, o.0))
    }
    #[inline(always)]
    fn f_neg(&self) -> Self {
        if self.0 == [0; 4] {
            return *self;
        }
        let (r0, b) = sbb(P[0], self.0[0], 0);
        let (r1, b) = sbb(P[1], self.0[1], b);
        let (r2, b) = sbb(P[2], self.0[2], b);
        let (r3, _) = sbb(P[3], self.0[3], b);
        Fr([r0, r1, r2, r3])
    }
    #[inline(always)]
    fn f_sub(&self, o: &Self) -> Self {
        self.f_add(&o.f_neg())
    }
    #[inline(always)]
    fn f_mul(&self, o: &Self) -> Self {
        Fr(mont_mul(&self.0, &o.0))
    }
}
field_ops!([] Fr);
impl Debug for Fr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.to_u256())
    }
}
impl PartialOrd for Fr {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fr {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.to_u256().cmp(&o.to_u256())
    }
}
impl From<u32> for Fr {
    fn from(x: u32) -> Self {
        Fr::from_raw([x as u64, 0, 0, 0])
    }
}
impl From<u64> for Fr {
    fn from(x: u64) -> Self {
        Fr::from_raw([x, 0, 0, 0])
    }
}
impl ExpSerde for Fr {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        w.write_all(&self.to_repr())?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        let v = U256::from_le_bytes(b);
        if v >= Fr::MODULUS {
            return Err(SerdeError::DeserializeError);
        }
        Ok(Fr::from_u256(v))
    }
}
impl Field for Fr {
    const NAME: &'static str = "bn254 scalar field";
    const SIZE: usize = 32;
    const FIELD_SIZE: usize = 256;
    const ZERO: Self = Fr([0; 4]);
    const ONE: Self = Fr(R1);
    const MODULUS: U256 = U256([
        (P[0] as u128) | ((P[1] as u128) << 64),
        (P[2] as u128) | ((P[3] as u128) << 64),
    ]);
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        Fr::from_raw([rng.next_u64(), rng.next_u64(), rng.next_u64(), rng.next_u64()])
    }
    fn inv(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        let e = Self::MODULUS - U256::new(2);
        let mut r = Self::ONE;
        for i in (0..256).rev() {
            r = r * r;
            if (e >> i) & 1u128 == 1u128 {
                r *= *self;
            }
        }
        Some(r)
    }
    fn to_u256(&self) -> U256 {
        U256::from_le_bytes(self.to_repr())
    }
    fn from_u256(v: U256) -> Self {
        let b = (v % Self::MODULUS).to_le_bytes();
        let mut l = [0u64; 4];
        for i in 0..4 {
            l[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        }
        Fr(mont_mul(&l, &R2))
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        let mut a = [0u8; 32];
        a.copy_from_slice(&b[..32]);
        Fr::from_u256(U256::from_le_bytes(a))
    }
}
impl SimdField for Fr {
    type Scalar = Fr;
    const PACK_SIZE: usize = 1;
    fn scale(&self, c: &Self) -> Self {
        *self * *c
    }
    fn pack_full(b: &Self) -> Self {
        *b
    }
    fn pack(b: &[Self]) -> Self {
        assert_eq!(b.len(), 1);
        b[0]
    }
    fn unpack(&self) -> Vec<Self> {
        vec![*self]
    }
}

// ---------------------------------------------------------------- extension fields (challenges)

/// B[x] / (x^N - W)
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Ext<B: Field, const N: usize, const W: u32>(pub [B; N]);
impl<B: Field, const N: usize, const W: u32> Default for Ext<B, N, W> {
    fn default() -> Self {
        Ext([B::ZERO; N])
    }
}
impl<B: Field, const N: usize, const W: u32> Ext<B, N, W> {
    fn f_add(&self, o: &Self) -> Self {
        let mut r = *self;
        for i in 0..N {
            r.0[i] += o.0[i];
        }
        r
    }
    fn f_sub(&self, o: &Self) -> Self {
        let mut r = *self;
        for i in 0..N {
            r.0[i] -= o.0[i];
        }
        r
    }
    fn f_neg(&self) -> Self {
        let mut r = *self;
        for i in 0..N {
            r.0[i] = -r.0[i];
        }
        r
    }
    fn f_mul(&self, o: &Self) -> Self {
        let w = B::from(W);
        let mut r = [B::ZERO; N];
        for i in 0..N {
            for j in 0..N {
                let t = self.0[i] * o.0[j];
                if i + j < N {
                    r[i + j] += t;
                } else {
                    r[i + j - N] += t * w;
                }
            }
        }
        Ext(r)
    }
}
field_ops!([B: Field, const N: usize, const W: u32] Ext<B, N, W>);
impl<B: Field, const N: usize, const W: u32> From<u32> for Ext<B, N, W> {
    fn from(x: u32) -> Self {
        let mut r = [B::ZERO; N];
        r[0] = B::from(x);
        Ext(r)
    }
}
impl<B: Field, const N: usize, const W: u32> ExpSerde for Ext<B, N, W> {
    fn serialize_into<Wr: Write>(&self, w: Wr) -> SerdeResult<()> {
        self.0.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(Ext(<[B; N]>::deserialize_from(r)?))
    }
}
impl<B: Field, const N: usize, const W: u32> Field for Ext<B, N, W> {
    const NAME: &'static str = "extension field";
    const SIZE: usize = B::SIZE * N;
    const FIELD_SIZE: usize = B::FIELD_SIZE * N;
    const ZERO: Self = Ext([B::ZERO; N]);
    const ONE: Self = {
        let mut r = [B::ZERO; N];
        r[0] = B::ONE;
        Ext(r)
    };
    const MODULUS: U256 = B::MODULUS;
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        let mut r = Self::ZERO;
        for x in r.0.iter_mut() {
            *x = B::random_unsafe(&mut rng);
        }
        r
    }
    fn inv(&self) -> Option<Self> {
        unimplemented!("not needed by the stand-in")
    }
    fn to_u256(&self) -> U256 {
        self.0[0].to_u256()
    }
    fn from_u256(v: U256) -> Self {
        let mut r = [B::ZERO; N];
        r[0] = B::from_u256(v);
        Ext(r)
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        let mut r = Self::ZERO;
        for i in 0..N {
            r.0[i] = B::from_uniform_bytes(&b[16 * i..16 * i + 16]);
        }
        r
    }
}

/// how a challenge field embeds the circuit field
pub trait ExtensionField: Field {
    type BaseField: Field;
    fn embed(b: &Self::BaseField) -> Self;
}
impl ExtensionField for Fr {
    type BaseField = Fr;
    fn embed(b: &Fr) -> Fr {
        *b
    }
}
impl<B: Field, const N: usize, const W: u32> ExtensionField for Ext<B, N, W> {
    type BaseField = B;
    fn embed(b: &B) -> Self {
        let mut r = [B::ZERO; N];
        r[0] = *b;
        Ext(r)
    }
}
