//! Fq, Fq2 = Fq[u]/(u^2+1), Fq6 = Fq2[v]/(v^3-(u+1)), Fq12 = Fq6[w]/(w^2-v)
use ark_ff::Field;
use num_bigint::BigUint;
use num_traits::{Num, One, Zero};
use std::fmt;
use std::ops::*;

const P: [u64; 6] = [
    0xb9feffffffffaaab, 0x1eabfffeb153ffff, 0x6730d2a0f6b0f624, 0x64774b84f38512bf,
    0x4b1ba7b6434bacd7, 0x1a0111ea397fe69a,
];
const INV: u64 = {
    // -P^-1 mod 2^64
    let mut x = 1u64;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2u64.wrapping_sub(P[0].wrapping_mul(x)));
        i += 1;
    }
    x.wrapping_neg()
};

/// Montgomery form
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Fq([u64; 6]);

fn geq(a: &[u64; 6]) -> bool {
    for i in (0..6).rev() {
        if a[i] != P[i] {
            return a[i] > P[i];
        }
    }
    true
}
fn subp(a: &mut [u64; 6]) {
    let mut b = 0i128;
    for i in 0..6 {
        b += a[i] as i128 - P[i] as i128;
        a[i] = b as u64;
        b >>= 64;
    }
}
fn mont(a: &[u64; 6], b: &[u64; 6]) -> [u64; 6] {
    let mut t = [0u64; 8];
    for i in 0..6 {
        let mut c = 0u128;
        for j in 0..6 {
            c += t[j] as u128 + a[i] as u128 * b[j] as u128;
            t[j] = c as u64;
            c >>= 64;
        }
        c += t[6] as u128;
        t[6] = c as u64;
        t[7] = (c >> 64) as u64;
        let m = t[0].wrapping_mul(INV);
        let mut c = (t[0] as u128 + m as u128 * P[0] as u128) >> 64;
        for j in 1..6 {
            c += t[j] as u128 + m as u128 * P[j] as u128;
            t[j - 1] = c as u64;
            c >>= 64;
        }
        c += t[6] as u128;
        t[5] = c as u64;
        t[6] = t[7] + (c >> 64) as u64;
    }
    let mut r: [u64; 6] = t[..6].try_into().unwrap();
    if geq(&r) {
        subp(&mut r);
    }
    r
}

pub fn modulus() -> BigUint {
    BigUint::from_str_radix(
        "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab",
        16,
    )
    .unwrap()
}
impl From<BigUint> for Fq {
    fn from(x: BigUint) -> Self {
        let y = (x << 384u32) % modulus();
        let d = y.to_u64_digits();
        let mut r = [0; 6];
        r[..d.len()].copy_from_slice(&d);
        Fq(r)
    }
}
impl Fq {
    pub fn to_biguint(&self) -> BigUint {
        let m = mont(&self.0, &[1, 0, 0, 0, 0, 0]);
        BigUint::new(m.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect())
    }
}
macro_rules! from {
    ($($t:ty)*) => { $(impl From<$t> for Fq { fn from(x: $t) -> Self { Fq::from(BigUint::from(x)) } })* };
}
from!(u8 u16 u32 u64 u128 bool);
impl From<Fq> for BigUint {
    fn from(x: Fq) -> BigUint {
        x.to_biguint()
    }
}
impl Default for Fq {
    fn default() -> Self {
        Fq([0; 6])
    }
}
impl fmt::Display for Fq {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.to_biguint())
    }
}
impl fmt::Debug for Fq {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.to_biguint())
    }
}
impl Fq {
    fn add_(&self, o: &Fq) -> Fq {
        let mut r = [0; 6];
        let mut c = 0u128;
        for i in 0..6 {
            c += self.0[i] as u128 + o.0[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        if geq(&r) {
            subp(&mut r);
        }
        Fq(r)
    }
    fn neg_(&self) -> Fq {
        if self.0 == [0; 6] {
            return *self;
        }
        let mut r = [0; 6];
        let mut b = 0i128;
        for i in 0..6 {
            b += P[i] as i128 - self.0[i] as i128;
            r[i] = b as u64;
            b >>= 64;
        }
        Fq(r)
    }
    fn mul_(&self, o: &Fq) -> Fq {
        Fq(mont(&self.0, &o.0))
    }
    fn zero_() -> Fq {
        Fq([0; 6])
    }
    fn one_() -> Fq {
        Fq::from(1u32)
    }
    fn inv_(&self) -> Option<Fq> {
        if self.0 == [0; 6] {
            return None;
        }
        Some(Field::pow(self, (modulus() - 2u32).to_u64_digits()))
    }
    fn sqrt_(&self) -> Option<Fq> {
        let r = Field::pow(self, ((modulus() + 1u32) >> 2u32).to_u64_digits());
        if r.mul_(&r) == *self {
            Some(r)
        } else {
            None
        }
    }
}
macro_rules! field {
    ($t:ty) => {
        impl Add<$t> for $t {
            type Output = $t;
            fn add(self, o: $t) -> $t {
                self.add_(&o)
            }
        }
        impl Sub<$t> for $t {
            type Output = $t;
            fn sub(self, o: $t) -> $t {
                self.add_(&o.neg_())
            }
        }
        impl Mul<$t> for $t {
            type Output = $t;
            fn mul(self, o: $t) -> $t {
                self.mul_(&o)
            }
        }
        impl Div<$t> for $t {
            type Output = $t;
            fn div(self, o: $t) -> $t {
                self.mul_(&o.inv_().expect("division by zero"))
            }
        }
        impl<'a> Add<&'a $t> for $t {
            type Output = $t;
            fn add(self, o: &$t) -> $t {
                self.add_(o)
            }
        }
        impl<'a> Sub<&'a $t> for $t {
            type Output = $t;
            fn sub(self, o: &$t) -> $t {
                self.add_(&o.neg_())
            }
        }
        impl<'a> Mul<&'a $t> for $t {
            type Output = $t;
            fn mul(self, o: &$t) -> $t {
                self.mul_(o)
            }
        }
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                self.neg_()
            }
        }
        impl AddAssign for $t {
            fn add_assign(&mut self, o: $t) {
                *self = self.add_(&o)
            }
        }
        impl SubAssign for $t {
            fn sub_assign(&mut self, o: $t) {
                *self = self.add_(&o.neg_())
            }
        }
        impl MulAssign for $t {
            fn mul_assign(&mut self, o: $t) {
                *self = self.mul_(&o)
            }
        }
        impl DivAssign for $t {
            fn div_assign(&mut self, o: $t) {
                *self = *self / o
            }
        }
        impl Zero for $t {
            fn zero() -> Self {
                <$t>::zero_()
            }
            fn is_zero(&self) -> bool {
                *self == <$t>::zero_()
            }
        }
        impl One for $t {
            fn one() -> Self {
                <$t>::one_()
            }
        }
        impl Field for $t {
            fn inverse(&self) -> Option<Self> {
                self.inv_()
            }
            fn sqrt(&self) -> Option<Self> {
                self.sqrt_()
            }
        }
    };
}
field!(Fq);

#[derive(Clone, Copy, PartialEq, Eq, Default, Debug, Hash)]
pub struct Fq2 {
    pub c0: Fq,
    pub c1: Fq,
}
impl Fq2 {
    pub fn new(c0: Fq, c1: Fq) -> Self {
        Fq2 { c0, c1 }
    }
    pub fn mul_assign_by_fp(&mut self, x: &Fq) {
        self.c0 *= *x;
        self.c1 *= *x;
    }
    fn zero_() -> Self {
        Self::default()
    }
    fn one_() -> Self {
        Fq2::new(Fq::one(), Fq::zero())
    }
    fn add_(&self, o: &Self) -> Self {
        Fq2::new(self.c0 + o.c0, self.c1 + o.c1)
    }
    fn neg_(&self) -> Self {
        Fq2::new(-self.c0, -self.c1)
    }
    fn mul_(&self, o: &Self) -> Self {
        Fq2::new(self.c0 * o.c0 - self.c1 * o.c1, self.c0 * o.c1 + self.c1 * o.c0)
    }
    fn inv_(&self) -> Option<Self> {
        let n = (self.c0 * self.c0 + self.c1 * self.c1).inv_()?;
        Some(Fq2::new(self.c0 * n, -self.c1 * n))
    }
    pub fn mul_nonresidue(&self) -> Self {
        Fq2::new(self.c0 - self.c1, self.c0 + self.c1)
    }
    fn sqrt_(&self) -> Option<Self> {
        if self.c1.is_zero() {
            return match self.c0.sqrt_() {
                Some(r) => Some(Fq2::new(r, Fq::zero())),
                None => Some(Fq2::new(Fq::zero(), (-self.c0).sqrt_()?)),
            };
        }
        let alpha = (self.c0 * self.c0 + self.c1 * self.c1).sqrt_()?;
        let half = Fq::from(2u32).inv_().unwrap();
        let mut delta = (self.c0 + alpha) * half;
        if delta.sqrt_().is_none() {
            delta -= alpha;
        }
        let c0 = delta.sqrt_()?;
        let r = Fq2::new(c0, self.c1 * half * c0.inv_()?);
        if r.mul_(&r) == *self {
            Some(r)
        } else {
            None
        }
    }
}
field!(Fq2);

#[derive(Clone, Copy, PartialEq, Eq, Default, Debug, Hash)]
pub struct Fq6 {
    pub c0: Fq2,
    pub c1: Fq2,
    pub c2: Fq2,
}
impl Fq6 {
    pub fn new(c0: Fq2, c1: Fq2, c2: Fq2) -> Self {
        Fq6 { c0, c1, c2 }
    }
    fn zero_() -> Self {
        Self::default()
    }
    fn one_() -> Self {
        Fq6::new(Fq2::one(), Fq2::zero(), Fq2::zero())
    }
    fn add_(&self, o: &Self) -> Self {
        Fq6::new(self.c0 + o.c0, self.c1 + o.c1, self.c2 + o.c2)
    }
    fn neg_(&self) -> Self {
        Fq6::new(-self.c0, -self.c1, -self.c2)
    }
    fn mul_(&self, o: &Self) -> Self {
        let (a, b) = (self, o);
        Fq6::new(
            a.c0 * b.c0 + (a.c1 * b.c2 + a.c2 * b.c1).mul_nonresidue(),
            a.c0 * b.c1 + a.c1 * b.c0 + (a.c2 * b.c2).mul_nonresidue(),
            a.c0 * b.c2 + a.c1 * b.c1 + a.c2 * b.c0,
        )
    }
    pub fn mul_nonresidue(&self) -> Self {
        Fq6::new(self.c2.mul_nonresidue(), self.c0, self.c1)
    }
    fn inv_(&self) -> Option<Self> {
        let (a, b, c) = (self.c0, self.c1, self.c2);
        let t0 = a * a - (b * c).mul_nonresidue();
        let t1 = (c * c).mul_nonresidue() - a * b;
        let t2 = b * b - a * c;
        let n = (a * t0 + (c * t1 + b * t2).mul_nonresidue()).inv_()?;
        Some(Fq6::new(t0 * n, t1 * n, t2 * n))
    }
    fn sqrt_(&self) -> Option<Self> {
        unimplemented!()
    }
}
field!(Fq6);

#[derive(Clone, Copy, PartialEq, Eq, Default, Debug, Hash)]
pub struct Fq12 {
    pub c0: Fq6,
    pub c1: Fq6,
}
impl Fq12 {
    pub fn new(c0: Fq6, c1: Fq6) -> Self {
        Fq12 { c0, c1 }
    }
    fn zero_() -> Self {
        Self::default()
    }
    fn one_() -> Self {
        Fq12::new(Fq6::one(), Fq6::zero())
    }
    fn add_(&self, o: &Self) -> Self {
        Fq12::new(self.c0 + o.c0, self.c1 + o.c1)
    }
    fn neg_(&self) -> Self {
        Fq12::new(-self.c0, -self.c1)
    }
    fn mul_(&self, o: &Self) -> Self {
        Fq12::new(
            self.c0 * o.c0 + (self.c1 * o.c1).mul_nonresidue(),
            self.c0 * o.c1 + self.c1 * o.c0,
        )
    }
    fn inv_(&self) -> Option<Self> {
        let n = (self.c0 * self.c0 - (self.c1 * self.c1).mul_nonresidue()).inv_()?;
        Some(Fq12::new(self.c0 * n, -(self.c1 * n)))
    }
    fn sqrt_(&self) -> Option<Self> {
        unimplemented!()
    }
}
field!(Fq12);
