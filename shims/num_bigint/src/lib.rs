//! Big integers with the interface of num-bigint that circuit-std-rs and rsa_circuit use.
use num_traits::{Num, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ParseBigIntError(&'static str);
impl fmt::Display for ParseBigIntError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for ParseBigIntError {}

/// little endian 32-bit digits without leading zeroes
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct BigUint {
    d: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct BigInt {
    neg: bool,
    m: BigUint,
}

impl BigUint {
    pub const ZERO: Self = BigUint { d: vec![] };
    fn norm(mut d: Vec<u32>) -> Self {
        while d.last() == Some(&0) {
            d.pop();
        }
        BigUint { d }
    }
    pub fn bits(&self) -> u64 {
        match self.d.last() {
            None => 0,
            Some(x) => self.d.len() as u64 * 32 - x.leading_zeros() as u64,
        }
    }
    pub fn bit(&self, i: u64) -> bool {
        self.d.get((i / 32) as usize).map_or(false, |x| x >> (i % 32) & 1 == 1)
    }
    pub fn to_u64_digits(&self) -> Vec<u64> {
        self.d.chunks(2).map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32).collect()
    }
    pub fn to_u32_digits(&self) -> Vec<u32> {
        self.d.clone()
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        let mut r: Vec<u8> = self.d.iter().flat_map(|x| x.to_le_bytes()).collect();
        while r.len() > 1 && r.last() == Some(&0) {
            r.pop();
        }
        if r.is_empty() {
            r.push(0)
        }
        r
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        let mut r = self.to_bytes_le();
        r.reverse();
        r
    }
    pub fn from_bytes_le(b: &[u8]) -> Self {
        Self::norm(
            b.chunks(4)
                .map(|c| c.iter().rev().fold(0u32, |a, x| a << 8 | *x as u32))
                .collect(),
        )
    }
    pub fn from_bytes_be(b: &[u8]) -> Self {
        let v: Vec<u8> = b.iter().rev().copied().collect();
        Self::from_bytes_le(&v)
    }
    pub fn new(digits: Vec<u32>) -> Self {
        Self::norm(digits)
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<Self> {
        let s = std::str::from_utf8(b).ok()?;
        <Self as Num>::from_str_radix(s, radix).ok()
    }
    fn add_(&self, o: &Self) -> Self {
        let n = self.d.len().max(o.d.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            c += *self.d.get(i).unwrap_or(&0) as u64 + *o.d.get(i).unwrap_or(&0) as u64;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        Self::norm(r)
    }
    fn sub_(&self, o: &Self) -> Self {
        assert!(*self >= *o, "Cannot subtract b from a because b is larger than a.");
        let mut r = Vec::with_capacity(self.d.len());
        let mut c = 0i64;
        for i in 0..self.d.len() {
            c += self.d[i] as i64 - *o.d.get(i).unwrap_or(&0) as i64;
            r.push(c as u32);
            c >>= 32;
        }
        Self::norm(r)
    }
    fn mul_(&self, o: &Self) -> Self {
        let mut r = vec![0u32; self.d.len() + o.d.len() + 1];
        for i in 0..self.d.len() {
            let mut c = 0u64;
            for j in 0..o.d.len() {
                c += r[i + j] as u64 + self.d[i] as u64 * o.d[j] as u64;
                r[i + j] = c as u32;
                c >>= 32;
            }
            r[i + o.d.len()] = c as u32;
        }
        Self::norm(r)
    }
    fn shl_(&self, n: u64) -> Self {
        let (w, b) = ((n / 32) as usize, n % 32);
        let mut r = vec![0u32; w];
        let mut c = 0u64;
        for x in &self.d {
            c |= (*x as u64) << b;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        Self::norm(r)
    }
    fn shr_(&self, n: u64) -> Self {
        let (w, b) = ((n / 32) as usize, n % 32);
        let mut r = vec![];
        for i in w..self.d.len() {
            let x = self.d[i] as u64 | (*self.d.get(i + 1).unwrap_or(&0) as u64) << 32;
            r.push((x >> b) as u32);
        }
        Self::norm(r)
    }
    fn divmod_small(&self, o: u32) -> (Self, u32) {
        let mut r = 0u64;
        let mut q = vec![0; self.d.len()];
        for i in (0..self.d.len()).rev() {
            r = r << 32 | self.d[i] as u64;
            q[i] = (r / o as u64) as u32;
            r %= o as u64;
        }
        (Self::norm(q), r as u32)
    }
    /// Knuth's algorithm D
    pub fn divmod(&self, o: &Self) -> (Self, Self) {
        assert!(!o.d.is_empty(), "attempt to divide by zero");
        if self < o {
            return (Self::ZERO, self.clone());
        }
        if o.d.len() == 1 {
            let (q, r) = self.divmod_small(o.d[0]);
            return (q, BigUint::from(r));
        }
        let s = o.d[o.d.len() - 1].leading_zeros() as u64;
        let v = o.shl_(s).d;
        let n = v.len();
        let mut u = self.shl_(s).d;
        while u.len() <= self.d.len() {
            u.push(0)
        }
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        for j in (0..=m).rev() {
            let num = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >> 32 != 0 || qh * v[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >> 32 != 0 {
                    break;
                }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                carry += qh * v[i] as u64;
                borrow += u[i + j] as i64 - (carry as u32) as i64;
                u[i + j] = borrow as u32;
                borrow >>= 32;
                carry >>= 32;
            }
            borrow += u[j + n] as i64 - carry as i64;
            u[j + n] = borrow as u32;
            borrow >>= 32;
            if borrow < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    c += u[i + j] as u64 + v[i] as u64;
                    u[i + j] = c as u32;
                    c >>= 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        (Self::norm(q), Self::norm(u).shr_(s))
    }
    pub fn modpow(&self, e: &Self, m: &Self) -> Self {
        let mut r = BigUint::from(1u32).divmod(m).1;
        let b = self.divmod(m).1;
        for i in (0..e.bits()).rev() {
            r = r.mul_(&r).divmod(m).1;
            if e.bit(i) {
                r = r.mul_(&b).divmod(m).1;
            }
        }
        r
    }
    pub fn pow(&self, e: u32) -> Self {
        let mut r = BigUint::from(1u32);
        for i in (0..32).rev() {
            r = r.mul_(&r);
            if e >> i & 1 == 1 {
                r = r.mul_(self);
            }
        }
        r
    }
    pub fn modinv(&self, m: &Self) -> Option<Self> {
        BigInt::from(self.clone()).modinv(&BigInt::from(m.clone())).map(|x| x.m)
    }
    pub fn to_str_radix(&self, radix: u32) -> String {
        if self.d.is_empty() {
            return "0".into();
        }
        let mut s = vec![];
        let mut x = self.clone();
        // digits nine at a time for base ten
        let (chunk, cnt) = if radix == 10 { (1_000_000_000, 9) } else { (radix, 1) };
        while !x.d.is_empty() {
            let (q, mut r) = x.divmod_small(chunk);
            x = q;
            for _ in 0..cnt {
                s.push(std::char::from_digit(r % radix, radix).unwrap());
                r /= radix;
            }
        }
        while s.len() > 1 && s.last() == Some(&'0') {
            s.pop();
        }
        s.iter().rev().collect()
    }
}

impl BigInt {
    pub const ZERO: Self = BigInt { neg: false, m: BigUint::ZERO };
    fn mk(neg: bool, m: BigUint) -> Self {
        BigInt { neg: neg && !m.d.is_empty(), m }
    }
    pub fn bits(&self) -> u64 {
        self.m.bits()
    }
    pub fn sign(&self) -> Sign {
        if self.neg {
            Sign::Minus
        } else if self.m.d.is_empty() {
            Sign::NoSign
        } else {
            Sign::Plus
        }
    }
    pub fn magnitude(&self) -> &BigUint {
        &self.m
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        if self.neg {
            None
        } else {
            Some(self.m.clone())
        }
    }
    pub fn to_u64_digits(&self) -> (Sign, Vec<u64>) {
        (self.sign(), self.m.to_u64_digits())
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        (self.sign(), self.m.to_bytes_be())
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        (self.sign(), self.m.to_bytes_le())
    }
    pub fn from_bytes_be(s: Sign, b: &[u8]) -> Self {
        Self::mk(s == Sign::Minus, BigUint::from_bytes_be(b))
    }
    pub fn from_bytes_le(s: Sign, b: &[u8]) -> Self {
        Self::mk(s == Sign::Minus, BigUint::from_bytes_le(b))
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<Self> {
        let s = std::str::from_utf8(b).ok()?;
        <Self as Num>::from_str_radix(s, radix).ok()
    }
    pub fn pow(&self, e: u32) -> Self {
        Self::mk(self.neg && e & 1 == 1, self.m.pow(e))
    }
    fn floor_mod(&self, m: &Self) -> Self {
        let r = self.clone() % m;
        if !r.is_zero() && r.neg != m.neg {
            r + m
        } else {
            r
        }
    }
    pub fn modpow(&self, e: &Self, m: &Self) -> Self {
        assert!(!e.neg && !m.neg);
        Self::mk(false, self.floor_mod(m).m.modpow(&e.m, &m.m))
    }
    pub fn modinv(&self, m: &Self) -> Option<Self> {
        let (mut r0, mut r1) = (m.clone(), self.floor_mod(m));
        let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
        while !r1.is_zero() {
            let q = &r0 / &r1;
            let r2 = &r0 - &q * &r1;
            r0 = r1;
            r1 = r2;
            let t2 = &t0 - &q * &t1;
            t0 = t1;
            t1 = t2;
        }
        if r0.abs().is_one() {
            Some(t0.floor_mod(m))
        } else {
            None
        }
    }
    fn add_(&self, o: &Self) -> Self {
        if self.neg == o.neg {
            Self::mk(self.neg, self.m.add_(&o.m))
        } else if self.m >= o.m {
            Self::mk(self.neg, self.m.sub_(&o.m))
        } else {
            Self::mk(o.neg, o.m.sub_(&self.m))
        }
    }
    fn sub_(&self, o: &Self) -> Self {
        self.add_(&Self::mk(!o.neg, o.m.clone()))
    }
    fn mul_(&self, o: &Self) -> Self {
        Self::mk(self.neg != o.neg, self.m.mul_(&o.m))
    }
    fn shl_(&self, n: u64) -> Self {
        Self::mk(self.neg, self.m.shl_(n))
    }
    fn shr_(&self, n: u64) -> Self {
        let q = Self::mk(self.neg, self.m.shr_(n));
        // rounds towards negative infinity
        if self.neg && q.m.shl_(n) != self.m {
            q.sub_(&BigInt::one())
        } else {
            q
        }
    }
    /// two's complement, for the bit operations
    fn bitand_(&self, o: &Self) -> Self {
        if !self.neg && !o.neg {
            let n = self.m.d.len().min(o.m.d.len());
            return Self::mk(
                false,
                BigUint::norm((0..n).map(|i| self.m.d[i] & o.m.d[i]).collect()),
            );
        }
        let n = self.m.bits().max(o.m.bits()) + 1;
        let md = BigInt::one().shl_(n);
        let w = |x: &BigInt| if x.neg { x.add_(&md) } else { x.clone() };
        let r = w(self).bitand_(&w(o));
        if self.neg && o.neg {
            r.sub_(&md)
        } else {
            r
        }
    }
}

impl Ord for BigUint {
    fn cmp(&self, o: &Self) -> Ordering {
        self.d.len().cmp(&o.d.len()).then_with(|| self.d.iter().rev().cmp(o.d.iter().rev()))
    }
}
impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, false) => self.m.cmp(&o.m),
            (true, true) => o.m.cmp(&self.m),
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
        }
    }
}
impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

macro_rules! froms {
    ($($u:ty)*; $($i:ty)*) => {
        $(impl From<$u> for BigUint {
            fn from(x: $u) -> Self {
                let x = x as u128;
                BigUint::norm((0..4).map(|i| (x >> (32 * i)) as u32).collect())
            }
        }
        impl From<$u> for BigInt {
            fn from(x: $u) -> Self { BigInt::mk(false, BigUint::from(x)) }
        })*
        $(impl From<$i> for BigInt {
            fn from(x: $i) -> Self { BigInt::mk(x < 0, BigUint::from((x as i128).unsigned_abs())) }
        })*
    };
}
froms!(u8 u16 u32 u64 usize u128; i8 i16 i32 i64 isize i128);
impl From<bool> for BigInt {
    fn from(x: bool) -> Self {
        BigInt::from(x as u8)
    }
}
impl From<bool> for BigUint {
    fn from(x: bool) -> Self {
        BigUint::from(x as u8)
    }
}
impl From<BigUint> for BigInt {
    fn from(m: BigUint) -> Self {
        BigInt::mk(false, m)
    }
}

impl BigUint {
    fn div_(&self, o: &Self) -> Self {
        self.divmod(o).0
    }
    fn rem_(&self, o: &Self) -> Self {
        self.divmod(o).1
    }
    fn bitand_(&self, o: &Self) -> Self {
        let n = self.d.len().min(o.d.len());
        BigUint::norm((0..n).map(|i| self.d[i] & o.d[i]).collect())
    }
    fn bitor_(&self, o: &Self) -> Self {
        let n = self.d.len().max(o.d.len());
        BigUint::norm(
            (0..n).map(|i| self.d.get(i).unwrap_or(&0) | o.d.get(i).unwrap_or(&0)).collect(),
        )
    }
}
impl BigInt {
    fn div_(&self, o: &Self) -> Self {
        Self::mk(self.neg != o.neg, self.m.div_(&o.m))
    }
    fn rem_(&self, o: &Self) -> Self {
        Self::mk(self.neg, self.m.rem_(&o.m))
    }
}

macro_rules! op {
    ($t:ty, $tr:ident, $f:ident, $tra:ident, $fa:ident, $imp:ident) => {
        impl $tr<&$t> for &$t {
            type Output = $t;
            fn $f(self, o: &$t) -> $t {
                self.$imp(o)
            }
        }
        impl $tr<$t> for &$t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                self.$imp(&o)
            }
        }
        impl $tr<&$t> for $t {
            type Output = $t;
            fn $f(self, o: &$t) -> $t {
                self.$imp(o)
            }
        }
        impl $tr<$t> for $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                self.$imp(&o)
            }
        }
        impl $tra<&$t> for $t {
            fn $fa(&mut self, o: &$t) {
                *self = self.$imp(o)
            }
        }
        impl $tra<$t> for $t {
            fn $fa(&mut self, o: $t) {
                *self = self.$imp(&o)
            }
        }
    };
}
macro_rules! prim {
    ($t:ty, $tr:ident, $f:ident, $tra:ident, $fa:ident, $imp:ident; $($p:ty)*) => {
        $(impl $tr<$p> for $t {
            type Output = $t;
            fn $f(self, o: $p) -> $t { self.$imp(&<$t>::from(o)) }
        }
        impl $tr<$p> for &$t {
            type Output = $t;
            fn $f(self, o: $p) -> $t { self.$imp(&<$t>::from(o)) }
        }
        impl $tra<$p> for $t {
            fn $fa(&mut self, o: $p) { *self = self.$imp(&<$t>::from(o)) }
        })*
    };
}
macro_rules! shift {
    ($t:ty; $($p:ty)*) => {
        $(impl Shl<$p> for $t {
            type Output = $t;
            fn shl(self, n: $p) -> $t { self.shl_(n as u64) }
        }
        impl Shl<$p> for &$t {
            type Output = $t;
            fn shl(self, n: $p) -> $t { self.shl_(n as u64) }
        }
        impl Shr<$p> for $t {
            type Output = $t;
            fn shr(self, n: $p) -> $t { self.shr_(n as u64) }
        }
        impl Shr<$p> for &$t {
            type Output = $t;
            fn shr(self, n: $p) -> $t { self.shr_(n as u64) }
        }
        impl ShlAssign<$p> for $t {
            fn shl_assign(&mut self, n: $p) { *self = self.shl_(n as u64) }
        }
        impl ShrAssign<$p> for $t {
            fn shr_assign(&mut self, n: $p) { *self = self.shr_(n as u64) }
        })*
    };
}
macro_rules! all {
    ($t:ty; $($p:ty)*) => {
        op!($t, Add, add, AddAssign, add_assign, add_);
        op!($t, Sub, sub, SubAssign, sub_assign, sub_);
        op!($t, Mul, mul, MulAssign, mul_assign, mul_);
        op!($t, Div, div, DivAssign, div_assign, div_);
        op!($t, Rem, rem, RemAssign, rem_assign, rem_);
        op!($t, BitAnd, bitand, BitAndAssign, bitand_assign, bitand_);
        prim!($t, Add, add, AddAssign, add_assign, add_; $($p)*);
        prim!($t, Sub, sub, SubAssign, sub_assign, sub_; $($p)*);
        prim!($t, Mul, mul, MulAssign, mul_assign, mul_; $($p)*);
        prim!($t, Div, div, DivAssign, div_assign, div_; $($p)*);
        prim!($t, Rem, rem, RemAssign, rem_assign, rem_; $($p)*);
        shift!($t; u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    };
}
all!(BigUint; u8 u16 u32 u64 usize u128);
all!(BigInt; u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128);
op!(BigUint, BitOr, bitor, BitOrAssign, bitor_assign, bitor_);

impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::mk(!self.neg, self.m)
    }
}
impl Neg for &BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::mk(!self.neg, self.m.clone())
    }
}
macro_rules! num {
    ($t:ty) => {
        impl Zero for $t {
            fn zero() -> Self {
                <$t>::ZERO
            }
            fn is_zero(&self) -> bool {
                *self == <$t>::ZERO
            }
        }
        impl One for $t {
            fn one() -> Self {
                <$t>::from(1u32)
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fmt::Display::fmt(self, f)
            }
        }
        impl FromStr for $t {
            type Err = ParseBigIntError;
            fn from_str(s: &str) -> Result<Self, ParseBigIntError> {
                <$t as Num>::from_str_radix(s, 10)
            }
        }
        impl std::iter::Sum for $t {
            fn sum<I: Iterator<Item = $t>>(i: I) -> $t {
                i.fold(<$t>::ZERO, |a, b| a + b)
            }
        }
    };
}
num!(BigUint);
num!(BigInt);
impl fmt::Display for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad_integral(true, "", &self.to_str_radix(10))
    }
}
impl fmt::LowerHex for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad_integral(true, "0x", &self.to_str_radix(16))
    }
}
impl fmt::Display for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad_integral(!self.neg, "", &self.m.to_str_radix(10))
    }
}
impl Num for BigUint {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigIntError> {
        let s = s.strip_prefix('+').unwrap_or(s);
        if s.is_empty() {
            return Err(ParseBigIntError("cannot parse integer from empty string"));
        }
        let mut d: Vec<u32> = vec![];
        for c in s.chars() {
            if c == '_' {
                continue;
            }
            let mut k =
                c.to_digit(radix).ok_or(ParseBigIntError("invalid digit found in string"))? as u64;
            for x in d.iter_mut() {
                k += *x as u64 * radix as u64;
                *x = k as u32;
                k >>= 32;
            }
            if k > 0 {
                d.push(k as u32)
            }
        }
        Ok(Self::norm(d))
    }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigIntError> {
        match s.strip_prefix('-') {
            Some(t) => Ok(Self::mk(true, BigUint::from_str_radix(t, radix)?)),
            None => Ok(Self::mk(false, BigUint::from_str_radix(s, radix)?)),
        }
    }
}
impl Signed for BigInt {
    fn abs(&self) -> Self {
        Self::mk(false, self.m.clone())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if self <= o {
            Self::ZERO
        } else {
            self - o
        }
    }
    fn signum(&self) -> Self {
        Self::mk(self.neg, BigUint::from((!self.m.d.is_empty()) as u8))
    }
    fn is_positive(&self) -> bool {
        !self.neg && !self.m.d.is_empty()
    }
    fn is_negative(&self) -> bool {
        self.neg
    }
}
impl ToPrimitive for BigUint {
    fn to_i64(&self) -> Option<i64> {
        self.to_u64().and_then(|x| i64::try_from(x).ok())
    }
    fn to_u64(&self) -> Option<u64> {
        self.to_u128().and_then(|x| u64::try_from(x).ok())
    }
    fn to_u128(&self) -> Option<u128> {
        if self.d.len() > 4 {
            return None;
        }
        Some(self.d.iter().rev().fold(0u128, |a, x| a << 32 | *x as u128))
    }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        let x = self.m.to_u128()? as i128;
        i64::try_from(if self.neg { -x } else { x }).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        if self.neg {
            None
        } else {
            self.m.to_u64()
        }
    }
    fn to_u128(&self) -> Option<u128> {
        if self.neg {
            None
        } else {
            self.m.to_u128()
        }
    }
}
