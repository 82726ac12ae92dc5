//! Generators of intermediate circuits and reference evaluators, independent of the compiler's own.
use arith::Field as _;
use ethnum::U256;
use expander_compiler::circuit::config::{CircuitField, Config};
use expander_compiler::hints::registry::HintCaller;
use expander_compiler::utils::error::Error;
use pbt::Gen;

pub mod refeval;
pub mod srcgen;
pub mod destgen;
pub mod lcgen;

pub type Fe<C> = CircuitField<C>;

pub fn modulus<C: Config>() -> U256 {
    Fe::<C>::MODULUS
}
/// Number of bits of the modulus.
pub fn field_bits<C: Config>() -> usize {
    256 - modulus::<C>().leading_zeros() as usize
}
pub fn is_gf2<C: Config>() -> bool {
    modulus::<C>() == U256::from(2u32)
}
pub fn fu<C: Config>(x: u64) -> Fe<C> {
    Fe::<C>::from_u256(U256::from(x) % modulus::<C>())
}
pub fn one<C: Config>() -> Fe<C> {
    fu::<C>(1)
}
pub fn zero<C: Config>() -> Fe<C> {
    fu::<C>(0)
}
pub fn show<C: Config>(x: &Fe<C>) -> String {
    let v = x.to_u256();
    let p = modulus::<C>();
    if v > U256::from(100u32) && p - v < U256::from(1000u32) {
        format!("-{}", p - v)
    } else {
        format!("{v}")
    }
}
pub fn show_all<C: Config>(xs: &[Fe<C>]) -> String {
    format!("[{}]", xs.iter().map(|x| show::<C>(x)).collect::<Vec<_>>().join(", "))
}

/// A field element: boundary values are likely.
pub fn fe<C: Config>(g: &mut Gen) -> Fe<C> {
    let p = modulus::<C>();
    match g.weighted(&[3, 3, 3, 2, 2, 4]) {
        0 => zero::<C>(),
        1 => one::<C>(),
        2 => fu::<C>(2 + g.below(14) as u64),
        3 => Fe::<C>::from_u256((p - U256::from(1 + g.below(if is_gf2::<C>() { 1 } else { 3 }) as u32)) % p),
        4 => {
            // around half the modulus and powers of two
            let k = g.below(field_bits::<C>());
            let b = (U256::from(1u32) << k as u32) % p;
            let d = U256::from(g.below(3) as u32);
            Fe::<C>::from_u256((b + p + d - U256::from(1u32)) % p)
        }
        _ => rand_fe::<C>(g),
    }
}
/// Uniform.
pub fn rand_fe<C: Config>(g: &mut Gen) -> Fe<C> {
    let mut v = U256::ZERO;
    for _ in 0..(field_bits::<C>() + 63) / 64 {
        v = (v << 64u32) | U256::from(g.u64());
    }
    Fe::<C>::from_u256(v % modulus::<C>())
}
pub fn fe_nonzero<C: Config>(g: &mut Gen) -> Fe<C> {
    let x = fe::<C>(g);
    if x.is_zero() {
        one::<C>()
    } else {
        x
    }
}

/// Deterministic stream of uniform field elements for the verifier's randomness.
pub struct Rnd(pub u64);
impl Rnd {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn fe<C: Config>(&mut self) -> Fe<C> {
        let mut v = U256::ZERO;
        for _ in 0..4 {
            v = (v << 64u32) | U256::from(self.u64());
        }
        Fe::<C>::from_u256(v % modulus::<C>())
    }
}

/// User hints 1..=NUM_HINTS; each is a fixed function of its id, inputs and output index.
pub const NUM_HINTS: usize = 6;
/// This hint fails where its first input is zero.
pub const FAILING_HINT: usize = 77;

pub fn user_hint<C: Config>(id: usize, x: &[Fe<C>], n: usize) -> Result<Vec<Fe<C>>, String> {
    let mut out = Vec::with_capacity(n);
    for j in 0..n {
        let jj = fu::<C>(j as u64 + 1);
        out.push(match id {
            // position-dependent weighted sum
            1 => x.iter().enumerate().fold(jj, |a, (i, v)| a + *v * fu::<C>((i + 2) as u64)),
            // running products
            2 => x.iter().enumerate().fold(one::<C>(), |a, (i, v)| a * (*v + fu::<C>((i + j) as u64))),
            // inverse or zero
            3 => {
                let v = x[j % x.len()];
                v.inv().unwrap_or(zero::<C>())
            }
            // bit j of the integer value of the first input
            4 => {
                let v = x[0].to_u256();
                if j < 256 {
                    Fe::<C>::from_u256((v >> j as u32) & U256::from(1u32))
                } else {
                    zero::<C>()
                }
            }
            // 1 where neighbours are equal
            5 => fu::<C>((x[j % x.len()] == x[(j + 1) % x.len()]) as u64),
            // reversal
            6 => x[x.len() - 1 - j % x.len()] + jj - one::<C>(),
            FAILING_HINT if !x[0].is_zero() => x[0] + jj,
            _ => return Err(format!("hint {id} fails")),
        });
    }
    Ok(out)
}

/// The hint functions given to the code under test.
pub struct Hints<C: Config>(pub std::marker::PhantomData<C>);
impl<C: Config> Hints<C> {
    pub fn new() -> Self {
        Hints(std::marker::PhantomData)
    }
}
unsafe impl<C: Config> Sync for Hints<C> {}
impl<C: Config> HintCaller<Fe<C>> for Hints<C> {
    fn call(&self, id: usize, args: &[Fe<C>], n: usize) -> Result<Vec<Fe<C>>, Error> {
        user_hint::<C>(id, args, n).map_err(Error::UserError)
    }
}

/// Integer reference of Circom's shifts: k above p/2 is the opposite shift by p-k; left shifts are
/// cut to the width of the modulus.
pub fn shift(p: U256, x: U256, k: U256, left: bool) -> U256 {
    let bits = 256 - p.leading_zeros();
    let half = p / U256::from(2u32);
    let (k, left) = if k > half { (p - k, !left) } else { (k, left) };
    if k >= U256::from(256u32) {
        return U256::ZERO;
    }
    let k = k.as_u32();
    if left {
        let m = if bits >= 256 { U256::MAX } else { (U256::from(1u32) << bits) - U256::from(1u32) };
        (x << k) & m
    } else {
        x >> k
    }
}
