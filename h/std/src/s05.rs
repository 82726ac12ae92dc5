//! S05: 120-bit and 2048-bit integers, in circuits and natively, and the RSA circuit made of them.
use crate::common::*;
use crate::ev::{run, Lie, Lies};
use arith::Field;
use circuit_std_rs::{accumulate_u120, byte_decomposition, U2048Variable, BN_TWO_TO_120, MASK120, N_LIMBS};
use ethnum::U256;
use expander_compiler::circuit::config::BN254Config;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::{Define, HintRegistry, RootAPI, Variable};
use num_bigint::BigUint;
use pbt::{ensure, ensure_eq, guarded, Ctx, Gen};

#[allow(dead_code, clippy::all)]
#[path = "/repo/rsa_circuit/src/native.rs"]
mod native;
#[allow(dead_code, unused_imports, clippy::all)]
#[path = "/repo/rsa_circuit/src/main.rs"]
mod rsa_main;
use native::RSAFieldElement as E;

type C = BN254Config;
type F = Fe<C>;
type L = [u128; N_LIMBS];

fn big(v: &[u128]) -> BigUint {
    v.iter().rev().fold(BigUint::from(0u32), |a, x| (a << 120u32) + BigUint::from(*x))
}
fn f(x: u128) -> F {
    F::from_u256(U256::new(x))
}
fn fu(x: F) -> u128 {
    let v = x.to_u256();
    if v >> 128 != U256::ZERO { u128::MAX } else { v.as_u128() }
}
fn limb(g: &mut Gen) -> u128 {
    match g.weighted(&[3, 2, 2, 2, 2]) {
        0 => u128::from_le_bytes(g.bytes(16).try_into().unwrap()) & MASK120,
        1 => 0,
        2 => MASK120 - g.below(2) as u128,
        3 => ((1u128 << g.below(121)) & MASK120).wrapping_sub(g.below(2) as u128) & MASK120,
        _ => g.below(4) as u128,
    }
}
/// 2048-bit numbers: dense, sparse, short, all ones.
fn num(g: &mut Gen) -> L {
    let n = match g.weighted(&[4, 1, 1, 2]) {
        0 => N_LIMBS,
        1 => 1,
        2 => N_LIMBS - 1,
        _ => g.below(N_LIMBS + 1),
    };
    let mut l = [0u128; N_LIMBS];
    let style = g.weighted(&[3, 2, 1, 1]);
    for x in l.iter_mut().take(n) {
        *x = match style {
            0 => limb(g),
            1 => u128::from_le_bytes(g.bytes(16).try_into().unwrap()) & MASK120,
            2 => MASK120,
            _ => if g.chance(1, 5) { limb(g) } else { 0 },
        };
    }
    l[N_LIMBS - 1] &= 0xff;
    l
}
fn limbs(mut x: BigUint) -> Option<L> {
    let mut l = [0u128; N_LIMBS];
    let m = BigUint::from(MASK120);
    for v in l.iter_mut() {
        let d = (&x & &m).to_u64_digits();
        *v = d.first().copied().unwrap_or(0) as u128 | (d.get(1).copied().unwrap_or(0) as u128) << 64;
        x >>= 120u32;
    }
    (x == BigUint::from(0u32)).then_some(l)
}
fn zero() -> BigUint {
    BigUint::from(0u32)
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Accumulate(usize),
    Bytes,
    Less,
    GreaterEq,
    Equal,
    HintGreaterEq,
    Add,
    Mul,
    MulFull,
}
impl Gadget<C> for Op {
    fn apply<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let t = b.constant(BN_TWO_TO_120);
        let n = |i: usize| U2048Variable::from_raw(x[i * N_LIMBS..(i + 1) * N_LIMBS].try_into().unwrap());
        match self {
            Op::Accumulate(_) => {
                let (r, c) = accumulate_u120(x, &t, b);
                vec![r, c]
            }
            Op::Bytes => {
                let s: Vec<Variable> = (0..32).map(|i| b.constant(F::from_u256((U256::ONE << (8 * i)) % F::MODULUS))).collect();
                byte_decomposition(&x[0], &s, b)
            }
            Op::Less => vec![n(0).assert_is_less_than(&n(1), b)],
            Op::GreaterEq => vec![n(0).assert_is_greater_eq(&n(1), b)],
            Op::Equal => vec![n(0).assert_is_equal(&n(1), b)],
            Op::HintGreaterEq => vec![n(0).unconstrained_greater_eq(&n(1), b)],
            Op::Add => {
                U2048Variable::assert_add(&n(0), &n(1), &n(2), &x[4 * N_LIMBS], &n(3), &t, b);
                vec![]
            }
            Op::Mul => {
                U2048Variable::assert_mul(&n(0), &n(1), &n(2), &n(3), &n(4), &t, b);
                vec![]
            }
            Op::MulFull => U2048Variable::mul_without_mod_reduction(&n(0), &n(1), &t, b),
        }
    }
}

pub fn case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.weighted(&[120, 120, 60, 60, 60, 60, 20, 1]) {
        0 => native_words(g, ctx),
        1 => native_numbers(g, ctx),
        2 => words(g, ctx),
        3 => compare(g, ctx),
        4 => add(g, ctx),
        5 => mul(g, ctx),
        6 => mul_full(g, ctx),
        _ => rsa(g, ctx),
    }
}

fn native_words(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("native words");
    let (a, b, c) = (limb(g), limb(g), limb(g));
    ctx.nontrivial(a != 0 && b != 0);
    ctx.describe(|| format!("native {a:x} {b:x} carry {c:x}"));
    let t = BigUint::from(1u32) << 120u32;
    let (s, k) = native::add_u120_with_carry(&a, &b, &c);
    ensure!(s <= MASK120, "sum {s:x} of {a:x}+{b:x}+{c:x} is too long");
    ensure_eq!(BigUint::from(s) + BigUint::from(k) * &t, BigUint::from(a) + BigUint::from(b) + BigUint::from(c), "{a:x}+{b:x}+{c:x}");
    let (p, k) = native::mul_u120_with_carry(&a, &b, &c);
    ensure!(p <= MASK120 && k <= MASK120, "product {p:x}, {k:x} of {a:x}*{b:x}+{c:x} is too long");
    ensure_eq!(BigUint::from(p) + BigUint::from(k) * &t, BigUint::from(a) * BigUint::from(b) + BigUint::from(c), "{a:x}*{b:x}+{c:x}");
    Ok(())
}
fn native_numbers(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let (a, b, mut n) = (num(g), num(g), num(g));
    if n == [0; N_LIMBS] {
        n[0] = 1;
    }
    let (ea, eb, en) = (E::new(a), E::new(b), E::new(n));
    let (ba, bb, bn) = (big(&a), big(&b), big(&n));
    ctx.nontrivial(ba != zero() && bb != zero());
    ctx.describe(|| format!("native {a:x?} {b:x?} mod {n:x?}"));
    match g.below(4) {
        0 => {
            ctx.tag("native conversions");
            ensure_eq!(ea.to_big_uint(), ba, "to_big_uint of {a:x?}");
            ensure_eq!(E::from_big_uint(ba.clone()).data, a, "from_big_uint of {ba:x}");
            ensure_eq!(BigUint::from(ea), ba, "BigUint::from {a:x?}");
            ensure_eq!(E::from(ba.clone()).data, a, "from of {ba:x}");
            let s = ea.to_string();
            ensure_eq!(BigUint::parse_bytes(s.as_bytes(), 16).unwrap(), ba, "to_string of {a:x?}");
            ensure_eq!(E::from_string(&s).data, a, "from_string of {s}");
            let v: [F; N_LIMBS] = ea.into();
            ensure!(v.iter().zip(&a).all(|(x, y)| *x == f(*y)), "as field elements: {v:?} for {a:x?}");
            let mut r = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(g.u64());
            let x = E::random(&mut r);
            ensure!(x.data.iter().all(|l| *l <= MASK120) && x.data[N_LIMBS - 1] <= 0xff, "random gives {:x?}", x.data);
            let too_long = guarded(|| E::from_big_uint((BigUint::from(1u32) << 2048u32) + &ba));
            ensure!(too_long.is_err(), "a number of 2049 bits is taken");
        }
        1 => {
            ctx.tag("native products");
            let p = &ba * &bb;
            if let Some(q) = limbs(&p / &bn).filter(|q| q[N_LIMBS - 1] <= 0xff) {
                let (r, k) = ea.slow_mul_mod(&eb, &en);
                ensure!(r.to_big_uint() < bn, "remainder not below the modulus");
                ensure_eq!(r.to_big_uint() + big(&k.data) * &bn, p, "slow_mul_mod");
                ensure_eq!(k.data, q, "quotient");
                let m = guarded(|| ea.mod_mul(&eb, &en))?;
                ensure_eq!(m.to_big_uint(), &p % &bn, "mod_mul of {a:x?} and {b:x?} mod {n:x?}");
                let (mut r, mut k, mut n) = (r.data, k.data, n);
                for _ in 0..g.below(3) {
                    let w: &mut L = [&mut r, &mut k, &mut n][g.below(3)];
                    alter(g, w);
                }
                let want = big(&r) + big(&k) * big(&n) == p;
                ctx.tag(if want { "accepted" } else { "refused" });
                let ok = guarded(|| E::assert_multiplication(&ea, &eb, &E::new(n), &E::new(k), &E::new(r))).is_ok();
                ensure_eq!(ok, want, "assert_multiplication of {a:x?} {b:x?} = {r:x?} + {k:x?} * {n:x?}");
            } else {
                ctx.tag("quotient too long");
            }
        }
        _ => {
            ctx.tag("native sums");
            let (mut r, k) = sum_result(g, &ba, &bb, &bn);
            if g.bool() {
                alter(g, &mut r);
            }
            let want = &ba + &bb == big(&r) + if k { bn.clone() } else { zero() };
            ctx.tag(if want { "accepted" } else { "refused" });
            let ok = guarded(|| E::assert_addition(&ea, &eb, &en, &k, &E::new(r))).is_ok();
            ensure_eq!(ok, want, "assert_addition of {a:x?} + {b:x?} = {r:x?} + {k} * {n:x?}");
        }
    }
    Ok(())
}
fn sum_result(g: &mut Gen, a: &BigUint, b: &BigUint, n: &BigUint) -> (L, bool) {
    let s = a + b;
    let k = s >= *n && !g.chance(1, 8);
    let r = if k { &s - n } else { s };
    (limbs(r).unwrap(), k)
}
/// One limb changed; the number may stay what it was.
fn alter(g: &mut Gen, l: &mut L) {
    let i = match g.weighted(&[3, 2, 1]) {
        0 => g.below(N_LIMBS),
        1 => N_LIMBS - 1,
        _ => 0,
    };
    let m = if i == N_LIMBS - 1 { 0xff } else { MASK120 };
    match g.weighted(&[2, 2, 2, 1]) {
        0 => l[i] = l[i].wrapping_add(1) & m,
        1 => l[i] = l[i].wrapping_sub(1) & m,
        2 => l[i] ^= 1 << g.below(if i == N_LIMBS - 1 { 8 } else { 120 }),
        _ => {
            let j = g.below(N_LIMBS - 1);
            if i < N_LIMBS - 1 {
                l.swap(i, j)
            } else {
                l[i] = 0
            }
        }
    }
}
fn ins(ns: &[&L]) -> Vec<F> {
    ns.iter().flat_map(|l| l.iter().map(|x| f(*x))).collect()
}
fn e2e_decide(op: &Op, x: &[F], claims: &[(Vec<F>, bool)]) -> Result<(), String> {
    let r = e2e::<C, _>(op, x, &claims.iter().map(|c| c.0.clone()).collect::<Vec<_>>(), HintRegistry::new)?;
    for ((c, want), got) in claims.iter().zip(r) {
        ensure!(got == *want, "compiled {op:?}: the claim {c:?} is {}", if got { "accepted" } else { "refused" });
    }
    Ok(())
}

fn words(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let compiled = g.chance(1, 40);
    ctx.tag_if(compiled, "compiled");
    if g.bool() {
        ctx.tag("accumulate");
        let x: Vec<u128> = (0..2 + g.below(8)).map(|_| limb(g)).collect();
        let s: BigUint = x.iter().fold(zero(), |a, b| a + BigUint::from(*b));
        let v: Vec<F> = x.iter().map(|a| f(*a)).collect();
        ctx.nontrivial(s != zero());
        ctx.describe(|| format!("accumulate {x:x?}"));
        let op = Op::Accumulate(x.len());
        let o = eval::<C, _>(&op, &v, None, Lies::new(), 1);
        ensure!(o.ok, "accumulating {x:x?} is refused: {}", o.why);
        let t = BigUint::from(1u32) << 120u32;
        ensure!(o.outs.len() == 2 && fu(o.outs[0]) <= MASK120 && BigUint::from(fu(o.outs[0])) + BigUint::from(fu(o.outs[1])) * &t == s, "accumulate {x:x?} gives {:?}", o.outs);
        // whatever the prover says, what is accepted adds up
        let lies: Lies = (0..2).filter_map(|i| g.bool().then(|| (i, lie(g)))).collect();
        let d = eval::<C, _>(&op, &v, None, lies.clone(), 1);
        let add_up = d.outs[0] + d.outs[1] * BN_TWO_TO_120 == v.iter().fold(F::ZERO, |a, b| a + *b);
        ensure!(!d.ok || add_up, "accumulate {x:x?}: {:?} is accepted on {lies:?}", d.outs);
        if compiled {
            let mut bad = o.outs.clone();
            bad[g.below(2)] += F::ONE;
            e2e_decide(&op, &v, &[(o.outs, true), (bad, false)])?;
        }
    } else {
        ctx.tag("bytes");
        let x = felt::<C>(g);
        ctx.nontrivial(x != F::ZERO);
        ctx.describe(|| format!("bytes of {x:?}"));
        let o = eval::<C, _>(&Op::Bytes, &[x], None, Lies::new(), 1);
        ensure!(o.ok, "bytes of {x:?}: refused: {}", o.why);
        let want: Vec<F> = x.to_u256().to_le_bytes().iter().map(|b| F::from(*b as u32)).collect();
        ensure_eq!(o.outs, want, "bytes of {x:?}");
        let n = o.free.len();
        let lies: Lies = (0..1 + g.below(2)).map(|_| (g.below(n), lie(g))).collect();
        let d = eval::<C, _>(&Op::Bytes, &[x], None, lies.clone(), 1);
        let s = d.outs.iter().rev().fold(F::ZERO, |a, b| a * F::from(256u32) + *b);
        ensure!(!d.ok || s == x, "bytes of {x:?}: {:?} is accepted on {lies:?}", d.outs);
        if compiled {
            let mut bad = want.clone();
            bad[g.below(32)] += F::ONE;
            e2e_decide(&Op::Bytes, &[x], &[(want, true), (bad, false)])?;
        }
    }
    Ok(())
}
fn lie(g: &mut Gen) -> Lie {
    match g.below(4) {
        0 => Lie::Add(U256::new(1 + g.below(3) as u128)),
        1 => Lie::Sub(U256::new(1 + g.below(3) as u128)),
        2 => Lie::Set(U256::new(limb(g))),
        _ => Lie::Flip,
    }
}
/// A number near another one.
fn near(g: &mut Gen, a: &L) -> L {
    let mut b = *a;
    match g.weighted(&[2, 3, 2, 2]) {
        0 => {}
        1 => alter(g, &mut b),
        2 => {
            alter(g, &mut b);
            alter(g, &mut b);
        }
        _ => b = num(g),
    }
    b
}
fn compare(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let a = num(g);
    let b = near(g, &a);
    let (ba, bb) = (big(&a), big(&b));
    let (op, want) = [(Op::Less, ba < bb), (Op::GreaterEq, ba >= bb), (Op::Equal, ba == bb), (Op::HintGreaterEq, ba >= bb)][g.below(4)].clone();
    ctx.tag(match op { Op::Less => "less", Op::GreaterEq => "greater or equal", Op::Equal => "equal", _ => "greater or equal, unconstrained" });
    ctx.tag(if want { "holds" } else { "does not hold" });
    ctx.nontrivial(ba != bb);
    ctx.describe(|| format!("{op:?} {a:x?} {b:x?}"));
    let x = ins(&[&a, &b]);
    let o = eval::<C, _>(&op, &x, None, Lies::new(), 1);
    ensure!(o.ok, "{op:?} {a:x?} {b:x?} is refused: {}", o.why);
    ensure_eq!(o.outs, [F::from(want as u32)], "{op:?} {a:x?} {b:x?}");
    if op == Op::Less || op == Op::GreaterEq {
        // an answer about one limb that is not a bit is refused
        let at: Vec<usize> = (0..o.free.len()).filter(|i| o.free[*i].kind == "unconstrained_lesser").collect();
        ensure!(at.is_empty() || !eval::<C, _>(&op, &x, None, [(at[g.below(at.len())], Lie::Set(U256::new(2 + g.below(3) as u128)))].into(), 1).ok, "{op:?} {a:x?} {b:x?}: an answer that is no bit is accepted");
    } else if op == Op::Equal {
        ensure!(o.free.is_empty(), "equality trusts the prover with {:?}", o.free[0].kind);
    }
    if g.chance(1, 60) {
        ctx.tag("compiled");
        e2e_decide(&op, &x, &[(vec![F::from(want as u32)], true), (vec![F::from(!want as u32)], false)])?;
    }
    Ok(())
}
fn add(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("assert_add");
    let mut n = num(g);
    let below = g.chance(3, 4);
    if n == [0; N_LIMBS] || (below && g.bool()) {
        n[N_LIMBS - 1] |= 0x80;
    }
    let bn = big(&n);
    let (mut a, mut b) = (num(g), num(g));
    if below {
        a = limbs(big(&a) % &bn).unwrap();
        b = limbs(big(&b) % &bn).unwrap();
    }
    if g.chance(1, 6) {
        // a sum that is just the modulus, or one less
        if let Some(x) = limbs(if big(&a) < bn { &bn - &big(&a) } else { zero() }) {
            b = x;
        }
    }
    let (mut r, mut k) = sum_result(g, &big(&a), &big(&b), &bn);
    let mut kf = None;
    match g.weighted(&[4, 3, 1, 1, 1]) {
        0 => {}
        1 => alter(g, &mut r),
        2 => k = !k,
        3 => {
            // the carry is not a bit
            let m = 2 + g.below(2) as u32;
            if let Some(d) = limbs(bn.clone() * BigUint::from(m)) {
                if big(&a) + big(&b) >= big(&d) {
                    r = limbs(big(&a) + big(&b) - big(&d)).unwrap();
                }
            }
            kf = Some(m);
        }
        _ => alter(g, &mut n),
    }
    let bn = big(&n);
    let want = kf.is_none() && big(&a) + big(&b) == big(&r) + if k { bn.clone() } else { zero() } && big(&r) < bn;
    ctx.tag(if want { "accepted" } else { "refused" });
    ctx.nontrivial(big(&a) != zero() && big(&b) != zero());
    ctx.describe(|| format!("{a:x?} + {b:x?} = {r:x?} + {k}/{kf:?} * {n:x?}"));
    let mut x = ins(&[&a, &b, &r, &n]);
    x.push(F::from(kf.unwrap_or(k as u32)));
    let o = eval::<C, _>(&Op::Add, &x, None, Lies::new(), 1);
    ensure!(o.ok == want, "assert_add {a:x?} + {b:x?} = {r:x?} + {k}/{kf:?} * {n:x?} is {} {}", if o.ok { "accepted" } else { "refused" }, o.why);
    // carries between limbs are bits whatever the prover says
    let at: Vec<usize> = (0..o.free.len()).filter(|i| o.free[*i].kind == "unconstrained_greater_eq").collect();
    if !at.is_empty() {
        let i = at[g.below(at.len())];
        ensure!(!eval::<C, _>(&Op::Add, &x, None, [(i, Lie::Set(U256::new(2 + g.below(9) as u128)))].into(), 1).ok, "assert_add: a carry that is no bit is accepted");
    }
    if g.chance(1, 60) {
        ctx.tag("compiled");
        e2e_decide(&Op::Add, &x, &[(vec![], want)])?;
    }
    Ok(())
}
fn mul(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("assert_mul");
    let mut n = num(g);
    if g.bool() {
        n[N_LIMBS - 1] |= 0x80;
    }
    if n == [0; N_LIMBS] {
        n[0] = 1;
    }
    let (a, b) = (num(g), num(g));
    let bn = big(&n);
    let p = big(&a) * big(&b);
    let (mut r, mut k) = match (limbs(&p % &bn), limbs(&p / &bn)) {
        (Some(r), Some(k)) => (r, k),
        (Some(r), None) => (r, num(g)),
        _ => unreachable!(),
    };
    match g.weighted(&[4, 3, 3, 2, 2]) {
        0 => {}
        1 => alter(g, &mut r),
        2 => alter(g, &mut k),
        3 => alter(g, &mut n),
        _ => {
            // another way to write the product
            if big(&k) > zero() {
                if let (Some(r2), Some(k2)) = (limbs(big(&r) + &bn), limbs(big(&k) - BigUint::from(1u32))) {
                    (r, k) = (r2, k2);
                }
            }
        }
    }
    let want = p == big(&r) + big(&k) * big(&n);
    ctx.tag(if want { "accepted" } else { "refused" });
    ctx.nontrivial(p != zero());
    ctx.describe(|| format!("{a:x?} * {b:x?} = {r:x?} + {k:x?} * {n:x?}"));
    let x = ins(&[&a, &b, &r, &k, &n]);
    let o = eval::<C, _>(&Op::Mul, &x, None, Lies::new(), 1);
    ensure!(o.ok == want, "assert_mul {a:x?} * {b:x?} = {r:x?} + {k:x?} * {n:x?} is {} {}", if o.ok { "accepted" } else { "refused" }, o.why);
    if g.chance(1, 200) {
        ctx.tag("compiled product");
        e2e_decide(&Op::Mul, &x, &[(vec![], want)])?;
    }
    Ok(())
}
fn mul_full(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("product without reduction");
    let (a, b) = (num(g), num(g));
    let p = big(&a) * big(&b);
    ctx.nontrivial(p != zero());
    ctx.describe(|| format!("{a:x?} * {b:x?}"));
    let o = eval::<C, _>(&Op::MulFull, &ins(&[&a, &b]), None, Lies::new(), 1);
    ensure!(o.ok && o.outs.len() == 2 * N_LIMBS, "product of {a:x?} and {b:x?}: {}", o.why);
    let l: Vec<u128> = o.outs.iter().map(|x| fu(*x)).collect();
    ensure!(l.iter().all(|x| *x <= MASK120) && big(&l) == p, "product of {a:x?} and {b:x?} is {l:x?}");
    Ok(())
}

/// x^65537 mod n with every step given by the prover.
fn rsa(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("rsa");
    let mut n = num(g);
    n[N_LIMBS - 1] |= 0x80;
    n[0] |= 1;
    let bn = big(&n);
    let x = limbs(big(&num(g)) % &bn).unwrap();
    let (mut pw, mut ca) = (vec![], vec![]);
    let mul = |a: &L, b: &L| {
        let p = big(a) * big(b);
        (limbs(&p % &bn).unwrap(), limbs(&p / &bn).unwrap())
    };
    // from step `from` on the chain is that of another number
    let from = g.weighted(&[4, 6]) * (1 + g.below(17));
    let mut last = x;
    for i in 0..17 {
        if from > 0 && i == from - 1 && i < 16 {
            ca.push(num(g));
            pw.push(limbs(big(&near(g, &last)) % &bn).unwrap());
        } else {
            let (p, c) = mul(&last, if i == 16 { &x } else { &last });
            pw.push(p);
            ca.push(c);
        }
        last = pw[i];
    }
    let mut res = pw[16];
    if from == 17 {
        alter(g, &mut res);
        if g.bool() {
            pw[16] = res;
        }
    }
    let mut want = true;
    for i in 0..17 {
        let p = if i == 0 { x } else { pw[i - 1] };
        let q = if i == 16 { x } else { p };
        want &= big(&p) * big(&q) == big(&pw[i]) + big(&ca[i]) * &bn;
    }
    want &= res == pw[16];
    if want {
        ensure_eq!(big(&res), big(&x).modpow(&BigUint::from(65537u32), &bn), "the harness's own power");
    }
    ctx.tag(if want { "accepted" } else { "refused" });
    ctx.nontrivial(true);
    ctx.describe(|| format!("rsa {x:x?} mod {n:x?}, forged from step {from}"));
    let mut v = ins(&[&x, &n]);
    for p in pw.iter().chain(ca.iter()).chain([&res]) {
        v.extend(ins(&[p]));
    }
    let mut k = rsa_main::RSACircuit::<Variable>::default();
    let total = k.num_vars().0;
    v.resize(total, F::ZERO);
    let o = run::<C>(&v, None, Lies::new(), 1, |e, s| {
        k.load_from(&mut &s[..], &mut &[][..]);
        k.define(e);
        vec![]
    });
    ensure!(o.ok == want, "the RSA circuit {} a chain that is {} (first wrong step: {from}) {}", if o.ok { "accepts" } else { "refuses" }, if want { "right" } else { "wrong" }, o.why);
    Ok(())
}

/// Listed findings: the prover's answers are trusted to be in range.
pub fn directed(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    match i {
        0 => {
            // 5 + 6 = (11 + 2^120) - 1 * 2^120
            let m1 = F::MODULUS - U256::ONE;
            let o = eval::<C, _>(&Op::Accumulate(2), &[f(5), f(6)], None, [(0, Lie::Set(U256::new(11) + (U256::ONE << 120))), (1, Lie::Set(m1))].into(), 1);
            ctx.finding("u120-range-proof-is-noop");
            Some(if o.ok { Err(format!("accumulate_u120 of 5 and 6: result and carry {:?} are accepted", o.outs)) } else { Ok(()) })
        }
        1 => {
            let (mut a, mut b) = ([0; N_LIMBS], [0; N_LIMBS]);
            (a[0], b[0]) = (5, 3);
            let x = ins(&[&a, &b]);
            let h = eval::<C, _>(&Op::Less, &x, None, Lies::new(), 1);
            let at: Vec<usize> = (0..h.free.len()).filter(|i| h.free[*i].kind == "unconstrained_lesser").collect();
            ctx.finding("less-than-trusts-prover");
            for i in at {
                let o = eval::<C, _>(&Op::Less, &x, None, [(i, Lie::Set(U256::ONE))].into(), 1);
                if o.ok && o.outs == [F::ONE] {
                    return Some(Err("5 < 3 is accepted when the prover says that the lowest limb is less".into()));
                }
            }
            Some(Ok(()))
        }
        _ => None,
    }
}
