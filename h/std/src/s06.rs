//! S06: the BLS12-381 gadgets (emulated field, extensions, curve groups, maps, pairing) agree with
//! the mathematics, refuse false claims, and hold against false answers of the prover.
use crate::ev::{run, Ev, Free, Lie, Lies, Out};
use crate::s01::sha_bits;
use ark_bls12_381::{Fq, Fq12, Fq2, Fq6};
use ark_ff::Field as _;
use circuit_std_rs::gnark::element::Element;
use circuit_std_rs::gnark::emparam::Bls12381Fp;
use circuit_std_rs::gnark::emulated::field_bls12381::e12::{Ext12, GE12};
use circuit_std_rs::gnark::emulated::field_bls12381::e2::{Ext2, GE2};
use circuit_std_rs::gnark::emulated::field_bls12381::e6::{Ext6, GE6};
use circuit_std_rs::gnark::emulated::sw_bls12381::g1::{G1Affine, G1};
use circuit_std_rs::gnark::emulated::sw_bls12381::g2::{G2AffP, G2Affine, G2};
use circuit_std_rs::gnark::emulated::sw_bls12381::pairing::Pairing;
use circuit_std_rs::gnark::field::GField;
use circuit_std_rs::utils::register_hint;
use ethnum::U256;
use expander_compiler::circuit::config::M31Config as C;
use expander_compiler::frontend::{HintRegistry, Variable, M31};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use pbt::{ensure, Ctx, Gen};

type El = Element<Bls12381Fp>;
type GF = GField<Bls12381Fp>;
const NL: usize = 48;
const SEED: u64 = 15132376222941642752;

fn p() -> BigUint {
    ark_bls12_381::modulus()
}
fn fq(x: impl Into<BigUint>) -> Fq {
    Fq::from(x.into())
}
fn dec(s: &str) -> Fq {
    fq(BigUint::parse_bytes(s.as_bytes(), 10).unwrap())
}
fn big(x: &Fq) -> BigUint {
    x.to_biguint()
}
fn limbs(x: &BigUint) -> Vec<u32> {
    let mut b: Vec<u32> = x.to_bytes_le().into_iter().map(u32::from).collect();
    assert!(b.len() <= NL);
    b.resize(NL, 0);
    b
}

// ---------------------------------------------------------------- reference arithmetic
trait Fld: Copy + PartialEq + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + std::ops::Neg<Output = Self> + Zero + One {
    fn inv(&self) -> Option<Self>;
    fn pw(&self, e: &BigUint) -> Self {
        let mut r = Self::one();
        for i in (0..e.bits()).rev() {
            r = r * r;
            if e.bit(i) {
                r = r * *self;
            }
        }
        r
    }
    fn small(k: u64) -> Self {
        let mut r = Self::zero();
        for i in (0..64).rev() {
            r = r + r;
            if k >> i & 1 == 1 {
                r = r + Self::one();
            }
        }
        r
    }
}
macro_rules! fld { ($($t:ty)*) => { $(impl Fld for $t { fn inv(&self) -> Option<Self> { if Zero::is_zero(self) { None } else { self.inverse() } } })* } }
fld!(Fq Fq2 Fq6 Fq12);

fn nr() -> Fq2 {
    Fq2::new(Fq::one(), Fq::one())
}
fn conj(x: Fq2) -> Fq2 {
    Fq2::new(x.c0, -x.c1)
}
type Pt<F> = (F, F);
fn neg<F: Fld>(a: Pt<F>) -> Pt<F> {
    (a.0, -a.1)
}
/// Affine addition on y^2 = x^3 + a x + b; None is the point at infinity.
fn add<F: Fld>(a: F, p: Option<Pt<F>>, q: Option<Pt<F>>) -> Option<Pt<F>> {
    let (p, q) = match (p, q) {
        (None, q) => return q,
        (p, None) => return p,
        (Some(p), Some(q)) => (p, q),
    };
    let l = if p.0 == q.0 {
        if p.1 != q.1 || p.1 == F::zero() {
            return None;
        }
        let xx = p.0 * p.0;
        (xx + xx + xx + a) * (p.1 + p.1).inv().unwrap()
    } else {
        (q.1 - p.1) * (q.0 - p.0).inv().unwrap()
    };
    let x = l * l - p.0 - q.0;
    Some((x, l * (p.0 - x) - p.1))
}
fn mul<F: Fld>(p: Pt<F>, k: &BigUint) -> Option<Pt<F>> {
    let mut r = None;
    for i in (0..k.bits()).rev() {
        r = add(F::zero(), r, r);
        if k.bit(i) {
            r = add(F::zero(), r, Some(p));
        }
    }
    r
}
fn sqrt1(x: Fq) -> Option<Fq> {
    // p = 3 mod 4
    let r = x.pw(&((p() + 1u32) >> 2u32));
    if r * r == x { Some(r) } else { None }
}
fn sqrt2(x: Fq2) -> Option<Fq2> {
    if x.is_zero() {
        return Some(x);
    }
    let half = fq(2u32).inv().unwrap();
    if Zero::is_zero(&x.c1) {
        return Some(match sqrt1(x.c0) {
            Some(r) => Fq2::new(r, Fq::zero()),
            None => Fq2::new(Fq::zero(), sqrt1(-x.c0).unwrap()),
        });
    }
    let n = sqrt1(x.c0 * x.c0 + x.c1 * x.c1)?;
    for t in [(x.c0 + n) * half, (x.c0 - n) * half] {
        if let Some(a) = sqrt1(t) {
            let b = x.c1 * half * a.inv().unwrap();
            let r = Fq2::new(a, b);
            if r * r == x {
                return Some(r);
            }
        }
    }
    None
}
fn b2() -> Fq2 {
    nr() * Fq2::small(4)
}
fn sgn1(x: &Fq) -> bool {
    big(x).bit(0)
}
fn sgn2(x: &Fq2) -> bool {
    sgn1(&x.c0) || (Zero::is_zero(&x.c0) && sgn1(&x.c1))
}
/// RFC 9380, 6.6.2
fn sswu<F: Fld>(u: F, a: F, b: F, z: F, sqrt: fn(F) -> Option<F>, sgn: fn(&F) -> bool) -> Pt<F> {
    let zu = z * u * u;
    let t = zu * zu + zu;
    let x1 = match t.inv() {
        None => b * (z * a).inv().unwrap(),
        Some(i) => -b * a.inv().unwrap() * (F::one() + i),
    };
    let g = |x: F| x * x * x + a * x + b;
    let (x, y) = match sqrt(g(x1)) {
        Some(y) => (x1, y),
        None => (zu * x1, sqrt(g(zu * x1)).unwrap()),
    };
    if sgn(&y) == sgn(&u) { (x, y) } else { (x, -y) }
}
fn a1p() -> Fq {
    fq(BigUint::parse_bytes(b"144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d", 16).unwrap())
}
fn b1p() -> Fq {
    fq(BigUint::parse_bytes(b"12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0", 16).unwrap())
}
fn map1(u: Fq) -> Pt<Fq> {
    sswu(u, a1p(), b1p(), fq(11u32), sqrt1, sgn1)
}
fn a2p() -> Fq2 {
    Fq2::new(Fq::zero(), fq(240u32))
}
fn b2p() -> Fq2 {
    Fq2::new(fq(1012u32), fq(1012u32))
}
fn map2(u: Fq2) -> Pt<Fq2> {
    sswu(u, a2p(), b2p(), -Fq2::new(fq(2u32), fq(1u32)), sqrt2, sgn2)
}
/// the untwist-Frobenius-twist endomorphism
fn psi(q: Pt<Fq2>) -> Pt<Fq2> {
    let e = p() - 1u32;
    let c1 = nr().pw(&(e.clone() / 3u32)).inv().unwrap();
    let c2 = nr().pw(&(e / 2u32)).inv().unwrap();
    (conj(q.0) * c1, conj(q.1) * c2)
}
fn seed() -> BigUint {
    BigUint::from(SEED)
}
fn order() -> BigUint {
    // r = x^4 - x^2 + 1
    let x2 = seed() * seed();
    &x2 * &x2 - &x2 + 1u32
}
fn h1() -> BigUint {
    // the G1 cofactor (x - 1)^2 / 3 with x = -seed
    let t = seed() + 1u32;
    &t * &t / 3u32
}
fn xmd(msg: &[u8], n: usize) -> Vec<u8> {
    let sha = |m: &[u8]| -> Vec<u8> {
        let bits: Vec<bool> = m.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect();
        sha_bits(&bits).iter().flat_map(|w| w.to_be_bytes()).collect()
    };
    let mut dst = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_".to_vec();
    dst.push(dst.len() as u8);
    let b0 = sha(&[&[0; 64][..], msg, &[(n >> 8) as u8, n as u8, 0], &dst].concat());
    let mut b = sha(&[&b0[..], &[1], &dst].concat());
    let mut out = b.clone();
    let mut i = 2u8;
    while out.len() < n {
        let x: Vec<u8> = b.iter().zip(&b0).map(|(x, y)| x ^ y).collect();
        b = sha(&[&x[..], &[i], &dst].concat());
        out.extend(&b);
        i += 1;
    }
    out.truncate(n);
    out
}

// ---------------------------------------------------------------- programs over a field tower
/// An operation of a straight line program; numbers are registers.
#[derive(Clone, Debug)]
enum O {
    Add(usize, usize),
    Sub(usize, usize),
    Neg(usize),
    Mul(usize, usize),
    Sq(usize),
    Div(usize, usize),
    Inv(usize),
    InvDiv(usize),
    Dbl(usize),
    MulConst(usize, i64),
    Select(bool, usize, usize),
    Reduce(usize, bool),
    Copy(usize),
    Conj(usize),
    /// multiplication by the tower's non residue
    Nr(usize),
    /// by a power of a Frobenius constant: which, power
    NrPow(usize, u32, u32),
    /// by an element of the ground field: its register among the inputs' first components
    ByFq(usize, usize),
    /// sparse products; the sparse factor's parts are taken from the second (and third) register
    By0(usize, usize),
    By01(usize, usize),
    By12(usize, usize),
    By014(usize, usize),
    By014014(usize, usize),
    Div6(usize),
    Frob(usize),
    Frob2(usize),
    CycSq(usize),
    NSq(usize, usize, bool),
    Expt(usize),
    IsZero(usize),
    Sign(usize),
}

#[derive(Clone, Debug)]
enum K {
    F1(Vec<O>),
    F2(Vec<O>),
    F6(Vec<O>),
    F12(Vec<O>),
    G1(Vec<P>),
    G2(Vec<P>),
    Map1,
    Map2,
    Iso1,
    Iso2,
    MapTo1,
    MapTo2,
    Un1(Vec<u8>),
    Un2(Vec<u8>),
    OnCurve,
    OnTwist,
    OnG1,
    OnG2,
    Hash1(Vec<u8>),
    Hash2(Vec<u8>),
    Pair(usize),
}
/// group operations
#[derive(Clone, Debug)]
enum P {
    Add(usize, usize),
    Dbl(usize),
    DblN(usize, usize),
    DblAdd(usize, usize),
    Triple(usize),
    Neg(usize),
    Copy(usize),
    Endo(usize),
    Seed(usize),
    Windowed(usize),
    Clear(usize),
}

#[derive(Clone, Debug)]
struct Case {
    k: K,
    /// the inputs, as elements of the base field (values below 2^381)
    x: Vec<BigUint>,
}

fn el(v: &[Variable]) -> El {
    Element::new(v.to_vec(), 0, false, false, false, Variable::default())
}
fn els(v: &[Variable]) -> Vec<El> {
    v.chunks(NL).map(el).collect()
}
fn ge2(v: &[El]) -> GE2 {
    GE2 { a0: v[0].clone(), a1: v[1].clone() }
}
fn ge6(v: &[El]) -> GE6 {
    GE6 { b0: ge2(&v[0..2]), b1: ge2(&v[2..4]), b2: ge2(&v[4..6]) }
}
fn ge12(v: &[El]) -> GE12 {
    GE12 { c0: ge6(&v[0..6]), c1: ge6(&v[6..12]) }
}
fn fl2(x: &GE2) -> Vec<El> {
    vec![x.a0.clone(), x.a1.clone()]
}
fn fl6(x: &GE6) -> Vec<El> {
    [fl2(&x.b0), fl2(&x.b1), fl2(&x.b2)].concat()
}
fn fl12(x: &GE12) -> Vec<El> {
    [fl6(&x.c0), fl6(&x.c1)].concat()
}
fn q2(v: &[Fq]) -> Fq2 {
    Fq2::new(v[0], v[1])
}
fn q6(v: &[Fq]) -> Fq6 {
    Fq6::new(q2(&v[0..2]), q2(&v[2..4]), q2(&v[4..6]))
}
fn q12(v: &[Fq]) -> Fq12 {
    Fq12::new(q6(&v[0..6]), q6(&v[6..12]))
}
fn un2(x: Fq2) -> Vec<Fq> {
    vec![x.c0, x.c1]
}
fn un6(x: Fq6) -> Vec<Fq> {
    [un2(x.c0), un2(x.c1), un2(x.c2)].concat()
}
fn un12(x: Fq12) -> Vec<Fq> {
    [un6(x.c0), un6(x.c1)].concat()
}

/// What the circuit gives: elements (compared modulo p) and single values.
#[derive(Default)]
struct Res {
    els: Vec<El>,
    bits: Vec<Variable>,
}
/// What it ought to give.
#[derive(Clone, Default, Debug)]
struct Want {
    els: Vec<Fq>,
    bits: Vec<bool>,
}

fn is_bit(o: &O) -> bool {
    matches!(o, O::IsZero(_) | O::Sign(_))
}

impl K {
    /// base field elements per register
    fn width(&self) -> usize {
        match self {
            K::F1(_) | K::Map1 | K::Hash1(_) => 1,
            K::F2(_) | K::Map2 | K::G1(_) | K::Iso1 | K::OnCurve | K::OnG1 => 2,
            K::F6(_) => 6,
            K::F12(_) => 12,
            _ => 4,
        }
    }
}

// ---------------------------------------------------------------- the circuit side
fn finish(f: &mut GF, b: &mut Ev<C>) {
    f.check_mul(b);
    f.table.final_check(b);
}

fn claim_all(f: &mut GF, b: &mut Ev<C>, r: &[El], claim: &[El]) {
    if !claim.is_empty() {
        assert_eq!(r.len(), claim.len(), "number of outputs");
        for (x, y) in r.iter().zip(claim) {
            f.assert_is_equal(b, x, y);
        }
    }
}

fn circuit(k: &K, b: &mut Ev<C>, ins: &[Variable], claim: &[Variable]) -> Res {
    let x = if matches!(k, K::Hash1(_) | K::Hash2(_) | K::Un1(_) | K::Un2(_)) { vec![] } else { els(ins) };
    let claim = els(claim);
    let w = k.width();
    let mut res = Res::default();
    match k {
        K::F1(ops) => {
            let mut f = GF::new(b, Bls12381Fp {});
            let mut r = x.clone();
            for o in ops {
                let v = match *o {
                    O::Add(i, j) => f.add(b, &r[i], &r[j]),
                    O::Sub(i, j) => f.sub(b, &r[i], &r[j]),
                    O::Neg(i) => f.neg(b, &r[i]),
                    O::Mul(i, j) => f.mul(b, &r[i], &r[j]),
                    O::Sq(i) => f.mul(b, &r[i], &r[i]),
                    O::Div(i, j) => f.div(b, &r[i], &r[j]),
                    O::Inv(i) => f.inverse(b, &r[i]),
                    O::MulConst(i, c) => f.mul_const(b, &r[i], BigInt::from(c)),
                    O::Select(s, i, j) => {
                        let s = b.push(M31::from(s as u32));
                        f.select(b, s, &r[i], &r[j])
                    }
                    O::Reduce(i, s) => f.reduce(b, &r[i], s),
                    O::Copy(i) => f.copy(b, &r[i]),
                    O::IsZero(i) => {
                        res.bits.push(f.is_zero(b, &r[i]));
                        continue;
                    }
                    O::Sign(i) => {
                        let v = f.reduce(b, &r[i], true);
                        res.bits.push(f.get_element_sign(b, &v));
                        continue;
                    }
                    _ => unreachable!(),
                };
                r.push(v);
            }
            res.els = r.split_off(x.len());
            claim_all(&mut f, b, &res.els, &claim);
            finish(&mut f, b);
        }
        K::F2(ops) => {
            let mut e = Ext2::new(b);
            let mut r: Vec<GE2> = x.chunks(2).map(ge2).collect();
            let n = r.len();
            for o in ops {
                let v = match *o {
                    O::Add(i, j) => e.add(b, &r[i], &r[j]),
                    O::Sub(i, j) => e.sub(b, &r[i], &r[j]),
                    O::Neg(i) => e.neg(b, &r[i]),
                    O::Mul(i, j) => e.mul(b, &r[i], &r[j]),
                    O::Sq(i) => e.square(b, &r[i]),
                    O::Div(i, j) => e.div(b, &r[i], &r[j]),
                    O::Inv(i) => e.inverse(b, &r[i]),
                    O::InvDiv(i) => e.inverse_div(b, &r[i]),
                    O::Dbl(i) => e.double(b, &r[i]),
                    O::MulConst(i, c) => e.mul_by_const_element(b, &r[i], &BigInt::from(c)),
                    O::Select(s, i, j) => {
                        let s = b.push(M31::from(s as u32));
                        e.select(b, s, &r[i], &r[j])
                    }
                    O::Copy(i) => e.copy(b, &r[i]),
                    O::Conj(i) => e.conjugate(b, &r[i]),
                    O::Nr(i) => e.mul_by_non_residue(b, &r[i]),
                    O::NrPow(i, a, k) => match (a, k) {
                        (1, 1) => e.mul_by_non_residue1_power1(b, &r[i]),
                        (1, 2) => e.mul_by_non_residue1_power2(b, &r[i]),
                        (1, 3) => e.mul_by_non_residue1_power3(b, &r[i]),
                        (1, 4) => e.mul_by_non_residue1_power4(b, &r[i]),
                        (1, 5) => e.mul_by_non_residue1_power5(b, &r[i]),
                        (2, 1) => e.mul_by_non_residue2_power1(b, &r[i]),
                        (2, 2) => e.mul_by_non_residue2_power2(b, &r[i]),
                        (2, 3) => e.mul_by_non_residue2_power3(b, &r[i]),
                        (2, 4) => e.mul_by_non_residue2_power4(b, &r[i]),
                        _ => e.mul_by_non_residue2_power5(b, &r[i]),
                    },
                    O::ByFq(i, j) => e.mul_by_element(b, &r[i], &x[2 * j]),
                    O::IsZero(i) => {
                        res.bits.push(e.is_zero(b, &r[i]));
                        continue;
                    }
                    O::Sign(i) => {
                        let v = GE2 { a0: e.curve_f.reduce(b, &r[i].a0, true), a1: e.curve_f.reduce(b, &r[i].a1, true) };
                        let z = e.curve_f.is_zero(b, &v.a0);
                        res.bits.push(e.get_e2_sign(b, &v, z));
                        continue;
                    }
                    _ => unreachable!(),
                };
                r.push(v);
            }
            res.els = r[n..].iter().flat_map(fl2).collect();
            claim_all(&mut e.curve_f, b, &res.els, &claim);
            finish(&mut e.curve_f, b);
        }
        K::F6(ops) => {
            let mut e = Ext6::new(b);
            let mut r: Vec<GE6> = x.chunks(6).map(ge6).collect();
            let n = r.len();
            for o in ops {
                let v = match *o {
                    O::Add(i, j) => e.add(b, &r[i], &r[j]),
                    O::Sub(i, j) => e.sub(b, &r[i], &r[j]),
                    O::Neg(i) => e.neg(b, &r[i]),
                    O::Mul(i, j) => e.mul(b, &r[i], &r[j]),
                    O::Sq(i) => e.square(b, &r[i]),
                    O::Div(i, j) => e.div(b, &r[i], &r[j]),
                    O::Inv(i) => e.inverse(b, &r[i]),
                    O::InvDiv(i) => e.inverse_div(b, &r[i]),
                    O::Dbl(i) => e.double(b, &r[i]),
                    O::Select(s, i, j) => {
                        let s = b.push(M31::from(s as u32));
                        e.select(b, s, &r[i], &r[j])
                    }
                    O::Nr(i) => e.mul_by_non_residue(b, &r[i]),
                    O::ByFq(i, j) => e.mul_by_e2(b, &r[i], &ge2(&x[6 * j..6 * j + 2])),
                    O::By0(i, j) => e.mul_by_0(b, &r[i], &ge2(&x[6 * j..6 * j + 2])),
                    O::By01(i, j) => e.mul_by_01(b, &r[i], &ge2(&x[6 * j..6 * j + 2]), &ge2(&x[6 * j + 2..6 * j + 4])),
                    O::By12(i, j) => e.mul_by_12(b, &r[i], &ge2(&x[6 * j + 2..6 * j + 4]), &ge2(&x[6 * j + 4..6 * j + 6])),
                    O::Div6(i) => ge6(&e.div_e6_by_6(b, &fl6(&r[i]).try_into().unwrap())),
                    O::IsZero(i) => {
                        res.bits.push(e.is_zero(b, &r[i]));
                        continue;
                    }
                    _ => unreachable!(),
                };
                r.push(v);
            }
            res.els = r[n..].iter().flat_map(fl6).collect();
            claim_all(&mut e.ext2.curve_f, b, &res.els, &claim);
            finish(&mut e.ext2.curve_f, b);
        }
        K::F12(ops) => {
            let mut e = Ext12::new(b);
            let mut r: Vec<GE12> = x.chunks(12).map(ge12).collect();
            let n = r.len();
            for o in ops {
                let v = match *o {
                    O::Add(i, j) => e.add(b, &r[i], &r[j]),
                    O::Sub(i, j) => e.sub(b, &r[i], &r[j]),
                    O::Mul(i, j) => e.mul(b, &r[i], &r[j]),
                    O::Sq(i) => e.square(b, &r[i]),
                    O::Div(i, j) => e.div(b, &r[i], &r[j]),
                    O::Inv(i) => e.inverse(b, &r[i]),
                    O::Select(s, i, j) => {
                        let s = b.push(M31::from(s as u32));
                        e.select(b, s, &r[i], &r[j])
                    }
                    O::Copy(i) => e.copy(b, &r[i]),
                    O::Conj(i) => e.conjugate(b, &r[i]),
                    O::By014(i, j) => e.mul_by_014(b, &r[i], &ge2(&x[12 * j..12 * j + 2]), &ge2(&x[12 * j + 2..12 * j + 4])),
                    O::By014014(i, j) => {
                        let g = |t: usize| ge2(&x[t..t + 2]);
                        let [c0, c1, c2, d1, d2] = e.mul_014_by_014(b, &g(12 * i), &g(12 * i + 2), &g(12 * j), &g(12 * j + 2));
                        let z = e.ext6.ext2.zero();
                        GE12 { c0: GE6 { b0: c0, b1: c1, b2: c2 }, c1: GE6 { b0: z, b1: d1, b2: d2 } }
                    }
                    O::Frob(i) => e.frobenius(b, &r[i]),
                    O::Frob2(i) => e.frobenius_square(b, &r[i]),
                    O::CycSq(i) => e.cyclotomic_square(b, &r[i]),
                    O::NSq(i, k, false) => e.n_square_gs(b, &r[i], k),
                    O::NSq(i, k, true) => e.n_square_gs_with_hint(b, &r[i], k),
                    O::Expt(i) => e.expt(b, &r[i]),
                    O::IsZero(i) => {
                        res.bits.push(e.is_zero(b, &r[i]));
                        continue;
                    }
                    _ => unreachable!(),
                };
                r.push(v);
            }
            res.els = r[n..].iter().flat_map(fl12).collect();
            claim_all(&mut e.ext6.ext2.curve_f, b, &res.els, &claim);
            finish(&mut e.ext6.ext2.curve_f, b);
        }
        K::G1(ops) => {
            let mut e = G1::new(b);
            let mut r: Vec<G1Affine> = x.chunks(2).map(|c| G1Affine::new(c[0].clone(), c[1].clone())).collect();
            let n = r.len();
            for o in ops {
                let v = match *o {
                    P::Add(i, j) => e.add(b, &r[i], &r[j]),
                    P::Dbl(i) => e.double(b, &r[i]),
                    P::DblN(i, k) => e.double_n(b, &r[i], k),
                    P::DblAdd(i, j) => e.double_and_add(b, &r[i], &r[j]),
                    P::Copy(i) => e.copy_g1(b, &r[i]),
                    P::Endo(i) => e.phi(b, &r[i]),
                    P::Seed(i) => e.scalar_mul_by_seed_square(b, &r[i]),
                    P::Windowed(i) => e.mul_windowed(b, &r[i], BigInt::from(SEED)),
                    P::Clear(i) => e.clear_cofactor(b, &r[i]),
                    _ => unreachable!(),
                };
                r.push(v);
            }
            res.els = r[n..].iter().flat_map(|q| [q.x.clone(), q.y.clone()]).collect();
            claim_all(&mut e.curve_f, b, &res.els, &claim);
            finish(&mut e.curve_f, b);
        }
        K::G2(ops) => {
            let mut e = G2::new(b);
            let mut r: Vec<G2AffP> = x.chunks(4).map(|c| G2AffP::new(ge2(&c[..2]), ge2(&c[2..]))).collect();
            let n = r.len();
            for o in ops {
                let v = match *o {
                    P::Add(i, j) => e.add(b, &r[i], &r[j]),
                    P::Dbl(i) => e.double(b, &r[i]),
                    P::DblN(i, k) => e.double_n(b, &r[i], k),
                    P::DblAdd(i, j) => e.double_and_add(b, &r[i], &r[j]),
                    P::Triple(i) => e.triple(b, &r[i]),
                    P::Neg(i) => e.neg(b, &r[i]),
                    P::Copy(i) => e.copy_g2_aff_p(b, &r[i]),
                    P::Endo(i) => e.psi(b, &r[i]),
                    P::Seed(i) => e.scalar_mul_by_seed(b, &r[i]),
                    P::Windowed(i) => e.mul_windowed(b, &r[i], BigInt::from(SEED)),
                    P::Clear(i) => e.clear_cofactor(b, &r[i]),
                };
                r.push(v);
            }
            res.els = r[n..].iter().flat_map(|q| [fl2(&q.x), fl2(&q.y)].concat()).collect();
            claim_all(&mut e.ext2.curve_f, b, &res.els, &claim);
            finish(&mut e.ext2.curve_f, b);
        }
        K::Map1 | K::Iso1 | K::MapTo1 | K::Un1(_) | K::Hash1(_) => {
            let mut e = G1::new(b);
            res.els = match k {
                K::Hash1(_) => {
                    let (u, v) = e.hash_to_fp(b, ins);
                    vec![u, v]
                }
                _ => {
                    let r = match k {
                        K::Map1 => e.map_to_curve1(b, &x[0]),
                        K::Iso1 => e.g1_isogeny(b, &G1Affine::new(x[0].clone(), x[1].clone())),
                        K::MapTo1 => e.map_to_g1(b, &x[0], &x[1]),
                        _ => e.uncompressed(b, ins),
                    };
                    vec![r.x, r.y]
                }
            };
            claim_all(&mut e.curve_f, b, &res.els, &claim);
            finish(&mut e.curve_f, b);
        }
        K::Map2 | K::Iso2 | K::MapTo2 | K::Un2(_) | K::Hash2(_) => {
            let mut e = G2::new(b);
            res.els = match k {
                K::Hash2(_) => {
                    let (u, v) = e.hash_to_fp(b, ins);
                    [fl2(&u), fl2(&v)].concat()
                }
                _ => {
                    let r = match k {
                        K::Map2 => e.map_to_curve2(b, &ge2(&x)),
                        K::Iso2 => e.isogeny(b, &G2AffP::new(ge2(&x[..2]), ge2(&x[2..]))),
                        K::MapTo2 => e.map_to_g2(b, &ge2(&x[..2]), &ge2(&x[2..])),
                        _ => e.uncompressed(b, ins),
                    };
                    [fl2(&r.x), fl2(&r.y)].concat()
                }
            };
            claim_all(&mut e.ext2.curve_f, b, &res.els, &claim);
            finish(&mut e.ext2.curve_f, b);
        }
        K::OnCurve | K::OnTwist | K::OnG1 | K::OnG2 | K::Pair(_) => {
            let mut e = Pairing::new(b);
            match k {
                K::OnCurve => e.assert_is_on_curve(b, G1Affine::new(x[0].clone(), x[1].clone())),
                K::OnG1 => e.assert_is_on_g1(b, &G1Affine::new(x[0].clone(), x[1].clone())),
                K::OnTwist => e.assert_is_on_twist(b, G2AffP::new(ge2(&x[..2]), ge2(&x[2..]))),
                K::OnG2 => e.assert_is_on_g2(b, &G2AffP::new(ge2(&x[..2]), ge2(&x[2..]))),
                _ => {
                    let (mut ps, mut qs) = (vec![], vec![]);
                    for c in x.chunks(6) {
                        ps.push(G1Affine::new(c[0].clone(), c[1].clone()));
                        qs.push(G2Affine { p: G2AffP::new(ge2(&c[2..4]), ge2(&c[4..6])), lines: Default::default() });
                    }
                    e.pairing_check(b, &ps, &mut qs).unwrap();
                }
            }
            finish(&mut e.curve_f, b);
            finish(&mut e.curve.base_api, b);
            finish(&mut e.g1.curve_f, b);
            finish(&mut e.g2.ext2.curve_f, b);
            finish(&mut e.ext12.ext6.ext2.curve_f, b);
        }
    }
    let _ = w;
    res
}

struct Ran {
    out: Out<C>,
    /// values of the elements as integers modulo p, and of the single values
    els: Vec<Fq>,
    bits: Vec<u32>,
}

fn go(c: &Case, claim: &[BigUint], lies: Lies, seed: u64) -> Ran {
    let mut ins: Vec<M31> = match &c.k {
        K::Hash1(m) | K::Hash2(m) | K::Un1(m) | K::Un2(m) => m.iter().map(|b| M31::from(*b as u32)).collect(),
        _ => c.x.iter().flat_map(limbs).map(M31::from).collect(),
    };
    let n = ins.len();
    ins.extend(claim.iter().flat_map(limbs).map(M31::from));
    raw(&c.k, &ins, n, lies, seed)
}
fn raw(k: &K, ins: &[M31], n: usize, lies: Lies, seed: u64) -> Ran {
    let mut h = HintRegistry::<M31>::new();
    register_hint(&mut h);
    let lens = std::cell::RefCell::new((vec![], 0));
    let out = run::<C>(ins, Some(h), lies, seed, |b, v| {
        let r = circuit(k, b, &v[..n], &v[n..]);
        *lens.borrow_mut() = (r.els.iter().map(|e| e.limbs.len()).collect::<Vec<_>>(), r.bits.len());
        r.els.iter().flat_map(|e| e.limbs.clone()).chain(r.bits).collect()
    });
    let (lens, nb) = lens.into_inner();
    let (mut els, mut bits) = (vec![], vec![]);
    if !out.outs.is_empty() {
        let mut at = 0;
        for l in lens {
            let mut s = BigUint::zero();
            for v in out.outs[at..at + l].iter().rev() {
                s = (s << 8u32) + v.v;
            }
            els.push(fq(s));
            at += l;
        }
        bits = out.outs[at..at + nb].iter().map(|v| v.v).collect();
    }
    Ran { out, els, bits }
}

// ---------------------------------------------------------------- the reference side
/// None: the claim cannot hold (division of a nonzero value by zero); Err: nothing is required
/// (0/0, exceptional points).
enum Exp {
    Is(Want),
    Refused,
    Free,
}

macro_rules! div {
    ($a:expr, $b:expr) => {
        match $b.inv() {
            Some(i) => $a * i,
            None if $a.is_zero() => return Exp::Free,
            None => return Exp::Refused,
        }
    };
}

fn prog<F: Fld>(ops: &[O], x: &[Fq], w: usize, load: fn(&[Fq]) -> F, store: fn(F) -> Vec<Fq>, special: impl Fn(&O, &[F]) -> F, sgn: impl Fn(&F) -> bool) -> Exp {
    let mut r: Vec<F> = x.chunks(w).map(load).collect();
    let n = r.len();
    let mut bits = vec![];
    for o in ops {
        let v = match *o {
            O::Add(i, j) => r[i] + r[j],
            O::Sub(i, j) => r[i] - r[j],
            O::Neg(i) => -r[i],
            O::Mul(i, j) => r[i] * r[j],
            O::Sq(i) => r[i] * r[i],
            O::Div(i, j) => div!(r[i], r[j]),
            O::Inv(i) | O::InvDiv(i) => div!(F::one(), r[i]),
            O::Dbl(i) => r[i] + r[i],
            O::MulConst(i, c) => {
                let v = F::small(c.unsigned_abs()) * r[i];
                if c < 0 { -v } else { v }
            }
            O::Select(s, i, j) => if s { r[i] } else { r[j] },
            O::Reduce(i, _) | O::Copy(i) => r[i],
            O::IsZero(i) => {
                bits.push(r[i].is_zero());
                continue;
            }
            O::Sign(i) => {
                bits.push(sgn(&r[i]));
                continue;
            }
            _ => special(o, &r),
        };
        r.push(v);
    }
    Exp::Is(Want { els: r[n..].iter().flat_map(|v| store(*v)).collect(), bits })
}

fn group<F: Fld>(ops: &[P], r0: Vec<Pt<F>>, endo: impl Fn(Pt<F>) -> Pt<F>, g1: bool, store: fn(F) -> Vec<Fq>) -> Exp {
    let mut r = r0.clone();
    let z = F::zero();
    macro_rules! fin {
        ($e:expr) => {
            match $e {
                Some(v) => v,
                None => return Exp::Free,
            }
        };
    }
    for o in ops {
        if let P::Seed(i) | P::Windowed(i) | P::Clear(i) = *o {
            if mul(r[i], &3u32.into()).is_none() {
                // the formulas meet exceptional points
                return Exp::Free;
            }
        }
        let v = match *o {
            P::Add(i, j) => {
                if r[i].0 == r[j].0 {
                    // the formulas are for different points
                    return if r[i].1 == r[j].1 { Exp::Free } else { Exp::Refused };
                }
                fin!(add(z, Some(r[i]), Some(r[j])))
            }
            P::Dbl(i) => fin!(add(z, Some(r[i]), Some(r[i]))),
            P::DblN(i, k) => fin!(mul(r[i], &(BigUint::one() << k))),
            P::DblAdd(i, j) => {
                let s = add(z, Some(r[i]), Some(r[j]));
                if r[i].0 == r[j].0 || s.is_none() || s.unwrap().0 == r[i].0 {
                    return Exp::Free;
                }
                fin!(add(z, s, Some(r[i])))
            }
            P::Triple(i) => fin!(mul(r[i], &3u32.into())),
            P::Neg(i) => neg(r[i]),
            P::Copy(i) => r[i],
            P::Endo(i) => endo(r[i]),
            P::Seed(i) if g1 => fin!(mul(r[i], &(seed() * seed()))),
            P::Seed(i) => neg(fin!(mul(r[i], &seed()))),
            P::Windowed(i) => fin!(mul(r[i], &seed())),
            P::Clear(i) if g1 => fin!(mul(r[i], &(seed() + 1u32))),
            P::Clear(i) => {
                // [x^2 - x - 1] P + [x - 1] psi(P) + psi^2(2 P), x = -seed
                let t0 = mul(r[i], &(seed() * seed() + seed() - 1u32));
                let t1 = mul(neg(r[i]), &(seed() + 1u32)).map(&endo);
                let t2 = mul(r[i], &2u32.into()).map(|q| endo(endo(q)));
                fin!(add(z, add(z, t0, t1), t2))
            }
        };
        r.push(v);
    }
    Exp::Is(Want { els: r[r0.len()..].iter().flat_map(|q| [store(q.0), store(q.1)].concat()).collect(), bits: vec![] })
}

fn frob12(x: Fq12) -> Fq12 {
    x.pw(&p())
}
fn expected(c: &Case) -> Exp {
    let x: Vec<Fq> = c.x.iter().map(|v| fq(v.clone())).collect();
    let is = |els: Vec<Fq>| Exp::Is(Want { els, bits: vec![] });
    match &c.k {
        K::F1(ops) => prog::<Fq>(ops, &x, 1, |v| v[0], |v| vec![v], |_, _| unreachable!(), sgn1),
        K::F2(ops) => prog::<Fq2>(ops, &x, 2, q2, un2, |o, r| match *o {
            O::Conj(i) => conj(r[i]),
            O::Nr(i) => r[i] * nr(),
            O::NrPow(i, a, k) => r[i] * nr().pw(&((if a == 1 { p() - 1u32 } else { p() * p() - 1u32 }) / 6u32 * k)),
            O::ByFq(i, j) => r[i] * Fq2::new(x[2 * j], Fq::zero()),
            _ => unreachable!(),
        }, sgn2),
        K::F6(ops) => {
            let z = Fq2::zero();
            let e2 = |t: usize| q2(&x[t..t + 2]);
            prog::<Fq6>(ops, &x, 6, q6, un6, |o, r| match *o {
                O::Nr(i) => r[i] * Fq6::new(z, Fq2::one(), z),
                O::ByFq(i, j) | O::By0(i, j) => r[i] * Fq6::new(e2(6 * j), z, z),
                O::By01(i, j) => r[i] * Fq6::new(e2(6 * j), e2(6 * j + 2), z),
                O::By12(i, j) => r[i] * Fq6::new(z, e2(6 * j + 2), e2(6 * j + 4)),
                O::Div6(i) => r[i] * Fq6::small(6).inv().unwrap(),
                _ => unreachable!(),
            }, |_| unreachable!())
        }
        K::F12(ops) => {
            let z = Fq2::zero();
            let sparse = |j: usize| Fq12::new(Fq6::new(q2(&x[12 * j..]), q2(&x[12 * j + 2..]), z), Fq6::new(z, Fq2::one(), z));
            prog::<Fq12>(ops, &x, 12, q12, un12, |o, r| match *o {
                O::Conj(i) => Fq12::new(r[i].c0, -r[i].c1),
                O::By014(i, j) => r[i] * sparse(j),
                O::By014014(i, j) => sparse(i) * sparse(j),
                O::Frob(i) => frob12(r[i]),
                O::Frob2(i) => frob12(frob12(r[i])),
                O::CycSq(i) => r[i] * r[i],
                O::NSq(i, k, _) => r[i].pw(&(BigUint::one() << k)),
                O::Expt(i) => r[i].pw(&seed()),
                _ => unreachable!(),
            }, |_| unreachable!())
        }
        K::G1(ops) => {
            let w = dec("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436");
            group(ops, x.chunks(2).map(|c| (c[0], c[1])).collect(), |q| (q.0 * w, q.1), true, |v| vec![v])
        }
        K::G2(ops) => group(ops, x.chunks(4).map(|c| (q2(c), q2(&c[2..]))).collect(), psi, false, un2),
        K::Map1 => {
            let r = map1(x[0]);
            is(vec![r.0, r.1])
        }
        K::Map2 => {
            let r = map2(q2(&x));
            is([un2(r.0), un2(r.1)].concat())
        }
        K::Hash1(m) | K::Hash2(m) => {
            let n = if matches!(c.k, K::Hash1(_)) { 2 } else { 4 };
            is(xmd(m, 64 * n).chunks(64).map(|b| fq(BigUint::from_bytes_be(b))).collect())
        }
        K::Un1(m) => {
            let mut b = m.clone();
            b[0] &= 31;
            let px = fq(BigUint::from_bytes_be(&b));
            match sqrt1(px * px * px + fq(4u32)) {
                None => Exp::Refused,
                Some(y) => {
                    let large = big(&y) > big(&-y);
                    is(vec![px, if large == (m[0] >> 5 == 0b101) { y } else { -y }])
                }
            }
        }
        K::Un2(m) => {
            let mut b = m.clone();
            b[0] &= 31;
            let px = Fq2::new(fq(BigUint::from_bytes_be(&b[48..])), fq(BigUint::from_bytes_be(&b[..48])));
            match sqrt2(px * px * px + b2()) {
                None => Exp::Refused,
                Some(y) => {
                    let large = if Zero::is_zero(&y.c1) { big(&y.c0) > big(&-y.c0) } else { big(&y.c1) > big(&-y.c1) };
                    let y = if large == (m[0] >> 5 == 0b101) { y } else { -y };
                    is([un2(px), un2(y)].concat())
                }
            }
        }
        K::OnCurve => {
            let on = x[1] * x[1] == x[0] * x[0] * x[0] + fq(4u32) || (Zero::is_zero(&x[0]) && Zero::is_zero(&x[1]));
            if on { is(vec![]) } else { Exp::Refused }
        }
        K::OnTwist => {
            let (a, y) = (q2(&x), q2(&x[2..]));
            let on = y * y == a * a * a + b2() || (a.is_zero() && y.is_zero());
            if on { is(vec![]) } else { Exp::Refused }
        }
        K::OnG1 => {
            let q = (x[0], x[1]);
            let on = q.1 * q.1 == q.0 * q.0 * q.0 + fq(4u32);
            if on && mul(q, &order()).is_none() { is(vec![]) } else { Exp::Refused }
        }
        K::OnG2 => {
            let q = (q2(&x), q2(&x[2..]));
            let on = q.1 * q.1 == q.0 * q.0 * q.0 + b2();
            if on && mul(q, &order()).is_none() { is(vec![]) } else { Exp::Refused }
        }
        // judged by relations instead
        K::Iso1 | K::Iso2 | K::MapTo1 | K::MapTo2 | K::Pair(_) => is(vec![]),
    }
}

// ---------------------------------------------------------------- generation
fn rnd(g: &mut Gen) -> BigUint {
    match g.weighted(&[6, 2, 2, 1, 1]) {
        0 => BigUint::from_bytes_le(&g.bytes(48)) % p(),
        1 => g.below(3).into(),
        2 => p() - 1u32 - BigUint::from(g.below(3)),
        3 => (BigUint::one() << g.below(381)) % p(),
        _ => ((BigUint::one() << (8 * g.range(1, 47))) - 1u32) % p(),
    }
}
fn rq(g: &mut Gen) -> Fq {
    fq(BigUint::from_bytes_le(&g.bytes(48)))
}
fn point1(g: &mut Gen) -> Pt<Fq> {
    loop {
        let x = if g.chance(10, 100) { fq(g.below(5)) } else { rq(g) };
        if let Some(y) = sqrt1(x * x * x + fq(4u32)) {
            return (x, if g.bool() { y } else { -y });
        }
    }
}
fn point2(g: &mut Gen) -> Pt<Fq2> {
    loop {
        let x = Fq2::new(rq(g), if g.chance(10, 100) { Fq::zero() } else { rq(g) });
        if let Some(y) = sqrt2(x * x * x + b2()) {
            return (x, if g.bool() { y } else { -y });
        }
    }
}
fn sub1(g: &mut Gen) -> Pt<Fq> {
    loop {
        if let Some(q) = mul(point1(g), &h1()) {
            return q;
        }
    }
}
/// in the prime order subgroup, by the cofactor clearing formula of the reference
fn sub2(g: &mut Gen) -> Pt<Fq2> {
    loop {
        let q = point2(g);
        if let Exp::Is(w) = group(&[P::Clear(0)], vec![q], psi, false, un2) {
            return (q2(&w.els), q2(&w.els[2..]));
        }
    }
}
fn b1v(q: Pt<Fq>) -> Vec<BigUint> {
    vec![big(&q.0), big(&q.1)]
}
fn b2v(q: Pt<Fq2>) -> Vec<BigUint> {
    [un2(q.0), un2(q.1)].concat().iter().map(big).collect()
}

fn ops_gen(g: &mut Gen, w: usize, ni: usize, len: usize) -> Vec<O> {
    let mut ops: Vec<O> = vec![];
    let mut n = ni;
    for _ in 0..len {
        let i = if g.chance(60, 100) { n - 1 - g.below(n.min(2)) } else { g.below(n) };
        let j = g.below(n);
        let inp = g.below(ni);
        let o = match w {
            1 => match g.weighted(&[6, 6, 2, 5, 2, 2, 1, 4, 2, 2, 1, 2, 1]) {
                0 => O::Add(i, j),
                1 => O::Sub(i, j),
                2 => O::Neg(i),
                3 => O::Mul(i, j),
                4 => O::Sq(i),
                5 => O::Div(i, j),
                6 => O::Inv(i),
                7 => {
                    let c = g.u64() as i64 & ((1 << g.range(0, 20)) - 1);
                    O::MulConst(i, if g.chance(30, 100) { -c } else { c })
                }
                8 => O::Select(g.bool(), i, j),
                9 => O::Reduce(i, g.bool()),
                10 => O::Copy(i),
                11 => O::IsZero(i),
                _ => O::Sign(i),
            },
            2 => match g.weighted(&[4, 4, 2, 5, 3, 2, 1, 1, 2, 3, 2, 1, 2, 2, 4, 2, 2, 1]) {
                0 => O::Add(i, j),
                1 => O::Sub(i, j),
                2 => O::Neg(i),
                3 => O::Mul(i, j),
                4 => O::Sq(i),
                5 => O::Div(i, j),
                6 => O::Inv(i),
                7 => O::InvDiv(i),
                8 => O::Dbl(i),
                9 => O::MulConst(i, 1 + g.below(40) as i64),
                10 => O::Select(g.bool(), i, j),
                11 => O::Copy(i),
                12 => O::Conj(i),
                13 => O::Nr(i),
                14 => O::NrPow(i, 1 + g.below(2) as u32, 1 + g.below(5) as u32),
                15 => O::ByFq(i, inp),
                16 => O::IsZero(i),
                _ => O::Sign(i),
            },
            6 => match g.weighted(&[3, 3, 2, 4, 3, 2, 1, 1, 2, 2, 2, 2, 2, 2, 2, 1, 1]) {
                0 => O::Add(i, j),
                1 => O::Sub(i, j),
                2 => O::Neg(i),
                3 => O::Mul(i, j),
                4 => O::Sq(i),
                5 => O::Div(i, j),
                6 => O::Inv(i),
                7 => O::InvDiv(i),
                8 => O::Dbl(i),
                9 => O::Select(g.bool(), i, j),
                10 => O::Nr(i),
                11 => O::ByFq(i, inp),
                12 => O::By0(i, inp),
                13 => O::By01(i, inp),
                14 => O::By12(i, inp),
                15 => O::Div6(i),
                _ => O::IsZero(i),
            },
            _ => match g.weighted(&[2, 2, 4, 3, 2, 2, 2, 1, 2, 3, 3, 3, 3, 1]) {
                0 => O::Add(i, j),
                1 => O::Sub(i, j),
                2 => O::Mul(i, j),
                3 => O::Sq(i),
                4 => O::Div(i, j),
                5 => O::Inv(i),
                6 => O::Select(g.bool(), i, j),
                7 => O::Copy(i),
                8 => O::Conj(i),
                9 => O::By014(i, inp),
                10 => O::By014014(inp, g.below(ni)),
                11 => O::Frob(i),
                12 => O::Frob2(i),
                _ => O::IsZero(i),
            },
        };
        if !is_bit(&o) {
            n += 1;
        }
        ops.push(o);
    }
    ops
}
/// operations on elements of the cyclotomic subgroup
fn cyc_gen(g: &mut Gen) -> Vec<O> {
    let (mut ops, mut n) = (vec![], 1);
    for _ in 0..g.range(1, 3) {
        let i = g.below(n);
        ops.push(match g.weighted(&[4, 2, 1, 1, 2, 1]) {
            0 => O::CycSq(i),
            1 => O::NSq(i, g.range(1, 4), g.bool()),
            2 => O::Frob(i),
            3 => O::Mul(i, g.below(n)),
            4 => O::Conj(i),
            _ => O::Frob2(i),
        });
        n += 1;
    }
    ops
}
fn cyclotomic(x: Fq12) -> Option<Fq12> {
    let t = Fq12::new(x.c0, -x.c1) * x.inv()?;
    Some(frob12(frob12(t)) * t)
}

/// Multiples of two points the product of whose pairings is one, or is not.
fn pair_case(g: &mut Gen, n: usize, good: bool) -> Case {
    let (a, q) = (sub1(g), sub2(g));
    let s: Vec<BigUint> = (0..n).map(|_| BigUint::from(1 + g.below(1000))).collect();
    let t: Vec<BigUint> = (0..n - 1).map(|_| BigUint::from(1 + g.below(1000))).collect();
    let r = order();
    // sum of s_i t_i = 0
    let sum = (0..n - 1).fold(BigUint::zero(), |v, i| v + &s[i] * &t[i]) % &r;
    let inv = s[n - 1].modpow(&(&r - 2u32), &r);
    let mut last = (&r - sum) * inv % &r;
    if !good {
        last = (last + 1u32) % &r;
        if last.is_zero() {
            last = BigUint::one();
        }
    }
    let mut x = vec![];
    for i in 0..n {
        x.extend(b1v(mul(a, &s[i]).unwrap()));
        x.extend(b2v(mul(q, if i + 1 < n { &t[i] } else { &last }).unwrap()));
    }
    Case { k: K::Pair(good as usize), x }
}

fn gen(g: &mut Gen, ctx: &mut Ctx) -> Case {
    let kind = g.weighted(&[300, 160, 50, 16, 6, 60, 40, 30, 16, 20, 12, 16, 10, 8, 8, 16, 16, 1, 1, 1, 1]);
    match kind {
        0..=3 => {
            let w = [1, 2, 6, 12][kind];
            let ni = g.range(1, if w < 6 { 3 } else { 2 });
            let len = g.range(1, [12, 8, 3, 2][kind]);
            let mut x: Vec<BigUint> = (0..ni * w).map(|_| rnd(g)).collect();
            if g.chance(15, 100) {
                // sparse or zero
                for v in x.iter_mut() {
                    if g.chance(60, 100) {
                        *v = BigUint::zero();
                    }
                }
            }
            let ops = ops_gen(g, w, ni, len);
            if g.chance(10, 100) && !ops.iter().any(|o| is_bit(o)) {
                // values that are not reduced
                let i = g.below(x.len());
                let v = &x[i] + p();
                if v.bits() <= 381 {
                    x[i] = v;
                    ctx.tag("input not reduced");
                }
            }
            ctx.tag(["fp", "e2", "e6", "e12"][kind]);
            Case { k: [K::F1, K::F2, K::F6, K::F12][kind](ops), x }
        }
        4 => {
            ctx.tag("cyclotomic");
            let x = loop {
                let v: Vec<Fq> = (0..12).map(|_| rq(g)).collect();
                if let Some(x) = cyclotomic(q12(&v)) {
                    break x;
                }
            };
            let ops = if g.chance(10, 100) { vec![O::Expt(0)] } else { cyc_gen(g) };
            Case { k: K::F12(ops), x: un12(x).iter().map(big).collect() }
        }
        5 => {
            ctx.tag("g1");
            let x = [b1v(point1(g)), b1v(point1(g))].concat();
            let heavy = g.chance(3, 100);
            let mut ops = vec![];
            for t in 0..g.range(1, 4) {
                let (i, j) = (g.below(2 + t), g.below(2 + t));
                ops.push(match g.weighted(&[5, 3, 1, 4, 1, 2]) {
                    0 => P::Add(i, j),
                    1 => P::Dbl(i),
                    2 => P::DblN(i, g.below(4)),
                    3 => P::DblAdd(i, j),
                    4 => P::Copy(i),
                    _ => P::Endo(i),
                });
            }
            if heavy {
                ops = vec![match g.below(3) {
                    0 => P::Seed(0),
                    1 => P::Windowed(0),
                    _ => P::Clear(0),
                }];
            }
            Case { k: K::G1(ops), x }
        }
        6 => {
            ctx.tag("g2");
            let x = [b2v(point2(g)), b2v(point2(g))].concat();
            let heavy = g.chance(4, 100);
            let mut ops = vec![];
            for t in 0..g.range(1, 3) {
                let (i, j) = (g.below(2 + t), g.below(2 + t));
                ops.push(match g.weighted(&[4, 3, 1, 4, 2, 1, 1, 3]) {
                    0 => P::Add(i, j),
                    1 => P::Dbl(i),
                    2 => P::DblN(i, g.below(3)),
                    3 => P::DblAdd(i, j),
                    4 => P::Triple(i),
                    5 => P::Neg(i),
                    6 => P::Copy(i),
                    _ => P::Endo(i),
                });
            }
            if heavy {
                ops = vec![match g.below(3) {
                    0 => P::Seed(0),
                    1 => P::Windowed(0),
                    _ => P::Clear(0),
                }];
            }
            Case { k: K::G2(ops), x }
        }
        7 => {
            ctx.tag("map to the curve of G1");
            let x = vec![rnd(g)];
            Case { k: K::Map1, x }
        }
        8 => {
            ctx.tag("map to the curve of G2");
            let x = vec![rnd(g), rnd(g)];
            Case { k: K::Map2, x }
        }
        9 => {
            ctx.tag("isogeny of G1");
            Case { k: K::Iso1, x: b1v(map1(rq(g))) }
        }
        10 => {
            ctx.tag("isogeny of G2");
            Case { k: K::Iso2, x: b2v(map2(Fq2::new(rq(g), rq(g)))) }
        }
        11 => {
            ctx.tag("uncompress G1");
            let x = if g.chance(30, 100) { rq(g) } else { point1(g).0 };
            let mut b = big(&x).to_bytes_be();
            while b.len() < 48 {
                b.insert(0, 0);
            }
            b[0] |= if g.bool() { 0b101 << 5 } else { 0b100 << 5 };
            Case { k: K::Un1(b), x: vec![] }
        }
        12 => {
            ctx.tag("uncompress G2");
            let x = if g.chance(30, 100) { Fq2::new(rq(g), rq(g)) } else { point2(g).0 };
            let mut m = vec![];
            for c in [x.c1, x.c0] {
                let mut b = big(&c).to_bytes_be();
                while b.len() < 48 {
                    b.insert(0, 0);
                }
                m.extend(b);
            }
            m[0] |= if g.bool() { 0b101 << 5 } else { 0b100 << 5 };
            Case { k: K::Un2(m), x: vec![] }
        }
        13 => {
            ctx.tag("hash to field, G1");
            let n = if g.bool() { 32 } else { g.below(80) };
            Case { k: K::Hash1(g.bytes(n)), x: vec![] }
        }
        14 => {
            ctx.tag("hash to field, G2");
            let n = if g.bool() { 32 } else { g.below(80) };
            Case { k: K::Hash2(g.bytes(n)), x: vec![] }
        }
        15 => {
            ctx.tag("on the curve");
            let mut q = point1(g);
            if g.chance(15, 100) {
                q = (Fq::zero(), Fq::zero());
            }
            if g.bool() {
                if g.bool() { q.0 = q.0 + fq(1 + g.below(3)) } else { q.1 = q.1 + fq(1 + g.below(3)) }
            }
            Case { k: K::OnCurve, x: b1v(q) }
        }
        16 => {
            ctx.tag("on the twist");
            let mut q = point2(g);
            if g.chance(15, 100) {
                q = (Fq2::zero(), Fq2::zero());
            }
            if g.bool() {
                let d = Fq2::new(fq(g.below(2)), fq(1 + g.below(3)));
                if g.bool() { q.0 = q.0 + d } else { q.1 = q.1 + d }
            }
            Case { k: K::OnTwist, x: b2v(q) }
        }
        17 => {
            ctx.tag("in G1");
            let q = if g.bool() { sub1(g) } else { point1(g) };
            Case { k: K::OnG1, x: b1v(q) }
        }
        18 => {
            ctx.tag("in G2");
            let q = if g.bool() { sub2(g) } else { point2(g) };
            Case { k: K::OnG2, x: b2v(q) }
        }
        19 => {
            let two = g.bool();
            ctx.tag(if two { "map to G2" } else { "map to G1" });
            let x = (0..if two { 4 } else { 2 }).map(|_| rnd(g)).collect();
            Case { k: if two { K::MapTo2 } else { K::MapTo1 }, x }
        }
        _ => {
            ctx.tag("pairing");
            let n = g.range(2, 3);
            let good = g.bool();
            pair_case(g, n, good)
        }
    }
}

// ---------------------------------------------------------------- the check
fn claim_bits(r: &Ran) -> String {
    format!("accepted {}, {:?}, bits {:?}, {} ({:?})", r.out.ok, r.els, r.bits, r.out.why, r.out.hint_errors)
}
fn equal(r: &Ran, w: &Want) -> bool {
    r.els == w.els && r.bits == w.bits.iter().map(|b| *b as u32).collect::<Vec<_>>()
}

/// Groups of 48 limbs that one hint answered: where they begin among the free values.
fn elements(free: &[Free<M31>]) -> Vec<usize> {
    let mut v = vec![];
    for (i, f) in free.iter().enumerate() {
        let whole = !matches!(f.kind.as_str(), "myhint.mulhint" | "myhint.simple_rangecheck_hint" | "myhint.querycounthint" | "myhint.querycountbykeyhint" | "myhint.rangeproofhint");
        if whole && f.kind.starts_with("myhint.") && f.at % NL == 0 && i + NL <= free.len() && free[i + NL - 1].call == f.call {
            v.push(i);
        }
    }
    v
}
fn element_at(free: &[Free<M31>], at: usize) -> BigUint {
    (0..NL).rev().fold(BigUint::zero(), |s, i| (s << 8u32) + free[at + i].value.v)
}
fn set_element(lies: &mut Lies, at: usize, v: &BigUint) {
    for (i, l) in limbs(v).into_iter().enumerate() {
        lies.insert(at + i, Lie::Set(U256::from(l)));
    }
}

/// The honest run of a case against the reference: its result where the lies may start.
fn honest(c: &Case, seed: u64, note: &mut dyn FnMut(&str)) -> Result<Option<(Ran, Want)>, String> {
    let e = expected(c);
    let r = go(c, &[], Lies::new(), seed);
    let want = match e {
        Exp::Free => {
            note("exceptional: nothing required");
            return Ok(None);
        }
        Exp::Refused => {
            note("false statement");
            ensure!(!r.out.ok || !go(c, &[], Lies::new(), seed ^ 1).out.ok, "a false statement is accepted: {}", claim_bits(&r));
            return Ok(None);
        }
        Exp::Is(w) => w,
    };
    match &c.k {
        K::Pair(good) => {
            if *good == 1 {
                ensure!(r.out.ok, "a product of pairings that is one is refused: {}", claim_bits(&r));
            } else {
                ensure!(!r.out.ok, "a product of pairings that is not one is accepted");
            }
            return Ok(None);
        }
        K::Iso1 | K::Iso2 | K::MapTo1 | K::MapTo2 => {
            ensure!(r.out.ok, "refused: {}", claim_bits(&r));
            let sub = matches!(c.k, K::MapTo1 | K::MapTo2);
            if matches!(c.k, K::Iso1 | K::MapTo1) {
                let q = (r.els[0], r.els[1]);
                ensure!(q.1 * q.1 == q.0 * q.0 * q.0 + fq(4u32), "not on the curve: {q:?}");
                ensure!(!sub || mul(q, &order()).is_none(), "not in the subgroup: {q:?}");
                if !sub {
                    // a homomorphism: iso(2 P) = 2 iso(P)
                    let a = (fq(c.x[0].clone()), fq(c.x[1].clone()));
                    if let Some(d) = add(a1p(), Some(a), Some(a)) {
                        let r2 = go(&Case { k: K::Iso1, x: b1v(d) }, &[], Lies::new(), seed);
                        ensure!(add(Fq::zero(), Some(q), Some(q)) == Some((r2.els[0], r2.els[1])), "the isogeny does not commute with doubling");
                    }
                }
            } else {
                let q = (q2(&r.els), q2(&r.els[2..]));
                ensure!(q.1 * q.1 == q.0 * q.0 * q.0 + b2(), "not on the twist: {q:?}");
                ensure!(!sub || mul(q, &order()).is_none(), "not in the subgroup: {q:?}");
                if !sub {
                    let x: Vec<Fq> = c.x.iter().map(|v| fq(v.clone())).collect();
                    let a = (q2(&x), q2(&x[2..]));
                    if let Some(d) = add(a2p(), Some(a), Some(a)) {
                        let r2 = go(&Case { k: K::Iso2, x: b2v(d) }, &[], Lies::new(), seed);
                        ensure!(add(Fq2::zero(), Some(q), Some(q)) == Some((q2(&r2.els), q2(&r2.els[2..]))), "the isogeny does not commute with doubling");
                    }
                }
            }
            return Ok(None);
        }
        _ => {}
    }
    ensure!(r.out.ok, "refused: {}", claim_bits(&r));
    ensure!(equal(&r, &want), "gives {}, expected {want:?}", claim_bits(&r));
    Ok(Some((r, want)))
}
/// An operation list that costs seconds: one run of it is enough.
fn heavy(c: &Case) -> bool {
    matches!(&c.k, K::G1(o) | K::G2(o) if o.iter().any(|o| matches!(o, P::Seed(_) | P::Windowed(_) | P::Clear(_))))
}

pub fn case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let c = gen(g, ctx);
    ctx.describe(|| format!("{c:?}"));
    let seed = g.u64();
    let mut notes = vec![];
    let h = honest(&c, seed, &mut |t| notes.push(t.to_string()));
    ctx.nontrivial(!notes.iter().any(|t| t.starts_with("exceptional")));
    for t in notes {
        ctx.tag(t);
    }
    let Some((r, want)) = h? else { return Ok(()) };
    if heavy(&c) {
        return Ok(());
    }
    let n = want.els.len();
    // claims about the result
    if n > 0 {
        let mut cl: Vec<BigUint> = want.els.iter().map(big).collect();
        let ok = go(&c, &cl, Lies::new(), seed);
        ensure!(ok.out.ok, "the right result is refused: {}", claim_bits(&ok));
        let i = g.below(n);
        cl[i] = match g.below(4) {
            0 => (&cl[i] + 1u32) % p(),
            1 => (&cl[i] + (BigUint::one() << (8 * g.below(47)))) % p(),
            2 => (p() - &cl[i]) % p(),
            _ => rnd(g),
        };
        if fq(cl[i].clone()) != want.els[i] {
            let bad = go(&c, &cl, Lies::new(), seed);
            ensure!(!bad.out.ok || !go(&c, &cl, Lies::new(), seed ^ 1).out.ok, "result {i} claimed to be {} is accepted", cl[i]);
        }
    }
    // inputs whose limbs are not limbs
    if !c.x.is_empty() && g.chance(20, 100) && used(&c) {
        let n = c.x.len() * NL;
        let mut ins: Vec<M31> = c.x.iter().flat_map(limbs).map(M31::from).collect();
        // the first register's first element
        let at = g.below(NL);
        ins[at] = M31::from(if at == NL - 1 { 32 } else { 256 } << g.below(3));
        let bad = raw(&c.k, &ins, n, Lies::new(), seed);
        ctx.tag("oversized limb");
        ensure!(!bad.out.ok || !raw(&c.k, &ins, n, Lies::new(), seed ^ 1).out.ok, "an input with limb {at} = {} is accepted", ins[at].v);
    }
    // false answers
    let mut last = false;
    for _ in 0..2 {
        if last {
            break; // a finding may have been named for this case
        }
        let free = &r.out.free;
        let mut lies = Lies::new();
        let es = elements(free);
        let what;
        if !es.is_empty() && g.chance(60, 100) {
            let at = *g.pick(&es);
            let v = element_at(free, at);
            let y = match g.below(5) {
                0 => (p() - &v) % p(),
                1 => &v + p(),
                2 => BigUint::zero(),
                3 => (&v + 1u32) % p(),
                _ => rnd(g),
            };
            if y.bits() > 381 {
                continue;
            }
            what = format!("{} part {} answered by {y} instead of {v}", free[at].kind, free[at].at / NL);
            if y >= p() {
                ctx.finding("answer-not-reduced");
                last = true;
            }
            set_element(&mut lies, at, &y);
        } else {
            if free.is_empty() {
                continue;
            }
            let at = g.below(free.len());
            let d = if g.bool() { U256::ONE } else { U256::from(g.u64()) % U256::from(256u32) };
            lies.insert(at, if g.bool() { Lie::Add(d) } else { Lie::Sub(d) });
            what = format!("{} at {} (free value {at}) answered falsely: {:?}", free[at].kind, free[at].at, lies[&at]);
        }
        let l = go(&c, &[], lies.clone(), seed);
        if l.out.ok && !equal(&l, &want) {
            let l2 = go(&c, &[], lies, seed ^ 1);
            ensure!(!l2.out.ok, "{what}: accepted with {}, expected {want:?}", claim_bits(&l));
        }
        ctx.tag("false answer");
    }
    Ok(())
}

/// does the program use its first input in a way that must check its limbs?
fn used(c: &Case) -> bool {
    match &c.k {
        K::F1(o) | K::F2(o) => matches!(o.first(), Some(O::Add(0, _) | O::Sub(0, _) | O::Mul(0, _) | O::Div(0, _) | O::Sq(0))),
        K::F6(o) => matches!(o.first(), Some(O::Mul(0, _) | O::Sq(0) | O::Add(0, _))),
        K::Map1 | K::OnCurve => true,
        _ => false,
    }
}

/// Every operation that random cases reach seldom, dear ones first.
fn one_of_each() -> Vec<Case> {
    let mut g = Gen::from_seed(0x6_5eed);
    let mut v = vec![];
    for good in [true, false] {
        v.push(pair_case(&mut g, 2, good));
    }
    for two in [false, true] {
        for _ in 0..1 {
            let x = (0..if two { 4 } else { 2 }).map(|_| rnd(&mut g)).collect();
            v.push(Case { k: if two { K::MapTo2 } else { K::MapTo1 }, x });
        }
        for inside in [true, false] {
            v.push(if two {
                Case { k: K::OnG2, x: b2v(if inside { sub2(&mut g) } else { point2(&mut g) }) }
            } else {
                Case { k: K::OnG1, x: b1v(if inside { sub1(&mut g) } else { point1(&mut g) }) }
            });
        }
        for o in [P::Seed(0), P::Windowed(0), P::Clear(0)] {
            v.push(if two {
                Case { k: K::G2(vec![o]), x: [b2v(point2(&mut g)), b2v(point2(&mut g))].concat() }
            } else {
                Case { k: K::G1(vec![o]), x: [b1v(point1(&mut g)), b1v(point1(&mut g))].concat() }
            });
        }
    }
    let cyc = loop {
        let x: Vec<Fq> = (0..12).map(|_| rq(&mut g)).collect();
        if let Some(x) = cyclotomic(q12(&x)) {
            break un12(x).iter().map(big).collect::<Vec<_>>();
        }
    };
    for o in [O::Expt(0), O::NSq(0, 3, true), O::NSq(0, 2, false), O::CycSq(0)] {
        v.push(Case { k: K::F12(vec![o]), x: cyc.clone() });
    }
    for o in [
        O::Mul(0, 1),
        O::Sq(0),
        O::Div(0, 1),
        O::Inv(0),
        O::Add(0, 1),
        O::Sub(0, 1),
        O::Select(true, 0, 1),
        O::Select(false, 0, 1),
        O::Copy(0),
        O::Conj(0),
        O::By014(0, 1),
        O::By014014(0, 1),
        O::Frob(0),
        O::Frob2(0),
        O::IsZero(0),
    ] {
        v.push(Case { k: K::F12(vec![o]), x: (0..24).map(|_| big(&rq(&mut g))).collect() });
    }
    for o in [
        O::Mul(0, 1),
        O::Sq(0),
        O::Div(0, 1),
        O::Inv(0),
        O::InvDiv(0),
        O::Dbl(0),
        O::Nr(0),
        O::ByFq(0, 1),
        O::By0(0, 1),
        O::By01(0, 1),
        O::By12(0, 1),
        O::Div6(0),
        O::IsZero(0),
    ] {
        v.push(Case { k: K::F6(vec![o]), x: (0..12).map(|_| big(&rq(&mut g))).collect() });
    }
    for o in (1..=2).flat_map(|w| (1..=5).map(move |e| O::NrPow(0, w, e))) {
        v.push(Case { k: K::F2(vec![o]), x: (0..2).map(|_| big(&rq(&mut g))).collect() });
    }
    v
}

pub fn directed(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    match i {
        0 => {
            ctx.finding("mul-check-carries-unbounded");
            let c = Case { k: K::F1(vec![O::Mul(0, 1)]), x: vec![BigUint::one(), BigUint::one()] };
            let h = go(&c, &[], Lies::new(), 1);
            // 1 * 1 = 2^31, which is 1 modulo the circuit's field; the carries make up for it
            let at = h.out.free.iter().position(|f| f.kind == "myhint.mulhint" && f.value.v == 1)?;
            let mut lies = Lies::new();
            lies.insert(at, Lie::Set(U256::ZERO));
            lies.insert(at + 3, Lie::Set(U256::from(128u32)));
            for (i, v) in [1u32 << 23, 1 << 15, 1 << 7].into_iter().enumerate() {
                lies.insert(at + NL + i, Lie::Set(U256::from(v)));
            }
            let r = go(&c, &[], lies.clone(), 1);
            Some(if r.out.ok && go(&c, &[], lies, 2).out.ok { Err(format!("1 * 1 = {:?} is accepted", r.els)) } else { Ok(()) })
        }
        1 => {
            ctx.finding("answer-not-reduced");
            let mut m = vec![0u8; 48];
            (m[0], m[43]) = (128, 12);
            let c = Case { k: K::Un1(m), x: vec![] };
            let h = go(&c, &[], Lies::new(), 1);
            for at in elements(&h.out.free) {
                let y = element_at(&h.out.free, at) + p();
                if y.bits() > 381 {
                    continue;
                }
                let mut lies = Lies::new();
                set_element(&mut lies, at, &y);
                let r = go(&c, &[], lies, 1);
                if r.out.ok && r.els != h.els {
                    return Some(Err(format!("the compressed point {c:?} decodes to {:?} and to {:?}", h.els, r.els)));
                }
            }
            Some(Ok(()))
        }
        2 => {
            ctx.nontrivial(true);
            let cs = one_of_each();
            ctx.describe(|| format!("{} operations, once each", cs.len()));
            let next = std::sync::atomic::AtomicUsize::new(0);
            let worst = std::sync::Mutex::new(None::<(usize, String)>);
            std::thread::scope(|s| {
                for _ in 0..8 {
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(s, || loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            let Some(c) = cs.get(i) else { return };
                            let r = pbt::guarded(|| honest(c, 5 + i as u64, &mut |_| {}).map(|_| ())).and_then(|r| r);
                            if let Err(e) = r {
                                let mut w = worst.lock().unwrap();
                                if w.as_ref().is_none_or(|(j, _)| i < *j) {
                                    *w = Some((i, format!("{:?}: {e}", c.k)));
                                }
                            }
                        })
                        .unwrap();
                }
            });
            Some(match worst.into_inner().unwrap() {
                Some((_, e)) => Err(e),
                None => Ok(()),
            })
        }
        _ => None,
    }
}
