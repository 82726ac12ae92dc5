//! S01: SHA-256.
use crate::common::*;
use crate::ev::Lies;
use arith::Field;
use circuit_std_rs::sha256::{gf2::SHA256GF2, gf2_utils, m31, m31_utils};
use expander_compiler::circuit::config::*;
use expander_compiler::frontend::{HintRegistry, RootAPI, Variable, GF2, M31};
use num_bigint::BigInt;
use pbt::{ensure, Ctx, Gen};

/// SHA-256 of a bit string (FIPS 180-4), written from the standard.
pub fn sha_bits(bits: &[bool]) -> [u32; 8] {
    let mut m = bits.to_vec();
    m.push(true);
    while m.len() % 512 != 448 {
        m.push(false);
    }
    let l = bits.len() as u64;
    for i in (0..64).rev() {
        m.push(l >> i & 1 == 1);
    }
    let mut h = H0;
    for blk in m.chunks(512) {
        let w: Vec<u32> = blk.chunks(32).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u32)).collect();
        compress(&mut h, &w);
    }
    h
}
const H0: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
/// the first 32 bits of the fractional parts of the cube roots of the first 64 primes
fn k() -> &'static [u32; 64] {
    static K: std::sync::OnceLock<[u32; 64]> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let mut out = [0; 64];
        let (mut p, mut n) = (2u128, 0);
        while n < 64 {
            if (2..p).take_while(|d| d * d <= p).all(|d| p % d != 0) {
                // floor(cbrt(p) * 2^32) = floor(cbrt(p * 2^96))
                let (mut lo, mut hi) = (0u128, 1 << 36);
                while lo + 1 < hi {
                    let mid = (lo + hi) / 2;
                    // mid^3 <= p * 2^96, in pieces that fit
                    let sq = mid * mid; // < 2^72
                    let (a, b) = (sq >> 36, sq & ((1 << 36) - 1));
                    let hi_part = a * mid; // * 2^36
                    let lo_part = b * mid;
                    let tot_hi = hi_part + (lo_part >> 36);
                    let le = tot_hi < p << 60 || (tot_hi == p << 60 && lo_part & ((1 << 36) - 1) == 0);
                    if le { lo = mid } else { hi = mid }
                }
                out[n] = lo as u32;
                n += 1;
            }
            p += 1;
        }
        out
    })
}
fn compress(h: &mut [u32; 8], blk: &[u32]) {
    let mut w = blk.to_vec();
    for t in 16..64 {
        let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ w[t - 15] >> 3;
        let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ w[t - 2] >> 10;
        w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
    }
    let mut v = *h;
    for t in 0..64 {
        let [a, b, c, d, e, f, g, hh] = v;
        let t1 = hh
            .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
            .wrapping_add((e & f) ^ (!e & g))
            .wrapping_add(k()[t])
            .wrapping_add(w[t]);
        let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & b) ^ (a & c) ^ (b & c));
        v = [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}
fn bytes_bits(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).rev().map(move |i| x >> i & 1 == 1)).collect()
}
fn digest_bytes(h: [u32; 8]) -> Vec<u8> {
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn message(g: &mut Gen, n: usize) -> Vec<u8> {
    match g.weighted(&[4, 1, 1]) {
        0 => g.bytes(n),
        1 => vec![*g.pick(&[0, 255, 128, 1]); n],
        _ => {
            let mut v = vec![0; n];
            if n > 0 {
                let i = g.below(n);
                v[i] = 1 << g.below(8);
            }
            v
        }
    }
}
fn none<F: expander_compiler::field::Field>() -> HintRegistry<F> {
    HintRegistry::new()
}

pub fn case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.weighted(&[3, 3, 2, 2, 1, 3, 3]) {
        0 => binary(g, ctx),
        1 => m31_bytes(g, ctx),
        2 => m31_37(g, ctx),
        3 => m31_compress(g, ctx),
        4 => m31_batch(g, ctx),
        5 => words(g, ctx),
        _ => limbs(g, ctx),
    }
}

#[derive(Clone)]
struct Bin {
    cuts: Vec<usize>,
}
impl Gadget<GF2Config> for Bin {
    fn apply<B: RootAPI<GF2Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut h = SHA256GF2::new();
        let mut at = 0;
        for c in &self.cuts {
            h.update(&x[at..*c]);
            at = *c;
        }
        h.update(&x[at..]);
        h.finalize(b)
    }
}
fn binary(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("binary field");
    let n = match g.weighted(&[18, 18, 18, 6, 1]) {
        0 => 8 * g.below(130),
        4 => *g.pick(&[4096, 8192]) - 70 + g.below(140),
        1 => 512 * g.below(3) + 440 + g.below(80),
        2 => g.below(1100),
        _ => *g.pick(&[0, 1, 447, 448, 511, 512]),
    };
    let by = message(g, n.div_ceil(8));
    let mut bits = bytes_bits(&by);
    bits.truncate(n);
    let long = n > 1200;
    ctx.tag_if(long, "long message");
    let want = sha_bits(&bits);
    if n % 8 == 0 {
        use sha2::Digest;
        assert_eq!(digest_bytes(want), sha2::Sha256::digest(&by).to_vec(), "the reference");
    } else {
        ctx.tag("partial byte");
    }
    ctx.nontrivial(n > 0);
    let mut cuts: Vec<usize> = (0..g.below(3)).map(|_| g.below(n + 1)).collect();
    cuts.sort();
    ctx.describe(|| format!("{n} bits {by:02x?} in pieces ending at {cuts:?}"));
    let x: Vec<GF2> = bits.iter().map(|b| GF2::from(*b as u32)).collect();
    let gad = Bin { cuts };
    let o = eval::<GF2Config, _>(&gad, &x, None, Lies::new(), 1);
    ensure!(o.ok, "the gadget refuses a message of {n} bits: {}", o.why);
    let w: Vec<GF2> = want.iter().flat_map(|h| (0..32).rev().map(move |i| GF2::from(h >> i & 1))).collect();
    ensure!(o.outs == w, "digest {:?} of {n} bits, SHA-256 gives {want:08x?}", o.outs);
    if n > 0 && n < 440 && g.chance(1, 60) {
        ctx.tag("compiled");
        let mut bad = w.clone();
        bad[g.below(256)] += GF2::ONE;
        let r = e2e::<GF2Config, _>(&gad, &x, &[w, bad], none)?;
        ensure!(r == [true, false], "the compiled circuit decides {r:?} on the true digest and one with a bit flipped");
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
enum M {
    Var,
    F37,
    Compress,
    Check37,
    CheckCompress,
    Batch(usize),
    CheckBatch(usize),
}
impl<C: Config> Gadget<C> for M {
    fn apply<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        match self {
            M::Var => m31::sha256_var_bytes(b, x),
            M::F37 => m31::sha256_37bytes(b, x),
            M::Compress => m31::sha256_37bytes_compress(b, x),
            M::Check37 => m31::check_sha256_37bytes(b, x),
            M::CheckCompress => m31::check_sha256_37bytes_compress(b, x),
            M::Batch(n) => {
                let i: Vec<Vec<Variable>> = x.chunks(296).take(*n).map(|c| c.to_vec()).collect();
                m31::sha256_37bytes_256batch_compress(b, &i).concat()
            }
            M::CheckBatch(n) => {
                let i: Vec<Vec<Variable>> = x.chunks(296).take(*n).map(|c| c.to_vec()).collect();
                let o: Vec<Vec<Variable>> = x[296 * n..].chunks(32).map(|c| c.to_vec()).collect();
                m31::check_sha256_37bytes_256batch_compress(b, &i, &o).concat()
            }
        }
    }
}
type F = M31;
fn f(x: u32) -> F {
    F::from(x)
}
fn judge(g: &mut Gen, ctx: &mut Ctx, m: &M, x: &[F], want: &[u8]) -> Result<(), String> {
    let o = eval::<M31Config, _>(m, x, None, Lies::new(), 1);
    ensure!(o.ok, "{m:?} refuses an honest run: {}", o.why);
    let w: Vec<F> = want.iter().map(|b| f(*b as u32)).collect();
    ensure!(o.outs == w, "{m:?}: {:?}, SHA-256 gives {want:?}", o.outs);
    if g.chance(1, 80) {
        ctx.tag("compiled");
        let mut bad = w.clone();
        let i = g.below(bad.len());
        bad[i] += F::ONE;
        let r = e2e::<M31Config, _>(m, x, &[w, bad], none)?;
        ensure!(r == [true, false], "the compiled circuit decides {r:?} on the true digest and one with byte {i} changed");
    }
    Ok(())
}
/// a wrong digest byte, of any kind
fn spoil(g: &mut Gen, x: &mut [F]) -> usize {
    let i = g.below(x.len());
    let d = match g.below(4) {
        0 => f(1),
        1 => -f(1),
        2 => f(256),
        _ => f(1 + g.below(1 << 30) as u32),
    };
    x[i] += d;
    i
}

fn m31_bytes(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("M31 bytes");
    let n = if g.chance(1, 60) {
        *g.pick(&[512, 1024]) - 10 + g.below(20)
    } else if g.bool() {
        g.below(140)
    } else { *g.pick(&[0, 1, 54, 55, 56, 57, 63, 64, 65, 118, 119, 120, 127, 128]) };
    let by = message(g, n);
    let want = digest_bytes(sha_bits(&bytes_bits(&by)));
    ctx.nontrivial(n > 0);
    ctx.describe(|| format!("{n} bytes {by:02x?}"));
    let mut x: Vec<F> = by.iter().map(|b| f(*b as u32)).collect();
    judge(g, ctx, &M::Var, &x, &want)?;
    if n > 0 && g.chance(1, 3) {
        ctx.tag("no byte");
        let i = g.below(n);
        x[i] = *g.pick(&[f(256), f(511), -f(1), f(1 << 30), x[i] + f(256)]);
        let o = eval::<M31Config, _>(&M::Var, &x, None, Lies::new(), 1);
        ensure!(!o.ok, "entry {i} = {:?} is no byte and is accepted", x[i]);
    }
    Ok(())
}
fn m31_37(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("M31 37 bytes");
    let by = message(g, 37);
    let want = digest_bytes(sha_bits(&bytes_bits(&by)));
    ctx.nontrivial(true);
    ctx.describe(|| format!("{by:02x?}"));
    let mut x: Vec<F> = by.iter().map(|b| f(*b as u32)).collect();
    if g.bool() {
        return judge(g, ctx, &M::F37, &x, &want);
    }
    x.extend(want.iter().map(|b| f(*b as u32)));
    judge(g, ctx, &M::Check37, &x, &want)?;
    let i = spoil(g, &mut x[37..]);
    ctx.tag("wrong digest");
    ensure!(!eval::<M31Config, _>(&M::Check37, &x, None, Lies::new(), 1).ok, "a digest with byte {i} changed is accepted");
    Ok(())
}
/// the bit layout the compressing variants take: words little end first, the last byte big end first
fn layout(by: &[u8]) -> Vec<F> {
    let mut x = vec![];
    for c in by[..36].chunks(4) {
        let w = u32::from_be_bytes(c.try_into().unwrap());
        x.extend((0..32).map(|i| f(w >> i & 1)));
    }
    x.extend((0..8).rev().map(|i| f((by[36] >> i & 1) as u32)));
    x
}
fn m31_compress(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("M31 37 bytes, bits");
    let by = message(g, 37);
    let want = digest_bytes(sha_bits(&bytes_bits(&by)));
    ctx.nontrivial(true);
    ctx.describe(|| format!("{by:02x?}"));
    let mut x = layout(&by);
    if g.bool() {
        return judge(g, ctx, &M::Compress, &x, &want);
    }
    x.extend(want.iter().map(|b| f(*b as u32)));
    judge(g, ctx, &M::CheckCompress, &x, &want)?;
    let i = spoil(g, &mut x[296..]);
    ctx.tag("wrong digest");
    ensure!(!eval::<M31Config, _>(&M::CheckCompress, &x, None, Lies::new(), 1).ok, "a digest with byte {i} changed is accepted");
    Ok(())
}
/// messages that share their first 32 bytes
fn m31_batch(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("M31 batch");
    let n = 1 + g.below(4);
    let head = message(g, 32);
    let ms: Vec<Vec<u8>> = (0..n).map(|_| [head.clone(), message(g, 5)].concat()).collect();
    let want: Vec<u8> = ms.iter().flat_map(|m| digest_bytes(sha_bits(&bytes_bits(m)))).collect();
    ctx.nontrivial(n > 1);
    ctx.describe(|| format!("{ms:02x?}"));
    let mut x: Vec<F> = ms.iter().flat_map(|m| layout(m)).collect();
    if g.bool() {
        return judge(g, ctx, &M::Batch(n), &x, &want);
    }
    x.extend(want.iter().map(|b| f(*b as u32)));
    judge(g, ctx, &M::CheckBatch(n), &x, &want)?;
    let i = spoil(g, &mut x[296 * n..]);
    ctx.tag("wrong digest");
    ensure!(!eval::<M31Config, _>(&M::CheckBatch(n), &x, None, Lies::new(), 1).ok, "digests with byte {i} changed are accepted");
    Ok(())
}

/// 32-bit words over the binary field
#[derive(Clone, Debug)]
enum W {
    Rot(usize),
    Shr(usize),
    Ch,
    Maj,
    S0,
    S1,
    Cap0,
    Cap1,
    AddConst(u32),
    BrentKung,
    Vanilla,
    Add,
    Sum(usize),
    Xor,
    And,
    Not,
    ConstU32(u32),
    ConstU64(u64),
}
impl Gadget<GF2Config> for W {
    fn apply<B: RootAPI<GF2Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        use gf2_utils::*;
        let w: Vec<Sha256Word> = x.chunks(32).map(|c| c.try_into().unwrap()).collect();
        match self {
            W::Rot(k) => rotate_right(&w[0], *k),
            W::Shr(k) => shift_right(b, &w[0], *k),
            W::Ch => ch(b, &w[0], &w[1], &w[2]),
            W::Maj => maj(b, &w[0], &w[1], &w[2]),
            W::S0 => lower_case_sigma0(b, &w[0]),
            W::S1 => lower_case_sigma1(b, &w[0]),
            W::Cap0 => capital_sigma0(b, &w[0]),
            W::Cap1 => capital_sigma1(b, &w[0]),
            W::AddConst(c) => add_const(b, &w[0], *c),
            W::BrentKung => add_brentkung(b, &w[0], &w[1]),
            W::Vanilla => add_vanilla(b, &w[0], &w[1]),
            W::Add => add(b, &w[0], &w[1]),
            W::Sum(n) => sum_all(b, &w[..*n]),
            W::Xor => xor(b, &w[0], &w[1]),
            W::And => and(b, &w[0], &w[1]),
            W::Not => not(b, &w[0]),
            W::ConstU32(v) => u32_to_bit(b, *v),
            W::ConstU64(v) => return u64_to_bit(b, *v).to_vec(),
        }
        .to_vec()
    }
}
fn word(g: &mut Gen) -> u32 {
    match g.weighted(&[3, 1, 1, 1]) {
        0 => g.u64() as u32,
        1 => *g.pick(&[0, u32::MAX, 1 << 31, 1, 0x7fffffff]),
        2 => 1 << g.below(32),
        _ => (1u64 << g.below(33)).wrapping_sub(1) as u32,
    }
}
fn words(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let v: Vec<u32> = (0..6).map(|_| word(g)).collect();
    let (a, b, c) = (v[0], v[1], v[2]);
    let (op, want) = match g.below(18) {
        0 => { let k = g.below(32); (W::Rot(k), a.rotate_right(k as u32)) }
        1 => { let k = g.below(33); (W::Shr(k), a.checked_shr(k as u32).unwrap_or(0)) }
        2 => (W::Ch, (a & b) ^ (!a & c)),
        3 => (W::Maj, (a & b) ^ (a & c) ^ (b & c)),
        4 => (W::S0, a.rotate_right(7) ^ a.rotate_right(18) ^ a >> 3),
        5 => (W::S1, a.rotate_right(17) ^ a.rotate_right(19) ^ a >> 10),
        6 => (W::Cap0, a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)),
        7 => (W::Cap1, a.rotate_right(6) ^ a.rotate_right(11) ^ a.rotate_right(25)),
        8 | 16 => (W::AddConst(b), a.wrapping_add(b)),
        9 => (W::BrentKung, a.wrapping_add(b)),
        10 => (W::Vanilla, a.wrapping_add(b)),
        11 => (W::Add, a.wrapping_add(b)),
        12 => { let n = 1 + g.below(6); (W::Sum(n), v[..n].iter().fold(0u32, |s, x| s.wrapping_add(*x))) }
        13 => (W::Xor, a ^ b),
        14 => (W::And, a & b),
        15 => (W::Not, !a),
        _ => (W::ConstU32(a), a),
    };
    ctx.tag("binary words");
    ctx.nontrivial(true);
    ctx.describe(|| format!("{op:?} of {v:08x?}"));
    let x: Vec<GF2> = v.iter().flat_map(|h| (0..32).rev().map(move |i| GF2::from(h >> i & 1))).collect();
    let val = |o: &[GF2]| o.iter().fold(0u64, |s, b| s << 1 | (*b == GF2::ONE) as u64);
    let o = eval::<GF2Config, _>(&op, &x, None, Lies::new(), 1);
    ensure!(o.ok && o.outs.len() == 32 && val(&o.outs) == want as u64, "{op:?} gives {:08x}, should be {want:08x} {}", val(&o.outs), o.why);
    let q = (a as u64) << 32 | b as u64;
    let o = eval::<GF2Config, _>(&W::ConstU64(q), &x, None, Lies::new(), 1);
    ensure!(o.ok && o.outs.len() == 64 && val(&o.outs) == q, "u64_to_bit({q:x}) gives {:x}", val(&o.outs));
    Ok(())
}

/// helpers over the Mersenne field
#[derive(Clone, Debug)]
enum L {
    Less(usize, usize),
    IsLess(usize),
    IDiv(u64),
    IsZero(usize),
    FromBits,
    Add26,
    AddReduce(usize, usize),
    AddTop(usize, usize),
    Put26,
    Put30,
    Put64,
    ToBits,
    Sep(usize),
    Big(BigInt, usize, usize),
    Rot(usize),
    Shr(usize),
    Sigma(usize),
    Ch,
    Maj,
    Bytes,
    To26,
    To30,
}
impl Gadget<M31Config> for L {
    fn apply<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        use m31_utils::*;
        match self {
            L::Less(n, k) => vec![big_less_than(b, *n, *k, &x[..*k], &x[*k..])],
            L::IsLess(n) => vec![my_is_less(b, *n, x[0], x[1])],
            L::IDiv(k) => {
                let (q, r) = idiv_mod_bit(b, x[0], *k);
                vec![q, r]
            }
            L::IsZero(k) => vec![big_is_zero(b, *k, x)],
            L::FromBits => vec![from_binary(b, x.to_vec())],
            L::Add26 => sha_m31_26_add(b, &x[..2], &x[2..], 26).to_vec(),
            L::AddReduce(k, n) => big_array_add_reduce(b, &x[..*k], &x[*k..], *n),
            L::AddTop(k, n) => big_array_add(b, &x[..*k], &x[*k..], *n),
            L::Put26 => {
                let mut o = vec![x[0]; 4];
                m31_26_array_put_uint32(b, &mut o, [x[0], x[1]]);
                o
            }
            L::Put30 => {
                let mut o = vec![x[0]; 4];
                big_endian_m31_array_put_uint32(b, &mut o, [x[0], x[1]]);
                o
            }
            L::Put64 => {
                let mut o = vec![x[0]; 8];
                big_endian_put_uint64(b, &mut o, x[0]);
                o
            }
            L::ToBits => m31_to_bit_array(b, x),
            L::Sep(o) => m31_26_to_bit_array_seperate(b, x, *o),
            L::Big(v, n, l) => bigint_to_m31_array(b, v.clone(), *n, *l),
            L::Rot(k) => rotate_right(x, *k),
            L::Shr(k) => right_shift(b, x, *k),
            L::Sigma(i) => match i {
                0 => sigma0(b, x),
                1 => sigma1(b, x),
                2 => cap_sigma0(b, x),
                _ => cap_sigma1(b, x),
            },
            L::Ch => ch(b, &x[..32], &x[32..64], &x[64..]),
            L::Maj => maj(b, &x[..32], &x[32..64], &x[64..]),
            L::Bytes => bytes_to_bits(b, x),
            L::To26 => bit_array_to_m31_26(b, x).to_vec(),
            L::To30 => bit_array_to_m31(b, x).to_vec(),
        }
    }
}
fn below(g: &mut Gen, bits: usize) -> u64 {
    let m = (1u64 << bits) - 1;
    match g.weighted(&[3, 1, 1, 1]) {
        0 => g.u64() & m,
        1 => m,
        2 => g.below(3) as u64 & m,
        _ => (1 << g.below(bits.max(1))) & m,
    }
}
fn bits32(v: u32) -> Vec<u64> {
    (0..32).map(|i| (v >> i & 1) as u64).collect()
}
fn limbs(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("M31 limbs");
    let (op, x, want): (L, Vec<u64>, Vec<u64>) = match g.below(20) {
        0 | 1 => {
            let (n, k) = (1 + g.below(29), 1 + g.below(5));
            let a: Vec<u64> = (0..k).map(|_| below(g, n)).collect();
            let mut b: Vec<u64> = (0..k).map(|_| below(g, n)).collect();
            // equal high limbs, so that the lower ones decide
            let same = g.below(k + 1);
            b[k - same..].copy_from_slice(&a[k - same..]);
            let lt = a.iter().rev().lt(b.iter().rev());
            (L::Less(n, k), [a, b].concat(), vec![lt as u64])
        }
        2 => {
            let n = 1 + g.below(29);
            let (a, b) = (below(g, n), below(g, n));
            (L::IsLess(n), vec![a, b], vec![(a < b) as u64])
        }
        3 => {
            let (a, k) = (below(g, 30), g.below(30) as u64);
            (L::IDiv(k), vec![a], vec![a >> k, a & ((1 << k) - 1)])
        }
        4 => {
            let k = 1 + g.below(6);
            let v: Vec<u64> = (0..k).map(|_| if g.chance(2, 3) { 0 } else { below(g, 31) % ((1 << 31) - 1) }).collect();
            let z = v.iter().all(|x| *x == 0) as u64;
            (L::IsZero(k), v, vec![z])
        }
        5 => {
            let v: Vec<u64> = (0..g.below(31)).map(|_| g.below(2) as u64).collect();
            let s = v.iter().enumerate().map(|(i, b)| b << i).sum();
            (L::FromBits, v, vec![s])
        }
        6 => {
            let (a, b) = (word(g), word(g));
            let s = a.wrapping_add(b) as u64;
            let sp = |v: u64| [v & 0x3ffffff, v >> 26];
            (L::Add26, [sp(a as u64), sp(b as u64)].concat(), sp(s).to_vec())
        }
        7 | 8 => {
            let (k, n) = (1 + g.below(4), 1 + g.below(15));
            let a: Vec<u64> = (0..k).map(|_| below(g, n)).collect();
            let b: Vec<u64> = (0..k).map(|_| below(g, n)).collect();
            let num = |v: &[u64]| v.iter().rev().fold(0u64, |s, x| (s << n) + x);
            let s = num(&a) + num(&b);
            let mut o: Vec<u64> = (0..k).map(|i| s >> (i * n) & ((1 << n) - 1)).collect();
            if g.bool() {
                (L::AddReduce(k, n), [a, b].concat(), o)
            } else {
                o[k - 1] = s >> ((k - 1) * n);
                (L::AddTop(k, n), [a, b].concat(), o)
            }
        }
        9 => {
            let a = word(g);
            (L::Put26, vec![a as u64 & 0x3ffffff, a as u64 >> 26], a.to_be_bytes().iter().map(|b| *b as u64).collect())
        }
        10 => {
            let a = word(g);
            (L::Put30, vec![a as u64 & 0x3fffffff, a as u64 >> 30], a.to_be_bytes().iter().map(|b| *b as u64).collect())
        }
        11 => {
            let a = below(g, 30);
            (L::Put64, vec![a], a.to_be_bytes().iter().map(|b| *b as u64).collect())
        }
        12 => {
            let v: Vec<u64> = (0..1 + g.below(3)).map(|_| below(g, 30)).collect();
            let o = v.iter().flat_map(|x| (0..30).map(move |i| x >> i & 1)).collect();
            (L::ToBits, v, o)
        }
        13 => {
            // two limbs not yet reduced: low below 2^30, high below 2^(6+overflow)
            let ov = g.below(5);
            let (lo, hi) = (below(g, 30), below(g, 6 + ov));
            let t = lo + (hi << 26);
            (L::Sep(ov), vec![lo, hi], (0..26 + 6 + ov + 1).map(|i| t >> i & 1).collect())
        }
        14 => {
            let (n, l) = (1 + g.below(30), 1 + g.below(12));
            let b = g.bytes(16);
            let v = BigInt::from_bytes_le(num_bigint::Sign::Plus, &b) % (BigInt::from(1) << (n * l));
            let mut o = vec![];
            let mut t = v.clone();
            for _ in 0..l {
                let m = BigInt::from(1) << n;
                let d: BigInt = &t % &m;
                o.push(num_traits::ToPrimitive::to_u64(&d).unwrap());
                t = t / m;
            }
            (L::Big(v, n, l), vec![0], o)
        }
        15 => {
            let a = word(g);
            let k = g.below(32);
            if g.bool() { (L::Rot(k), bits32(a), bits32(a.rotate_right(k as u32))) } else { (L::Shr(k), bits32(a), bits32(a >> k)) }
        }
        16 => {
            let a = word(g);
            let i = g.below(4);
            let r = |n| a.rotate_right(n);
            let v = [r(7) ^ r(18) ^ a >> 3, r(17) ^ r(19) ^ a >> 10, r(2) ^ r(13) ^ r(22), r(6) ^ r(11) ^ r(25)][i];
            (L::Sigma(i), bits32(a), bits32(v))
        }
        17 => {
            let (a, b, c) = (word(g), word(g), word(g));
            let x = [bits32(a), bits32(b), bits32(c)].concat();
            if g.bool() { (L::Ch, x, bits32((a & b) ^ (!a & c))) } else { (L::Maj, x, bits32((a & b) ^ (a & c) ^ (b & c))) }
        }
        18 => {
            let v: Vec<u64> = (0..1 + g.below(5)).map(|_| below(g, 8)).collect();
            let o = v.iter().rev().flat_map(|x| (0..8).map(move |i| x >> i & 1)).collect();
            (L::Bytes, v, o)
        }
        _ => {
            let n = if g.bool() { 32 } else { 26 + g.below(28) };
            let v: Vec<u64> = (0..n).map(|_| g.below(2) as u64).collect();
            let sum = |s: &[u64]| s.iter().enumerate().map(|(i, b)| b << i).sum::<u64>();
            if g.bool() || n < 30 {
                let o = vec![sum(&v[..26]), sum(&v[26..])];
                (L::To26, v, o)
            } else {
                let o = vec![sum(&v[..30]), sum(&v[30..])];
                (L::To30, v, o)
            }
        }
    };
    ctx.nontrivial(true);
    ctx.describe(|| format!("{op:?} of {x:?}"));
    let xs: Vec<F> = x.iter().map(|v| f(*v as u32)).collect();
    let o = eval::<M31Config, _>(&op, &xs, None, Lies::new(), 1);
    ensure!(o.ok, "{op:?} of {x:?} is refused: {}", o.why);
    let got: Vec<u64> = o.outs.iter().map(|v| v.to_u256().as_u64()).collect();
    ensure!(got == want, "{op:?} of {x:?} gives {got:?}, should be {want:?}");
    Ok(())
}

/// Messages whose length in bits needs a third byte.
pub fn directed(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    use sha2::Digest;
    let by: Vec<u8> = (0..8195usize).map(|k| (k * 37 + k / 256 * 11 + 1) as u8).collect();
    let want = sha2::Sha256::digest(&by).to_vec();
    let bits = |b: &[u8]| -> Vec<bool> { bytes_bits(b) };
    ctx.tag("65560 bits");
    ctx.units = 1;
    Some(match i {
        0 => {
            let x: Vec<GF2> = bits(&by).iter().map(|b| GF2::from(*b as u32)).collect();
            let w: Vec<GF2> = bits(&want).iter().map(|b| GF2::from(*b as u32)).collect();
            let o = eval::<GF2Config, _>(&Bin { cuts: vec![9, 30001] }, &x, None, Lies::new(), 1);
            if o.ok && o.outs == w { Ok(()) } else { Err(format!("binary field: wrong digest of {} bytes {}", by.len(), o.why)) }
        }
        1 => {
            let x: Vec<F> = by.iter().map(|b| f(*b as u32)).collect();
            let w: Vec<F> = want.iter().map(|b| f(*b as u32)).collect();
            let o = eval::<M31Config, _>(&M::Var, &x, None, Lies::new(), 1);
            if o.ok && o.outs == w { Ok(()) } else { Err(format!("M31: wrong digest of {} bytes {}", by.len(), o.why)) }
        }
        _ => return None,
    })
}
