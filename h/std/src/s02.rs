//! S02: Poseidon.
use crate::common::*;
use crate::ev::{Lie, Lies};
use circuit_std_rs::poseidon::poseidon_m31::PoseidonM31Params;
use circuit_std_rs::poseidon::poseidon_u32::PoseidonParams;
use circuit_std_rs::utils::register_hint;
use ethnum::U256;
use expander_compiler::circuit::config::{Config, M31Config};
use expander_compiler::frontend::{HintRegistry, RootAPI, Variable, M31};
use arith::Field;
use pbt::{ensure, guarded, Ctx, Gen};
use tiny_keccak::{Hasher, Keccak};

const P: u64 = (1 << 31) - 1;

#[derive(Clone, Debug)]
pub struct Par {
    pub width: usize,
    pub rate: usize,
    pub full: usize,
    pub part: usize,
}

/// The reference: constants from the hash chain over the seed, circulant MDS, x^5.
pub struct Ref {
    p: Par,
    rc: Vec<Vec<u64>>,
    mds: Vec<u64>,
}
fn keccak(x: &[u8]) -> [u8; 32] {
    let mut k = Keccak::v256();
    let mut o = [0u8; 32];
    k.update(x);
    k.finalize(&mut o);
    o
}
impl Ref {
    pub fn new(p: &Par) -> Self {
        use gkr_hashers::poseidon::r#impls::*;
        let mut h = keccak(format!("{}_{}_{}", POSEIDON_SEED_PREFIX, "Mersenne 31", p.width).as_bytes());
        let mut rc = vec![];
        for _ in 0..p.full + p.part {
            let mut row = vec![];
            for _ in 0..p.width {
                h = keccak(&h);
                row.push(u32::from_le_bytes([h[0], h[1], h[2], h[3]]) as u64 % P);
            }
            rc.push(row);
        }
        let mds: Vec<u64> = match p.width {
            8 => MATRIX_CIRC_MDS_8_SML_ROW.iter().map(|x| *x as u64).collect(),
            12 => MATRIX_CIRC_MDS_12_SML_ROW.iter().map(|x| *x as u64).collect(),
            _ => MATRIX_CIRC_MDS_16_SML_ROW.iter().map(|x| *x as u64).collect(),
        };
        Ref { p: p.clone(), rc, mds }
    }
    pub fn permute(&self, s: &mut Vec<u64>) {
        let (w, half) = (self.p.width, self.p.full / 2);
        for r in 0..self.p.full + self.p.part {
            let t: Vec<u64> = (0..w).map(|i| (s[i] + self.rc[r][i]) % P).collect();
            for i in 0..w {
                let mut a = 0u128;
                for j in 0..w {
                    a += t[j] as u128 * self.mds[(i + j) % w] as u128;
                }
                s[i] = (a % P as u128) as u64;
            }
            let n = if r < half || r >= half + self.p.part { w } else { 1 };
            for x in s.iter_mut().take(n) {
                let x2 = *x * *x % P;
                *x = x2 * x2 % P * *x % P;
            }
        }
    }
    /// sponge: the message, zero padded to whole blocks, is added to the last `rate` entries
    pub fn hash(&self, m: &[u64]) -> Vec<u64> {
        let (w, r) = (self.p.width, self.p.rate);
        let mut s = vec![0u64; w];
        for c in m.chunks(r) {
            for (i, x) in c.iter().enumerate() {
                s[w - r + i] = (s[w - r + i] + x) % P;
            }
            self.permute(&mut s);
        }
        s
    }
}

#[derive(Clone, Debug, PartialEq)]
enum What {
    Permute,
    Hash,
    Flatten,
}
#[derive(Clone)]
struct Pos {
    p: Par,
    w: What,
}
impl<C: Config> Gadget<C> for Pos {
    fn apply<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let q = PoseidonM31Params::new(b, self.p.rate, self.p.width, self.p.full, self.p.part);
        match self.w {
            What::Permute => {
                let mut s = x.to_vec();
                q.permute(b, &mut s);
                s
            }
            What::Hash => q.hash_to_state(b, x),
            What::Flatten => q.hash_to_state_flatten(b, x),
        }
    }
}
pub fn reg() -> HintRegistry<M31> {
    let mut h = HintRegistry::new();
    register_hint(&mut h);
    h
}

pub fn case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let width = *g.pick(&[8usize, 12, 16]);
    let (full, part) = match g.weighted(&[3, 2, 2]) {
        0 => (8, 14),
        1 => (2 * g.below(5), g.below(6)),
        _ => (2, 1),
    };
    let p = Par { width, rate: 1 + g.below(width), full, part };
    let w = match g.weighted(&[2, 4, 2]) {
        0 => What::Permute,
        1 => What::Hash,
        _ => What::Flatten,
    };
    let len = if w == What::Permute { width } else if g.chance(1, 100) { 40 + g.below(300) } else { g.small(3 * p.rate + 2).min(40) };
    let x: Vec<M31> = (0..len).map(|_| felt::<M31Config>(g)).collect();
    let xi: Vec<u64> = x.iter().map(|v| v.to_u256().as_u64()).collect();
    ctx.describe(|| format!("{w:?} with {p:?} on {xi:?}"));
    ctx.tag(format!("{w:?}"));
    ctx.tag(format!("width {width}"));
    ctx.tag_if(len == 0, "empty message");
    ctx.tag_if(w != What::Permute && len % p.rate != 0, "partial block");
    ctx.nontrivial(full + part > 0 && xi.iter().any(|v| *v != 0));
    let r = Ref::new(&p);
    let want = if w == What::Permute {
        let mut s = xi.clone();
        r.permute(&mut s);
        s
    } else {
        r.hash(&xi)
    };
    // the native code
    let x32: Vec<u32> = xi.iter().map(|v| *v as u32).collect();
    let nat = guarded(|| {
        let q = PoseidonParams::new(p.rate, width, full, part);
        if w == What::Permute {
            let mut s = x32.clone();
            q.permute(&mut s);
            (s, None)
        } else {
            (q.hash_to_state(&x32), Some(q.hash(&x32)))
        }
    }).map_err(|e| format!("the native Poseidon panicked: {e}"))?;
    let n64: Vec<u64> = nat.0.iter().map(|v| *v as u64).collect();
    ensure!(n64 == want, "native {w:?}: {n64:?}, the definition gives {want:?}");
    if let Some(h) = nat.1 {
        ensure!(h.iter().map(|v| *v as u64).collect::<Vec<_>>() == want[..p.rate], "native hash: {h:?} of state {want:?} with rate {}", p.rate);
    }
    // the gadget
    let gad = Pos { p: p.clone(), w: w.clone() };
    let seed = g.u64();
    let o = eval::<M31Config, _>(&gad, &x, Some(reg()), Lies::new(), seed);
    ensure!(o.ok && o.hint_errors.is_empty(), "the gadget refuses an honest run: {} {:?}", o.why, o.hint_errors);
    let got: Vec<u64> = o.outs.iter().map(|v| v.to_u256().as_u64()).collect();
    ensure!(got == want, "gadget {w:?}: {got:?}, the definition gives {want:?}");
    if !o.free.is_empty() {
        let i = g.below(o.free.len());
        let mut l = Lies::new();
        l.insert(i, if g.bool() { Lie::Add(U256::new(1 + g.below(5) as u128)) } else { Lie::Set(felt::<M31Config>(g).to_u256()) });
        let o2 = eval::<M31Config, _>(&gad, &x, Some(reg()), l.clone(), seed);
        ctx.tag("lying copies");
        if o2.free.iter().zip(&o.free).any(|(a, b)| a.value != b.value) {
            ensure!(!o2.ok, "a false copy is accepted: {l:?}");
        }
    }
    // compiled, now and then
    if g.chance(1, 12) && len > 0 {
        ctx.tag("compiled");
        let wv: Vec<M31> = want.iter().map(|v| M31::from(*v as u32)).collect();
        let mut bad = wv.clone();
        let k = g.below(bad.len());
        bad[k] += M31::ONE;
        let r = e2e::<M31Config, _>(&gad, &x, &[wv, bad], reg)?;
        ensure!(r[0], "the compiled circuit rejects the true output");
        ensure!(!r[1], "the compiled circuit accepts a wrong output (entry {k})");
    }
    Ok(())
}
