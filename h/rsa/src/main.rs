//! R01: the RSA program, run as users run it, and the circuit and solver it leaves behind.
use arith::Field;
use ethnum::U256;
use expander_compiler::circuit::config::{BN254Config, CircuitField};
use expander_compiler::circuit::layered::witness::Witness;
use expander_compiler::circuit::layered::{Circuit, NormalInputType};
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::WitnessSolver;
use num_bigint::BigUint;
use pbt::{ensure, guarded, Ctx, Gen, Prop};
use serdes::ExpSerde;
use std::sync::OnceLock;

type C = BN254Config;
type F = CircuitField<C>;
const LIMBS: usize = 18;
const STEPS: usize = 17;
const HASHES: usize = 1504 + 1472;

/// What the program leaves behind.
struct Made {
    circuit: Circuit<C, NormalInputType>,
    solver: WitnessSolver<C>,
    witness: Witness<C>,
}
fn made() -> Result<&'static Made, String> {
    static M: OnceLock<Result<Made, String>> = OnceLock::new();
    M.get_or_init(|| {
        let dir = std::env::temp_dir().join(format!("verif-rsa-{}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| format!("scratch: {e}"))?;
        let exe = std::env::current_exe().unwrap().with_file_name("rsa_circuit");
        let o = std::process::Command::new(exe).current_dir(&dir).output();
        let read = |n: &str| std::fs::read(dir.join(n)).map_err(|e| format!("the program left no {n}: {e}"));
        let r = (|| {
            let o = o.map_err(|e| format!("the program does not start: {e}"))?;
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            ensure!(o.status.success(), "the program ends with {}: {}", o.status, err.chars().take(400).collect::<String>());
            fn load<T: ExpSerde>(n: &str, b: Vec<u8>) -> Result<T, String> {
                let mut s = &b[..];
                let t = guarded(|| T::deserialize_from(&mut s)).map_err(|e| format!("loading {n} panics: {e}"))?.map_err(|e| format!("{n} does not load: {e:?}"))?;
                ensure!(s.is_empty(), "{n}: {} bytes are left", s.len());
                Ok(t)
            }
            Ok(Made {
                circuit: load("circuit_rsa.txt", read("circuit_rsa.txt")?)?,
                witness: load("witness_rsa.txt", read("witness_rsa.txt")?)?,
                solver: load("witness_rsa_solver.txt", read("witness_rsa_solver.txt")?)?,
            })
        })();
        let _ = std::fs::remove_dir_all(&dir);
        r
    })
    .as_ref()
    .map_err(|e| e.clone())
}

struct Asg(Vec<F>);
impl DumpLoadTwoVariables<F> for Asg {
    fn dump_into(&self, vars: &mut Vec<F>, _: &mut Vec<F>) {
        vars.extend(&self.0);
    }
    fn load_from(&mut self, _: &mut &[F], _: &mut &[F]) {
        unreachable!()
    }
    fn num_vars(&self) -> (usize, usize) {
        (self.0.len(), 0)
    }
}

fn zero() -> BigUint {
    BigUint::from(0u32)
}
fn one() -> BigUint {
    BigUint::from(1u32)
}
fn top() -> BigUint {
    one() << 2048u32
}
fn random(g: &mut Gen, bits: usize) -> BigUint {
    let b = g.bytes(bits.div_ceil(8).max(1));
    BigUint::from_bytes_le(&b) & ((one() << bits as u32) - one())
}
/// Dense, short, around a power of two or a limb boundary, all ones.
fn num(g: &mut Gen, bits: usize) -> BigUint {
    let m = (one() << bits as u32) - one();
    (match g.weighted(&[5, 2, 2, 2, 1]) {
        0 => random(g, bits),
        1 => {
            let k = 1 + g.below(bits);
            random(g, k)
        }
        2 => (one() << g.below(bits) as u32) + BigUint::from(g.below(3) as u32) - one(),
        3 => (one() << (g.below(LIMBS) * 120) as u32) * BigUint::from(1 + g.below(255) as u32) - BigUint::from(g.below(2) as u32),
        _ => m.clone() - BigUint::from(g.below(3) as u32),
    }) & m
}
fn limbs(x: &BigUint) -> Vec<F> {
    let m = (one() << 120u32) - one();
    let mut x = x.clone();
    (0..LIMBS)
        .map(|_| {
            let d = (&x & &m).to_u64_digits();
            x >>= 120u32;
            F::from_u256(U256::new(d.first().copied().unwrap_or(0) as u128 | (d.get(1).copied().unwrap_or(0) as u128) << 64))
        })
        .collect()
}

#[derive(Clone)]
struct Claim {
    x: BigUint,
    n: BigUint,
    powers: Vec<BigUint>,
    carries: Vec<BigUint>,
    result: BigUint,
}
impl Claim {
    fn honest(x: BigUint, n: BigUint) -> Claim {
        let (mut powers, mut carries, mut last) = (vec![], vec![], x.clone());
        for i in 0..STEPS {
            let p = &last * if i + 1 == STEPS { &x } else { &last };
            last = &p % &n;
            carries.push(&p / &n);
            powers.push(last.clone());
        }
        Claim { x, n, powers, carries, result: last }
    }
    fn true_(&self) -> bool {
        let mut last = &self.x;
        for i in 0..STEPS {
            let b = if i + 1 == STEPS { &self.x } else { last };
            if last * b != &self.powers[i] + &self.carries[i] * &self.n {
                return false;
            }
            last = &self.powers[i];
        }
        self.result == *last
    }
    fn inputs(&self) -> Vec<F> {
        let mut v = limbs(&self.x);
        v.extend(limbs(&self.n));
        for p in self.powers.iter().chain(&self.carries).chain([&self.result]) {
            v.extend(limbs(p));
        }
        v.resize(v.len() + HASHES, F::ZERO);
        v
    }
}

fn nudge(g: &mut Gen, x: &BigUint) -> BigUint {
    let d = one() << g.below(2048) as u32;
    let y = match g.below(4) {
        0 => x + one(),
        1 if *x > zero() => x - one(),
        2 if *x >= d => x - d,
        _ => x + d,
    };
    y % top()
}
/// A false claim, or one that is true in another way.
fn spoil(g: &mut Gen, c: &mut Claim) {
    let i = g.below(STEPS);
    match g.weighted(&[3, 3, 3, 3, 3, 2]) {
        0 => c.result = nudge(g, &c.result),
        1 => {
            c.result = nudge(g, &c.result);
            c.powers[STEPS - 1] = c.result.clone();
        }
        2 => c.powers[i] = nudge(g, &c.powers[i]),
        3 => c.carries[i] = nudge(g, &c.carries[i]),
        4 => {
            // one wrong step, the rest follows from it
            c.powers[i] = nudge(g, &c.powers[i]) % &c.n;
            for j in i + 1..STEPS {
                let p = &c.powers[j - 1] * if j + 1 == STEPS { &c.x } else { &c.powers[j - 1] };
                c.powers[j] = &p % &c.n;
                c.carries[j] = &p / &c.n;
            }
            c.result = c.powers[STEPS - 1].clone();
        }
        _ => {
            // the last remainder is not reduced: still the same product
            let k = STEPS - 1;
            let r = &c.powers[k] + &c.n;
            if c.carries[k] > zero() && r < top() {
                c.powers[k] = r.clone();
                c.carries[k] = &c.carries[k] - one();
                c.result = r;
            } else {
                c.result = nudge(g, &c.result);
            }
        }
    }
}

fn case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let m = made()?;
    if g.chance(1, 20) {
        ctx.tag("the program's own witness");
        let r = m.circuit.run(&m.witness);
        ensure!(!r.is_empty() && r.iter().all(|x| *x), "the program's own witness is refused by the circuit it was made for");
        return Ok(());
    }
    let batch = if g.chance(1, 3) { 2 + g.below(2) } else { 1 };
    let mut cl = vec![];
    for k in 0..batch {
        let bits = *g.pick(&[2048, 2048, 2048, 2047, 1024, 240]);
        let n = num(g, bits).max(BigUint::from(2u32));
        // as large as a number may be whose quotients still fit
        let x = if g.chance(1, 4) { num(g, 2048) } else { num(g, 2048) % &n };
        let x = if &x * &x / &n < top() { x } else { x % &n };
        let mut c = Claim::honest(x, n);
        if (k == 0 && batch > 1 || batch == 1) && g.chance(3, 5) || g.chance(1, 4) {
            spoil(g, &mut c);
        }
        cl.push(c);
    }
    ctx.describe(|| cl.iter().map(|c| format!("{:x}^65537 mod {:x} = {:x} ({})", c.x, c.n, c.result, c.true_())).collect::<Vec<_>>().join("; "));
    ctx.nontrivial(cl.iter().any(|c| c.x > one()));
    for c in &cl {
        ctx.tag(if c.true_() { "true claim" } else { "false claim" });
        if c.true_() {
            ensure!(c.x.modpow(&BigUint::from(65537u32), &c.n) == &c.result % &c.n, "the harness's own power");
        }
    }
    let r = if batch > 1 {
        ctx.tag("batch");
        let a: Vec<Asg> = cl.iter().map(|c| Asg(c.inputs())).collect();
        let w = guarded(|| m.solver.solve_witnesses(&a)).map_err(|e| format!("solving panics: {e}"))?.map_err(|e| format!("solving fails: {e:?}"))?;
        m.circuit.run(&w)
    } else {
        let a = Asg(cl[0].inputs());
        let w = guarded(|| m.solver.solve_witness(&a)).map_err(|e| format!("solving panics: {e}"))?.map_err(|e| format!("solving fails: {e:?}"))?;
        m.circuit.run(&w)
    };
    ensure!(r.len() >= batch, "{} verdicts for {batch} assignments", r.len());
    for (c, ok) in cl.iter().zip(r) {
        ensure!(ok == c.true_(), "{:x}^65537 mod {:x} = {:x} is {}", c.x, c.n, c.result, if ok { "accepted with wrong steps" } else { "refused with right steps" });
    }
    Ok(())
}

fn main() {
    pbt::main(&[Prop {
        id: "R01",
        rule: "a base above one, with honest or altered steps",
        case,
        directed: None,
        quick: 60,
        thorough: 2000,
        threads: 8,
        assumptions: &["limbs of the claim are below 2^120; the hash part of the circuit is not constrained upstream and is left zero"],
        min_nontrivial_pct: 50,
    }]);
}
