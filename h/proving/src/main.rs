//! Z04-Z06: proofs of computations, and data shared between processes.
#[path = "../../zk/src/acc.rs"]
mod acc;
#[path = "../../zk/src/hist.rs"]
mod hist;
#[path = "../../zk/src/kern.rs"]
mod kern;
mod sys;
use acc::*;
use ecgen::*;
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::context::ComputationGraph;
use expander_compiler::zkcuda::proving_system::*;
use hist::*;
use pbt::{guarded, Ctx, Gen, Prop};
use serdes::ExpSerde;
use sys::*;

macro_rules! per_field {
    ($g:expr, $f:ident, $($a:expr),*) => {
        match $g.weighted(&[4, 4, 2, 1, 1]) {
            0 => $f::<M31Config>($($a),*),
            1 => $f::<BN254Config>($($a),*),
            2 => $f::<GF2Config>($($a),*),
            3 => $f::<GoldilocksConfig>($($a),*),
            _ => $f::<BabyBearConfig>($($a),*),
        }
    };
}

mod known;
mod z05;
mod z06;

pub fn bytes<T: ExpSerde>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_into(&mut b).unwrap();
    b
}
pub fn back<T: ExpSerde>(b: &[u8]) -> Result<T, String> {
    let mut r = b;
    let x = guarded(|| T::deserialize_from(&mut r)).map_err(|e| format!("reading back panicked: {e}"))?.map_err(|e| format!("reading back failed: {e:?}"))?;
    if !r.is_empty() {
        return Err(format!("{} bytes left over", r.len()));
    }
    Ok(x)
}

pub struct Made<C: Config> {
    pub t: History<C>,
    pub cg: ComputationGraph<C>,
    pub mem: Vec<Vec<Sf<C>>>,
}
/// A computation with its memories; None where there is nothing to prove.
pub fn made<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<Option<Made<C>>, String> {
    let t = History::<C>::gen(g, &HOpts { ops: 5, calls: 3, transpose: true, hints: true, asserts: true, max: 16, split: false });
    ctx.describe(|| t.describe());
    let Some(mut r) = run_all(&t, ctx)? else { return Ok(None) };
    let Some(cg) = compile(&t, &mut r)? else { return Ok(None) };
    let ok = guarded(|| r.cx.solve_witness()).map_err(|e| format!("solving panicked: {e}"))?;
    ok.map_err(|e| format!("solving failed: {e}"))?;
    let mem = guarded(|| r.cx.export_device_memories()).map_err(|e| format!("exporting panicked: {e}"))?;
    Ok(Some(Made { t, cg, mem }))
}
pub fn permuted<C: Config>(cg: &ComputationGraph<C>) -> bool {
    cg.proof_templates().iter().any(|t| t.commitment_bit_orders().iter().any(|o| o.iter().enumerate().any(|(i, a)| i != *a)))
}
pub fn most_parallel<C: Config>(cg: &ComputationGraph<C>) -> usize {
    cg.proof_templates().iter().map(|t| t.parallel_count().next_power_of_two()).max().unwrap_or(1)
}
fn note<C: Sys>(m: &Made<C>, s: &Which, ctx: &mut Ctx) {
    ctx.tag(s.name());
    ctx.tag(format!("field {}", field_bits::<C>()));
    let ts = m.cg.proof_templates();
    ctx.tag(format!("launches {}", ts.len()));
    ctx.tag_if(ts.iter().any(|t| t.is_broadcast().iter().any(|b| *b)), "broadcast argument");
    ctx.tag_if(ts.iter().any(|t| m.cg.kernels()[t.kernel_id()].hint_solver().is_some()), "hints");
    ctx.tag(format!("slices {}", most_parallel(&m.cg)));
    ctx.nontrivial(ts.iter().any(|t| t.parallel_count() > 1 && t.commitment_indices().len() > 1));
}

fn z04_f<C: Sys>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let Some(m) = made::<C>(g, ctx)? else { return Ok(()) };
    if m.t.holds.contains(&false) || permuted(&m.cg) || m.cg.proof_templates().is_empty() {
        ctx.tag("nothing true to prove");
        return Ok(());
    }
    let s = Which::pick::<C>(g, most_parallel(&m.cg));
    note(&m, &s, ctx);
    ctx.describe(|| format!("{}\n{}", s.name(), m.t.describe()));
    let through = g.chance(1, 3);
    prove_and_verify(&m, &s, through, ctx)
}
/// An honest proof of what holds is accepted; `through`: by others, who received it.
pub fn prove_and_verify<C: Sys>(m: &Made<C>, s: &Which, through: bool, ctx: &mut Ctx) -> Result<(), String> {
    if s.kind == Kind::Dummy {
        let (ps, vs) = guarded(|| <DummyProvingSystem<C> as ProvingSystem<C>>::setup(&m.cg)).map_err(|e| format!("setup panicked: {e}"))?;
        let mut p = guarded(|| <DummyProvingSystem<C> as ProvingSystem<C>>::prove(&ps, &m.cg, m.mem.clone())).map_err(|e| format!("proving panicked: {e}"))?;
        let mut cg = m.cg.clone();
        if through {
            p = back(&bytes(&p)).map_err(|e| format!("proof: {e}"))?;
            cg = back(&bytes(&cg)).map_err(|e| format!("graph: {e}"))?;
        }
        return match guarded(|| <DummyProvingSystem<C> as ProvingSystem<C>>::verify(&vs, &cg, &p)) {
            Ok(true) => Ok(()),
            Ok(false) => Err("an honest proof is rejected".into()),
            Err(e) => Err(format!("verifying an honest proof panicked: {e}")),
        };
    }
    let (mut ps, mut vs) = guarded(|| s.setup::<C>(&m.cg)).map_err(|e| format!("setup panicked: {e}"))?;
    let mut cg = m.cg.clone();
    if through {
        ctx.tag("through bytes");
        ps = back(&bytes(&ps)).map_err(|e| format!("prover keys: {e}"))?;
        vs = back(&bytes(&vs)).map_err(|e| format!("verifier keys: {e}"))?;
        cg = back(&bytes(&cg)).map_err(|e| format!("graph: {e}"))?;
    }
    let mut p = s.prove::<C>(&ps, &cg, &m.mem).map_err(|e| format!("proving failed: {e}"))?;
    if through {
        p = back(&bytes(&p)).map_err(|e| format!("proof: {e}"))?;
        cg = back(&bytes(&cg)).map_err(|e| format!("graph: {e}"))?;
    }
    let lens: Vec<usize> = p.commitments.iter().map(|c| Commitment::<C>::vals_len(c)).collect();
    if lens != cg.commitments_lens() {
        return Err(format!("commitments to {lens:?} values, of memories of {:?}", cg.commitments_lens()));
    }
    match s.verify::<C>(&vs, &cg, &p) {
        Ok(true) => Ok(()),
        Ok(false) => Err("an honest proof is rejected".into()),
        Err(e) => Err(format!("verifying an honest proof panicked: {e}")),
    }
}
fn z04(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, z04_f, g, ctx)
}

fn p(id: &'static str, rule: &'static str, case: fn(&mut Gen, &mut Ctx) -> Result<(), String>, quick: usize) -> Prop {
    Prop {
        id,
        rule,
        case,
        directed: None,
        quick,
        thorough: quick * 100,
        threads: 8,
        assumptions: &["the stand-ins for Expander's GKR prover, verifier, polynomial commitment, MPI and shared memory keep the contracts of the originals"],
        min_nontrivial_pct: 5,
    }
}
fn main() {
    if std::env::args().any(|a| a == "--worker") && std::env::var("PBT_VERBOSE").is_err() {
        // the provers report their progress
        use std::os::fd::AsRawFd;
        extern "C" {
            fn dup2(a: i32, b: i32) -> i32;
        }
        let f = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        unsafe { dup2(f.as_raw_fd(), 2) };
    }
    z06::no_zombies();
    pbt::main(&[
        Prop { directed: Some(known::z04), ..p("Z04", "a launch of at least two slices with at least two memories", z04, 40_000) },
        Prop { directed: Some(known::z05), ..p("Z05", "the committed memories do not satisfy the verified graph", z05::z05, 40_000) },
        Prop { threads: 1, ..p("Z06", "several ranks, and a proof or at least two operations", z06::z06, 1_500) },
    ])
}
