//! Running histories, and what the circuits of a graph accept.
use crate::hist::*;
use crate::kern;
use arith::Field as _;
use ecgen::*;
use expander_compiler::circuit::config::Config;
use expander_compiler::zkcuda::context::{ComputationGraph, ProofTemplate};
use pbt::{guarded, Ctx};

/// Runs a history; Ok(None): refused, as it may be.
pub fn run_all<C: Config>(t: &History<C>, ctx: &mut Ctx) -> Result<Option<Ran<C>>, String> {
    match Ran::run(t) {
        Ok(r) => Ok(Some(r)),
        Err(Stop::Failed(e)) => Err(e),
        Err(Stop::Refused(i, e)) => {
            let Op::Call { k, .. } = &t.ops[i] else { return Err(e) };
            if e.contains("kernel") && !e.starts_with("op") {
                if never_holds::<C>(&t.kernels[*k]) {
                    ctx.tag("kernel refused");
                    return Ok(None);
                }
                return Err(e);
            }
            if e.contains("Detected illegal shape operation") && !t.pow2 && !t.plain {
                ctx.tag("layout refused");
                return Ok(None);
            }
            Err(e)
        }
    }
}
/// No input among a few satisfies the kernel.
fn never_holds<C: Config>(k: &kern::Kern) -> bool {
    let mut r = Rnd(7);
    !k.asserts.is_empty()
        && (0..20).all(|i| {
            let ins: Vec<Vec<Fe<C>>> = k
                .args
                .iter()
                .map(|a| (0..prod(&a.shape)).map(|_| if i % 2 == 0 { fu::<C>(r.u64() % 3) } else { r.fe::<C>() }).collect())
                .collect();
            !k.eval::<C>(&ins).holds
        })
}

/// The memory as an argument of this call reads it.
pub fn ordered<T: Clone>(m: &[T], order: &[usize]) -> Result<Vec<T>, String> {
    if m.len() != 1 << order.len() {
        return Err(format!("a commitment of length {} is read in a bit order of {} bits", m.len(), order.len()));
    }
    let mut seen = vec![false; order.len()];
    for &b in order {
        if b >= seen.len() || seen[b] {
            return Err(format!("{order:?} is no bit order"));
        }
        seen[b] = true;
    }
    Ok((0..m.len()).map(|i| m[order.iter().enumerate().map(|(j, a)| (i >> j & 1) << a).sum::<usize>()].clone()).collect())
}
/// Whether the circuit of a launch accepts the memories on every slice.
pub fn accepts<C: Config>(cg: &ComputationGraph<C>, t: &ProofTemplate, mem: &[Vec<Sf<C>>]) -> Result<bool, String> {
    let k = cg.kernels().get(t.kernel_id()).ok_or("no such kernel")?;
    let lc = k.layered_circuit();
    let info = k.layered_circuit_input();
    if info.len() != t.commitment_indices().len() || info.len() != t.is_broadcast().len() || info.len() != t.commitment_bit_orders().len() {
        return Err(format!("{} inputs, {} commitments, {} broadcast flags", info.len(), t.commitment_indices().len(), t.is_broadcast().len()));
    }
    let mut ms = vec![];
    for (i, o) in t.commitment_indices().iter().zip(t.commitment_bit_orders()) {
        ms.push(ordered(mem.get(*i).ok_or("no such memory")?, o)?);
    }
    for ((v, m), b) in info.iter().zip(&ms).zip(t.is_broadcast()) {
        let want = if *b { v.len } else { v.len * t.parallel_count() };
        if m.len() != want {
            return Err(format!("a commitment of length {}, where the launch takes {want}", m.len()));
        }
    }
    let mut all = true;
    for p in 0..t.parallel_count() {
        let mut x = vec![Sf::<C>::zero(); lc.input_size()];
        for ((v, m), b) in info.iter().zip(&ms).zip(t.is_broadcast()) {
            let at = if *b { 0 } else { p * v.len };
            x[v.offset..v.offset + v.len].copy_from_slice(&m[at..at + v.len]);
        }
        let (_, c) = guarded(|| lc.eval_with_public_inputs_simd(x, &[])).map_err(|e| format!("evaluating a circuit panicked: {e}"))?;
        all &= c.iter().all(|c| *c);
    }
    Ok(all)
}

/// None: refused, as it may be.
pub fn compile<C: Config>(t: &History<C>, r: &mut Ran<C>) -> Result<Option<ComputationGraph<C>>, String> {
    match guarded(|| r.cx.compile_computation_graph()) {
        Ok(Ok(g)) => Ok(Some(g)),
        // a constraint may be violated whatever the inputs
        Ok(Err(e)) if e.to_string().contains("constraint is not zero") && t.holds.contains(&false) => Ok(None),
        Ok(Err(e)) => Err(format!("the graph does not compile: {e}")),
        Err(e) if e.contains("Detected illegal shape operation") && !t.pow2 && !t.plain => Ok(None),
        Err(e) => Err(format!("compiling the graph panicked: {e}")),
    }
}
