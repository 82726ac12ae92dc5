//! C13: the statistics reported for a circuit.
use crate::common::*;
use crate::per_field;
use ecgen::lcgen::{self, LcOpts};
use ecgen::refeval;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::layered::{Circuit, CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::compile::CompileOptions;
use pbt::{guarded, Ctx, Gen};
use std::collections::HashSet;

fn judge<C: Config, I: InputType>(lc: &Circuit<C, I>, ctx: &mut Ctx) -> Result<(), String> {
    let s = guarded(|| lc.get_stats()).map_err(|e| format!("get_stats panics: {e}"))?;
    let flat = refeval::flatten(lc);
    let of = |k: u8| flat.iter().filter(|f| f.kind == k).count();
    let used: HashSet<(usize, usize)> = flat.iter().map(|f| (f.layer, f.output)).collect();
    let read: HashSet<usize> = flat.iter().flat_map(|f| &f.inputs).filter(|i| i.0 == 0).map(|i| i.1).collect();
    let wires: usize = refeval::layer_sizes(lc)[1..].iter().sum();
    let cost = lc.input_size() * C::COST_INPUT + wires * C::COST_VARIABLE + of(2) * C::COST_MUL + of(1) * C::COST_ADD + of(0) * C::COST_CONST;
    let seg = |n: fn(&expander_compiler::circuit::layered::Segment<C, I>) -> usize| lc.segments.iter().map(n).sum::<usize>();
    let want = [
        ("layers", s.num_layers, lc.layer_ids.len()),
        ("segments", s.num_segments, lc.segments.len()),
        ("used inputs", s.num_inputs, read.len()),
        ("multiplications in all segments", s.num_total_mul, seg(|s| s.gate_muls.len())),
        ("additions in all segments", s.num_total_add, seg(|s| s.gate_adds.len())),
        ("constants in all segments", s.num_total_cst, seg(|s| s.gate_consts.len())),
        ("multiplications", s.num_expanded_mul, of(2)),
        ("additions", s.num_expanded_add, of(1)),
        ("constants", s.num_expanded_cst, of(0)),
        ("variables", s.num_total_gates, wires),
        ("used variables", s.num_used_gates, used.len()),
        ("cost", s.total_cost, cost),
    ];
    for (n, got, w) in want {
        if got != w {
            return Err(format!("the statistics report {got} {n}, there are {w}"));
        }
    }
    let shared = lc.segments.iter().any(|s| s.child_segs.iter().any(|c| c.1.len() > 1));
    ctx.tag_if(shared, "a segment used twice by another");
    ctx.tag_if(lc.layer_ids.iter().collect::<HashSet<_>>().len() < lc.layer_ids.len(), "a segment used as two layers");
    ctx.nontrivial(flat.len() > 1 && lc.segments.len() > 1);
    Ok(())
}

fn direct<C: Config, I: InputType>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = LcOpts { max_layers: 6, max_log: 4, random: g.chance(1, 3), public: g.bool(), custom: g.bool(), common: g.chance(2, 3), any_coef: g.bool() };
    let mut lc = lcgen::gen::<C, I>(g, &o);
    if g.chance(1, 3) {
        lc = lc.find_common_parts();
    }
    ctx.describe(|| lcgen::describe(&lc));
    ctx.tag("generated directly");
    judge(&lc, ctx)
}
fn compiled<C: Config, I: InputType>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = opts(g);
    let c = case::<C>(g, ctx, o, 0);
    let Some(k) = compile::<C, I>(&c.src, &c.wants, CompileOptions::default())? else { return Ok(()) };
    ctx.tag("compiled");
    judge(&k.lc, ctx)
}
/// A witness program of one circuit, whose counts leave no choice.
fn program<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = opts(g);
    let c = case::<C>(g, ctx, o, 0);
    let Some(k) = compile::<C, NormalInputType>(&c.src, &c.wants, CompileOptions::default())? else { return Ok(()) };
    let rc = &k.solver.circuit;
    if rc.circuits.len() != 1 {
        return Ok(());
    }
    ctx.tag("program of one circuit");
    let s = guarded(|| rc.get_stats()).map_err(|e| format!("get_stats panics: {e}"))?;
    let r = &rc.circuits[&0];
    let (mut vars, mut terms) = (0, 0);
    use expander_compiler::circuit::ir::hint_normalized::Instruction as I;
    for i in &r.instructions {
        let (t, v) = match i {
            I::LinComb(l) => (l.terms.len(), 1),
            I::Mul(x) => (x.len(), 1),
            I::Hint { inputs, num_outputs, .. } => (inputs.len(), *num_outputs),
            I::SubCircuitCall { inputs, num_outputs, .. } => (inputs.len(), *num_outputs),
            I::CustomGate { inputs, .. } => (inputs.len(), 1),
            _ => (0, 1),
        };
        terms += t;
        vars += v;
    }
    for (n, got, w) in [
        ("inputs", s.num_inputs, r.num_inputs),
        ("instructions", s.num_insns, r.instructions.len()),
        ("variables", s.num_variables, vars),
        ("terms", s.num_terms, terms),
        ("constraints", s.num_constraints, r.constraints.len()),
    ] {
        if got != w {
            return Err(format!("the statistics report {got} {n}, there are {w}"));
        }
    }
    ctx.nontrivial(r.instructions.len() > 2);
    Ok(())
}
fn c13_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.weighted(&[4, 4, 1, 1, 1]) {
        0 => direct::<C, NormalInputType>(g, ctx),
        1 => direct::<C, CrossLayerInputType>(g, ctx),
        2 => compiled::<C, NormalInputType>(g, ctx),
        3 => compiled::<C, CrossLayerInputType>(g, ctx),
        _ => program::<C>(g, ctx),
    }
}
pub fn c13(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c13_f, g, ctx)
}
