//! C08: the passes over layered circuits.
use crate::common::*;
use crate::opts::sound;
use crate::per_field;
use ecgen::lcgen::{self, LcOpts};
use ecgen::refeval;
use ecgen::*;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::layered::{Circuit, Coef, CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::compile::CompileOptions;
use pbt::{guarded, Ctx, Gen};

/// What a circuit computes on one input: every output, or None where it is not the same for all draws.
fn meaning<C: Config, I: InputType>(lc: &Circuit<C, I>, x: &[Fe<C>], p: &[Fe<C>], seeds: &[u64]) -> (Vec<Option<Fe<C>>>, Option<bool>) {
    let all: Vec<(Vec<Fe<C>>, bool)> = seeds
        .iter()
        .map(|&s| {
            let o = refeval::layered(lc, x, p, s);
            (o.outputs, o.sat)
        })
        .collect();
    let first = &all[0];
    let outs = (0..first.0.len()).map(|i| all.iter().all(|a| a.0[i] == first.0[i]).then(|| first.0[i])).collect();
    (outs, all.iter().all(|a| a.1 == first.1).then_some(first.1))
}

fn judge<C: Config, I: InputType>(lc: Circuit<C, I>, g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let random = refeval::flatten(&lc).iter().any(|f| matches!(f.coef, Coef::Random));
    let seeds: Vec<u64> = if random { vec![1, 2, 3] } else { vec![1] };
    let n_in = if is_gf2::<C>() { 12 } else { 3 };
    let ins: Vec<_> = (0..n_in)
        .map(|i| if i == 0 { lcgen::inputs(&lc, g) } else { ((0..lc.input_size()).map(|_| rand_fe::<C>(g)).collect(), (0..lc.num_public_inputs).map(|_| rand_fe::<C>(g)).collect()) })
        .collect();
    let before: Vec<_> = ins.iter().map(|(x, p)| meaning(&lc, x, p, &seeds)).collect();
    let mut cur = lc.clone();
    let mut names = vec![];
    let n = 1 + g.small(5);
    for _ in 0..n {
        let which = g.below(4);
        let name = ["dedup_gates", "expand_small_segments", "find_common_parts", "sort_everything"][which];
        names.push(name);
        let next = guarded(|| {
            let mut c = cur.clone();
            match which {
                0 => c.dedup_gates(),
                1 => c = c.expand_small_segments(),
                2 => c = c.find_common_parts(),
                _ => c.sort_everything(),
            }
            c
        })
        .map_err(|e| format!("after {names:?}: {e}"))?;
        let at = |e: String| format!("after {names:?}: {e}");
        sound(&next).map_err(at)?;
        next.validate().map_err(|e| at(format!("the circuit no longer validates: {e}")))?;
        if next.input_size() != lc.input_size()
            || next.num_public_inputs != lc.num_public_inputs
            || next.num_actual_outputs != lc.num_actual_outputs
            || next.expected_num_output_zeroes != lc.expected_num_output_zeroes
        {
            return Err(at(format!(
                "interface {} inputs {} public {} outputs {} zero, was {} {} {} {}",
                next.input_size(),
                next.num_public_inputs,
                next.num_actual_outputs,
                next.expected_num_output_zeroes,
                lc.input_size(),
                lc.num_public_inputs,
                lc.num_actual_outputs,
                lc.expected_num_output_zeroes
            )));
        }
        if next.layer_ids.len() > lc.layer_ids.len() {
            return Err(at(format!("{} layers instead of {}", next.layer_ids.len(), lc.layer_ids.len())));
        }
        if which != 3 {
            for ((x, p), w) in ins.iter().zip(&before) {
                let r = meaning(&next, x, p, &seeds);
                if r != *w && (!random || !is_gf2::<C>()) {
                    let sh = |r: &(Vec<Option<Fe<C>>>, Option<bool>)| format!("{:?} {:?}", r.0.iter().map(|v| v.as_ref().map(show::<C>)).collect::<Vec<_>>(), r.1);
                    return Err(at(format!("on {} with public {}: {} instead of {}", show_all::<C>(x), show_all::<C>(p), sh(&r), sh(w))));
                }
                ctx.units += 1;
            }
        }
        if which == 2 && next.segments.len() > cur.segments.len() {
            ctx.tag("shared a common part");
        }
        if which == 1 && next.segments.len() < cur.segments.len() {
            ctx.tag("expanded or dropped a segment");
        }
        let changed = next.segments != cur.segments;
        ctx.nontrivial(changed && which != 3);
        cur = next;
    }
    Ok(())
}

fn direct<C: Config, I: InputType>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = LcOpts { max_layers: 4, max_log: 4, random: g.chance(1, 3), public: g.bool(), custom: g.bool(), common: g.chance(2, 3), any_coef: g.bool() };
    let lc = lcgen::gen::<C, I>(g, &o);
    ctx.describe(|| lcgen::describe(&lc));
    ctx.tag("generated directly");
    judge(lc, g, ctx)
}
fn compiled<C: Config, I: InputType>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = opts(g);
    let c = case::<C>(g, ctx, o, 0);
    let Some(k) = compile::<C, I>(&c.src, &c.wants, CompileOptions::default())? else { return Ok(()) };
    ctx.tag("compiled");
    judge(k.lc, g, ctx)
}
fn c08_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.weighted(&[4, 4, 1, 1]) {
        0 => direct::<C, NormalInputType>(g, ctx),
        1 => direct::<C, CrossLayerInputType>(g, ctx),
        2 => compiled::<C, NormalInputType>(g, ctx),
        _ => compiled::<C, CrossLayerInputType>(g, ctx),
    }
}
pub fn c08(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c08_f, g, ctx)
}
