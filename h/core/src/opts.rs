//! C02, C03, C06, C07: options, determinism, structure, the two output forms.
use crate::common::*;
use crate::per_field;
use ecgen::refeval;
use ecgen::*;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir::hint_normalized::RootCircuit;
use expander_compiler::circuit::layered::{Circuit, Coef, CrossLayerInputType, InputType, InputUsize, NormalInputType};
use expander_compiler::compile::CompileOptions;
use pbt::{Ctx, Gen};
use serdes::ExpSerde;
use std::collections::HashMap;

pub fn gen_options(g: &mut Gen) -> CompileOptions {
    let mut o = CompileOptions::default().with_opt_level(1 + g.below(3));
    if g.chance(2, 3) {
        o = o.with_mul_fanout_limit(*g.pick(&[2, 2, 3, 4, 7]));
    }
    if g.bool() {
        o = o.without_input_reorder();
    }
    o
}

/// Most multiplications fed by one wire within one segment, its children included.
pub fn max_fanout<C: Config, I: InputType>(lc: &Circuit<C, I>) -> usize {
    let mut n: HashMap<(usize, usize, usize), usize> = HashMap::new();
    for f in refeval::flatten(lc) {
        if f.kind == 2 {
            for &(l, o) in &f.inputs {
                *n.entry((f.layer, l, o)).or_default() += 1;
            }
        }
    }
    n.values().copied().max().unwrap_or(0)
}

fn c02_in<C: Config, I: InputType>(g: &mut Gen, c: &Case<C>, ctx: &mut Ctx) -> Result<(), String> {
    let mut all = vec![CompileOptions::default()];
    for _ in 0..2 {
        all.push(gen_options(g));
    }
    for o in &all {
        // refusing a circuit that can be satisfied is an error of its own
        let Some(k) = compile::<C, I>(&c.src, &c.wants, o.clone())? else {
            ctx.tag("refused");
            continue;
        };
        let what = format!("{o:?}");
        for ((x, p), w) in c.ins.iter().zip(&c.wants) {
            let Some(r) = run(&k, x, p, w)? else { continue };
            agree(&what, w, &r.outputs, r.sat, x)?;
            ctx.units += 1;
        }
        if let Some(limit) = o.mul_fanout_limit {
            let m = max_fanout(&k.lc);
            ctx.tag_if(m == limit, "fan-out limit reached");
            // a value shared by several sub-circuits is counted in each on its own
            if m > limit && c.src.rc.circuits.len() == 1 {
                return Err(format!("{o:?}: a wire feeds {m} multiplications"));
            }
        }
        if !o.allow_input_reorder {
            let root = &k.solver.circuit.circuits[&0];
            // unused positions repeat the first input in use, so that one says nothing
            let mut mine: Vec<usize> = root.outputs.iter().copied().filter(|&v| v <= root.num_inputs).collect();
            let first = mine.iter().copied().min().unwrap_or(0);
            mine.retain(|&v| v != first);
            if mine.windows(2).any(|w| w[0] >= w[1]) {
                return Err(format!("{o:?}: the inputs are arranged as {:?}", root.outputs));
            }
            ctx.tag_if(mine.len() >= 3, "3 or more inputs kept in order");
        }
        if k.lc.layer_ids.len() >= 2 && c.wants.iter().any(|w| w.sat == Some(true)) {
            ctx.nontrivial(true);
        }
    }
    Ok(())
}
/// Options outside their range are refused as a user's error, whatever the circuit.
fn bad_options<C: Config, I: InputType>(g: &mut Gen, c: &Case<C>, ctx: &mut Ctx) -> Result<(), String> {
    let mut o = gen_options(g);
    let which = g.below(3);
    if which != 0 {
        o = o.with_opt_level(*g.pick(&[0, 4, 5, 9, usize::MAX]));
    }
    if which != 1 {
        o = o.with_mul_fanout_limit(g.below(2));
    }
    ctx.describe(|| format!("{o:?}"));
    ctx.tag("options out of range");
    if o.validate().is_ok() {
        return Err(format!("{o:?} count as valid"));
    }
    match pbt::guarded(|| expander_compiler::compile::compile_with_options::<C, I>(&c.src.rc, o.clone())) {
        Ok(Err(expander_compiler::utils::error::Error::UserError(_))) => Ok(()),
        Ok(Err(e)) => Err(format!("{o:?} are refused by {e:?}")),
        Ok(Ok(_)) => Err(format!("{o:?} are accepted")),
        Err(e) => Err(format!("compiling with {o:?} panicked: {e}")),
    }
}
fn c02_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let mut o = opts(g);
    if g.bool() {
        o.max_insns = 30;
    }
    let cross = g.chance(1, 3);
    let c = case::<C>(g, ctx, o, 2);
    if g.chance(1, 40) {
        return if cross { bad_options::<C, CrossLayerInputType>(g, &c, ctx) } else { bad_options::<C, NormalInputType>(g, &c, ctx) };
    }
    if cross {
        c02_in::<C, CrossLayerInputType>(g, &c, ctx)
    } else {
        c02_in::<C, NormalInputType>(g, &c, ctx)
    }
}
pub fn c02(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c02_f, g, ctx)
}

// ---------------------------------------------------------------- C03

fn bytes<T: ExpSerde>(x: &T) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    x.serialize_into(&mut v).map_err(|e| format!("serializing failed: {e:?}"))?;
    Ok(v)
}
fn artefacts<C: Config, I: InputType>(c: &Case<C>, o: &CompileOptions) -> Result<Option<(RootCircuit<C>, Vec<u8>)>, String>
where
    Circuit<C, I>: ExpSerde,
{
    let Some(k) = compile::<C, I>(&c.src, &c.wants, o.clone())? else { return Ok(None) };
    Ok(Some((k.solver.circuit.clone(), bytes(&k.lc)?)))
}
fn c03_in<C: Config, I: InputType>(g: &mut Gen, c: &Case<C>, ctx: &mut Ctx) -> Result<(), String>
where
    Circuit<C, I>: ExpSerde,
{
    let plain = g.bool();
    let o = if plain { CompileOptions::default() } else { gen_options(g) };
    let Some(a) = artefacts::<C, I>(c, &o)? else { return Ok(()) };
    for i in 0..4 {
        // a rebuilt circuit: its hash map is filled afresh and in another order
        let mut src = c.src.rc.clone();
        let mut parts: Vec<_> = src.circuits.drain().collect();
        parts.sort_by_key(|p| if i % 2 == 0 { p.0 } else { !p.0 });
        src.circuits = parts.into_iter().collect();
        let b = match pbt::guarded(|| {
            if plain && i == 3 {
                expander_compiler::compile::compile::<C, I>(&src)
            } else {
                expander_compiler::compile::compile_with_options::<C, I>(&src, o.clone())
            }
        }) {
            Ok(Ok((hn, lc))) => (hn, bytes(&lc)?),
            other => return Err(format!("compiling again with {o:?} failed: {:?}", other.map(|r| r.map(|_| ())))),
        };
        if a.1 != b.1 {
            return Err(format!("{o:?}: two compilations gave different layered circuits"));
        }
        if a.0 != b.0 {
            return Err(format!("{o:?}: two compilations gave different witness programs"));
        }
        ctx.units += 1;
    }
    ctx.nontrivial(c.src.rc.circuits.len() >= 2);
    Ok(())
}
fn c03_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let mut o = opts(g);
    o.max_circuits = 5;
    if g.bool() {
        o.max_insns = 30;
    }
    let cross = g.chance(1, 3);
    let c = case::<C>(g, ctx, o, 1);
    if cross {
        c03_in::<C, CrossLayerInputType>(g, &c, ctx)
    } else {
        c03_in::<C, NormalInputType>(g, &c, ctx)
    }
}
pub fn c03(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c03_f, g, ctx)
}

// ---------------------------------------------------------------- C06

/// Judges the structure without the library's own validator.
pub fn sound<C: Config, I: InputType>(lc: &Circuit<C, I>) -> Result<(), String> {
    let pow2 = |n: usize| n > 0 && n & (n - 1) == 0;
    if lc.layer_ids.is_empty() {
        return Err("no layers".into());
    }
    let sizes = refeval::layer_sizes(lc);
    for (i, s) in lc.segments.iter().enumerate() {
        if !pow2(s.num_outputs) || s.num_inputs.iter().any(|n| !pow2(n)) || s.num_inputs.len() == 0 {
            return Err(format!("segment {i} has sizes {:?} and {}", s.num_inputs, s.num_outputs));
        }
        for (c, al) in &s.child_segs {
            if *c >= i {
                return Err(format!("segment {i} contains segment {c}"));
            }
            let t = &lc.segments[*c];
            for a in al {
                if a.input_offset.len() != t.num_inputs.len() {
                    return Err(format!("segment {i}: child {c} is placed with {} offsets for {} layers", a.input_offset.len(), t.num_inputs.len()));
                }
                for (l, o) in a.input_offset.iter().enumerate() {
                    if o % t.num_inputs.get(l) != 0 || l >= s.num_inputs.len() || o + t.num_inputs.get(l) > s.num_inputs.get(l) {
                        return Err(format!("segment {i}: child {c} reads from {o} in layer {l}"));
                    }
                }
                if a.output_offset % t.num_outputs != 0 || a.output_offset + t.num_outputs > s.num_outputs {
                    return Err(format!("segment {i}: child {c} writes to {}", a.output_offset));
                }
            }
        }
    }
    for (l, &id) in lc.layer_ids.iter().enumerate() {
        let s = &lc.segments[id];
        if s.num_inputs.len() > l + 1 {
            return Err(format!("layer {l} reads {} layers", s.num_inputs.len()));
        }
        for (j, n) in s.num_inputs.iter().enumerate() {
            if n != sizes[l - j] {
                return Err(format!("layer {l} reads {n} wires of layer {} which has {}", l - j, sizes[l - j]));
            }
        }
    }
    let mut written: Vec<Vec<bool>> = sizes.iter().map(|&n| vec![false; n]).collect();
    written[0].fill(true);
    let flat = refeval::flatten(lc);
    for f in &flat {
        if f.output >= sizes[f.layer] {
            return Err(format!("{f:?} writes outside its layer of {}", sizes[f.layer]));
        }
        written[f.layer][f.output] = true;
        if let Coef::PublicInput(i) = f.coef {
            if i >= lc.num_public_inputs {
                return Err(format!("{f:?} uses a missing public input"));
            }
        }
    }
    for f in &flat {
        for &(l, o) in &f.inputs {
            if l >= f.layer || o >= sizes[l] {
                return Err(format!("{f:?} reads a wire that is not there"));
            }
            if !written[l][o] {
                return Err(format!("{f:?} reads a wire nothing writes"));
            }
        }
    }
    let last = sizes.len() - 1;
    if lc.num_actual_outputs > sizes[last] || lc.expected_num_output_zeroes > lc.num_actual_outputs {
        return Err(format!("{} outputs of which {} zero in a layer of {}", lc.num_actual_outputs, lc.expected_num_output_zeroes, sizes[last]));
    }
    if let Some(o) = (0..lc.num_actual_outputs).find(|&o| !written[last][o]) {
        return Err(format!("output {o} is never written"));
    }
    Ok(())
}
fn c06_in<C: Config, I: InputType>(g: &mut Gen, c: &Case<C>, ctx: &mut Ctx) -> Result<(), String> {
    for o in [CompileOptions::default(), gen_options(g)] {
        let Some(k) = compile::<C, I>(&c.src, &c.wants, o.clone())? else { return Ok(()) };
        let bad = |e: String| format!("{o:?}: {e}");
        sound(&k.lc).map_err(bad)?;
        k.lc.validate().map_err(|e| bad(format!("its own validation fails: {e}")))?;
        let hn = &k.solver.circuit;
        hn.validate().map_err(|e| bad(format!("validation of the witness program fails: {e}")))?;
        if hn.input_size() != c.src.rc.input_size() || hn.num_public_inputs != c.src.rc.num_public_inputs {
            return Err(bad(format!("the witness program takes {} inputs and {} public inputs", hn.input_size(), hn.num_public_inputs)));
        }
        if lc_outputs(&k.lc) != c.wants[0].outputs.len() {
            return Err(bad(format!("{} outputs declared, {} are zero, the source has {}", k.lc.num_actual_outputs, k.lc.expected_num_output_zeroes, c.wants[0].outputs.len())));
        }
        if hn.circuits[&0].outputs.len() != k.lc.input_size() {
            return Err(bad(format!("the witness program yields {} values, the circuit takes {}", hn.circuits[&0].outputs.len(), k.lc.input_size())));
        }
        if k.lc.num_public_inputs != c.src.rc.num_public_inputs {
            return Err(bad(format!("{} public inputs", k.lc.num_public_inputs)));
        }
        ctx.tag_if(k.lc.segments.iter().any(|s| !s.child_segs.is_empty()), "nested segments");
        ctx.nontrivial(k.lc.layer_ids.len() >= 3);
        ctx.units += 1;
    }
    Ok(())
}
fn lc_outputs<C: Config, I: InputType>(lc: &Circuit<C, I>) -> usize {
    lc.num_actual_outputs - lc.expected_num_output_zeroes
}
fn c06_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let mut o = opts(g);
    if g.bool() {
        o.max_insns = 60;
    }
    let cross = g.bool();
    let c = case::<C>(g, ctx, o, 0);
    if cross {
        c06_in::<C, CrossLayerInputType>(g, &c, ctx)
    } else {
        c06_in::<C, NormalInputType>(g, &c, ctx)
    }
}
pub fn c06(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c06_f, g, ctx)
}

// ---------------------------------------------------------------- C07

fn c07_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = opts(g);
    let c = if g.chance(1, 4) {
        let src = srcgen::gen_deep::<C>(g);
        case_of::<C>(g, ctx, src, 3)
    } else {
        case::<C>(g, ctx, o, 3)
    };
    c07_in(g, &c, ctx)
}
fn c07_in<C: Config>(g: &mut Gen, c: &Case<C>, ctx: &mut Ctx) -> Result<(), String> {
    let co = if g.bool() { CompileOptions::default() } else { gen_options(g) };
    let a = compile::<C, NormalInputType>(&c.src, &c.wants, co.clone())?;
    let b = compile::<C, CrossLayerInputType>(&c.src, &c.wants, co.clone())?;
    let (Some(a), Some(b)) = (a, b) else { return Ok(()) };
    for ((x, p), w) in c.ins.iter().zip(&c.wants) {
        let (ra, rb) = (run(&a, x, p, w)?, run(&b, x, p, w)?);
        let (ra, rb) = match (ra, rb) {
            (Some(a), Some(b)) => (a, b),
            (None, None) => continue,
            _ => return Err("only one of the two forms has a witness".into()),
        };
        agree("cross-layer form", w, &rb.outputs, rb.sat, x)?;
        agree("plain form", w, &ra.outputs, ra.sat, x)?;
        if !c.src.has_random && (ra.outputs != rb.outputs || ra.sat != rb.sat) {
            return Err(format!("plain form: {} {}, cross-layer form: {} {}, on {}", show_all::<C>(&ra.outputs), ra.sat, show_all::<C>(&rb.outputs), rb.sat, show_all::<C>(x)));
        }
        ctx.units += 1;
    }
    ctx.tag_if(b.lc.layer_ids.len() < a.lc.layer_ids.len(), "fewer layers");
    let far = b.lc.segments.iter().any(|s| s.num_inputs.len() > 1);
    ctx.tag_if(far, "reads an earlier layer");
    ctx.nontrivial(far);
    Ok(())
}
pub fn c07(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c07_f, g, ctx)
}

pub fn c07_big(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    crate::big::m31(i, ctx, &c07_in)
}
pub fn c02_big(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    crate::big::m31(i, ctx, &c02_in::<_, NormalInputType>)
}
pub fn c03_big(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    // (those with several circuits, and the deep one)
    crate::big::m31(*[0, 4, 5].get(i)?, ctx, &c03_in::<_, CrossLayerInputType>)
}
pub fn c06_big(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    crate::big::m31(i, ctx, &|g, c, ctx| {
        c06_in::<_, NormalInputType>(g, c, ctx)?;
        c06_in::<_, CrossLayerInputType>(g, c, ctx)
    })
}
