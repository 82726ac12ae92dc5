//! C09: the evaluators and exporters of a layered circuit. C12: witness containers.
use crate::common::*;
use crate::per_field;
use arith::{Field as _, SimdField};
use ecgen::lcgen::{self, LcOpts};
use ecgen::refeval::{self, FlatGate};
use ecgen::*;
use expander_compiler::circuit::config::{Config, SIMDField};
use expander_compiler::circuit::layered::witness::{Witness, WitnessValues};
use expander_compiler::circuit::layered::{Circuit, Coef, CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::compile::CompileOptions;
use pbt::{guarded, Ctx, Gen};
use serdes::ExpSerde;

type Pair<C> = (Vec<Fe<C>>, Vec<Fe<C>>);

/// Outputs and decision; None where they vary with the random coefficients.
#[derive(Clone, Debug, PartialEq)]
struct Res<C: Config> {
    outs: Vec<Option<Fe<C>>>,
    sat: Option<bool>,
}
fn eval_flat<C: Config>(flat: &[FlatGate<C>], sizes: &[usize], zeroes: usize, actual: usize, x: &[Fe<C>], p: &[Fe<C>]) -> Res<C> {
    let seeds: &[u64] = if flat.iter().any(|f| matches!(f.coef, Coef::Random)) { &[1, 2, 3] } else { &[1] };
    let mut all: Vec<Vec<Fe<C>>> = vec![];
    for &s in seeds {
        let mut rnd = Rnd(s);
        let mut v: Vec<Vec<Fe<C>>> = sizes.iter().map(|&n| vec![zero::<C>(); n]).collect();
        v[0].copy_from_slice(x);
        for g in flat {
            let k = match &g.coef {
                Coef::Constant(x) => *x,
                Coef::Random => rnd.fe::<C>(),
                Coef::PublicInput(i) => p[*i],
            };
            let ins: Vec<Fe<C>> = g.inputs.iter().map(|&(l, o)| v[l][o]).collect();
            let r = if g.kind == 3 { refeval::stub_custom::<C>(g.gate_type, &ins) } else { ins.iter().fold(one::<C>(), |a, x| a * *x) };
            v[g.layer][g.output] = v[g.layer][g.output] + r * k;
        }
        all.push(v.pop().unwrap()[..actual].to_vec());
    }
    // one-bit randomness repeats too easily
    let weak = seeds.len() > 1 && is_gf2::<C>();
    let same = |i: usize| !weak && all.iter().all(|a| a[i] == all[0][i]);
    let sats: Vec<bool> = all.iter().map(|a| a[..zeroes].iter().all(|v| v.is_zero())).collect();
    Res { outs: (zeroes..actual).map(|i| same(i).then(|| all[0][i])).collect(), sat: (!weak && sats.iter().all(|s| *s == sats[0])).then_some(sats[0]) }
}
fn cmp<C: Config>(what: &str, want: &Res<C>, outs: &[Fe<C>], sat: bool) -> Result<(), String> {
    let ok = outs.len() == want.outs.len() && outs.iter().zip(&want.outs).all(|(a, b)| b.is_none_or(|b| *a == b)) && want.sat.is_none_or(|s| s == sat);
    if ok {
        return Ok(());
    }
    Err(format!("{what}: {} {sat}, expected {:?} {:?}", show_all::<C>(outs), want.outs.iter().map(|v| v.as_ref().map(show::<C>)).collect::<Vec<_>>(), want.sat))
}
fn pack<SF: SimdField>(lanes: &[SF::Scalar]) -> SF {
    SF::pack(lanes)
}
fn flat_values<C: Config>(ws: &[Pair<C>]) -> Vec<Fe<C>> {
    ws.iter().flat_map(|(x, p)| x.iter().chain(p).copied()).collect()
}
/// Groups of witnesses side by side; the free lanes of the last group hold `fill`.
fn simd_values<C: Config>(ws: &[Pair<C>], fill: &Pair<C>) -> Vec<SIMDField<C>> {
    let n = SIMDField::<C>::PACK_SIZE;
    let (a, b) = (fill.0.len(), fill.1.len());
    let mut v = vec![];
    for grp in ws.chunks(n) {
        for i in 0..a + b {
            let lanes: Vec<Fe<C>> = (0..n)
                .map(|j| {
                    let w = grp.get(j).unwrap_or(fill);
                    if i < a { w.0[i] } else { w.1[i - a] }
                })
                .collect();
            v.push(pack::<SIMDField<C>>(&lanes));
        }
    }
    v
}
fn witness<C: Config>(ws: &[Pair<C>], simd: bool, fill: &Pair<C>) -> Witness<C> {
    Witness {
        num_witnesses: ws.len(),
        num_inputs_per_witness: fill.0.len(),
        num_public_inputs_per_witness: fill.1.len(),
        values: if simd { WitnessValues::Simd(simd_values::<C>(ws, fill)) } else { WitnessValues::Scalar(flat_values::<C>(ws)) },
    }
}
fn count(g: &mut Gen, pack: usize) -> usize {
    if g.chance(1, 500) {
        return 257 + g.below(300);
    }
    match g.below(7) {
        0 => 1,
        1 => 2,
        2 => pack,
        3 => pack + 1,
        4 => pack.max(2) - 1,
        5 => 2 * pack,
        _ => 1 + g.below(2 * pack + 3),
    }
}

fn simd_width<C: Config, I: InputType, SF: SimdField<Scalar = Fe<C>>>(lc: &Circuit<C, I>, ws: &[Pair<C>], want: &[Res<C>]) -> Result<(), String> {
    let n = SF::PACK_SIZE;
    let lane = |j: usize| &ws[j % ws.len()];
    let xs: Vec<SF> = (0..ws[0].0.len()).map(|i| pack::<SF>(&(0..n).map(|j| lane(j).0[i]).collect::<Vec<_>>())).collect();
    let ps: Vec<SF> = (0..ws[0].1.len()).map(|i| pack::<SF>(&(0..n).map(|j| lane(j).1[i]).collect::<Vec<_>>())).collect();
    let (outs, sat) = guarded(|| lc.eval_with_public_inputs_simd::<SF>(xs, &ps)).map_err(|e| format!("evaluation of {n} lanes: {e}"))?;
    if sat.len() != n {
        return Err(format!("{} decisions for {n} lanes", sat.len()));
    }
    let outs: Vec<Vec<Fe<C>>> = outs.iter().map(|o| o.unpack()).collect();
    for j in 0..n {
        let o: Vec<Fe<C>> = outs.iter().map(|o| o[j]).collect();
        cmp::<C>(&format!("lane {j} of {n}"), &want[j % ws.len()], &o, sat[j])?;
    }
    Ok(())
}

fn judge<C: Config, I: InputType>(
    lc: &Circuit<C, I>,
    ws: &[Pair<C>],
    simd: bool,
    export: fn(&Circuit<C, I>) -> Result<Option<Exported<C>>, String>,
    flat_run: fn(&Circuit<C, I>, &[Pair<C>], &[Res<C>]) -> Result<(), String>,
    ctx: &mut Ctx,
) -> Result<(), String> {
    let flat = refeval::flatten(lc);
    let sizes = refeval::layer_sizes(lc);
    let (z, a) = (lc.expected_num_output_zeroes, lc.num_actual_outputs);
    let want: Vec<Res<C>> = ws.iter().map(|(x, p)| eval_flat(&flat, &sizes, z, a, x, p)).collect();
    ctx.tag_if(want.iter().any(|w| w.sat == Some(true)) && want.iter().any(|w| w.sat == Some(false)), "mixed decisions");
    // one at a time
    for ((x, p), w) in ws.iter().zip(&want).take(4) {
        let (o, s) = guarded(|| lc.eval_with_public_inputs(x.clone(), p)).map_err(|e| format!("evaluation: {e}"))?;
        cmp::<C>("evaluation with public inputs", w, &o, s)?;
        ctx.units += 1;
    }
    // stand-in public inputs
    let stub: Vec<Fe<C>> = (0..lc.num_public_inputs as u64).map(|i| fu::<C>(i * i % 1000000007 * i % 1000000007)).collect();
    let w = eval_flat(&flat, &sizes, z, a, &ws[0].0, &stub);
    let (o, s) = guarded(|| lc.eval_unsafe(ws[0].0.clone())).map_err(|e| format!("plain evaluation: {e}"))?;
    cmp::<C>("plain evaluation", &w, &o, s)?;
    // side by side
    simd_width::<C, I, SIMDField<C>>(lc, ws, &want)?;
    simd_width::<C, I, Simd<Fe<C>, 4>>(lc, ws, &want)?;
    // batches
    let wit = witness::<C>(ws, simd, ws.last().unwrap());
    let (dec, outs) = guarded(|| lc.run_with_output(&wit)).map_err(|e| format!("running {} witnesses: {e}", ws.len()))?;
    let dec2 = guarded(|| lc.run(&wit)).map_err(|e| format!("running {} witnesses: {e}", ws.len()))?;
    if dec.len() != ws.len() || outs.len() != ws.len() || dec2.len() != ws.len() {
        return Err(format!("{} and {} decisions and {} outputs for {} witnesses", dec.len(), dec2.len(), outs.len(), ws.len()));
    }
    for (i, w) in want.iter().enumerate() {
        cmp::<C>(&format!("witness {i} of the batch"), w, &outs[i], dec[i])?;
        if w.sat.is_some_and(|s| s != dec2[i]) {
            return Err(format!("witness {i} of the batch without outputs: {}", dec2[i]));
        }
        ctx.units += 1;
    }
    // exports
    if let Some(e) = export(lc)? {
        if e.interface != (lc.num_public_inputs, a, z) {
            return Err(format!("exported interface {:?}", e.interface));
        }
        for ((x, p), w) in ws.iter().zip(&want).take(4) {
            let r = eval_flat(&e.flat, &e.sizes, z, a, x, p);
            if r != *w {
                return Err(format!("exported circuit: {r:?}, expected {w:?}"));
            }
        }
        ctx.tag("exported");
        flat_run(lc, ws, &want)?;
    }
    ctx.nontrivial(ws.len() > 1 && lc.layer_ids.len() > 1);
    Ok(())
}
use arith::Simd;

pub struct Exported<C: Config> {
    flat: Vec<FlatGate<C>>,
    sizes: Vec<usize>,
    interface: (usize, usize, usize),
}
fn coef_of<C: Config>(c: &Fe<C>, t: &expander_circuit::CoefType) -> Coef<C> {
    match t {
        expander_circuit::CoefType::Constant => Coef::Constant(*c),
        expander_circuit::CoefType::Random => Coef::Random,
        expander_circuit::CoefType::PublicInput(i) => Coef::PublicInput(*i),
    }
}
fn export_normal<C: Config>(lc: &Circuit<C, NormalInputType>) -> Result<Option<Exported<C>>, String> {
    // the prover's gates take one input
    if refeval::flatten(lc).iter().any(|f| f.kind == 3 && f.inputs.len() != 1) {
        return Ok(None);
    }
    let e = guarded(|| lc.export_to_expander::<C::FieldConfig>()).map_err(|e| format!("export: {e}"))?;
    let mut flat = vec![];
    fn leaf<C: Config>(e: &expander_circuit::RecursiveCircuit<C::FieldConfig>, id: usize, l: usize, io: usize, oo: usize, flat: &mut Vec<FlatGate<C>>) {
        let s = &e.segments[id];
        let mk = |kind, gate_type, i: &[usize], o: usize, coef| FlatGate { kind, gate_type, inputs: i.iter().map(|&i| (l, io + i)).collect(), layer: l + 1, output: oo + o, coef };
        for x in &s.gate_muls {
            flat.push(mk(2, 0, &x.i_ids, x.o_id, coef_of(&x.coef, &x.coef_type)));
        }
        for x in &s.gate_adds {
            flat.push(mk(1, 0, &x.i_ids, x.o_id, coef_of(&x.coef, &x.coef_type)));
        }
        for x in &s.gate_consts {
            flat.push(mk(0, 0, &x.i_ids, x.o_id, coef_of(&x.coef, &x.coef_type)));
        }
        for x in &s.gate_uni {
            flat.push(mk(3, x.gate_type, &x.i_ids, x.o_id, coef_of(&x.coef, &x.coef_type)));
        }
        for (c, al) in &s.child_segs {
            for a in al {
                leaf(e, *c, l, io + a.i_offset, oo + a.o_offset, flat);
            }
        }
    }
    for (l, &id) in e.layers.iter().enumerate() {
        leaf::<C>(&e, id, l, 0, 0, &mut flat);
    }
    let mut sizes = vec![1usize << e.segments[e.layers[0]].i_var_num];
    sizes.extend(e.layers.iter().map(|&i| 1usize << e.segments[i].o_var_num));
    for (l, &id) in e.layers.iter().enumerate() {
        if 1usize << e.segments[id].i_var_num != sizes[l] {
            return Err(format!("export: layer {l} takes 2^{} wires, there are {}", e.segments[id].i_var_num, sizes[l]));
        }
    }
    if sizes != refeval::layer_sizes(lc) {
        return Err(format!("exported layers have sizes {sizes:?}"));
    }
    if let Some(f) = flat.iter().find(|f| f.output >= sizes[f.layer] || f.inputs.iter().any(|&(l, o)| o >= sizes[l])) {
        return Err(format!("exported gate {f:?} is out of range"));
    }
    Ok(Some(Exported { flat, sizes, interface: (e.num_public_inputs, e.num_outputs, e.expected_num_output_zeros) }))
}
fn run_flat_normal<C: Config>(lc: &Circuit<C, NormalInputType>, ws: &[Pair<C>], want: &[Res<C>]) -> Result<(), String> {
    if refeval::flatten(lc).iter().any(|f| f.kind == 3 || matches!(f.coef, Coef::Random)) {
        return Ok(());
    }
    let mut e = guarded(|| lc.export_to_expander_flatten()).map_err(|e| format!("flattening export: {e}"))?;
    let n = SIMDField::<C>::PACK_SIZE;
    if e.log_input_size() != lc.input_size().trailing_zeros() as usize || e.expected_num_output_zeros != lc.expected_num_output_zeroes {
        return Err("the flattened export has another interface".into());
    }
    let lane = |j: usize| &ws[j % ws.len()];
    e.layers[0].input_vals = (0..ws[0].0.len()).map(|i| pack::<SIMDField<C>>(&(0..n).map(|j| lane(j).0[i]).collect::<Vec<_>>())).collect();
    e.public_input = (0..ws[0].1.len()).map(|i| pack::<SIMDField<C>>(&(0..n).map(|j| lane(j).1[i]).collect::<Vec<_>>())).collect();
    e.rnd_filled = true;
    guarded(|| e.evaluate()).map_err(|e| format!("evaluating the flattened export: {e}"))?;
    let outs: Vec<Vec<Fe<C>>> = e.output().iter().map(|o| o.unpack()).collect();
    let z = lc.expected_num_output_zeroes;
    for j in 0..n {
        let o: Vec<Fe<C>> = outs.iter().map(|o| o[j]).collect();
        let sat = o[..z].iter().all(|v| v.is_zero());
        cmp::<C>(&format!("flattened export, lane {j}"), &want[j % ws.len()], &o[z..lc.num_actual_outputs], sat)?;
    }
    Ok(())
}
fn export_cross<C: Config>(lc: &Circuit<C, CrossLayerInputType>) -> Result<Option<Exported<C>>, String> {
    // relays of the prover's format carry a constant, and there are no custom gates
    let flat = refeval::flatten(lc);
    if flat.iter().any(|f| f.kind == 3 || f.inputs.iter().any(|&(l, _)| l + 1 != f.layer && (f.kind != 1 || !f.coef.is_constant()))) {
        return Ok(None);
    }
    if lc.segments.iter().any(|s| !s.gate_customs.is_empty() || s.gate_muls.iter().any(|m| m.inputs.iter().any(|i| i.layer != 0)) || s.gate_adds.iter().any(|a| a.inputs[0].layer != 0 && !a.coef.is_constant())) {
        return Ok(None); // also in segments no layer uses
    }
    let e = guarded(|| lc.export_to_expander::<C::FieldConfig>()).map_err(|e| format!("export: {e}"))?;
    let mut flat = vec![];
    fn leaf<C: Config>(e: &crosslayer_prototype::CrossLayerRecursiveCircuit<C::FieldConfig>, id: usize, l: usize, io: &[usize], oo: usize, flat: &mut Vec<FlatGate<C>>) {
        let s = &e.segments[id];
        let mk = |kind, i: &[usize], o: usize, coef| FlatGate { kind, gate_type: 0, inputs: i.iter().map(|&i| (l, io[0] + i)).collect(), layer: l + 1, output: oo + o, coef };
        for x in &s.gate_muls {
            flat.push(mk(2, &x.i_ids, x.o_id, coef_of(&x.coef, &x.coef_type)));
        }
        for x in &s.gate_adds {
            flat.push(mk(1, &x.i_ids, x.o_id, coef_of(&x.coef, &x.coef_type)));
        }
        for x in &s.gate_csts {
            flat.push(mk(0, &x.i_ids, x.o_id, coef_of(&x.coef, &x.coef_type)));
        }
        for x in &s.gate_relay {
            flat.push(FlatGate { kind: 1, gate_type: 0, inputs: vec![(l - x.i_layer, io[x.i_layer] + x.i_id)], layer: l + 1, output: oo + x.o_id, coef: Coef::Constant(x.coef) });
        }
        for (c, al) in &s.child_segs {
            for a in al {
                let o: Vec<usize> = a.i_offset.iter().enumerate().map(|(i, x)| io[i] + x).collect();
                leaf(e, *c, l, &o, oo + a.o_offset, flat);
            }
        }
    }
    for (l, &id) in e.layers.iter().enumerate() {
        leaf::<C>(&e, id, l, &vec![0; e.segments[id].input_size.len()], 0, &mut flat);
    }
    let mut sizes = vec![e.segments[e.layers[0]].input_size[0]];
    sizes.extend(e.layers.iter().map(|&i| e.segments[i].output_size));
    if sizes != refeval::layer_sizes(lc) {
        return Err(format!("exported layers have sizes {sizes:?}"));
    }
    for (s, t) in e.segments.iter().zip(&lc.segments) {
        use expander_compiler::circuit::layered::InputUsize;
        if s.input_size != t.num_inputs.to_vec() || s.output_size != t.num_outputs {
            return Err(format!("an exported segment has sizes {:?} and {}", s.input_size, s.output_size));
        }
    }
    Ok(Some(Exported { flat, sizes, interface: (e.num_public_inputs, e.num_outputs, e.expected_num_output_zeros) }))
}

fn lc_opts(g: &mut Gen) -> LcOpts {
    LcOpts { max_layers: 4, max_log: 4, random: g.chance(1, 4), public: g.chance(2, 3), custom: g.chance(1, 4), common: false, any_coef: g.bool() }
}
fn batch<C: Config, I: InputType>(g: &mut Gen, lc: &Circuit<C, I>) -> (Vec<Pair<C>>, bool) {
    let some: Vec<Pair<C>> = (0..3).map(|_| lcgen::inputs(lc, g)).collect();
    let n = count(g, SIMDField::<C>::PACK_SIZE);
    let fresh = g.chance(1, 4);
    let ws = (0..n).map(|_| if fresh { lcgen::inputs(lc, g) } else { some[g.below(3)].clone() }).collect();
    (ws, g.bool())
}
fn tell<C: Config, I: InputType>(ctx: &mut Ctx, lc: &Circuit<C, I>, ws: &[Pair<C>], simd: bool) {
    ctx.describe(|| {
        let mut s = lcgen::describe(lc);
        for (x, p) in ws.iter().take(20) {
            s += &format!("witness {} public {}\n", show_all::<C>(x), show_all::<C>(p));
        }
        s + &format!("{} witnesses, side by side: {simd}", ws.len())
    });
}
fn c09_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.below(4) {
        0 => {
            let o = lc_opts(g);
            let lc = lcgen::gen::<C, NormalInputType>(g, &o);
            let (ws, simd) = batch(g, &lc);
            tell(ctx, &lc, &ws, simd);
            judge(&lc, &ws, simd, export_normal::<C>, run_flat_normal::<C>, ctx)
        }
        1 => {
            let o = lc_opts(g);
            let lc = lcgen::gen::<C, CrossLayerInputType>(g, &o);
            let (ws, simd) = batch(g, &lc);
            tell(ctx, &lc, &ws, simd);
            judge(&lc, &ws, simd, export_cross::<C>, |_, _, _| Ok(()), ctx)
        }
        k => {
            let o = opts(g);
            let c = case::<C>(g, ctx, o, 3);
            let n = count(g, SIMDField::<C>::PACK_SIZE);
            let simd = g.bool();
            if k == 2 {
                let Some(k) = compile::<C, NormalInputType>(&c.src, &c.wants, CompileOptions::default())? else { return Ok(()) };
                let Some(ws) = solved(&k, &c, n, g)? else { return Ok(()) };
                judge(&k.lc, &ws, simd, export_normal::<C>, run_flat_normal::<C>, ctx)
            } else {
                let Some(k) = compile::<C, CrossLayerInputType>(&c.src, &c.wants, CompileOptions::default())? else { return Ok(()) };
                let Some(ws) = solved(&k, &c, n, g)? else { return Ok(()) };
                let custom = refeval::flatten(&k.lc).iter().any(|f| f.kind == 3);
                let e = export_cross::<C>(&k.lc)?;
                if e.is_none() && !custom {
                    ctx.tag("compiled circuit has no cross-layer export");
                }
                judge(&k.lc, &ws, simd, export_cross::<C>, |_, _, _| Ok(()), ctx)
            }
        }
    }
}
fn solved<C: Config, I: InputType>(k: &Compiled<C, I>, c: &Case<C>, n: usize, g: &mut Gen) -> Result<Option<Vec<Pair<C>>>, String> {
    let mut some: Vec<Pair<C>> = vec![];
    for ((x, p), w) in c.ins.iter().zip(&c.wants) {
        if let Some(r) = run(k, x, p, w)? {
            some.push((r.witness, p.clone()));
        }
    }
    if some.is_empty() {
        return Ok(None);
    }
    // one that is off
    let mut bad = some[0].clone();
    let i = g.below(bad.0.len());
    bad.0[i] = bad.0[i] + one::<C>();
    some.push(bad);
    Ok(Some((0..n).map(|_| some[g.below(some.len())].clone()).collect()))
}
pub fn c09(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c09_f, g, ctx)
}

// ---------------------------------------------------------------- C12

fn lanes<C: Config>(w: &Witness<C>, ws: &[Pair<C>]) -> Result<(), String> {
    let n = SIMDField::<C>::PACK_SIZE;
    let all: Vec<_> = guarded(|| w.iter_scalar().collect::<Vec<_>>()).map_err(|e| format!("iterating: {e}"))?;
    if all != ws {
        let i = (0..ws.len().max(all.len())).find(|&i| all.get(i) != ws.get(i)).unwrap();
        return Err(format!("{} witnesses, expected {}; number {i} is {:?}, expected {:?}", all.len(), ws.len(), all.get(i), ws.get(i)));
    }
    let grp: Vec<_> = guarded(|| w.iter_simd().collect::<Vec<_>>()).map_err(|e| format!("iterating in groups: {e}"))?;
    if grp.len() != ws.len().div_ceil(n) {
        return Err(format!("{} groups of {n} for {} witnesses", grp.len(), ws.len()));
    }
    for (k, (x, p)) in grp.iter().enumerate() {
        let x: Vec<Vec<Fe<C>>> = x.iter().map(|v| v.unpack()).collect();
        let p: Vec<Vec<Fe<C>>> = p.iter().map(|v| v.unpack()).collect();
        for j in 0..n {
            let got: Pair<C> = (x.iter().map(|v| v[j]).collect(), p.iter().map(|v| v[j]).collect());
            match ws.get(k * n + j) {
                Some(w) if *w != got => return Err(format!("group {k}, lane {j}: {got:?}, expected {w:?}")),
                Some(_) => {}
                None => padding::<C>(&got, &ws[k * n..]).map_err(|e| format!("group {k}, lane {j}: {e}"))?,
            }
        }
    }
    Ok(())
}
/// A lane beyond the last witness repeats one of its group or is all zero.
fn padding<C: Config>(got: &Pair<C>, group: &[Pair<C>]) -> Result<(), String> {
    let zero = got.0.iter().chain(&got.1).all(|v| v.is_zero());
    if zero || group.contains(got) {
        return Ok(());
    }
    Err(format!("padding {got:?} is neither zero nor a witness of the group"))
}
fn to_width<C: Config, T: SimdField<Scalar = Fe<C>> + 'static>(w: &Witness<C>, ws: &[Pair<C>]) -> Result<(), String> {
    let n = T::PACK_SIZE;
    let (x, p) = guarded(|| w.to_simd::<T>()).map_err(|e| format!("packing {n} lanes: {e}"))?;
    if x.len() != ws[0].0.len() || p.len() != ws[0].1.len() {
        return Err(format!("packing {n} lanes: {} inputs and {} public inputs", x.len(), p.len()));
    }
    let x: Vec<Vec<Fe<C>>> = x.iter().map(|v| v.unpack()).collect();
    let p: Vec<Vec<Fe<C>>> = p.iter().map(|v| v.unpack()).collect();
    for j in 0..n {
        let got: Pair<C> = (x.iter().map(|v| v[j]).collect(), p.iter().map(|v| v[j]).collect());
        match ws.get(j) {
            Some(w) if *w != got => return Err(format!("packing {n} lanes, lane {j}: {got:?}, expected {w:?}")),
            Some(_) => {}
            None => padding::<C>(&got, ws).map_err(|e| format!("packing {n} lanes, lane {j}: {e}"))?,
        }
    }
    Ok(())
}
fn c12_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let n = SIMDField::<C>::PACK_SIZE;
    let a = if g.chance(1, 8) { 0 } else { 1 + g.small(6) };
    let b = if a == 0 { 1 + g.below(3) } else { g.below(4) };
    let cnt = count(g, n);
    let ws: Vec<Pair<C>> = (0..cnt).map(|_| ((0..a).map(|_| fe::<C>(g)).collect(), (0..b).map(|_| fe::<C>(g)).collect())).collect();
    let simd = g.bool();
    let fill = if g.bool() { ws.last().unwrap().clone() } else { (vec![zero::<C>(); a], vec![zero::<C>(); b]) };
    ctx.describe(|| format!("field of {} elements, side by side: {simd}, {} witnesses: {}", modulus::<C>(), cnt, ws.iter().map(|(x, p)| format!("{}/{} ", show_all::<C>(x), show_all::<C>(p))).collect::<String>()));
    let mut w = witness::<C>(&ws, simd, &fill);
    let steps = 1 + g.below(4);
    for s in 0..steps {
        lanes(&w, &ws).map_err(|e| format!("after {s} steps: {e}"))?;
        to_width::<C, SIMDField<C>>(&w, &ws)?;
        to_width::<C, Simd<Fe<C>, 2>>(&w, &ws)?;
        to_width::<C, Simd<Fe<C>, 32>>(&w, &ws)?;
        match g.below(3) {
            0 => {
                // write and read back, with something behind it
                let mut buf = vec![];
                w.serialize_into(&mut buf).map_err(|e| format!("writing: {e:?}"))?;
                let len = buf.len();
                buf.extend([7u8; 5]);
                let mut rd = &buf[..];
                w = guarded(|| Witness::<C>::deserialize_from(&mut rd)).map_err(|e| format!("reading: {e}"))?.map_err(|e| format!("reading: {e:?}"))?;
                if rd.len() != 5 {
                    return Err(format!("reading used {} of {len} bytes", buf.len() - rd.len()));
                }
                ctx.tag("written and read");
            }
            1 => {
                // through iteration into the other layout
                let all: Vec<_> = w.iter_scalar().collect();
                let to_simd = matches!(w.values, WitnessValues::Scalar(_));
                w = witness::<C>(&all, to_simd, &fill);
            }
            _ => {
                // through its own groups
                let vals: Vec<SIMDField<C>> = w.iter_simd().flat_map(|(x, p)| x.into_iter().chain(p)).collect();
                w = Witness { num_witnesses: cnt, num_inputs_per_witness: a, num_public_inputs_per_witness: b, values: WitnessValues::Simd(vals) };
            }
        }
        if (w.num_witnesses, w.num_inputs_per_witness, w.num_public_inputs_per_witness) != (cnt, a, b) {
            return Err(format!("after {s} steps: {} witnesses of {} and {} values", w.num_witnesses, w.num_inputs_per_witness, w.num_public_inputs_per_witness));
        }
        ctx.units += 1;
    }
    lanes(&w, &ws).map_err(|e| format!("at the end: {e}"))?;
    // a circuit that hands out all it gets
    if a > 0 {
        use expander_compiler::circuit::layered::{Gate, NormalInput, Segment};
        let (ni, no) = (a.next_power_of_two(), (a + b).next_power_of_two());
        let mut seg = Segment::<C, NormalInputType> { num_inputs: expander_compiler::circuit::layered::InputUsize::from_vec(vec![ni]), num_outputs: no, ..Default::default() };
        for i in 0..a {
            seg.gate_adds.push(Gate { inputs: [NormalInput { offset: i }], output: i, coef: Coef::Constant(one::<C>()) });
        }
        for i in 0..b {
            seg.gate_consts.push(Gate { inputs: [], output: a + i, coef: Coef::PublicInput(i) });
        }
        let lc = Circuit::<C, NormalInputType> { num_public_inputs: b, num_actual_outputs: a + b, expected_num_output_zeroes: 0, segments: vec![seg], layer_ids: vec![0] };
        if a == ni {
            let (dec, outs) = guarded(|| lc.run_with_output(&w)).map_err(|e| format!("running: {e}"))?;
            let exp: Vec<Vec<Fe<C>>> = ws.iter().map(|(x, p)| x.iter().chain(p).copied().collect()).collect();
            if dec != vec![true; cnt] || outs != exp {
                return Err(format!("running {cnt} witnesses gave {} decisions and {} outputs, or other values", dec.len(), outs.len()));
            }
        }
    }
    ctx.nontrivial(cnt % n.max(2) != 0 && cnt > 1);
    Ok(())
}
pub fn c12(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c12_f, g, ctx)
}
