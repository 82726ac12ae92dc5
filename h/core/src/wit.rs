//! C04: witness solving, one at a time and in batches.
use crate::common::*;
use crate::per_field;
use arith::{Field as _, SimdField as _};
use ecgen::*;
use expander_compiler::circuit::config::{CircuitField, Config, SIMDField};
use expander_compiler::circuit::ir::common::Instruction as _;
use expander_compiler::circuit::ir::source::Instruction;
use expander_compiler::circuit::layered::witness::Witness;
use expander_compiler::circuit::layered::NormalInputType;
use expander_compiler::compile::CompileOptions;
use expander_compiler::hints::registry::EmptyHintCaller;
use pbt::{guarded, Ctx, Gen};

type Pair<C> = (Vec<Fe<C>>, Vec<Fe<C>>);

fn c04_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let mut o = opts(g);
    let plain = g.chance(1, 4);
    if plain {
        o.hints = false;
    }
    let mut src = srcgen::gen::<C>(g, o);
    // a hint that fails where an input is zero, and whose value is an output
    let mut fails_at = None;
    if !plain && g.chance(1, 3) {
        let root = src.rc.circuits.get_mut(&0).unwrap();
        let v = 1 + g.below(root.num_inputs);
        root.instructions.push(Instruction::Hint { hint_id: FAILING_HINT, inputs: vec![v], num_outputs: 1 });
        let n = root.num_inputs + root.instructions.iter().map(|i| i.num_outputs()).sum::<usize>();
        root.outputs.push(n);
        src.root_out_taint.push(false);
        fails_at = Some(v - 1);
    }
    let ins = src.inputs(g, 4);
    let wants: Vec<_> = ins.iter().map(|(x, p)| want(&src, x, p)).collect();
    note(ctx, &src, &wants);
    let pack = SIMDField::<C>::PACK_SIZE;
    let many = g.chance(1, 500);
    ctx.tag_if(many, "more than 256 witnesses");
    let count = match g.below(6) {
        _ if many => 257 + g.below(300),
        0 => 1,
        1 => 2,
        2 => pack,
        3 => pack + 1,
        4 => pack.max(2) - 1,
        _ => 1 + g.below(2 * pack + 3),
    };
    let batch: Vec<usize> = (0..count).map(|_| if g.chance(1, 3) { 0 } else { g.below(ins.len()) }).collect();
    ctx.describe(|| format!("{}batch of {batch:?}\n", src.describe(&ins)));

    let co = CompileOptions::default().with_opt_level(1 + g.below(3));
    let Some(k) = compile::<C, NormalInputType>(&src, &wants, co)? else { return Ok(()) };
    let hints = Hints::<C>::new();
    let root = &k.solver.circuit.circuits[&0];

    let mut singles: Vec<Option<Pair<C>>> = vec![];
    for ((x, p), w) in ins.iter().zip(&wants) {
        let must_fail = fails_at.is_some_and(|i| x[i].is_zero());
        let Some(r) = run(&k, x, p, w)? else {
            if w.sat == Some(true) && !w.hint_failed {
                return Err("no witness for a satisfying input".into());
            }
            singles.push(None);
            continue;
        };
        if must_fail {
            return Err(format!("a hint fails on {} yet a witness came back", show_all::<C>(x)));
        }
        for (i, &v) in root.outputs.iter().enumerate() {
            if v <= root.num_inputs && r.witness[i] != x[v - 1] {
                return Err(format!("position {i} of the witness holds {}, input {} is {}", show::<C>(&r.witness[i]), v - 1, show::<C>(&x[v - 1])));
            }
        }
        agree("single witness", w, &r.outputs, r.sat, x)?;
        // again: nothing is left over from the first time
        let again = run(&k, x, p, w)?.map(|r| r.witness);
        if again.as_ref() != Some(&r.witness) {
            return Err("solving twice gives different witnesses".into());
        }
        singles.push(Some((r.witness, p.clone())));
        ctx.units += 1;
    }
    if plain {
        // no user hints: an empty registry is enough
        for ((x, p), s) in ins.iter().zip(&singles) {
            let e = guarded(|| k.solver.solve_witness_from_raw_inputs(x.clone(), p.clone(), &EmptyHintCaller)).map_err(|e| format!("panic without hints: {e}"))?;
            let e = e.ok().map(|w| w.iter_scalar().next().unwrap());
            if e != *s {
                return Err("the witness depends on the registry although no hint of it is used".into());
            }
        }
    } else {
        let (x, p) = &ins[0];
        guarded(|| k.solver.solve_witness_from_raw_inputs(x.clone(), p.clone(), &EmptyHintCaller).is_ok()).map_err(|e| format!("an unregistered hint panics: {e}"))?;
    }

    let r = guarded(|| k.solver.solve_witnesses_from_raw_inputs(count, |i| ins[batch[i]].clone(), &hints)).map_err(|e| format!("the batch panicked: {e}"))?;
    let all_fine = batch.iter().all(|&i| singles[i].is_some());
    let w = match (r, all_fine) {
        (Err(_), false) => {
            ctx.tag("batch fails");
            return Ok(());
        }
        (Err(e), true) => return Err(format!("each witness can be solved, the batch cannot: {e}")),
        (Ok(_), false) => return Err("a batch with an unsolvable member was solved".into()),
        (Ok(w), true) => w,
    };
    let check = || check_batch::<C>(&k.lc, &w, &batch, &singles, &wants, &ins);
    // a second time: the verifier's randomness may hide a broken constraint once in a long while
    check().or_else(|_| check())?;
    ctx.tag_if(count > pack && pack > 1, "more than one block");
    ctx.tag_if(fails_at.is_some(), "failing hint");
    let has_hints = src.rc.circuits.values().any(|c| c.instructions.iter().any(|i| matches!(i, Instruction::Hint { .. } | Instruction::Div { .. } | Instruction::ToBinary { .. } | Instruction::IsZero(_))));
    ctx.nontrivial(has_hints && count > 1 && batch.iter().any(|&i| singles[i] != singles[batch[0]]));
    Ok(())
}

fn check_batch<C: Config>(
    lc: &expander_compiler::circuit::layered::Circuit<C, NormalInputType>,
    w: &Witness<C>,
    batch: &[usize],
    singles: &[Option<Pair<C>>],
    wants: &[Want<C>],
    ins: &[Pair<C>],
) -> Result<(), String> {
    let pack = SIMDField::<C>::PACK_SIZE;
    let expected: Vec<Pair<C>> = batch.iter().map(|&i| singles[i].clone().unwrap()).collect();
    let got: Vec<Pair<C>> = w.iter_scalar().collect();
    if got != expected {
        let i = (0..expected.len()).find(|&i| got.get(i) != Some(&expected[i])).unwrap_or(expected.len());
        return Err(format!("witness {i} of {} in the batch differs from the one solved alone", batch.len()));
    }
    let mut from_simd: Vec<Pair<C>> = vec![];
    for (a, b) in w.iter_simd() {
        from_simd.extend(lanes::<C>(&a, &b));
    }
    if from_simd.len() != (batch.len() + pack - 1) / pack * pack {
        return Err(format!("{} lanes for {} witnesses", from_simd.len(), batch.len()));
    }
    // what fills the last pack is proved as well
    if let Some(i) = (batch.len()..from_simd.len()).find(|&i| !expected.contains(&from_simd[i])) {
        return Err(format!("lane {i} is of no witness of the batch of {}", batch.len()));
    }
    from_simd.truncate(batch.len());
    if from_simd != expected {
        return Err("the packed iterator yields different witnesses".into());
    }
    if batch.len() >= pack {
        let (a, b) = w.to_simd::<SIMDField<C>>();
        if lanes::<C>(&a, &b)[..] != expected[..pack] {
            return Err("to_simd yields different witnesses".into());
        }
    }
    let (sat, outs) = guarded(|| lc.run_with_output(w)).map_err(|e| format!("running the batch panicked: {e}"))?;
    let only = guarded(|| lc.run(w)).map_err(|e| format!("running the batch panicked: {e}"))?;
    if sat.len() != batch.len() || outs.len() != batch.len() || only.len() != batch.len() {
        return Err(format!("{} decisions and {} outputs for {} witnesses", sat.len(), outs.len(), batch.len()));
    }
    for (j, &i) in batch.iter().enumerate() {
        agree(&format!("witness {j} of the batch"), &wants[i], &outs[j], sat[j], &ins[i].0)?;
        agree(&format!("witness {j} of the batch, without outputs"), &wants[i], &outs[j], only[j], &ins[i].0)?;
    }
    Ok(())
}
fn lanes<C: Config>(a: &[SIMDField<C>], b: &[SIMDField<C>]) -> Vec<Pair<C>> {
    let pack = SIMDField::<C>::PACK_SIZE;
    let (a, b): (Vec<Vec<CircuitField<C>>>, Vec<Vec<_>>) = (a.iter().map(|x| x.unpack()).collect(), b.iter().map(|x| x.unpack()).collect());
    (0..pack).map(|j| (a.iter().map(|x| x[j]).collect(), b.iter().map(|x| x[j]).collect())).collect()
}
pub fn c04(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c04_f, g, ctx)
}
