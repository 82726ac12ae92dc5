//! C05: every pass on its own, in many orders.
use crate::common::*;
use crate::opts::sound;
use crate::per_field;
use ecgen::refeval::{self, Env, Out};
use ecgen::*;
use expander_compiler::builder::{final_build, final_build_opt, hint_normalize};
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::input_mapping::EMPTY;
use expander_compiler::circuit::ir::common::{IrConfig, RootCircuit};
use expander_compiler::circuit::ir::dest::{self, RootCircuitRelaxed};
use expander_compiler::circuit::ir::expr::VarSpec;
use expander_compiler::circuit::ir::source;
use expander_compiler::circuit::layered::{CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::layering;
use expander_compiler::utils::error::Error;
use pbt::{guarded, Ctx, Gen};

type Eval<C, R> = fn(&R, &[Fe<C>], &mut Env<C>) -> Out<C>;

/// The inputs tried, as the circuit of the current stage takes them, and what is expected.
struct Track<C: Config> {
    ins: Vec<(Vec<Fe<C>>, Vec<Fe<C>>)>,
    wants: Vec<Want<C>>,
    passes: usize,
}
impl<C: Config> Track<C> {
    fn judge<R>(&self, what: &str, r: &R, eval: Eval<C, R>) -> Result<(), String> {
        for ((x, p), w) in self.ins.iter().zip(&self.wants) {
            let once = |seed| {
                let o = eval(r, x, &mut Env::<C>::new(p, seed));
                agree(what, w, &o.outputs, o.sat, x)
            };
            once(1).or_else(|_| once(2))?;
        }
        Ok(())
    }
    fn remap(&mut self, what: &str, m: &[usize], n: usize, fill: impl Fn() -> Fe<C>) -> Result<(), String> {
        for (x, _) in self.ins.iter_mut() {
            if x.len() != m.len() {
                return Err(format!("{what}: the mapping has {} entries for {} inputs", m.len(), x.len()));
            }
            let mut y: Vec<Option<Fe<C>>> = vec![None; n];
            for (i, &t) in m.iter().enumerate() {
                if t == EMPTY {
                    continue;
                }
                if t >= n || y[t].is_some() {
                    return Err(format!("{what}: bad mapping {m:?} into {n}"));
                }
                y[t] = Some(x[i]);
            }
            *x = y.into_iter().map(|v| v.unwrap_or_else(&fill)).collect();
        }
        Ok(())
    }
    fn unsat(&self) -> bool {
        self.wants.iter().all(|w| w.sat != Some(true))
    }
}

/// The circuit turned out to say nothing: not an error, but there is no more to check.
const NOTHING_LEFT: &str = "nothing left";

fn valid<I: IrConfig>(what: &str, r: &RootCircuit<I>) -> Result<(), String> {
    if r.circuits.get(&0).is_some_and(|c| c.outputs.is_empty()) && r.circuits.values().all(|c| c.constraints.is_empty()) {
        return Err(NOTHING_LEFT.into());
    }
    r.validate().map_err(|e| format!("{what}: result is not valid: {e}"))
}

/// Passes that every intermediate form has, in random order.
fn shake<C: Config, I: IrConfig<Config = C>>(g: &mut Gen, stage: &str, r: RootCircuit<I>, t: &mut Track<C>, eval: Eval<C, RootCircuit<I>>) -> Result<RootCircuit<I>, String> {
    let mut r = r;
    for _ in 0..g.below(4) {
        let which = g.weighted(&[4, 2, 1, 2]);
        let what = format!("{stage}, {}", ["dead code removal", "merging of duplicate outputs", "relaying of duplicate outputs", "dead code removal and merging until nothing changes"][which]);
        let run = |r: &RootCircuit<I>| {
            let mut s = r.clone();
            match which {
                0 => Ok(s.remove_unreachable()),
                1 | 2 => {
                    s.reassign_duplicate_sub_circuit_outputs(which == 2);
                    let m = expander_compiler::circuit::input_mapping::InputMapping::new_identity(s.input_size());
                    Ok((s, m))
                }
                _ => {
                    let mut m = expander_compiler::circuit::input_mapping::InputMapping::new_identity(s.input_size());
                    for _ in 0..200 {
                        let (mut n, k) = s.remove_unreachable();
                        n.reassign_duplicate_sub_circuit_outputs(false);
                        m.compose_in_place(&k);
                        if n == s {
                            return Ok((s, m));
                        }
                        s = n;
                    }
                    Err("does not settle".to_string())
                }
            }
        };
        let (n, m) = guarded(|| run(&r)).map_err(|e| format!("{what}: panicked: {e}"))?.map_err(|e| format!("{what}: {e}"))?;
        valid(&what, &n)?;
        if n.input_size() != m.next_size() || n.num_public_inputs != r.num_public_inputs {
            return Err(format!("{what}: {} inputs, the mapping has {}", n.input_size(), m.next_size()));
        }
        t.remap(&what, m.mapping(), m.next_size(), zero::<C>)?;
        t.judge(&what, &n, eval)?;
        if which == 2 {
            for (id, c) in &n.circuits {
                let mut o = c.outputs.clone();
                o.sort();
                o.dedup();
                if o.len() != c.outputs.len() {
                    return Err(format!("{what}: circuit {id} still repeats an output"));
                }
            }
        }
        t.passes += 1;
        r = n;
    }
    Ok(r)
}

fn refusal<C: Config, T>(what: &str, r: Result<Result<T, Error>, String>, t: &Track<C>) -> Result<Option<T>, String> {
    match r {
        Err(p) => Err(format!("{what}: panicked: {p}")),
        Ok(Ok(x)) => Ok(Some(x)),
        Ok(Err(Error::InternalError(e))) => Err(format!("{what}: internal error: {e}")),
        Ok(Err(Error::UserError(e))) => {
            if t.unsat() || t.wants.iter().any(|w| w.div_zero) {
                Ok(None)
            } else {
                Err(format!("{what}: a satisfiable circuit is refused: {e}"))
            }
        }
    }
}

fn from_source<C: Config>(g: &mut Gen, ctx: &mut Ctx, t: &mut Track<C>, src: source::RootCircuit<C>) -> Result<Option<RootCircuitRelaxed<C>>, String> {
    let src_eval: Eval<C, source::RootCircuit<C>> = |r, x, e| refeval::source(r, x, e, &mut |_, _| {});
    let mut r = src;
    for _ in 0..g.below(3) {
        if g.bool() {
            let what = "source, chain detection";
            // absorbed instructions are left behind empty, to be dropped as unreachable
            let (n, m) = guarded(|| {
                let mut s = r.clone();
                s.detect_chains();
                s.remove_unreachable()
            })
            .map_err(|e| format!("{what}: panicked: {e}"))?;
            r = n;
            t.remap(what, m.mapping(), m.next_size(), zero::<C>)?;
            valid(what, &r)?;
            t.judge(what, &r, src_eval)?;
            t.passes += 1;
        }
        r = shake(g, "source", r, t, src_eval)?;
    }
    // a part that is never used may divide by zero; the compiler drops such parts first
    let (r, m) = r.remove_unreachable();
    t.remap("dead code removal", m.mapping(), m.next_size(), zero::<C>)?;
    let what = "hint normalisation";
    let Some(hn) = refusal(what, guarded(|| hint_normalize::process(&r)), t)? else { return Ok(None) };
    valid(what, &hn)?;
    t.judge(what, &hn, refeval::hint_normalized::<C>)?;
    t.passes += 1;
    let hn = shake(g, "hint normalised", hn, t, refeval::hint_normalized::<C>)?;

    let what = "hint removal";
    let (hl, exported) = guarded(|| hn.remove_and_export_hints()).map_err(|e| format!("{what}: panicked: {e}"))?;
    valid(what, &hl)?;
    valid("hint export", &exported)?;
    let mut exported = exported;
    let before = t.ins.clone();
    if g.bool() {
        let what = "witness program, dead code removal";
        let (e, m) = guarded(|| exported.remove_unreachable()).map_err(|e| format!("{what}: panicked: {e}"))?;
        let mut e = e;
        e.add_back_removed_inputs(&m);
        valid(what, &e)?;
        if e.input_size() != exported.input_size() {
            return Err(format!("{what}: {} inputs instead of {}", e.input_size(), exported.input_size()));
        }
        exported = e;
        t.passes += 1;
    }
    for ((y, p), (x, _)) in t.ins.iter_mut().zip(&before) {
        let v = refeval::witness_program(&exported, x, &mut Env::<C>::new(p, 1));
        if v.len() != hl.input_size() {
            return Err(format!("{what}: the witness program yields {} values for {} inputs", v.len(), hl.input_size()));
        }
        if v[..x.len()] != x[..] {
            return Err(format!("{what}: the witness program changes the inputs"));
        }
        *y = v;
    }
    ctx.tag_if(t.ins[0].0.len() > before[0].0.len(), "hints exported");
    t.judge(what, &hl, refeval::hint_less::<C>)?;
    t.passes += 1;
    let hl = shake(g, "hint less", hl, t, refeval::hint_less::<C>)?;
    let opt = g.chance(3, 4);
    let what = if opt { "expression building" } else { "plain expression building" };
    let r = if opt { guarded(|| final_build_opt::process(&hl)) } else { guarded(|| final_build::process(&hl)) };
    let Some(d) = refusal(what, r, t)? else { return Ok(None) };
    valid(what, &d)?;
    t.judge(what, &d, refeval::dest_relaxed::<C>)?;
    t.passes += 1;
    Ok(Some(d))
}

fn fanout<C: Config>(r: &RootCircuitRelaxed<C>) -> usize {
    let mut most = 0;
    for c in r.circuits.values() {
        let mut n = vec![0usize; c.get_num_variables() + 1];
        for i in &c.instructions {
            if let dest::Instruction::InternalVariable { expr } = i {
                for t in expr.iter() {
                    if let VarSpec::Quad(a, b) = t.vars {
                        n[a] += 1;
                        n[b] += 1;
                    }
                }
            }
        }
        most = most.max(n.into_iter().max().unwrap_or(0));
    }
    most
}

fn through_dest<C: Config>(g: &mut Gen, ctx: &mut Ctx, t: &mut Track<C>, d: RootCircuitRelaxed<C>) -> Result<(), String> {
    let eval: Eval<C, RootCircuitRelaxed<C>> = refeval::dest_relaxed::<C>;
    let mut r = shake(g, "relaxed", d, t, eval)?;
    if g.chance(2, 3) {
        let limit = *g.pick(&[2, 2, 3, 4, 6]);
        let what = format!("fan-out limit {limit}");
        let n = guarded(|| r.solve_mul_fanout_limit(limit)).map_err(|e| format!("{what}: panicked: {e}"))?;
        valid(&what, &n)?;
        t.judge(&what, &n, eval)?;
        let m = fanout(&n);
        if m > limit {
            return Err(format!("{what}: a variable is multiplied {m} times"));
        }
        ctx.tag_if(fanout(&r) > limit, "fan-out limited");
        t.passes += 1;
        r = n;
        if g.bool() {
            r = shake(g, "relaxed", r, t, eval)?;
        }
    }
    if !C::ENABLE_RANDOM_COMBINATION || g.chance(1, 3) {
        let what = "constraint export";
        let had = r.circuits.values().map(|c| c.constraints.len()).sum::<usize>();
        let n = guarded(|| r.export_constraints()).map_err(|e| format!("{what}: panicked: {e}"))?;
        valid(what, &n)?;
        t.judge(what, &n, eval)?;
        if n.circuits.values().any(|c| !c.constraints.is_empty()) {
            return Err(format!("{what}: a constraint is left"));
        }
        ctx.tag_if(had > 0, "constraints exported");
        t.passes += 1;
        r = shake(g, "exported", n, t, eval)?;
    }
    let (cleaned, m) = r.remove_unreachable();
    t.remap("dead code removal", m.mapping(), m.next_size(), zero::<C>)?;
    r = cleaned;
    let cross = g.chance(1, 3);
    if !cross {
        let what = "split to single layers";
        let n = guarded(|| layering::ir_split::split_to_single_layer(&r)).map_err(|e| format!("{what}: panicked: {e}"))?;
        valid(what, &n)?;
        t.judge(what, &n, eval)?;
        if n.circuits.values().any(|c| !c.constraints.is_empty()) {
            return Err(format!("{what}: a constraint is left"));
        }
        t.passes += 1;
        r = shake(g, "split", n, t, eval)?;
    }
    r.reassign_duplicate_sub_circuit_outputs(true);
    let what = "relaying of duplicate arguments";
    let s = guarded(|| r.solve_duplicates()).map_err(|e| format!("{what}: panicked: {e}"))?;
    valid(what, &s)?;
    t.judge(what, &s, refeval::dest_strict::<C>)?;
    t.passes += 1;
    let s = if g.bool() {
        let (n, m) = s.remove_unreachable();
        t.remap("dead code removal", m.mapping(), m.next_size(), zero::<C>)?;
        valid("strict, dead code removal", &n)?;
        t.judge("strict, dead code removal", &n, refeval::dest_strict::<C>)?;
        n
    } else {
        s
    };
    // unused parts are always gone when the compiler gets here
    let (s, m) = s.remove_unreachable();
    t.remap("dead code removal", m.mapping(), m.next_size(), zero::<C>)?;
    let mut s = s;
    s.reassign_duplicate_sub_circuit_outputs(false);
    if s.circuits.values().any(|c| c.num_inputs == 0) || (s.circuits[&0].outputs.is_empty() && s.circuits[&0].constraints.is_empty()) {
        ctx.tag("nothing to lay out");
        return Ok(());
    }
    if cross {
        layer::<C, CrossLayerInputType>(g, ctx, t, &s)
    } else {
        layer::<C, NormalInputType>(g, ctx, t, &s)
    }
}

fn layer<C: Config, I: InputType>(g: &mut Gen, ctx: &mut Ctx, t: &mut Track<C>, s: &dest::RootCircuit<C>) -> Result<(), String> {
    let keep = g.bool();
    let fill = fe::<C>(g);
    let what = if I::CROSS_LAYER_RELAY { "cross-layer layout" } else { "layout" };
    let (lc, m) = guarded(|| layering::compile::<C, I>(s, layering::CompileOptions { allow_input_reorder: !keep })).map_err(|e| format!("{what}: panicked: {e}"))?;
    sound(&lc).map_err(|e| format!("{what}: {e}"))?;
    lc.validate().map_err(|e| format!("{what}: result is not valid: {e}"))?;
    if lc.input_size() != m.next_size() {
        return Err(format!("{what}: {} inputs, the mapping has {}", lc.input_size(), m.next_size()));
    }
    if keep {
        let used: Vec<usize> = m.mapping().iter().copied().filter(|&i| i != EMPTY).collect();
        if used.windows(2).any(|w| w[0] >= w[1]) {
            return Err(format!("{what}: inputs are reordered: {:?}", m.mapping()));
        }
    }
    t.remap(what, m.mapping(), m.next_size(), || fill)?;
    for ((x, p), w) in t.ins.iter().zip(&t.wants) {
        let once = |seed| {
            let o = refeval::layered(&lc, x, p, seed);
            agree(what, w, &o.outputs, o.sat, x)
        };
        once(1).or_else(|_| once(2))?;
    }
    t.passes += 1;
    ctx.tag_if(lc.layer_ids.len() >= 3, "three or more layers");
    Ok(())
}

fn c05_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let (mut t, d);
    if g.bool() {
        let o = opts(g);
        let c = case::<C>(g, ctx, o, 3);
        t = Track { ins: c.ins, wants: c.wants, passes: 0 };
        d = match from_source(g, ctx, &mut t, c.src.rc) {
            Ok(Some(d)) => d,
            Ok(None) => return Ok(()),
            Err(e) if e == NOTHING_LEFT => return Ok(()),
            Err(e) => return Err(e),
        };
    } else {
        let n = *g.pick(&[4, 10, 25]);
        let custom = g.chance(1, 4);
        let c = destgen::gen::<C>(g, n, custom, true);
        let ins = c.inputs(g, 3);
        ctx.describe(|| c.describe(&ins));
        let wants: Vec<Want<C>> = ins
            .iter()
            .map(|(x, p)| {
                let o = refeval::dest_relaxed(&c.rc, x, &mut Env::<C>::new(p, 0));
                Want { outputs: o.outputs.into_iter().map(Some).collect(), sat: Some(o.sat), undef: false, div_zero: false, hint_failed: false }
            })
            .collect();
        ctx.tag("starts at the destination form");
        t = Track { ins, wants, passes: 0 };
        d = c.rc;
    }
    if let Err(e) = through_dest(g, ctx, &mut t, d) {
        return if e == NOTHING_LEFT { Ok(()) } else { Err(e) };
    }
    ctx.units += t.passes as u64 * t.ins.len() as u64;
    ctx.nontrivial(t.passes >= 5 && !t.unsat());
    Ok(())
}
pub fn c05(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c05_f, g, ctx)
}
