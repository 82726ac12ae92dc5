//! F01-F06, U05: the circuit-building frontend.
mod f02;
mod f04;
mod f06;
mod prog;
mod u05;
use ecgen::*;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::layered::{Circuit, InputType};
use expander_compiler::compile::CompileOptions;
use expander_compiler::frontend::extra::debug_eval;
use expander_compiler::frontend::{compile, compile_cross_layer, Error, HintRegistry, WitnessSolver};
use pbt::{guarded, Ctx, Gen, Prop};
use prog::*;

#[macro_export]
macro_rules! per_field {
    ($g:expr, $f:ident, $($a:expr),*) => {{
        use expander_compiler::circuit::config::*;
        match $g.weighted(&[6, 2, 4, 2, 1]) {
            0 => $f::<M31Config>($($a),*),
            1 => $f::<BN254Config>($($a),*),
            2 => $f::<GF2Config>($($a),*),
            3 => $f::<GoldilocksConfig>($($a),*),
            _ => $f::<BabyBearConfig>($($a),*),
        }
    }};
}

fn popts<C: Config>(g: &mut Gen) -> POpts {
    POpts {
        ops: *g.pick(&[3, 6, 12, 25]),
        subs: 0,
        sub_ops: 6,
        calls: 0,
        unconstrained: g.chance(3, 4),
        hints: g.chance(1, 2),
        random: g.chance(1, 3),
        // comparisons exist for two field sizes only
        compare: matches!(field_bits::<C>(), 31 | 254),
        sat: 6,
    }
}

fn options(g: &mut Gen) -> CompileOptions {
    let mut o = CompileOptions::default();
    if g.chance(1, 3) {
        o = o.with_opt_level(1 + g.below(3));
        if g.bool() {
            o = o.with_mul_fanout_limit(2 + g.below(4));
        }
        if g.bool() {
            o = o.without_input_reorder();
        }
    }
    o
}

/// A compiled program: solves a witness and runs the layered circuit on it.
struct Built<C: Config> {
    solver: WitnessSolver<C>,
    run: Box<dyn Fn(&[Fe<C>], &[Fe<C>]) -> Result<(Vec<Fe<C>>, bool), String>>,
    layers: usize,
}
fn runner<C: Config, I: InputType + 'static>(lc: Circuit<C, I>) -> Box<dyn Fn(&[Fe<C>], &[Fe<C>]) -> Result<(Vec<Fe<C>>, bool), String>> {
    Box::new(move |x, p| {
        if x.len() != lc.input_size() {
            return Err(format!("the witness has {} inputs, the circuit {}", x.len(), lc.input_size()));
        }
        guarded(|| lc.eval_with_public_inputs(x.to_vec(), p)).map_err(|e| format!("evaluating the compiled circuit panicked: {e}"))
    })
}
/// None: refused, as it may be.
fn build<C: Config>(m: &Made<C>, cross: bool, o: CompileOptions) -> Result<Option<Built<C>>, String> {
    let p = &m.p;
    set_prog(p);
    let c = p.circuit();
    let r = if cross {
        guarded(|| compile_cross_layer::<C, _>(&c, o.clone()))
            .map(|r| r.map(|r| (r.witness_solver, r.layered_circuit.layer_ids.len(), runner(r.layered_circuit))))
    } else {
        guarded(|| compile::<C, _>(&c, o.clone())).map(|r| r.map(|r| (r.witness_solver, r.layered_circuit.layer_ids.len(), runner(r.layered_circuit))))
    };
    if let Some(e) = complaint() {
        return Err(e);
    }
    let may = m.wants.iter().all(|w| !w.sat) || m.wants.iter().any(|w| w.div_zero);
    match r {
        Ok(Ok((solver, layers, run))) => {
            for (at, v) in known() {
                check_known(m, 0..m.ins.len(), at, v)?;
            }
            Ok(Some(Built { solver, layers, run }))
        }
        // constants that fail an assertion stop the building already
        Err(e) if may && !e.contains("overflow") && !e.contains("index out of") => Ok(None),
        Err(e) => Err(format!("building and compiling panicked: {e}")),
        Ok(Err(Error::UserError(e))) if may || e.contains("root circuit should have constraints or outputs") || e.contains("circuit has no inputs") => Ok(None),
        Ok(Err(e)) => Err(format!("compiling failed: {e}")),
    }
}
/// A value known while building is the value on every input.
fn check_known<C: Config>(m: &Made<C>, on: std::ops::Range<usize>, at: usize, v: Option<ethnum::U256>) -> Result<(), String> {
    let O::Known(a) = &m.p.root.ops[at] else { unreachable!() };
    if matches!(a, A::U32(_) | A::F(_)) && v.is_none() {
        return Err(format!("constant_value of the constant {a:?} is unknown"));
    }
    for ((x, p), w) in m.ins[on.clone()].iter().zip(&m.wants[on]) {
        let ins: Vec<_> = x.iter().chain(p).copied().collect();
        let f = Frame::<C> { ins: &ins, loc: w.loc.clone(), param: 0 };
        let want = opnd::<C>(a, &f).to_u256();
        if let Some(v) = v {
            if w.sat && v != want {
                return Err(format!("constant_value of {a:?} is {v}, its value {want}"));
            }
        }
    }
    Ok(())
}
use arith::Field as _;

/// Ok(None): no witness, as it may be.
fn solve_run<C: Config>(b: &Built<C>, h: &HintRegistry<Fe<C>>, x: &[Fe<C>], p: &[Fe<C>], w: &Meaning<C>) -> Result<Option<(Vec<Fe<C>>, bool)>, String> {
    let sol = guarded(|| b.solver.solve_witness_with_hints(&assignment::<C>(x, p), h)).map_err(|e| format!("solving a witness panicked: {e}"))?;
    let wit = match sol {
        Err(e) => {
            if w.sat && !w.hint_failed {
                return Err(format!("no witness on {}: {e}", show_all::<C>(x)));
            }
            return Ok(None);
        }
        Ok(wit) => wit,
    };
    let all: Vec<_> = wit.iter_scalar().collect();
    if all.len() != 1 || all[0].1 != p {
        return Err("the witness holds other public inputs".into());
    }
    let mut r = (b.run)(&all[0].0, p)?;
    if r.1 && !w.sat && !is_gf2::<C>() {
        r = (b.run)(&all[0].0, p)?;
    }
    Ok(Some(r))
}
fn agree<C: Config>(what: &str, w: &Meaning<C>, out: &[Fe<C>], sat: bool, x: &[Fe<C>]) -> Result<(), String> {
    if w.hint_failed {
        return Ok(());
    }
    if w.sat != sat {
        return Err(format!("{what}: satisfied is {sat}, expected {}, on {}", w.sat, show_all::<C>(x)));
    }
    if w.sat && out != w.outputs {
        return Err(format!("{what}: outputs {}, expected {}, on {}", show_all::<C>(out), show_all::<C>(&w.outputs), show_all::<C>(x)));
    }
    Ok(())
}
fn note<C: Config>(ctx: &mut Ctx, m: &Made<C>) {
    ctx.tag(format!("field {}", field_bits::<C>()));
    ctx.tag_if(m.wants.iter().any(|w| w.sat), "satisfied");
    ctx.tag_if(m.wants.iter().any(|w| !w.sat), "unsatisfied");
    for o in &m.p.root.ops {
        match o {
            O::Bin(k, ..) => ctx.tag(BIN[*k]),
            O::Un(k, _) => ctx.tag(UN[*k]),
            O::Assert(k, ..) => ctx.tag(format!("assert {}", AS[*k])),
            O::Unc(k, ..) => ctx.tag(format!("unconstrained {}", UNC[*k])),
            O::Div(..) => ctx.tag("div"),
            O::ToBin(..) => ctx.tag("to_binary"),
            O::FromBin(..) => ctx.tag("from_binary"),
            O::Hint(..) => ctx.tag("hint"),
            O::Rand(..) => ctx.tag("random value"),
            O::Known(..) => ctx.tag("constant_value"),
            O::Call { way, .. } => ctx.tag(["call item", "call closure", "call capturing closure", "call pointer"][*way]),
            O::Memo { f, .. } => ctx.tag(format!("memorized {f}")),
        }
    }
}

fn compiled<C: Config>(g: &mut Gen, ctx: &mut Ctx, o: POpts) -> Result<(), String> {
    let m = prog::gen::<C>(g, o, 3);
    let cross = g.chance(1, 4);
    let co = options(g);
    note(ctx, &m);
    ctx.describe(|| format!("{}{co:?}, cross-layer {cross}", describe(&m)));
    let Some(b) = build(&m, cross, co)? else {
        ctx.tag("refused");
        return Ok(());
    };
    let h = hints::<C>();
    for ((x, p), w) in m.ins.iter().zip(&m.wants) {
        let Some((out, sat)) = solve_run(&b, &h, x, p, w)? else { continue };
        agree("compiled program", w, &out, sat, x)?;
        ctx.units += 1;
        if w.sat && b.layers >= 2 && (w.calls >= 2 || m.p.subs.is_empty()) {
            ctx.nontrivial(true);
        }
    }
    Ok(())
}
fn f01_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = popts::<C>(g);
    compiled::<C>(g, ctx, o)
}
fn f01(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, f01_f, g, ctx)
}
fn calls<C: Config>(g: &mut Gen) -> POpts {
    let mut o = popts::<C>(g);
    o.subs = 4;
    o.ops = *g.pick(&[6, 12, 25]);
    o.sub_ops = 8;
    o.calls = *g.pick(&[8, 20, 60]);
    o.compare = false;
    o
}
fn f03_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = calls::<C>(g);
    compiled::<C>(g, ctx, o)
}
fn f03(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, f03_f, g, ctx)
}
fn f05_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = if g.chance(1, 2) { calls::<C>(g) } else { popts::<C>(g) };
    let m = prog::gen::<C>(g, o, 2);
    note(ctx, &m);
    ctx.describe(|| describe(&m));
    let b = build(&m, false, CompileOptions::default())?;
    let h = hints::<C>();
    for (i, ((x, p), w)) in m.ins.iter().zip(&m.wants).enumerate() {
        set_prog(&m.p);
        let d = guarded(|| debug_eval::<C, _, _, _>(&m.p.circuit(), &assignment::<C>(x, p), hints::<C>()));
        if let Some(e) = complaint() {
            return Err(e);
        }
        let c = match &b {
            None => continue,
            Some(b) => solve_run(b, &h, x, p, w)?,
        };
        if w.hint_failed {
            continue;
        }
        let accepted = matches!(c, Some((_, true)));
        match d {
            Err(e) => {
                if accepted {
                    return Err(format!("debug evaluation stopped ({e}) where the compiled circuit accepts {}", show_all::<C>(x)));
                }
            }
            Ok(out) => {
                if !accepted {
                    return Err(format!("debug evaluation accepts what the compiled circuit refuses: {}", show_all::<C>(x)));
                }
                let (c, _) = c.unwrap();
                if c != out {
                    return Err(format!("debug outputs {}, compiled outputs {}, on {}", show_all::<C>(&out), show_all::<C>(&c), show_all::<C>(x)));
                }
                for (at, v) in known() {
                    check_known(&m, i..i + 1, at, v)?;
                }
                if w.sat && m.p.root.ops.len() >= 2 {
                    ctx.nontrivial(true);
                }
            }
        }
        ctx.units += 1;
    }
    Ok(())
}
fn f05(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, f05_f, g, ctx)
}

fn p(id: &'static str, rule: &'static str, case: fn(&mut Gen, &mut Ctx) -> Result<(), String>, quick: usize, assumptions: &'static [&'static str]) -> Prop {
    Prop { id, rule, case, directed: None, quick, thorough: quick * 100, threads: 8, assumptions, min_nontrivial_pct: 20 }
}
const STANDINS: &[&str] = &["field arithmetic and serialization of the stand-ins for Expander's crates are correct"];

fn main() {
    pbt::main(&[
        p("F01", "a satisfied program compiled to at least two layers", f01, 60_000, STANDINS),
        Prop { directed: Some(f02::f02_directed), min_nontrivial_pct: 15, ..p("F02", "a satisfied assignment of a program with helper values, all of which or 12 of which were changed and the rest solved for", f02::f02, 100_000, STANDINS) },
        Prop { min_nontrivial_pct: 8, ..p("F03", "a satisfied program of at least two calls compiled to at least two layers", f03, 120_000, STANDINS) },
        p("F04", "a built-in hint of nonzero operands, at least two successful calls of registered hints, or a program of at least two hint calls", f04::f04, 1_000_000, STANDINS),
        p("F05", "a program of at least two operations that both accept", f05, 60_000, STANDINS),
        p("F06", "terms that combine or cancel, a combination of at least two terms, or a mapping composed of at least two", f06::f06, 2_000_000, STANDINS),
        Prop { directed: Some(u05::u05_directed), ..p("U05", "a stored program of at least three operations", u05::u05, 150_000, STANDINS) },
    ])
}
