//! Compiling generated circuits and comparing the result with the reference evaluator.
use ecgen::refeval::{self, Env};
use ecgen::srcgen::{self, Opts, Src};
use ecgen::*;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir::hint_normalized::{self, witness_solver::WitnessSolver};
use expander_compiler::circuit::layered::{Circuit, InputType};
use expander_compiler::compile::{compile_with_options, CompileOptions};
use expander_compiler::utils::error::Error;
use pbt::{guarded, Ctx, Gen};


/// Runs `$f::<C>($($a),*)` for the field chosen by the generator.
#[macro_export]
macro_rules! per_field {
    ($g:expr, $f:ident, $($a:expr),*) => {{
        use expander_compiler::circuit::config::*;
        match $g.weighted(&[6, 2, 4, 2, 1]) {
            0 => $f::<M31Config>($($a),*),
            1 => $f::<BN254Config>($($a),*),
            2 => $f::<GF2Config>($($a),*),
            3 => $f::<GoldilocksConfig>($($a),*),
            _ => $f::<BabyBearConfig>($($a),*),
        }
    }};
}

/// What the source circuit means on one input.
#[derive(Clone, Debug)]
pub struct Want<C: Config> {
    /// None where the value depends on the verifier's randomness.
    pub outputs: Vec<Option<Fe<C>>>,
    pub sat: Option<bool>,
    pub undef: bool,
    pub div_zero: bool,
    pub hint_failed: bool,
}

pub fn want<C: Config>(s: &Src<C>, x: &[Fe<C>], p: &[Fe<C>]) -> Want<C> {
    let mut runs = vec![];
    let (mut undef, mut div_zero, mut hint_failed) = (false, false, false);
    let n = if s.has_random { 3 } else { 1 };
    for seed in 0..n {
        let mut env = Env::<C>::new(p, 1000 + seed);
        runs.push(refeval::source(&s.rc, x, &mut env, &mut |_, _| {}));
        undef |= env.undef;
        div_zero |= env.div_zero;
        hint_failed |= env.hint_failed;
    }
    let small = is_gf2::<C>() && s.has_random;
    let outputs = (0..runs[0].outputs.len())
        .map(|i| {
            let v = runs[0].outputs[i];
            let same = runs.iter().all(|r| r.outputs[i] == v);
            (same && !(small && s.root_out_taint[i])).then_some(v)
        })
        .collect();
    let same = runs.iter().all(|r| r.sat == runs[0].sat);
    // with one-bit randomness a false decision may have been luck; a true one may not
    let sat = (same && !(small && s.tainted_constraint)).then_some(runs[0].sat);
    Want { outputs, sat, undef, div_zero, hint_failed }
}

pub struct Compiled<C: Config, I: InputType> {
    pub solver: WitnessSolver<C>,
    pub lc: Circuit<C, I>,
}

/// Ok(None): the compiler may refuse this circuit and did.
pub fn compile<C: Config, I: InputType>(s: &Src<C>, wants: &[Want<C>], o: CompileOptions) -> Result<Option<Compiled<C, I>>, String> {
    match guarded(|| compile_with_options::<C, I>(&s.rc, o.clone())) {
        Err(p) => Err(format!("compiling with {o:?} panicked: {p}")),
        Ok(Err(Error::InternalError(e))) => Err(format!("compiling with {o:?} failed inside the compiler: {e}")),
        Ok(Err(Error::UserError(e))) => {
            let known = e.contains("root circuit should have constraints or outputs") || e.contains("circuit has no inputs");
            let unsat = wants.iter().all(|w| w.sat != Some(true));
            let div = wants.iter().any(|w| w.div_zero);
            if known || unsat || div {
                return Ok(None);
            }
            Err(format!("a satisfiable circuit was refused with {o:?}: {e}"))
        }
        Ok(Ok((hn, lc))) => Ok(Some(Compiled { solver: WitnessSolver { circuit: hn }, lc })),
    }
}

#[derive(Clone, Debug)]
pub struct Ran<C: Config> {
    pub outputs: Vec<Fe<C>>,
    pub sat: bool,
    pub witness: Vec<Fe<C>>,
}

/// Solves and runs; Err only for a panic or an unexpected refusal.
pub fn run<C: Config, I: InputType>(c: &Compiled<C, I>, x: &[Fe<C>], p: &[Fe<C>], w: &Want<C>) -> Result<Option<Ran<C>>, String> {
    let sol = guarded(|| c.solver.solve_witness_from_raw_inputs(x.to_vec(), p.to_vec(), &Hints::<C>::new())).map_err(|e| format!("solving a witness panicked: {e}"))?;
    let wit = match sol {
        Err(e) => {
            if w.sat == Some(true) && !w.hint_failed {
                return Err(format!("no witness for a satisfying input: {e}"));
            }
            return Ok(None);
        }
        Ok(wit) => wit,
    };
    let all: Vec<_> = wit.iter_scalar().collect();
    if all.len() != 1 || all[0].1 != p {
        return Err(format!("witness holds {} assignments, public inputs {}", all.len(), show_all::<C>(&all[0].1)));
    }
    let inputs = all[0].0.clone();
    if inputs.len() != c.lc.input_size() {
        return Err(format!("witness has {} inputs, the circuit {}", inputs.len(), c.lc.input_size()));
    }
    let eval = || guarded(|| c.lc.eval_with_public_inputs(inputs.clone(), p)).map_err(|e| format!("evaluation panicked: {e}"));
    let (mut outputs, mut sat) = eval()?;
    if sat && w.sat == Some(false) && !is_gf2::<C>() {
        // the verifier's randomness may hide a broken constraint once in a long while
        (outputs, sat) = eval()?;
    }
    Ok(Some(Ran { outputs, sat, witness: inputs }))
}

pub fn agree<C: Config>(what: &str, w: &Want<C>, outputs: &[Fe<C>], sat: bool, x: &[Fe<C>]) -> Result<(), String> {
    if let Some(s) = w.sat {
        if s != sat {
            return Err(format!("{what}: satisfied is {sat}, expected {s}, on {}", show_all::<C>(x)));
        }
    }
    if outputs.len() != w.outputs.len() {
        return Err(format!("{what}: {} outputs, expected {}", outputs.len(), w.outputs.len()));
    }
    if w.undef {
        return Ok(());
    }
    for (i, (a, b)) in outputs.iter().zip(&w.outputs).enumerate() {
        if let Some(b) = b {
            if a != b {
                return Err(format!("{what}: output {i} is {}, expected {}, on {}", show::<C>(a), show::<C>(b), show_all::<C>(x)));
            }
        }
    }
    Ok(())
}

pub fn opts(g: &mut Gen) -> Opts {
    let mut o = Opts::default();
    o.max_insns = *g.pick(&[4, 8, 15, 30]);
    o.max_circuits = *g.pick(&[1, 2, 3, 5]);
    if g.chance(1, 2) {
        o.random = false;
    }
    if g.chance(2, 3) {
        o.custom = false;
    }
    if g.chance(1, 4) {
        o.hints = false;
    }
    if g.chance(1, 4) {
        o.public = false;
    }
    o
}

pub fn note<C: Config>(ctx: &mut Ctx, s: &Src<C>, wants: &[Want<C>]) {
    ctx.tag(format!("field {}", field_bits::<C>()));
    ctx.tag_if(s.rc.circuits.len() > 1, "sub-circuits");
    ctx.tag_if(s.has_random, "randomness");
    ctx.tag_if(s.has_custom, "custom gates");
    ctx.tag_if(s.rc.expected_num_output_zeroes > 0, "zero outputs");
    ctx.tag_if(wants.iter().any(|w| w.sat == Some(true)), "satisfied");
    ctx.tag_if(wants.iter().any(|w| w.sat == Some(false)), "unsatisfied");
    ctx.tag_if(wants.iter().any(|w| w.undef), "undefined value");
}

pub fn size<C: Config>(rc: &hint_normalized::RootCircuit<C>) -> usize {
    rc.circuits.values().map(|c| c.instructions.len()).sum()
}

pub struct Case<C: Config> {
    pub src: Src<C>,
    pub ins: Vec<(Vec<Fe<C>>, Vec<Fe<C>>)>,
    pub wants: Vec<Want<C>>,
}
pub fn case<C: Config>(g: &mut Gen, ctx: &mut Ctx, o: Opts, n: usize) -> Case<C> {
    let src = srcgen::gen::<C>(g, o);
    case_of(g, ctx, src, n)
}
pub fn case_of<C: Config>(g: &mut Gen, ctx: &mut Ctx, src: srcgen::Src<C>, n: usize) -> Case<C> {
    let ins = src.inputs(g, n);
    let wants: Vec<_> = ins.iter().map(|(x, p)| want(&src, x, p)).collect();
    note(ctx, &src, &wants);
    ctx.describe(|| src.describe(&ins));
    Case { src, ins, wants }
}
