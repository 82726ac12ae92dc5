//! C14: evaluating and printing the intermediate forms.
use crate::common::*;
use crate::per_field;
use ecgen::lcgen::{self, LcOpts};
use ecgen::refeval::{self, Env, Out};
use ecgen::*;
use expander_compiler::builder::{final_build, final_build_opt, hint_normalize};
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir::common::{IrConfig, RootCircuit};
use expander_compiler::circuit::layered::{Circuit, Coef, CrossLayerInputType, Input, InputType, InputUsize, NormalInputType};
use expander_compiler::hints::{stub_impl, BuiltinHintIds};
use expander_compiler::utils::error::Error;
use pbt::{guarded, Ctx, Gen};
use arith::Field;
use ethnum::U256;
use std::collections::HashMap;

type Eval<C, R> = fn(&R, &[Fe<C>], &mut Env<C>) -> Out<C>;

/// The evaluator of the circuits has fixed hint functions and public inputs.
fn stub<C: Config>(id: usize, x: &[Fe<C>], n: usize) -> Option<Vec<Fe<C>>> {
    BuiltinHintIds::from_usize(id).is_none().then(|| stub_impl(id, &x.to_vec(), n))
}
fn env<C: Config>(public: &[Fe<C>]) -> Env<'_, C> {
    let mut e = Env::<C>::new(public, 1);
    e.ext = Some(stub::<C>);
    e
}
fn stub_public<C: Config>(n: usize) -> Vec<Fe<C>> {
    (0..n).map(|i| fu::<C>((i * i % 1_000_000_007 * i % 1_000_000_007) as u64)).collect()
}

struct Case<C: Config> {
    xs: Vec<Vec<Fe<C>>>,
    public: Vec<Fe<C>>,
    judged: usize,
    undefined: usize,
}

fn judge<C: Config, I: IrConfig<Config = C>>(k: &mut Case<C>, what: &str, rc: &RootCircuit<I>, eval: Eval<C, RootCircuit<I>>) -> Result<(), String> {
    for x in &k.xs {
        let mut e = env::<C>(&k.public);
        let want = eval(rc, x, &mut e);
        let got = guarded(|| rc.eval_unsafe_with_errors(x.clone())).map_err(|e| format!("{what}: evaluation panicked: {e} on {}", show_all::<C>(x)))?;
        let loose = e.undef || e.hint_failed || e.div_zero;
        match got {
            Err(Error::UserError(_)) if loose || !want.sat => k.undefined += 1,
            Err(m) => return Err(format!("{what}: evaluation is refused: {m} on {}", show_all::<C>(x))),
            Ok(_) if loose => k.undefined += 1,
            Ok((o, s)) => {
                if s != want.sat {
                    return Err(format!("{what}: evaluates to satisfied={s}, expected {}, on {}", want.sat, show_all::<C>(x)));
                }
                if o != want.outputs {
                    return Err(format!("{what}: outputs {}, expected {}, on {}", show_all::<C>(&o), show_all::<C>(&want.outputs), show_all::<C>(x)));
                }
                let plain = guarded(|| rc.eval_unsafe(x.clone())).map_err(|e| format!("{what}: {e}"))?;
                if plain != (o, s) {
                    return Err(format!("{what}: the two evaluations differ on {}", show_all::<C>(x)));
                }
                k.judged += 1;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ reading what is printed

#[derive(Default)]
struct Text {
    inputs: usize,
    lines: Vec<(Vec<usize>, String)>,
    outputs: Vec<usize>,
    constraints: Vec<usize>,
}
fn number(s: &str) -> Result<usize, String> {
    s.trim().parse().map_err(|_| format!("{s:?} is no number"))
}
fn var(s: &str) -> Result<usize, String> {
    number(s.trim().strip_prefix('v').ok_or_else(|| format!("{s:?} is no variable"))?)
}
fn vars(s: &str) -> Result<Vec<usize>, String> {
    s.split(',').filter(|v| !v.trim().is_empty()).map(var).collect()
}
fn read(text: &str) -> Result<HashMap<usize, Text>, String> {
    let mut all = HashMap::new();
    let mut at: Option<(usize, Text, usize, usize)> = None;
    let close = |at: Option<(usize, Text, usize, usize)>, all: &mut HashMap<usize, Text>| {
        if let Some((id, t, o, c)) = at {
            if t.outputs.len() != o || t.constraints.len() != c {
                return Err(format!("circuit {id} announces {o} outputs and {c} constraints, lists {} and {}", t.outputs.len(), t.constraints.len()));
            }
            if all.insert(id, t).is_some() {
                return Err(format!("circuit {id} is printed twice"));
            }
        }
        Ok(())
    };
    for l in text.lines() {
        if let Some(h) = l.strip_prefix("Circuit ") {
            close(at.take(), &mut all)?;
            let n: Vec<usize> = h.split([' ', '=']).filter_map(|w| w.parse().ok()).collect();
            let [id, inputs, o, c] = n[..] else { return Err(format!("header {l:?}")) };
            at = Some((id, Text { inputs, ..Default::default() }, o, c));
            continue;
        }
        let t = &mut at.as_mut().ok_or_else(|| format!("line outside of a circuit: {l:?}"))?.1;
        if let Some(o) = l.strip_prefix("Outputs:") {
            t.outputs = vars(o)?;
        } else if let Some(c) = l.strip_prefix("Constraints:") {
            t.constraints = vars(c)?;
        } else if !l.trim().is_empty() {
            let (o, r) = l.split_once('=').ok_or_else(|| format!("line {l:?}"))?;
            t.lines.push((vars(o)?, r.trim().to_string()));
        }
    }
    close(at, &mut all)?;
    Ok(all)
}
fn call(s: &str) -> Result<(usize, Vec<usize>), String> {
    let (n, a) = s.strip_suffix(')').and_then(|s| s.split_once('(')).ok_or_else(|| format!("call {s:?}"))?;
    Ok((number(n)?, vars(a)?))
}
fn follow<C: Config>(all: &HashMap<usize, Text>, id: usize, x: &[Fe<C>], public: &[Fe<C>]) -> Result<(Vec<Fe<C>>, bool), String> {
    let t = all.get(&id).ok_or_else(|| format!("circuit {id} is not printed"))?;
    if t.inputs != x.len() {
        return Err(format!("circuit {id} is printed with {} inputs, called with {}", t.inputs, x.len()));
    }
    let mut v = vec![zero::<C>()];
    v.extend_from_slice(x);
    let mut sat = true;
    for (outs, rhs) in &t.lines {
        if *outs != (v.len()..v.len() + outs.len()).collect::<Vec<_>>() {
            return Err(format!("circuit {id}: variables {outs:?} are defined where {} comes next", v.len()));
        }
        let get = |i: usize| v.get(i).copied().ok_or_else(|| format!("circuit {id}: v{i} is used before its definition"));
        let mut vals = vec![];
        if let Some(c) = rhs.strip_prefix("sub") {
            let (n, a) = call(c)?;
            let a = a.into_iter().map(get).collect::<Result<Vec<_>, _>>()?;
            let (o, s) = follow::<C>(all, n, &a, public)?;
            sat &= s;
            vals = o;
        } else {
            let mut sum = zero::<C>();
            for term in rhs.split('+').map(str::trim).filter(|t| !t.is_empty()) {
                let mut p = one::<C>();
                for f in term.split('*').map(str::trim) {
                    p = p * if let Some(c) = f.strip_prefix("custom") {
                        let (n, a) = call(c)?;
                        stub_impl(n, &a.into_iter().map(get).collect::<Result<Vec<_>, _>>()?, 1)[0]
                    } else if let Some(c) = f.strip_prefix("PublicInput") {
                        let i = number(c.trim_matches(['(', ')']))?;
                        *public.get(i).ok_or("public input out of range")?
                    } else if f.starts_with('v') {
                        get(var(f)?)?
                    } else {
                        Fe::<C>::from_u256(f.parse::<U256>().map_err(|_| format!("{f:?} in {rhs:?}"))?)
                    };
                }
                sum = sum + p;
            }
            vals.push(sum);
        }
        if vals.len() != outs.len() {
            return Err(format!("circuit {id}: {} values for {outs:?}", vals.len()));
        }
        v.extend(vals);
    }
    let get = |i: &usize| v.get(*i).copied().ok_or_else(|| format!("circuit {id}: v{i} does not exist"));
    for c in &t.constraints {
        sat &= get(c)?.is_zero();
    }
    Ok((t.outputs.iter().map(get).collect::<Result<Vec<_>, _>>()?, sat))
}
fn printed<C: Config>(k: &Case<C>, what: &str, text: &str, zeroes: usize, eval: &dyn Fn(&[Fe<C>], &mut Env<C>) -> Out<C>) -> Result<(), String> {
    let all = read(text).map_err(|e| format!("{what}: the printed circuit is unreadable: {e}\n{text}"))?;
    for x in &k.xs {
        let want = eval(x, &mut env::<C>(&k.public));
        let (o, mut sat) = follow::<C>(&all, 0, x, &k.public).map_err(|e| format!("{what}: the printed circuit: {e}\n{text}"))?;
        if o.len() < zeroes {
            return Err(format!("{what}: {} outputs are printed", o.len()));
        }
        sat &= o[..zeroes].iter().all(|v| v.is_zero());
        if o[zeroes..] != want.outputs || sat != want.sat {
            return Err(format!("{what}: the printed circuit yields {} satisfied={sat}, the circuit {} satisfied={}, on {}\n{text}", show_all::<C>(&o[zeroes..]), show_all::<C>(&want.outputs), want.sat, show_all::<C>(x)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ intermediate forms

fn chain<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let mut o = opts(g);
    o.random = false;
    let c = case::<C>(g, ctx, o, 3);
    ctx.tag("from the source");
    let mut k = Case { xs: c.ins.iter().map(|i| i.0.clone()).collect(), public: stub_public::<C>(c.src.rc.num_public_inputs), judged: 0, undefined: 0 };
    judge(&mut k, "source circuit", &c.src.rc, |r, x, e| refeval::source(r, x, e, &mut |_, _| {}))?;
    let done = |k: &Case<C>, ctx: &mut Ctx| {
        ctx.units += (k.judged + k.undefined) as u64;
        ctx.tag_if(k.undefined > 0, "evaluation of something undefined");
        ctx.nontrivial(k.judged >= 2);
        Ok(())
    };
    // refusals are judged elsewhere
    let Ok(Ok(hn)) = guarded(|| hint_normalize::process(&c.src.rc)) else { return done(&k, ctx) };
    judge(&mut k, "hint normalised circuit", &hn, refeval::hint_normalized::<C>)?;
    let Ok((hl, exported)) = guarded(|| hn.remove_and_export_hints()) else { return done(&k, ctx) };
    judge(&mut k, "witness program", &exported, refeval::hint_normalized::<C>)?;
    let mut e = env::<C>(&k.public);
    k.xs = k.xs.iter().map(|x| refeval::witness_program(&exported, x, &mut e)).collect();
    if k.xs.iter().any(|x| x.len() != hl.input_size()) {
        return Err("witness program: number of values".into());
    }
    judge(&mut k, "hint less circuit", &hl, refeval::hint_less::<C>)?;
    let text = guarded(|| hl.to_string()).map_err(|e| format!("printing the hint less circuit panicked: {e}"))?;
    printed(&k, "hint less circuit", &text, hl.expected_num_output_zeroes, &|x, e| refeval::hint_less(&hl, x, e))?;
    let d = if g.bool() { guarded(|| final_build_opt::process(&hl)) } else { guarded(|| final_build::process(&hl)) };
    let Ok(Ok(d)) = d else { return done(&k, ctx) };
    // constraints may be dropped from here on, so that it is judged by itself
    dest::<C>(g, &mut k, d)?;
    done(&k, ctx)
}
fn dest<C: Config>(g: &mut Gen, k: &mut Case<C>, d: expander_compiler::circuit::ir::dest::RootCircuitRelaxed<C>) -> Result<(), String> {
    judge(k, "relaxed circuit", &d, refeval::dest_relaxed::<C>)?;
    let text = guarded(|| d.to_string()).map_err(|e| format!("printing the relaxed circuit panicked: {e}"))?;
    printed(k, "relaxed circuit", &text, d.expected_num_output_zeroes, &|x, e| refeval::dest_relaxed(&d, x, e))?;
    let mut r = d;
    if g.chance(1, 3) {
        r = match guarded(|| r.solve_mul_fanout_limit(2)) {
            Ok(r) => r,
            Err(_) => return Ok(()),
        };
        judge(k, "relaxed circuit of limited fan-out", &r, refeval::dest_relaxed::<C>)?;
    }
    r.reassign_duplicate_sub_circuit_outputs(true);
    let Ok(s) = guarded(|| r.solve_duplicates()) else { return Ok(()) };
    judge(k, "strict circuit", &s, refeval::dest_strict::<C>)?;
    let text = guarded(|| s.to_string()).map_err(|e| format!("printing the strict circuit panicked: {e}"))?;
    printed(k, "strict circuit", &text, s.expected_num_output_zeroes, &|x, e| refeval::dest_strict(&s, x, e))
}
fn direct<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let n = *g.pick(&[4, 10, 25]);
    let custom = g.chance(1, 3);
    let c = destgen::gen::<C>(g, n, custom, true);
    let ins = c.inputs(g, 3);
    ctx.describe(|| c.describe(&ins));
    ctx.tag("generated destination form");
    let mut k = Case { xs: ins.into_iter().map(|i| i.0).collect(), public: stub_public::<C>(c.rc.num_public_inputs), judged: 0, undefined: 0 };
    dest::<C>(g, &mut k, c.rc)?;
    ctx.units += k.judged as u64;
    ctx.nontrivial(k.judged >= 2);
    Ok(())
}

// ------------------------------------------------------------------ layered circuits

fn numbers(s: &str) -> Vec<String> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}
fn layered<C: Config, I: InputType>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = LcOpts { max_layers: 5, max_log: 3, random: g.bool(), public: g.bool(), custom: g.bool(), common: g.chance(2, 3), any_coef: g.bool() };
    let lc: Circuit<C, I> = lcgen::gen::<C, I>(g, &o);
    ctx.describe(|| lcgen::describe(&lc));
    ctx.tag("layered circuit");
    let text = guarded(|| lc.to_string()).map_err(|e| format!("printing a layered circuit panicked: {e}"))?;
    let coef = |c: &Coef<C>| match c {
        Coef::Constant(x) => x.to_u256().to_string(),
        Coef::Random => "Random".into(),
        Coef::PublicInput(i) => format!("PublicInput {i}"),
    };
    let place = |i: &I::Input| -> Vec<String> {
        if I::CROSS_LAYER_RELAY {
            vec![i.layer().to_string(), i.offset().to_string()]
        } else {
            vec![i.offset().to_string()]
        }
    };
    let size = |u: &I::InputUsize| -> Vec<String> { (0..u.len()).map(|i| u.get(i).to_string()).collect() };
    // every statement as the list of its numbers, with the kind of its coefficient
    let mut want: Vec<Vec<Vec<String>>> = vec![];
    for s in &lc.segments {
        let mut w = vec![];
        for (id, a) in &s.child_segs {
            for a in a {
                w.push([vec!["child".into(), id.to_string()], size(&a.input_offset), vec![a.output_offset.to_string()]].concat());
            }
        }
        for m in &s.gate_muls {
            w.push([vec!["gate".into(), m.output.to_string()], place(&m.inputs[0]), place(&m.inputs[1]), vec![coef(&m.coef)]].concat());
        }
        for m in &s.gate_adds {
            w.push([vec!["gate".into(), m.output.to_string()], place(&m.inputs[0]), vec![coef(&m.coef)]].concat());
        }
        for m in &s.gate_consts {
            w.push(vec!["gate".into(), m.output.to_string(), coef(&m.coef)]);
        }
        for m in &s.gate_customs {
            w.push([vec!["custom".into(), m.output.to_string(), m.gate_type.to_string()], m.inputs.iter().flat_map(place).collect(), vec![coef(&m.coef)]].concat());
        }
        w.sort();
        w.insert(0, [size(&s.num_inputs), vec![s.num_outputs.to_string()]].concat());
        want.push(w);
    }
    let mut got: Vec<Vec<Vec<String>>> = vec![];
    let mut child = String::new();
    let mut layers = None;
    for l in text.lines() {
        let fields = |s: &str| -> Vec<String> {
            let (s, end) = if let Some(s) = s.strip_suffix("Random") {
                (s, Some("Random".to_string()))
            } else if let Some((a, b)) = s.split_once("PublicInput(") {
                (a, Some(format!("PublicInput {}", b.trim_end_matches(')'))))
            } else {
                (s, None)
            };
            let mut n = numbers(s);
            n.extend(end);
            n
        };
        if let Some(h) = l.strip_prefix("Circuit ") {
            let (id, r) = h.split_once(':').ok_or_else(|| format!("header {l:?}"))?;
            if id.trim() != got.len().to_string() {
                return Err(format!("segment {} is printed as {id}", got.len()));
            }
            got.push(vec![numbers(r)]);
        } else if let Some(r) = l.strip_prefix("Layers:") {
            layers = Some(numbers(r));
        } else if l.starts_with("apply circuit") {
            child = numbers(l).concat();
        } else if l.trim_start().starts_with("input_offset") {
            let s = got.last_mut().ok_or("an allocation before the first segment")?;
            s.push([vec!["child".into(), child.clone()], numbers(l)].concat());
        } else if l.starts_with("out") {
            let s = got.last_mut().ok_or("a gate before the first segment")?;
            s.push([vec![if l.contains("custom") { "custom" } else { "gate" }.to_string()], fields(l)].concat());
        }
    }
    for s in got.iter_mut().filter(|s| s.len() > 1) {
        s[1..].sort();
    }
    if layers != Some(lc.layer_ids.iter().map(|i| i.to_string()).collect()) {
        return Err(format!("layers {:?} are printed as {layers:?}", lc.layer_ids));
    }
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            return Err(format!("segment {i}: printed {:?}, it is {:?}\n{text}", got.get(i), want.get(i)));
        }
    }
    ctx.units += want.len() as u64;
    ctx.nontrivial(want.len() > 1);
    Ok(())
}

fn c14_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.weighted(&[5, 4, 1, 1]) {
        0 => chain::<C>(g, ctx),
        1 => direct::<C>(g, ctx),
        2 => layered::<C, NormalInputType>(g, ctx),
        _ => layered::<C, CrossLayerInputType>(g, ctx),
    }
}
pub fn c14(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c14_f, g, ctx)
}
