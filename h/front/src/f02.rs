//! F02: a dishonest prover's helper values against the compiled constraints.
use crate::prog::*;
use crate::*;
use arith::Field as _;
use ecgen::refeval::{self, Env};
use expander_compiler::circuit::input_mapping::InputMapping;
use expander_compiler::circuit::ir::{dest, hint_less};
use expander_compiler::circuit::layered::NormalInputType;
use expander_compiler::compile::*;
use expander_compiler::frontend::builder::RootBuilder;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::Define;
use expander_compiler::layering;

struct Stage<C: Config> {
    less: hint_less::RootCircuit<C>,
    dest: dest::RootCircuit<C>,
    /// from helper-free inputs to inputs of `dest`
    hl: InputMapping,
    /// from inputs of `dest` to those of the layered circuit
    lay: InputMapping,
    lc: Circuit<C, NormalInputType>,
    /// honest inputs for each assignment tried, and which of the positions are helper values
    honest: Vec<Vec<Fe<C>>>,
    helper: Vec<bool>,
}
fn stage<C: Config>(m: &Made<C>, o: &CompileOptions) -> Result<Stage<C>, Error> {
    set_prog(&m.p);
    let mut cir = m.p.circuit();
    let (mut b, x, p) = RootBuilder::<C>::new(m.p.nx, m.p.np);
    cir.load_from(&mut x.as_slice(), &mut p.as_slice());
    cir.define(&mut b);
    let rc = b.build();
    let (hn, src_im) = compile_step_1(&rc, o.clone())?;
    let (less, exported) = hn.remove_and_export_hints();
    let (dest, hl) = compile_step_2::<C, NormalInputType>(less.clone(), o.clone())?;
    let (lc, lay) = layering::compile(&dest, layering::CompileOptions { allow_input_reorder: o.allow_input_reorder });
    let lc = compile_step_3(lc, o.clone())?;
    let root = &exported.circuits[&0];
    let helper = root.outputs.iter().map(|&v| v > root.num_inputs).collect();
    let honest = m
        .ins
        .iter()
        .map(|(x, p)| {
            let mut env = Env::<C>::new(p, 1);
            refeval::witness_program(&exported, &src_im.map_inputs(x), &mut env)
        })
        .collect();
    Ok(Stage { less, dest, hl, lay, lc, honest, helper })
}

struct Eval<C: Config> {
    residual: Vec<Fe<C>>,
    outputs: Vec<Fe<C>>,
}
impl<C: Config> Stage<C> {
    /// What each constraint evaluates to, before they are combined.
    fn eval(&self, v: &[Fe<C>], p: &[Fe<C>]) -> Eval<C> {
        let mut env = Env::<C>::new(p, 7);
        let mut residual = vec![];
        let z = self.less.expected_num_output_zeroes;
        let (o, _) = refeval::hint_less_values(&self.less, 0, v, &mut env, &mut |id, vals| {
            residual.extend(self.less.circuits[&id].constraints.iter().map(|&k| vals[k]));
        });
        residual.extend(&o[..z]);
        Eval { residual, outputs: o[z..].to_vec() }
    }
    fn dest(&self, v: &[Fe<C>], p: &[Fe<C>]) -> (Vec<Fe<C>>, bool) {
        let x = self.hl.map_inputs(v);
        let mut sat = true;
        let mut out = vec![];
        // what passes by luck with one seed does not with another
        for seed in [7, 1007] {
            let o = refeval::dest_strict(&self.dest, &x, &mut Env::<C>::new(p, seed));
            sat &= o.sat;
            out = o.outputs;
        }
        (out, sat)
    }
    /// Some(text) if what the prover supplied is accepted with a wrong result.
    fn judge(&self, v: &[Fe<C>], p: &[Fe<C>], w: &Meaning<C>, ctx: &mut Ctx) -> Result<bool, String> {
        let e = self.eval(v, p);
        let ok = e.residual.iter().all(|r| r.is_zero());
        let (dout, dok) = self.dest(v, p);
        let x = self.lay.map_inputs(&self.hl.map_inputs(v));
        let (out, acc) = self.lc.eval_with_public_inputs(x.clone(), p);
        // luck with the verifier's randomness is excluded by a second run
        let acc = acc && (is_gf2::<C>() || self.lc.eval_with_public_inputs(x, p).1);
        ctx.units += 1;
        if w.free {
            // zero over zero without a check is anything
            return Ok(ok);
        }
        let text = || format!("helper values {} (honest or not) in {}", show_all::<C>(&v.iter().zip(&self.helper).filter(|h| *h.1).map(|h| *h.0).collect::<Vec<_>>()), show_all::<C>(v));
        for (what, accepts, out) in [("the constraints", ok, &e.outputs), ("the optimized circuit", dok, &dout), ("the layered circuit", acc, &out)] {
            if accepts && !w.sat {
                return Err(format!("{what} accept an assignment that must be refused, with {}", text()));
            }
            if accepts && *out != w.outputs {
                return Err(format!("{what} accept outputs {} instead of {}, with {}", show_all::<C>(out), show_all::<C>(&w.outputs), text()));
            }
        }
        Ok(ok)
    }
}

fn other<C: Config>(g: &mut Gen, v: &[Fe<C>], i: usize) -> Fe<C> {
    let x = v[i];
    match g.below(6) {
        0 => x + one::<C>(),
        1 => one::<C>() - x,
        2 => zero::<C>(),
        3 => fe::<C>(g),
        4 => v[g.below(v.len())],
        _ => x - fu::<C>(2),
    }
}

/// Fixes violated constraints one after another by solving each for one helper value.
fn repair<C: Config>(g: &mut Gen, s: &Stage<C>, v: &mut [Fe<C>], p: &[Fe<C>], hs: &[usize], mut locked: Vec<usize>) -> bool {
    for _ in 0..8 {
        let e = s.eval(v, p);
        let bad: Vec<usize> = (0..e.residual.len()).filter(|&i| !e.residual[i].is_zero()).collect();
        if bad.is_empty() {
            return true;
        }
        let c = *g.pick(&bad);
        let mut done = false;
        let from = g.below(hs.len());
        for k in 0..hs.len().min(24) {
            let j = hs[(from + k) % hs.len()];
            if locked.contains(&j) {
                continue;
            }
            let keep = v[j];
            let mut f = |x: Fe<C>| {
                v[j] = x;
                s.eval(v, p).residual[c]
            };
            let (f0, f1) = (f(zero::<C>()), f(one::<C>()));
            let f2 = if is_gf2::<C>() { f0 } else { f(fu::<C>(2)) };
            let root = if f0.is_zero() && keep != zero::<C>() {
                Some(zero::<C>())
            } else if f1.is_zero() {
                Some(one::<C>())
            } else if !is_gf2::<C>() && f2 - f1 == f1 - f0 && f1 != f0 {
                Some((zero::<C>() - f0) * (f1 - f0).inv().unwrap())
            } else {
                None
            };
            match root {
                Some(r) => {
                    v[j] = r;
                    locked.push(j);
                    done = true;
                    break;
                }
                None => v[j] = keep,
            }
        }
        if !done {
            return false;
        }
    }
    s.eval(v, p).residual.iter().all(|r| r.is_zero())
}

fn attack<C: Config>(g: &mut Gen, ctx: &mut Ctx, m: &Made<C>, s: &Stage<C>) -> Result<(), String> {
    let hs: Vec<usize> = (0..s.helper.len()).filter(|&i| s.helper[i]).collect();
    ctx.tag(format!("{} helper values", if hs.len() > 20 { ">20".into() } else { hs.len().to_string() }));
    for (i, ((_, p), w)) in m.ins.iter().zip(&m.wants).enumerate() {
        let h = &s.honest[i];
        s.judge(h, p, w, ctx)?;
        if w.free {
            continue;
        }
        if hs.is_empty() {
            continue;
        }
        if is_gf2::<C>() && hs.len() <= 9 {
            let mut v = h.clone();
            for mask in 0..1usize << hs.len() {
                for (b, &j) in hs.iter().enumerate() {
                    v[j] = fu::<C>((mask >> b & 1) as u64);
                }
                s.judge(&v, p, w, ctx)?;
            }
            ctx.tag("all helper values");
            ctx.nontrivial(w.sat);
            continue;
        }
        for _ in 0..6 {
            let mut v = h.clone();
            let j = *g.pick(&hs);
            v[j] = other::<C>(g, h, j);
            s.judge(&v, p, w, ctx)?;
            let fixed = repair(g, s, &mut v, p, &hs, vec![j]);
            s.judge(&v, p, w, ctx)?;
            if fixed && v != *h {
                ctx.tag("accepted helper values other than the honest ones");
            }
            // two neighbours that keep a sum of bits
            let a = g.below(hs.len());
            let b = (a + 1 + g.small(3)) % hs.len();
            let d = fe::<C>(g);
            let mut v = h.clone();
            let step = (hs[b] + hs.len() - hs[a]) % hs.len();
            v[hs[a]] = v[hs[a]] + d * refeval::pow::<C>(fu::<C>(2), (step as u64).into());
            v[hs[b]] = v[hs[b]] - d;
            s.judge(&v, p, w, ctx)?;
        }
        ctx.nontrivial(w.sat);
    }
    Ok(())
}
fn f02_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = POpts {
        ops: *g.pick(&[3, 6, 10]),
        subs: if g.chance(1, 3) { 2 } else { 0 },
        sub_ops: 4,
        calls: 6,
        unconstrained: false,
        hints: false,
        random: false,
        compare: false,
        sat: 5,
    };
    let m = prog::gen::<C>(g, o, 2);
    let co = options(g);
    note(ctx, &m);
    ctx.describe(|| format!("{}{co:?}", describe(&m)));
    match guarded(|| stage(&m, &co)) {
        Ok(Ok(s)) => attack(g, ctx, &m, &s),
        // what may be refused is decided by F01
        _ => {
            ctx.tag("refused");
            Ok(())
        }
    }
}
pub fn f02(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, f02_f, g, ctx)
}

/// The listed findings: bit decompositions that more than one list of bits satisfies.
fn wide<C: Config>(ctx: &mut Ctx, key: &str, n: usize, x: Fe<C>, bits: ethnum::U256) -> Result<(), String> {
    let mut p = Prog { nx: 1, ..Default::default() };
    p.root.ops.push(O::ToBin(A::In(0), n));
    p.root.outs = (0..n).map(A::Loc).collect();
    let ins = vec![(vec![x], vec![])];
    let wants = vec![meaning::<C>(&p, &[x], &[])];
    let m = Made { p, ins, wants };
    let s = stage(&m, &CompileOptions::default()).map_err(|e| e.to_string())?;
    s.judge(&s.honest[0], &[], &m.wants[0], ctx)?;
    ctx.finding(key);
    let hs: Vec<usize> = (0..s.helper.len()).filter(|&i| s.helper[i]).collect();
    if hs.len() != n {
        return Ok(());
    }
    // the helper values are the bits, in order
    let mut v = s.honest[0].clone();
    for (b, &j) in hs.iter().enumerate() {
        v[j] = fu::<C>(((bits >> b as u32) & ethnum::U256::ONE).as_u64());
    }
    s.judge(&v, &[], &m.wants[0], ctx).map(|_| ())
}
pub fn f02_directed(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    use expander_compiler::circuit::config::*;
    Some(match i {
        0 => wide::<M31Config>(ctx, "to_binary-full-width", 31, fu::<M31Config>(0), modulus::<M31Config>()),
        1 => wide::<BN254Config>(ctx, "to_binary-full-width", 254, fu::<BN254Config>(5), modulus::<BN254Config>() + ethnum::U256::from(5u32)),
        _ => return None,
    })
}
