//! The listed findings of Z04 and Z05, on each proving system.
use crate::*;
use arith::{Field as _, SimdField as _};
use gkr_engine::{GKREngine, Transcript};
use kern::{Arg, As, Kern, N};

type B = BN254Config;

fn kinds(i: usize) -> Option<(Which, &'static str)> {
    Some(match i {
        0 => (Which { kind: Kind::Expander, world: 1 }, "expander"),
        1 => (Which { kind: Kind::Local, world: 1 }, "local"),
        2 => (Which { kind: Kind::Parallel, world: 4 }, "parallel"),
        3 => (Which { kind: Kind::Deferred, world: 4 }, "deferred"),
        4 => (Which { kind: Kind::NoOver(false), world: 2 }, "no-oversubscribe"),
        5 => (Which { kind: Kind::NoOver(true), world: 2 }, "no-oversubscribe-deferred"),
        6 => (Which { kind: Kind::Dummy, world: 1 }, "dummy"),
        _ => return None,
    })
}
fn arg(shape: &[usize], inp: bool) -> Arg {
    Arg { shape: shape.to_vec(), inp, out: !inp }
}
/// A launch on the transpose of an array, read where the array lies.
pub fn permuted_argument(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    let (s, name) = kinds(i)?;
    let mut t = History::<B>::new();
    t.kernels = vec![Kern { args: vec![arg(&[2], true), arg(&[], false)], nodes: vec![N::In(0, 0), N::In(0, 1), N::Mul(0, 1), N::Add(0, 2)], asserts: vec![], writes: vec![vec![], vec![(0, 3)]] }];
    let a = t.push_copy(Arr { shape: vec![2, 4], v: (0..8).map(|i| vec![fu::<B>(i * i + 2)]).collect() }, 0);
    let b = t.transpose(a, vec![1, 0]);
    t.call(0, 4, vec![Some(b), None]);
    Some((|| {
        let m = ready(&t, ctx)?;
        if !permuted(&m.cg) {
            return Ok(());
        }
        ctx.finding(&format!("permuted-argument-{name}"));
        prove_and_verify(&m, &s, false, ctx)
    })())
}
fn ready<C: Config>(t: &History<C>, ctx: &mut Ctx) -> Result<Made<C>, String> {
    let mut r = run_all(t, ctx)?.ok_or("refused")?;
    let cg = compile(t, &mut r)?.ok_or("refused")?;
    guarded(|| r.cx.solve_witness())?.map_err(|e| e.to_string())?;
    let mem = r.cx.export_device_memories();
    let t = History { ops: vec![], kernels: vec![], hs: vec![], holds: t.holds.clone(), outs: vec![], ..History::new() };
    Ok(Made { t, cg, mem })
}
/// Two conditions are checked by one random combination. Its coefficients are drawn before the
/// prover commits to anything, so that two wrongs can be made to cancel.
pub fn known_randomness(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    let (s, name) = kinds(i)?;
    if s.kind == Kind::Dummy {
        return Some(Ok(()));
    }
    let mut t = History::<B>::new();
    t.kernels = vec![Kern { args: vec![arg(&[], true), arg(&[], true)], nodes: vec![N::In(0, 0), N::In(1, 0), N::Const(0)], asserts: vec![As::Eq(0, 2), As::Eq(1, 2)], writes: vec![vec![], vec![]] }];
    let a = t.push_copy(Arr { shape: vec![], v: vec![vec![fu::<B>(0)]] }, 0);
    let b = t.push_copy(Arr { shape: vec![], v: vec![vec![fu::<B>(0)]] }, 0);
    t.call(0, 1, vec![Some(a), Some(b)]);
    Some((|| {
        let m = ready(&t, ctx)?;
        let tm = &m.cg.proof_templates()[0];
        let idx = tm.commitment_indices().to_vec();
        let mut tr = <B as GKREngine>::TranscriptConfig::new();
        let mut ec: expander_circuit::Circuit<Fc<B>> = m.cg.kernels()[tm.kernel_id()].layered_circuit().export_to_expander_flatten();
        ec.pre_process_gkr();
        ec.fill_rnd_coefs(&mut tr);
        let mut sums = vec![];
        let vs = m.cg.kernels()[tm.kernel_id()].layered_circuit_input().to_vec();
        for v in &vs {
            let mut c = ec.clone();
            c.layers[0].input_vals = vec![Sf::<B>::zero(); 1 << c.layers[0].input_var_num];
            c.layers[0].input_vals[v.offset] = Sf::<B>::one();
            c.evaluate();
            sums.push(c.output()[0]);
            if c.output()[1..].iter().any(|x| !x.is_zero()) {
                return Ok(()); // not combined into one
            }
        }
        let mut bad = m.mem.clone();
        bad[idx[0]][0] = sums[1];
        bad[idx[1]][0] = -sums[0];
        if bad[idx[0]][0].unpack().iter().all(|x| x.is_zero()) {
            return Ok(());
        }
        ctx.finding(&format!("known-randomness-{name}"));
        let (ps, vs) = guarded(|| s.setup::<B>(&m.cg))?;
        match s.prove::<B>(&ps, &m.cg, &bad) {
            Ok(p) if s.verify::<B>(&vs, &m.cg, &p) == Ok(true) => Err("accepted: the proof of a launch that asserts two zeros, on two other values".into()),
            _ => Ok(()),
        }
    })())
}

/// Launches of more slices than random computations have: where provers change their ways.
const MANY: &[(Kind, usize, usize)] = &[
    (Kind::Local, 1, 200),
    (Kind::Local, 1, 256),
    (Kind::Local, 1, 257),
    (Kind::Local, 1, 512),
    (Kind::Local, 1, 1000),
    (Kind::Expander, 1, 130),
    (Kind::NoOver(false), 1, 32),
    (Kind::NoOver(true), 2, 60),
    (Kind::NoOver(false), 4, 128),
    (Kind::NoOver(true), 1, 200),
    (Kind::NoOver(false), 2, 512),
    (Kind::NoOver(true), 4, 700),
    (Kind::NoOver(false), 1, 2048),
    (Kind::Parallel, 32, 32),
    (Kind::Deferred, 64, 33),
];
fn many<C: Sys>(n: usize, ctx: &mut Ctx) -> Result<Made<C>, String> {
    let mut t = History::<C>::new();
    // out = x0 * x1 + y, and a small kernel next to it
    t.kernels = vec![
        Kern {
            args: vec![arg(&[2], true), arg(&[], true), arg(&[], false)],
            nodes: vec![N::In(0, 0), N::In(0, 1), N::In(1, 0), N::Mul(0, 1), N::Add(3, 2)],
            asserts: vec![],
            writes: vec![vec![], vec![], vec![(0, 4)]],
        },
        Kern { args: vec![arg(&[], true), arg(&[], true)], nodes: vec![N::In(0, 0), N::In(1, 0)], asserts: vec![As::Eq(0, 1)], writes: vec![vec![], vec![]] },
    ];
    let a = t.push_copy(Arr { shape: vec![n, 2], v: (0..2 * n).map(|i| vec![fu::<C>((i * 31 % 65_521 + i) as u64); pack::<C>()]).collect() }, 0);
    let b = t.push_copy(Arr { shape: vec![], v: vec![vec![fu::<C>(7); pack::<C>()]] }, 0);
    let c = t.push_copy(Arr { shape: vec![n], v: (0..n).map(|i| vec![fu::<C>((i * i + 5) as u64); pack::<C>()]).collect() }, 0);
    t.call(0, n, vec![Some(a), Some(b), None]);
    t.call(1, n, vec![Some(c), Some(c)]);
    ready(&t, ctx)
}
pub fn z04(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    if let Some(r) = permuted_argument(i, ctx) {
        return Some(r);
    }
    let i = i - 7;
    let &(kind, world, n) = MANY.get(i % MANY.len())?;
    let s = Which { kind, world };
    let other = i >= MANY.len();
    if i >= 2 * MANY.len() {
        return None;
    }
    ctx.nontrivial(true);
    ctx.tag("many slices");
    ctx.describe(|| format!("{} on {n} slices", s.name()));
    Some(if other && !matches!(kind, Kind::NoOver(_)) {
        if i % 2 == 0 {
            many::<M31Config>(n, ctx).and_then(|m| prove_and_verify(&m, &s, false, ctx))
        } else {
            many::<GF2Config>(n, ctx).and_then(|m| prove_and_verify(&m, &s, false, ctx))
        }
    } else if other {
        Ok(())
    } else {
        many::<B>(n, ctx).and_then(|m| prove_and_verify(&m, &s, true, ctx))
    })
}
/// One value wrong in one of many slices.
pub fn z05(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    if let Some(r) = known_randomness(i, ctx) {
        return Some(r);
    }
    let &(kind, world, n) = MANY.get(i - 7)?;
    let s = Which { kind, world };
    ctx.nontrivial(true);
    ctx.tag("many slices");
    ctx.describe(|| format!("{} on {n} slices, one of them wrong", s.name()));
    Some((|| {
        let m = many::<B>(n, ctx)?;
        let (ps, vs) = guarded(|| s.setup::<B>(&m.cg))?;
        for (launch, memory) in [(0usize, 2usize), (0, 0), (1, 0)] {
            let idx = m.cg.proof_templates()[launch].commitment_indices()[memory];
            for at in [0, n / 2 + 3, n - 1] {
                let mut bad = m.mem.clone();
                let len = bad[idx].len();
                bad[idx][at * len / n.next_power_of_two()] += Sf::<B>::one();
                if crate::z05::holds(&m.cg, &bad) {
                    continue;
                }
                ctx.units += 1;
                if let Ok(p) = s.prove::<B>(&ps, &m.cg, &bad) {
                    if s.verify::<B>(&vs, &m.cg, &p) == Ok(true) {
                        return Err(format!("accepted: memory {memory} of launch {launch} wrong in slice {at} of {n}"));
                    }
                }
            }
        }
        Ok(())
    })())
}
