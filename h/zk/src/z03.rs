//! Z03: the recorded graph.
use crate::*;
use arith::SimdField as _;
use expander_compiler::zkcuda::context::{ComputationGraph, ProofTemplate};
use serdes::ExpSerde;

fn same<C: Config>(a: &ComputationGraph<C>, b: &ComputationGraph<C>) -> bool {
    a.proof_templates() == b.proof_templates() && a.commitments_lens() == b.commitments_lens()
}

fn alike<C: Config>(a: &ComputationGraph<C>, b: &ComputationGraph<C>) -> bool {
    let f = |g: &ComputationGraph<C>| g.proof_templates().iter().map(|t| ProofTemplate { kernel_id: 0, ..t.clone() }).collect::<Vec<_>>();
    f(a) == f(b) && a.commitments_lens() == b.commitments_lens()
}

pub fn z03_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = History::<C>::gen(g, &HOpts { ops: 7, calls: 4, transpose: true, hints: true, asserts: true, max: 24, split: false });
    t.one_slot = g.chance(1, 4);
    ctx.describe(|| format!("one kernel variable: {}\n{}", t.one_slot, t.describe()));
    let Some(mut r) = run_all(&t, ctx)? else { return Ok(()) };
    let Some(cg) = compile(&t, &mut r)? else {
        ctx.tag("layout refused");
        return Ok(());
    };
    note(&t, ctx);
    ctx.tag_if(t.one_slot, "one kernel variable");
    let nc = t.holds.len();
    let ok = guarded(|| r.cx.solve_witness()).map_err(|e| format!("solving panicked: {e}"))?;
    ok.map_err(|e| format!("solving failed: {e}"))?;
    let mem = guarded(|| r.cx.export_device_memories()).map_err(|e| format!("exporting panicked: {e}"))?;
    let lens: Vec<usize> = mem.iter().map(|m| m.len()).collect();
    if lens != cg.commitments_lens() {
        return Err(format!("memories of lengths {lens:?}, commitments of {:?}", cg.commitments_lens()));
    }
    if cg.proof_templates().len() != nc {
        return Err(format!("{} entries for {nc} launches", cg.proof_templates().len()));
    }
    for (i, p) in cg.proof_templates().iter().enumerate() {
        let mut got = accepts(&cg, p, &mem).map_err(|e| format!("launch {i}: {e}"))?;
        if got && !t.holds[i] {
            got = accepts(&cg, p, &mem)?;
        }
        if got != t.holds[i] {
            return Err(format!("launch {i}: the circuit accepts: {got}, the constraints hold: {}", t.holds[i]));
        }
        ctx.units += 1;
    }
    // wiring: launches are made of the memories they were given
    let mut c = 0;
    let mut next = 0;
    for o in &t.ops {
        match o {
            Op::Copy { .. } => next += 1,
            Op::Call { k, args, .. } => {
                let mut want: Vec<usize> = t.kernels[*k].args.iter().zip(args).filter(|(a, _)| a.inp).map(|(_, h)| t.hs[h.unwrap()].mem).collect();
                for a in &t.kernels[*k].args {
                    if a.out {
                        want.push(next);
                        next += 1;
                    }
                }
                let got = cg.proof_templates()[c].commitment_indices();
                if got.len() < want.len() || got[..want.len()] != want[..] || got.len() > want.len() + 1 || got[want.len()..].iter().any(|&i| i < t.mems) {
                    return Err(format!("launch {c} is of the memories {got:?}, expected {want:?}"));
                }
                c += 1;
            }
            _ => {}
        }
    }
    corrupt(g, ctx, &t, &cg, &mem)?;

    // stored and read back
    let mut buf = vec![];
    cg.serialize_into(&mut buf).map_err(|e| format!("storing failed: {e:?}"))?;
    let mut rest = buf.as_slice();
    let cg2 = guarded(|| ComputationGraph::<C>::deserialize_from(&mut rest)).map_err(|e| format!("reading back panicked: {e}"))?.map_err(|e| format!("reading back failed: {e:?}"))?;
    if !rest.is_empty() || !same(&cg, &cg2) || cg.kernels() != cg2.kernels() {
        return Err("the graph reads back as another one".into());
    }
    // replayed
    let Some(mut r2) = run_all(&t, ctx)? else { return Err("the same launches are refused".into()) };
    match guarded(|| r2.cx.load_computation_graph(cg2.clone())) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("loading the graph failed: {e}")),
        Err(e) => return Err(format!("loading the graph panicked: {e}")),
    }
    let ok = guarded(|| r2.cx.solve_witness()).map_err(|e| format!("solving after loading panicked: {e}"))?;
    ok.map_err(|e| format!("solving after loading failed: {e}"))?;
    let mem2 = guarded(|| r2.cx.export_device_memories()).map_err(|e| format!("exporting after loading panicked: {e}"))?;
    if mem != mem2 {
        return Err("after loading the graph, the memories differ".into());
    }
    for (i, h) in t.hs.iter().enumerate() {
        check_back::<C>(&r2.cx, &r2.hs[i], &h.arr, &format!("a{i}"))?;
    }
    deviate(g, ctx, &t, &cg)
}

/// One element of one memory changed.
fn corrupt<C: Config>(g: &mut Gen, ctx: &mut Ctx, t: &History<C>, cg: &ComputationGraph<C>, mem: &[Vec<Sf<C>>]) -> Result<(), String> {
    // the arrays as created
    let mut made: Vec<usize> = vec![];
    for (i, h) in t.hs.iter().enumerate() {
        if h.fresh {
            made.push(i);
        }
    }
    let m = if !t.outs.is_empty() && g.bool() { *g.pick(&t.outs) } else { g.below(t.mems) };
    let h = made[m];
    let v = &t.hs[h].arr.v;
    let at = g.below(v.len());
    if v.iter().filter(|x| **x == v[at]).count() != 1 {
        return Ok(());
    }
    let pos = mem[m].iter().position(|x| x.unpack() == v[at]).ok_or_else(|| format!("memory {m} misses element {at}"))?;
    let lane = g.below(pack::<C>());
    let mut x = v[at].clone();
    x[lane] += fe_nonzero::<C>(g);
    let mut mem = mem.to_vec();
    mem[m][pos] = Sf::<C>::pack(&x);
    // the model of every launch on the changed array
    let view = |h: usize| -> Arr<C> {
        // replays the views of this memory
        let mut arrs: Vec<Option<Arr<C>>> = vec![];
        let mut n = 0;
        for o in &t.ops {
            match o {
                Op::Copy { .. } => n += 1,
                Op::Reshape(..) | Op::Transpose(..) => n += 1,
                Op::Call { k, .. } => n += t.kernels[*k].args.iter().filter(|a| a.out).count(),
            }
            while arrs.len() < n {
                let i = arrs.len();
                let a = match o {
                    Op::Reshape(f, s) => arrs[*f].as_ref().unwrap().reshape(s),
                    Op::Transpose(f, s) => arrs[*f].as_ref().unwrap().transpose(s),
                    _ => {
                        let mut a = t.hs[i].arr.clone();
                        if t.hs[i].mem == m {
                            a.v[at] = x.clone();
                        }
                        a
                    }
                };
                arrs.push(Some(a));
            }
        }
        arrs[h].clone().unwrap()
    };
    let mut c = 0;
    let mut n = 0;
    for o in &t.ops {
        match o {
            Op::Call { k, n: slices, args } => {
                let kern = &t.kernels[*k];
                let outs: Vec<Option<usize>> = kern
                    .args
                    .iter()
                    .map(|a| {
                        a.out.then(|| {
                            n += 1;
                            n - 1
                        })
                    })
                    .collect();
                let ins: Vec<Option<Arr<C>>> = kern.args.iter().zip(args).map(|(a, h)| a.inp.then(|| view(h.unwrap()))).collect();
                let written = outs.iter().flatten().any(|&o| t.hs[o].mem == m);
                let outs: Vec<Option<Arr<C>>> = outs.iter().map(|o| o.map(|o| view(o))).collect();
                let mut holds = true;
                for p in 0..*slices {
                    for lane in 0..pack::<C>() {
                        let i: Vec<_> = kern.args.iter().zip(&ins).map(|(a, h)| h.as_ref().map_or(vec![], |h| slice(h, &a.shape, p, lane))).collect();
                        let o: Vec<_> = kern.args.iter().zip(&outs).map(|(a, h)| h.as_ref().map_or(vec![], |h| slice(h, &a.shape, p, lane))).collect();
                        let r = kern.eval::<C>(&i);
                        holds &= r.holds && r.outs == o;
                    }
                }
                let tp = &cg.proof_templates()[c];
                if t.holds[c] && !holds && (!kern.has_hints() || written) {
                    if accepts(cg, tp, &mem)? && accepts(cg, tp, &mem)? {
                        return Err(format!("launch {c}: the circuit accepts element {at} of memory {m} changed to {}", show::<C>(&x[lane])));
                    }
                    ctx.tag("changed element rejected");
                }
                if t.holds[c] && holds && kern.plain() && !accepts(cg, tp, &mem)? {
                    return Err(format!("launch {c}: the circuit does not accept element {at} of memory {m} changed to {}", show::<C>(&x[lane])));
                }
                c += 1;
            }
            _ => n += 1,
        }
    }
    Ok(())
}

/// Launches other than those of the graph.
fn deviate<C: Config>(g: &mut Gen, ctx: &mut Ctx, t: &History<C>, cg: &ComputationGraph<C>) -> Result<(), String> {
    let mut d = History::<C>::new();
    d.kernels = t.kernels.clone();
    let calls = t.holds.len();
    let kind = g.below(5);
    let at = g.below(calls.max(1));
    let mut c = 0;
    let what = ["a launch repeated", "a launch left out", "another array copied in", "an argument replaced", "another kernel"][kind];
    let last = t.ops.len() - 1;
    for (i, o) in t.ops.iter().enumerate() {
        match o {
            Op::Copy { arr, way } => {
                d.push_copy(arr.clone(), *way);
            }
            Op::Reshape(h, s) => {
                d.reshape(*h, s.clone());
            }
            Op::Transpose(h, a) => {
                d.transpose(*h, a.clone());
            }
            Op::Call { k, n, args } => {
                let mut args = args.clone();
                let mut k = *k;
                c += 1;
                if kind == 1 && i == last {
                    continue;
                }
                if kind == 3 && c - 1 == at {
                    let ins: Vec<usize> = (0..args.len()).filter(|&i| t.kernels[k].args[i].inp).collect();
                    if ins.is_empty() {
                        return Ok(());
                    }
                    let j = *g.pick(&ins);
                    let s = &d.hs[args[j].unwrap()].arr.shape;
                    let fit: Vec<usize> = (0..d.hs.len()).filter(|&h| &d.hs[h].arr.shape == s).collect();
                    args[j] = Some(*g.pick(&fit));
                }
                if kind == 4 && c - 1 == at {
                    let fit: Vec<usize> = (0..t.kernels.len())
                        .filter(|&o| {
                            let (a, b) = (&t.kernels[o].args, &t.kernels[k].args);
                            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (&a.shape, a.inp, a.out) == (&b.shape, b.inp, b.out))
                        })
                        .collect();
                    k = *g.pick(&fit);
                }
                d.call(k, *n, args);
            }
        }
    }
    match kind {
        0 => {
            let cs: Vec<&Op<C>> = t.ops.iter().filter(|o| matches!(o, Op::Call { .. })).collect();
            if cs.is_empty() {
                return Ok(());
            }
            let Op::Call { k, n, args } = *g.pick(&cs) else { unreachable!() };
            d.call(*k, *n, args.clone());
        }
        2 => {
            d.push_copy(Arr { shape: vec![2], v: values::<C>(g, &[2], false) }, 0);
        }
        _ => {}
    }
    let Ok(mut a) = Ran::run(&d) else { return Ok(()) };
    let other = match guarded(|| a.cx.compile_computation_graph()) {
        Ok(Ok(x)) => Some(x),
        _ => None,
    };
    let Ok(mut b) = Ran::run(&d) else { return Ok(()) };
    let loaded = matches!(guarded(|| b.cx.load_computation_graph(cg.clone())), Ok(Ok(())));
    match other {
        Some(o) if alike(&o, cg) => {
            if same(&o, cg) && o.kernels() == cg.kernels() && !loaded {
                return Err(format!("{what}: the graph is the same, but is not loaded"));
            }
        }
        _ => {
            // which kernels the launches are of is taken from the graph
            if loaded && kind != 4 {
                return Err(format!("{what}: the graph of other launches is loaded"));
            }
            ctx.tag_if(!loaded, &format!("refused to load: {what}"));
        }
    }
    Ok(())
}
pub fn z03(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, z03_f, g, ctx)
}
