//! Z05: proofs of what does not hold. A cheating prover commits to memories the launches reject and
//! assembles proofs from honest pieces; whatever is accepted must be true of the committed memories.
use crate::*;
use arith::{Field as _, SimdField as _};
use expander_compiler::zkcuda::context::ProofTemplate;
use expander_compiler::zkcuda::proving_system::expander::structs::{ExpanderCommitment, ExpanderProof};
use gkr_engine::{ExpanderDualVarChallenge, ExpanderSingleVarChallenge, FieldEngine, GKREngine, MPIConfig, Transcript};

type Ch<C> = <Fc<C> as FieldEngine>::ChallengeField;
type Tr<C> = <C as GKREngine>::TranscriptConfig;
type Ec<C> = expander_circuit::Circuit<Fc<C>>;

/// The committed memories fit the launches of the graph, and all of them accept.
pub fn holds<C: Config>(cg: &ComputationGraph<C>, mem: &[Vec<Sf<C>>]) -> bool {
    cg.proof_templates().iter().all(|t| accepts(cg, t, mem) == Ok(true))
}
/// The launches read memories of the lengths their kernels have.
fn consistent<C: Config>(cg: &ComputationGraph<C>) -> bool {
    cg.proof_templates().iter().all(|t| {
        let ins = cg.kernels()[t.kernel_id()].layered_circuit_input();
        ins.len() == t.commitment_indices().len()
            && ins.iter().zip(t.commitment_indices()).zip(t.is_broadcast()).all(|((v, i), b)| {
                cg.commitments_lens()[*i] == if *b { v.len } else { v.len * t.parallel_count().next_power_of_two() }
            })
    })
}
fn slice_in<C: Config>(cg: &ComputationGraph<C>, t: &ProofTemplate, mem: &[Vec<Sf<C>>], p: usize, pc: usize) -> Vec<Sf<C>> {
    let k = &cg.kernels()[t.kernel_id()];
    let mut x = vec![Sf::<C>::zero(); k.layered_circuit().input_size()];
    for ((v, i), b) in k.layered_circuit_input().iter().zip(t.commitment_indices()).zip(t.is_broadcast()) {
        let m = &mem[*i];
        let at = if *b { 0 } else { p * (m.len() / pc) };
        x[v.offset..v.offset + v.len].copy_from_slice(&m[at..at + v.len]);
    }
    x
}
fn sat<C: Config>(cg: &ComputationGraph<C>, t: &ProofTemplate, x: &[Sf<C>]) -> bool {
    cg.kernels()[t.kernel_id()].layered_circuit().eval_with_public_inputs_simd(x.to_vec(), &[]).1.iter().all(|c| *c)
}
fn circuit<C: Sys>(cg: &ComputationGraph<C>, t: &ProofTemplate, tr: &mut Tr<C>) -> Ec<C> {
    let mut ec: Ec<C> = cg.kernels()[t.kernel_id()].layered_circuit().export_to_expander_flatten();
    ec.pre_process_gkr();
    ec.fill_rnd_coefs(tr);
    ec
}
fn gkr_of<C: Sys>(ec: &Ec<C>, xs: &[Vec<Sf<C>>], tr: &mut Tr<C>) -> ExpanderDualVarChallenge<Fc<C>> {
    let n = ec.layers.iter().map(|l| l.input_var_num.max(l.output_var_num)).max().unwrap_or(0);
    let mut cs = vec![];
    let mut sp = vec![];
    for x in xs {
        let mut c = ec.clone();
        c.layers[0].input_vals = x.clone();
        c.evaluate();
        cs.push(c);
        sp.push(sumcheck::ProverScratchPad::<Fc<C>>::new(n, n, 1));
    }
    if xs.len() == 1 {
        gkr::gkr_prove(&cs[0], &mut sp[0], tr, &MPIConfig::prover_new(None, None)).1
    } else {
        gkr::gkr_prove_batch(&cs, &mut sp, tr).1
    }
}
/// The claims on the memories of a launch at one challenge: of what was proven, or of what is committed.
fn claims<C: Sys>(cg: &ComputationGraph<C>, t: &ProofTemplate, mem: &[Vec<Sf<C>>], xs: &[Vec<Sf<C>>], fixed: Option<usize>, pc: usize, sc: &ExpanderSingleVarChallenge<Fc<C>>, lie: bool) -> Vec<Ch<C>> {
    let k = &cg.kernels()[t.kernel_id()];
    let mut out = vec![];
    for ((v, i), b) in k.layered_circuit_input().iter().zip(t.commitment_indices()).zip(t.is_broadcast()) {
        let n = v.len.ilog2() as usize;
        let low = &sc.rz[..n];
        if lie {
            let e = gkr_engine::EqPolynomial::build(&sc.r_mpi);
            out.push(xs.iter().zip(&e).fold(Ch::<C>::ZERO, |a, (x, e)| a + gkr_engine::mle_eval::<Fc<C>>(&x[v.offset..v.offset + v.len], low, &sc.r_simd) * *e));
        } else {
            let mut rz = low.to_vec();
            if !b {
                match fixed {
                    Some(p) => rz.extend((0..pc.ilog2()).map(|j| Ch::<C>::from((p >> j & 1) as u32))),
                    None => rz.extend_from_slice(&sc.r_mpi),
                }
            }
            out.push(gkr_engine::mle_eval::<Fc<C>>(&mem[*i], &rz, &sc.r_simd));
        }
    }
    out
}
fn sides<C: Sys>(ch: &ExpanderDualVarChallenge<Fc<C>>) -> Vec<ExpanderSingleVarChallenge<Fc<C>>> {
    let mut s = vec![ch.challenge_x()];
    s.extend(ch.challenge_y());
    s
}
pub fn commit<C: Sys>(mem: &[Vec<Sf<C>>]) -> Result<Vec<ExpanderCommitment<Fc<C>, Pcs<C>>>, String> {
    mem.iter().map(|m| Ok(ExpanderCommitment { vals_len: m.len(), commitment: back(&bytes(m))? })).collect()
}
pub fn committed<C: Sys>(p: &Pr<C>) -> Result<Vec<Vec<Sf<C>>>, String> {
    p.commitments.iter().map(|c| back(&bytes(&c.commitment))).collect()
}
/// Commits to `com`; proves every slice `com` satisfies honestly and takes `alt` for the others.
/// The claims at the end are those of the proven inputs if `lie`, of the committed memories otherwise.
pub fn forge<C: Sys>(s: &Which, cg: &ComputationGraph<C>, com: &[Vec<Sf<C>>], alt: &[Vec<Sf<C>>], lie: bool) -> Result<Pr<C>, String> {
    let commitments = commit::<C>(com)?;
    let deferred = matches!(s.kind, Kind::Deferred | Kind::NoOver(true));
    let mut vals: Vec<Ch<C>> = vec![];
    let mut proofs = vec![];
    for t in cg.proof_templates() {
        let pc = t.parallel_count().next_power_of_two();
        let mut xs = vec![];
        for p in 0..pc {
            let x = slice_in(cg, t, com, p, pc);
            xs.push(if sat(cg, t, &x) { x } else { slice_in(cg, t, alt, p, pc) });
        }
        let groups: Vec<(Option<usize>, Vec<Vec<Sf<C>>>)> = if s.kind == Kind::Expander || pc == 1 && s.kind == Kind::Local {
            xs.into_iter().enumerate().map(|(p, x)| (Some(p), vec![x])).collect()
        } else {
            vec![(None, xs)]
        };
        let mut data = vec![];
        for (fixed, xs) in groups {
            let mut tr = Tr::<C>::new();
            let ec = circuit(cg, t, &mut tr);
            let ch = gkr_of::<C>(&ec, &xs, &mut tr);
            let sides = sides::<C>(&ch);
            if deferred {
                for sc in &sides {
                    vals.extend(claims(cg, t, com, &xs, fixed, pc, sc, lie));
                }
            } else {
                for sc in &sides {
                    for c in claims(cg, t, com, &xs, fixed, pc, sc, lie) {
                        tr.append_field_element(&c);
                        tr.lock_proof();
                        let tag = tr.generate_u8_slice(16);
                        tr.unlock_proof();
                        tr.append_u8_slice(&bytes(&tag));
                    }
                }
            }
            data.push(tr.finalize_and_get_proof());
        }
        proofs.push(ExpanderProof { data });
    }
    if deferred {
        let mut tr = Tr::<C>::new();
        let mut b = bytes(&vals);
        b.extend(bytes(&tr.generate_u8_slice(16)));
        proofs.push(ExpanderProof { data: vec![gkr_engine::Proof { bytes: b }] });
    }
    Ok(CombinedProof { commitments, proofs })
}

/// The same launches on other arrays.
pub fn other_run<C: Config>(g: &mut Gen, t: &History<C>) -> History<C> {
    let mut o = History::<C>::new();
    o.kernels = t.kernels.clone();
    for op in &t.ops {
        match op {
            Op::Copy { arr, way } => {
                let v = values::<C>(g, &arr.shape, *way != 0);
                o.push_copy(Arr { shape: arr.shape.clone(), v }, *way);
            }
            Op::Reshape(h, s) => {
                o.reshape(*h, s.clone());
            }
            Op::Transpose(h, a) => {
                o.transpose(*h, a.clone());
            }
            Op::Call { k, n, args } => o.call(*k, *n, args.clone()),
        }
    }
    o
}
fn memories<C: Config>(t: &History<C>, ctx: &mut Ctx) -> Result<Option<Vec<Vec<Sf<C>>>>, String> {
    let Some(mut r) = run_all(t, ctx)? else { return Ok(None) };
    if compile(t, &mut r)?.is_none() {
        return Ok(None);
    }
    if !matches!(guarded(|| r.cx.solve_witness()), Ok(Ok(()))) {
        return Ok(None);
    }
    Ok(guarded(|| r.cx.export_device_memories()).ok())
}
fn used<C: Config>(cg: &ComputationGraph<C>) -> Vec<usize> {
    let mut u: Vec<usize> = cg.proof_templates().iter().flat_map(|t| t.commitment_indices().to_vec()).collect();
    u.sort();
    u.dedup();
    u
}
/// Memories some launch rejects, if possible.
fn spoil<C: Config>(g: &mut Gen, cg: &ComputationGraph<C>, mem: &[Vec<Sf<C>>], other: Option<&Vec<Vec<Sf<C>>>>) -> (Vec<Vec<Sf<C>>>, &'static str) {
    let u = used(cg);
    let mut m = mem.to_vec();
    if u.is_empty() {
        return (m, "nothing used");
    }
    let i = *g.pick(&u);
    match g.weighted(&[6, 2, 2, if other.is_some() { 4 } else { 0 }]) {
        0 => {
            let n = 1 + g.below(2);
            for _ in 0..n {
                let at = if g.chance(1, 3) { m[i].len() - 1 } else { g.below(m[i].len()) };
                let lane = g.below(pack::<C>());
                let mut x = m[i][at].unpack();
                x[lane] += fe_nonzero::<C>(g);
                m[i][at] = Sf::<C>::pack(&x);
            }
            (m, "elements changed")
        }
        1 => {
            let h = m[i].len() / 2;
            m[i].rotate_left(h.max(1) % mem[i].len());
            (m, "memory rotated")
        }
        2 => {
            let same: Vec<usize> = u.iter().copied().filter(|&j| j != i && m[j].len() == m[i].len()).collect();
            if !same.is_empty() {
                let j = *g.pick(&same);
                m.swap(i, j);
            }
            (m, "memories swapped")
        }
        _ => {
            let o = other.unwrap();
            for j in u {
                if g.bool() && o[j].len() == m[j].len() {
                    m[j] = o[j].clone();
                }
            }
            (m, "memories of two runs")
        }
    }
}
/// Half or twice the length of what the graph says, for one argument, all zeros.
fn resized<C: Config>(g: &mut Gen, cg: &ComputationGraph<C>, mem: &[Vec<Sf<C>>]) -> Option<(ComputationGraph<C>, Vec<Vec<Sf<C>>>)> {
    let u = used(cg);
    let mut adv = cg.clone();
    let mut m = mem.to_vec();
    let mut ks = vec![];
    for (i, t) in adv.proof_templates.iter_mut().enumerate() {
        ks.push(cg.kernels()[t.kernel_id()].clone());
        t.kernel_id = i;
    }
    let i = *g.pick(&u);
    let half = g.chance(2, 3);
    if half && m[i].len() < 2 {
        return None;
    }
    let n = if half { m[i].len() / 2 } else { m[i].len() * 2 };
    for j in u {
        m[j] = vec![Sf::<C>::zero(); m[j].len()];
    }
    m[i] = vec![Sf::<C>::zero(); n];
    for (t, k) in adv.proof_templates().iter().zip(&mut ks) {
        let size = k.layered_circuit.input_size();
        for (v, x) in k.layered_circuit_input.iter_mut().zip(t.commitment_indices()) {
            if *x == i {
                let at = v.offset / v.len;
                if half && v.len < 2 {
                    return None;
                }
                v.len = if half { v.len / 2 } else { v.len * 2 };
                v.offset = at * v.len;
                if v.offset + v.len > size {
                    return None;
                }
            }
        }
    }
    adv.kernels = ks;
    Some((adv, m))
}
fn edit<C: Sys>(g: &mut Gen, p: &mut Pr<C>, old: Option<&Pr<C>>) -> &'static str {
    let n = p.proofs.len();
    let m = p.commitments.len();
    match g.weighted(&[3, 2, 2, 1, 2, 1, 2, 1, 2, 1, 1, if old.is_some() { 3 } else { 0 }]) {
        0 if n > 0 => {
            p.proofs.remove(g.below(n));
            "a proof dropped"
        }
        1 if n > 1 => {
            let (i, j) = (g.below(n), g.below(n));
            p.proofs[i] = p.proofs[j].clone();
            "a proof used twice"
        }
        2 if n > 0 => {
            let k = g.below(n);
            p.proofs.truncate(k);
            "only the first proofs"
        }
        3 => {
            p.proofs.insert(g.below(n + 1), ExpanderProof { data: vec![] });
            "an empty proof added"
        }
        4 if n > 0 => {
            let d = &mut p.proofs[g.below(n)].data;
            let k = g.below(d.len() + 1);
            d.truncate(k);
            "a proof cut"
        }
        5 if m > 0 => {
            p.commitments.remove(g.below(m));
            "a commitment dropped"
        }
        6 if m > 1 => {
            let (i, j) = (g.below(m), g.below(m));
            p.commitments.swap(i, j);
            "commitments swapped"
        }
        7 if m > 0 => {
            let c = &mut p.commitments[g.below(m)];
            c.vals_len = match g.below(4) {
                0 => c.vals_len * 2,
                1 => c.vals_len / 2,
                2 => 0,
                _ => c.vals_len + 1,
            };
            "a length changed"
        }
        8 | 9 if n > 0 => {
            let d = &mut p.proofs[g.below(n)].data;
            if !d.is_empty() {
                let k = g.below(d.len());
                let b = &mut d[k].bytes;
                if !b.is_empty() {
                    let at = g.below(b.len());
                    if g.bool() {
                        b[at] ^= 1 << g.below(8);
                    } else {
                        b.truncate(at);
                    }
                }
            }
            "bytes changed"
        }
        10 if n > 1 => {
            let (i, j) = (g.below(n), g.below(n));
            p.proofs.swap(i, j);
            "proofs swapped"
        }
        11 => {
            let o = &old.unwrap().proofs;
            if !o.is_empty() && n > 0 {
                let i = g.below(n.min(o.len()));
                p.proofs[i] = o[i].clone();
            }
            "a proof of an earlier run"
        }
        _ => "as is",
    }
}
/// The verifier's graph is another one.
fn other_graph<C: Config>(g: &mut Gen, cg: &mut ComputationGraph<C>) -> &'static str {
    let n = cg.proof_templates.len();
    let nk = cg.kernels.len();
    let i = g.below(n);
    let nm = cg.commitments_lens.len();
    match g.below(7) {
        0 => {
            cg.proof_templates[i].kernel_id = g.below(nk);
            "another kernel"
        }
        1 => {
            let j = g.below(n);
            cg.proof_templates.swap(i, j);
            "launches swapped"
        }
        2 => {
            let c = &mut cg.proof_templates[i].commitment_indices;
            if !c.is_empty() {
                let k = g.below(c.len());
                c[k] = g.below(nm);
            }
            "another memory"
        }
        3 => {
            let c = &mut cg.proof_templates[i].commitment_indices;
            if c.len() > 1 {
                let (a, b) = (g.below(c.len()), g.below(c.len()));
                c.swap(a, b);
            }
            "arguments swapped"
        }
        4 => {
            let b = &mut cg.proof_templates[i].is_broadcast;
            if !b.is_empty() {
                let k = g.below(b.len());
                b[k] = !b[k];
            }
            "broadcast changed"
        }
        5 => {
            let p = &mut cg.proof_templates[i].parallel_count;
            *p = if g.bool() { *p * 2 } else { (*p / 2).max(1) };
            "another number of slices"
        }
        _ => {
            let t = cg.proof_templates[i].clone();
            let at = g.below(n + 1);
            cg.proof_templates.insert(at, t);
            "a launch more"
        }
    }
}
pub fn z05_f<C: Sys>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let Some(m) = made::<C>(g, ctx)? else { return Ok(()) };
    if permuted(&m.cg) || m.cg.proof_templates().is_empty() || used(&m.cg).is_empty() {
        return Ok(());
    }
    let s = Which::pick::<C>(g, most_parallel(&m.cg));
    ctx.tag(s.name());
    ctx.tag(format!("field {}", field_bits::<C>()));
    ctx.describe(|| format!("{}\n{}", s.name(), m.t.describe()));
    let o = other_run(g, &m.t);
    let other = if g.chance(1, 3) { memories(&o, ctx)?.filter(|o| o.len() == m.mem.len()) } else { None };
    let (mut com, mut how) = spoil(g, &m.cg, &m.mem, other.as_ref());
    if m.t.holds.contains(&false) && g.chance(3, 4) {
        com = m.mem.clone();
        how = "a constraint is violated";
    }
    if s.kind == Kind::Dummy {
        return dummy(g, ctx, &m, com, how);
    }
    let (ps, vs) = guarded(|| s.setup::<C>(&m.cg)).map_err(|e| format!("setup panicked: {e}"))?;
    let mut cg = m.cg.clone();
    let mut said = vec![how];
    let honest = !m.t.holds.contains(&false);
    let old = if honest && g.bool() { Some(s.prove::<C>(&ps, &m.cg, &m.mem).map_err(|e| format!("proving failed: {e}"))?) } else { None };
    let mut p = match g.weighted(&[6, 3, if old.is_some() { 3 } else { 0 }, 2]) {
        0 => {
            let lie = g.bool();
            said.push(if lie { "forged, with the claims of the proven inputs" } else { "forged, with the claims of the committed memories" });
            match guarded(|| forge(&s, &m.cg, &com, &m.mem, lie)) {
                Ok(Ok(p)) => p,
                e => {
                    ctx.tag("nothing forged");
                    ctx.describe(|| format!("{}", e.err().unwrap_or_default()));
                    return Ok(());
                }
            }
        }
        1 => {
            said.push("the prover's");
            match s.prove::<C>(&ps, &m.cg, &com) {
                Ok(p) => p,
                Err(_) => {
                    if holds(&m.cg, &com) {
                        ctx.tag("refused though true");
                    }
                    ctx.nontrivial(!holds(&m.cg, &com));
                    ctx.tag("the prover refuses");
                    return Ok(());
                }
            }
        }
        2 => {
            said.push("an earlier proof under other commitments");
            let o = old.as_ref().unwrap();
            CombinedProof { commitments: commit::<C>(&com)?, proofs: o.proofs.clone() }
        }
        _ => {
            said.push("other lengths");
            let Some((adv, short)) = resized(g, &m.cg, &com) else { return Ok(()) };
            com = short;
            match guarded(|| forge(&s, &adv, &com, &com, true)) {
                Ok(Ok(p)) => p,
                _ => return Ok(()),
            }
        }
    };
    for _ in 0..g.weighted(&[3, 3, 1]) {
        said.push(edit(g, &mut p, old.as_ref()));
    }
    if g.chance(1, 6) {
        said.push(other_graph(g, &mut cg));
        if !consistent(&cg) {
            ctx.tag("an inconsistent graph");
            return Ok(());
        }
    }
    ctx.describe(|| format!("{}: {}\n{}", s.name(), said.join(", "), m.t.describe()));
    judge(ctx, &said, guarded(|| holds(&cg, &committed::<C>(&p).unwrap_or_default())).unwrap_or(false), s.verify::<C>(&vs, &cg, &p))
}
fn judge(ctx: &mut Ctx, said: &[&str], truth: bool, v: Result<bool, String>) -> Result<(), String> {
    for s in said {
        ctx.tag(*s);
    }
    ctx.nontrivial(!truth);
    match v {
        Ok(true) if !truth => Err(format!("accepted, though a launch rejects the committed memories ({})", said.join(", "))),
        Ok(true) => {
            ctx.tag("true and accepted");
            Ok(())
        }
        Ok(false) => {
            ctx.tag("rejected");
            Ok(())
        }
        Err(_) => {
            ctx.tag("rejected by a panic");
            Ok(())
        }
    }
}

/// The dummy system: commitments are the memories, proofs the outcomes of the constraints.
fn dummy<C: Sys>(g: &mut Gen, ctx: &mut Ctx, m: &Made<C>, com: Vec<Vec<Sf<C>>>, how: &'static str) -> Result<(), String> {
    type D<C> = DummyProvingSystem<C>;
    let mut com = com;
    let mut cg = m.cg.clone();
    let mut said = vec![how];
    let mut conds: Vec<Vec<Vec<bool>>> = vec![];
    let honest = g.chance(2, 3);
    said.push(if honest { "true outcomes" } else { "all outcomes said to be true" });
    for t in cg.proof_templates() {
        let mut c = vec![];
        for p in 0..t.parallel_count().next_power_of_two() {
            let x = slice_in(&cg, t, &com, p, t.parallel_count().next_power_of_two());
            let (_, mut k) = cg.kernels()[t.kernel_id()].layered_circuit().eval_with_public_inputs_simd(x, &[]);
            if !honest {
                k = vec![true; k.len()];
            }
            c.push(k);
        }
        conds.push(c);
    }
    for _ in 0..g.weighted(&[3, 3, 1]) {
        let n = conds.len();
        said.push(match g.below(6) {
            0 if n > 0 => {
                conds.remove(g.below(n));
                "a proof dropped"
            }
            1 => {
                conds.clear();
                "no proofs"
            }
            2 if n > 0 => {
                let c = &mut conds[g.below(n)];
                let k = g.below(c.len() + 1);
                c.truncate(k);
                "a proof cut"
            }
            3 if n > 0 => {
                for c in &mut conds[g.below(n)] {
                    c.clear();
                }
                "a proof emptied"
            }
            4 if com.len() > 1 => {
                let (i, j) = (g.below(com.len()), g.below(com.len()));
                com.swap(i, j);
                "commitments swapped"
            }
            5 if !com.is_empty() => {
                let i = g.below(com.len());
                let k = com[i].len() / 2;
                com[i].truncate(k);
                "a commitment cut"
            }
            _ => "as is",
        });
    }
    if g.chance(1, 6) {
        said.push(other_graph(g, &mut cg));
        if !consistent(&cg) {
            ctx.tag("an inconsistent graph");
            return Ok(());
        }
    }
    ctx.describe(|| format!("Dummy: {}\n{}", said.join(", "), m.t.describe()));
    let mut b = bytes(&com);
    b.extend(bytes(&conds));
    let p: CombinedProof<C, D<C>> = back(&b)?;
    judge(ctx, &said, guarded(|| holds(&cg, &com)).unwrap_or(false), guarded(|| <D<C> as ProvingSystem<C>>::verify(&(), &cg, &p)))
}
pub fn z05(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, z05_f, g, ctx)
}
