//! S04: the matrix-product gadget.
use crate::common::*;
use crate::ev::{run, Lies};
use arith::Field;
use circuit_std_rs::matmul::{MatMulCircuit, MatMulParams};
use circuit_std_rs::StdCircuit;
use expander_compiler::circuit::config::*;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::{compile, Define, Variable};
use pbt::{ensure, guarded, Ctx, Gen};

pub fn case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let k = g.weighted(&[3, 2, 1, 1]);
    ctx.tag(["M31", "BN254", "Goldilocks", "BabyBear"][k]);
    match k {
        0 => one::<M31Config>(g, ctx),
        1 => one::<BN254Config>(g, ctx),
        2 => one::<GoldilocksConfig>(g, ctx),
        _ => one::<BabyBearConfig>(g, ctx),
    }
}
fn one<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let (mut m1, mut n1, mut n2) = (1 + g.below(4), 1 + g.below(4), 1 + g.below(4));
    if g.chance(1, 25) {
        for n in [&mut m1, &mut n1, &mut n2] {
            if g.bool() {
                *n = 1 + g.below(20);
            }
        }
        ctx.tag("larger than 4");
    } else if g.chance(1, 300) {
        // one dimension far beyond the others
        let n = 60 + g.below(240);
        match g.below(3) {
            0 => m1 = n,
            1 => n1 = n,
            _ => n2 = n,
        }
        ctx.tag("one long side");
    }
    let sparse = g.chance(1, 3);
    let el = |g: &mut Gen| if sparse && g.chance(2, 3) { Fe::<C>::ZERO } else { felt::<C>(g) };
    let a: Vec<Vec<Fe<C>>> = (0..m1).map(|_| (0..n1).map(|_| el(g)).collect()).collect();
    let b: Vec<Vec<Fe<C>>> = (0..n1).map(|_| (0..n2).map(|_| el(g)).collect()).collect();
    let mut c = vec![vec![Fe::<C>::ZERO; n2]; m1];
    for i in 0..m1 {
        for j in 0..n2 {
            for k in 0..n1 {
                c[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    let mut want = true;
    for _ in 0..g.weighted(&[3, 4, 1]) {
        let (i, j) = (g.below(m1), g.below(n2));
        let d = felt::<C>(g);
        want &= d == Fe::<C>::ZERO;
        c[i][j] += d;
        // a compensating error elsewhere in the row must not cancel it
        if n2 > 1 && g.bool() {
            let j2 = (j + 1) % n2;
            c[i][j2] -= d;
        }
    }
    // recomputed: two corruptions may have cancelled
    let mut t = true;
    for i in 0..m1 {
        for j in 0..n2 {
            let mut s = Fe::<C>::ZERO;
            for k in 0..n1 {
                s += a[i][k] * b[k][j];
            }
            t &= s == c[i][j];
        }
    }
    let _ = want;
    let want = t;
    // wrong shapes are refused
    let mut dims = [(m1, n1), (n1, n2), (m1, n2)];
    let shaped = !g.chance(1, 10);
    if !shaped {
        dims[1].0 += 1 + g.below(2);
    }
    let mut x: Vec<Fe<C>> = vec![];
    for (m, d) in [&a, &b, &c].iter().zip(&dims) {
        for i in 0..d.0 {
            for j in 0..d.1 {
                x.push(m.get(i).and_then(|r| r.get(j)).copied().unwrap_or(Fe::<C>::ZERO));
            }
        }
    }
    ctx.tag(if !shaped { "mismatched shapes" } else if want { "true product" } else { "wrong product" });
    ctx.tag_if(sparse, "sparse");
    ctx.nontrivial(m1 * n1 * n2 > 1);
    ctx.describe(|| format!("A {a:?} B {b:?} C {c:?} shapes {dims:?}"));
    let seed = g.u64();
    let go = |s| run::<C>(&x, None, Lies::new(), s, |e, v| {
        let mut k = <MatMulCircuit as StdCircuit<C>>::new_circuit(&MatMulParams { m1, n1, m2: dims[1].0, n2 });
        k.load_from(&mut &v[..], &mut &[][..]);
        k.define(e);
        vec![]
    });
    let o = go(seed);
    if !shaped {
        // equal up to zero padding: still not the declared shapes
        ensure!(!o.ok, "matrices of shapes {dims:?} are accepted");
        return Ok(());
    }
    if want {
        ensure!(o.ok, "a true product is refused: {}", o.why);
    } else if o.ok {
        ensure!(!go(seed ^ 0x77).ok, "a wrong product is accepted (under two challenges)");
    }
    if m1 * n1 * n2 < 1000 && g.chance(1, 10) {
        ctx.tag("compiled");
        let p = MatMulParams { m1, n1, m2: n1, n2 };
        let k = <MatMulCircuit as StdCircuit<C>>::new_circuit(&p);
        let r = guarded(|| compile::<C, _>(&k, Default::default())).map_err(|e| format!("compiling panicked: {e}"))?.map_err(|e| format!("compiling: {e:?}"))?;
        let mut s = guarded(|| <MatMulCircuit as StdCircuit<C>>::new_assignment(&p, rand::thread_rng())).map_err(|e| format!("new_assignment: {e}"))?;
        let own = r.layered_circuit.run(&r.witness_solver.solve_witness(&s).map_err(|e| format!("solving: {e:?}"))?);
        ensure!(own.iter().all(|b| *b), "an assignment made by the library is refused");
        s.load_from(&mut &x[..], &mut &[][..]);
        let w = r.witness_solver.solve_witness(&s).map_err(|e| format!("solving: {e:?}"))?;
        let o = r.layered_circuit.run(&w);
        ensure!(o.iter().all(|b| *b == want), "the compiled circuit decides {o:?}, should be {want}");
    }
    Ok(())
}
