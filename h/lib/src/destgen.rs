//! Random circuits of the relaxed destination form, with an input that satisfies them.
use crate::refeval::{self, Env};
use crate::*;
use expander_compiler::circuit::ir::{
    common::Circuit as Ci,
    dest::{Instruction as I, IrcRelaxed, RootCircuitRelaxed},
    expr::{Expression, Term, VarSpec},
};
use expander_compiler::circuit::layered::Coef;
use std::collections::BTreeMap;

pub struct Dest<C: Config> {
    pub rc: RootCircuitRelaxed<C>,
    pub base: Vec<Fe<C>>,
    pub public: Vec<Fe<C>>,
}

fn coef<C: Config>(g: &mut Gen) -> Fe<C> {
    match g.weighted(&[4, 2, 2, 2]) {
        0 => one::<C>(),
        1 => zero::<C>() - one::<C>(),
        2 => fu::<C>(2 + g.below(3) as u64),
        _ => fe_nonzero::<C>(g),
    }
}
fn var(g: &mut Gen, n: usize) -> usize {
    if g.bool() {
        n - g.below(n.min(5))
    } else {
        1 + g.below(n)
    }
}
pub fn term<C: Config>(g: &mut Gen, n: usize, custom: bool) -> Term<C> {
    let k = coef::<C>(g);
    match g.weighted(&[1, if n > 0 { 4 } else { 0 }, if n > 0 { 4 } else { 0 }, if n > 0 && custom { 1 } else { 0 }]) {
        0 => Term::new_const(k),
        1 => Term::new_linear(k, var(g, n)),
        2 => {
            let (a, b) = (var(g, n), var(g, n));
            Term { coef: k, vars: VarSpec::Quad(a.min(b), a.max(b)) }
        }
        _ => {
            let m = 1 + g.below(3);
            Term { coef: k, vars: VarSpec::Custom { gate_type: 1000 + g.below(2), inputs: (0..m).map(|_| var(g, n)).collect() } }
        }
    }
}
pub fn expression<C: Config>(g: &mut Gen, n: usize, max_terms: usize, custom: bool) -> Expression<C> {
    let k = 1 + g.small(max_terms);
    Expression::from_terms((0..k).map(|_| term::<C>(g, n, custom)).collect())
}

/// `fan`: a few variables are multiplied over and over.
pub fn gen<C: Config>(g: &mut Gen, max_insns: usize, custom: bool, constraints: bool) -> Dest<C> {
    let n_public = g.below(3);
    let n_subs = g.below(4);
    let fan = g.chance(1, 3);
    let mut circuits: BTreeMap<usize, Ci<IrcRelaxed<C>>> = BTreeMap::new();
    let mut subs: Vec<(usize, usize, usize)> = vec![];
    for i in 0..=n_subs {
        let root = i == n_subs;
        let id = if root { 0 } else { i + 1 };
        let n_in = 1 + g.small(if root { 8 } else { 4 });
        let mut c: Ci<IrcRelaxed<C>> = Ci { instructions: vec![], constraints: vec![], outputs: vec![], num_inputs: n_in };
        let mut n = n_in;
        for _ in 0..g.small(max_insns) {
            if !subs.is_empty() && g.chance(1, 3) {
                let (sid, si, so) = subs[g.below(subs.len())];
                let inputs: Vec<usize> = (0..si).map(|_| var(g, n)).collect();
                c.instructions.push(I::SubCircuitCall { sub_circuit_id: sid, inputs, num_outputs: so });
                n += so;
                continue;
            }
            if g.chance(1, 8) {
                let value = if n_public > 0 && g.bool() { Coef::PublicInput(g.below(n_public)) } else { Coef::Constant(fe::<C>(g)) };
                c.instructions.push(I::ConstantLike { value });
            } else if fan && g.chance(1, 2) {
                let x = 1 + g.below(n.min(3));
                let terms = (0..1 + g.below(3)).map(|_| Term::new_quad(coef::<C>(g), x, 1 + g.below(n))).collect();
                c.instructions.push(I::InternalVariable { expr: Expression::from_terms(terms) });
            } else {
                c.instructions.push(I::InternalVariable { expr: expression::<C>(g, n, 5, custom) });
            }
            n += 1;
        }
        let n_out = if root { 1 + g.small(5) } else { g.below(4) };
        c.outputs = (0..n_out).map(|_| var(g, n)).collect();
        if !root {
            subs.push((id, n_in, n_out));
        }
        circuits.insert(id, c);
    }
    let base: Vec<Fe<C>> = (0..circuits[&0].num_inputs).map(|_| fe::<C>(g)).collect();
    let public: Vec<Fe<C>> = (0..n_public).map(|_| fe::<C>(g)).collect();
    let mut rc = RootCircuitRelaxed::<C> { num_public_inputs: n_public, expected_num_output_zeroes: 0, circuits: circuits.clone().into_iter().collect() };
    if constraints {
        let mut all: std::collections::HashMap<usize, Vec<Vec<Fe<C>>>> = Default::default();
        let mut env = Env::<C>::new(&public, 0);
        refeval::dest_relaxed_values(&rc, 0, &base, &mut env, &mut |id, v| all.entry(id).or_default().push(v.to_vec()));
        for (id, c) in circuits.iter_mut() {
            let Some(inst) = all.get(id) else { continue };
            if !g.chance(1, 2) {
                continue;
            }
            for _ in 0..1 + g.below(3) {
                let i = 1 + g.below(inst[0].len() - 1);
                if g.chance(1, 20) || inst.iter().all(|v| v[i].is_zero()) {
                    c.constraints.push(i);
                } else if inst.iter().all(|v| v[i] == inst[0][i]) {
                    c.instructions.push(I::InternalVariable { expr: Expression::from_terms(vec![Term::new_linear(one::<C>(), i), Term::new_const(zero::<C>() - inst[0][i])]) });
                    c.constraints.push(c.get_num_variables());
                }
            }
        }
        if g.chance(1, 8) {
            let inst = &all[&0][0];
            let c = circuits.get_mut(&0).unwrap();
            let i = 1 + g.below(inst.len() - 1);
            c.instructions.push(I::InternalVariable { expr: Expression::from_terms(vec![Term::new_linear(one::<C>(), i), Term::new_const(zero::<C>() - inst[i])]) });
            let n = c.get_num_variables();
            c.outputs.insert(0, n);
            rc.expected_num_output_zeroes = 1;
        }
    }
    rc.circuits = circuits.into_iter().collect();
    Dest { rc, base, public }
}

impl<C: Config> Dest<C> {
    pub fn inputs(&self, g: &mut Gen, n: usize) -> Vec<(Vec<Fe<C>>, Vec<Fe<C>>)> {
        let mut r = vec![(self.base.clone(), self.public.clone())];
        for _ in 0..n {
            let x = self.base.iter().map(|b| if g.chance(1, 3) { fe::<C>(g) } else { *b }).collect();
            let p = self.public.iter().map(|b| if g.chance(1, 4) { fe::<C>(g) } else { *b }).collect();
            r.push((x, p));
        }
        r
    }
    pub fn describe(&self, inputs: &[(Vec<Fe<C>>, Vec<Fe<C>>)]) -> String {
        let mut s = format!("field of {} elements\n", modulus::<C>());
        s += &show_dest(&self.rc);
        for (x, p) in inputs {
            s += &format!("inputs {} public {}\n", show_all::<C>(x), show_all::<C>(p));
        }
        s
    }
}

pub fn show_dest<C: Config>(rc: &RootCircuitRelaxed<C>) -> String {
    let mut s = format!("expected zero outputs {}, public inputs {}\n", rc.expected_num_output_zeroes, rc.num_public_inputs);
    let ids: std::collections::BTreeSet<_> = rc.circuits.keys().collect();
    for id in ids {
        let c = &rc.circuits[id];
        s += &format!("circuit {id} inputs v1..v{}\n", c.num_inputs);
        let mut v = c.num_inputs;
        for i in &c.instructions {
            use expander_compiler::circuit::ir::common::Instruction as _;
            let n = i.num_outputs();
            let t = match i {
                I::InternalVariable { expr } => expr
                    .iter()
                    .map(|t| match &t.vars {
                        VarSpec::Const => show::<C>(&t.coef),
                        VarSpec::Linear(a) => format!("{}*v{a}", show::<C>(&t.coef)),
                        VarSpec::Quad(a, b) => format!("{}*v{a}*v{b}", show::<C>(&t.coef)),
                        x => format!("{}*{x:?}", show::<C>(&t.coef)),
                    })
                    .collect::<Vec<_>>()
                    .join(" + "),
                _ => format!("{i:?}"),
            };
            s += &format!("  v{}..+{n} = {t}\n", v + 1);
            v += n;
        }
        s += &format!("  constraints {:?} outputs {:?}\n", c.constraints, c.outputs);
    }
    s
}
