//! Circuits which exceed the sizes a random one has: more wires, gates, terms, calls, layers or
//! circuits than eight or sixteen bits can count.
use crate::common::*;
use ecgen::srcgen::{Kind, Src};
use ecgen::*;
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::ir::expr::{LinComb, LinCombTerm};
use expander_compiler::circuit::ir::source::{self, Constraint, ConstraintType, Instruction};
use pbt::{Ctx, Gen};
use std::collections::BTreeMap;

type I<C> = Instruction<C>;
type Ci<C> = expander_compiler::circuit::ir::common::Circuit<source::Irc<C>>;
fn mul<C: Config>(a: usize, b: usize) -> I<C> {
    Instruction::Mul(vec![a, b])
}
fn sum<C: Config>(terms: Vec<(usize, Fe<C>)>, k: Fe<C>) -> I<C> {
    Instruction::LinComb(LinComb { terms: terms.into_iter().map(|(var, coef)| LinCombTerm { var, coef }).collect(), constant: k })
}
fn call<C: Config>(id: usize, inputs: Vec<usize>) -> I<C> {
    Instruction::SubCircuitCall { sub_circuit_id: id, inputs, num_outputs: 1 }
}

/// `scale` 1: beyond eight bits everywhere; 2: beyond sixteen in what is counted most.
pub fn src<C: Config>(i: usize, g: &mut Gen) -> Option<(&'static str, Src<C>)> {
    let mut subs: BTreeMap<usize, Ci<C>> = BTreeMap::new();
    let mut ins: Vec<I<C>> = vec![];
    let mut constraints = vec![];
    let (name, k, outputs): (_, usize, Vec<usize>) = match i {
        0 => {
            // x -> x * y + c, and again
            let n = 300;
            let mut t = 1;
            for j in 0..n {
                ins.push(mul(t, 2 + j % 2));
                ins.push(sum(vec![(3 + 2 * j + 1, one::<C>())], fe::<C>(g)));
                t = 3 + 2 * j + 2;
            }
            ("deep", 3, vec![t, 3 + n])
        }
        1 => {
            let n = 70_000;
            let k = 300;
            for j in 0..n {
                ins.push(mul(1 + j % k, 1 + (j / k + j) % k));
            }
            ("many wires", k, (k + 1..=k + n).collect())
        }
        2 => {
            let k = 70_000;
            ins.push(sum((1..=k).map(|v| (v, fe::<C>(g))).collect(), fe::<C>(g)));
            ins.push(mul(k + 1, k));
            ("many terms", k, vec![k + 2, k + 1])
        }
        3 => {
            let n = 300;
            ins.push(Instruction::Mul((1..=n).collect()));
            ins.push(Instruction::Mul(vec![1; 1 + 256]));
            ("many factors", n, vec![n + 1, n + 2])
        }
        4 => {
            // 300 circuits, each called by the root twice and by the next
            let n = 300;
            for id in 1..=n {
                let mut v = vec![mul::<C>(1, 2), sum(vec![(3, one::<C>()), (1, Fe::<C>::from(id as u32))], fe::<C>(g))];
                let mut out = 4;
                if id > 1 && id % 50 != 0 {
                    v.push(call(id - 1, vec![4, 2]));
                    out = 5;
                }
                subs.insert(id, Ci::<C> { instructions: v, constraints: vec![], outputs: vec![out], num_inputs: 2 });
            }
            for id in [1, 2, 49, 50, 255, 256, 257, 299, 300] {
                ins.push(call(id, vec![1, 2]));
                ins.push(call(id, vec![2, 1]));
            }
            ("many circuits", 2, (3..3 + 18).collect())
        }
        5 => {
            // one circuit, called often
            let n = 5000;
            subs.insert(7, Ci::<C> { instructions: vec![mul(1, 2), mul(3, 1)], constraints: vec![], outputs: vec![4], num_inputs: 2 });
            let k = 40;
            for j in 0..n {
                ins.push(call(7, vec![1 + j % k, 1 + (j / k * 3 + j) % k]));
            }
            ("many calls", k, (k + 1..=k + n).rev().collect())
        }
        6 => {
            // one value read by very many, and constrained in very many ways
            let n = 3000;
            let k = 3;
            for j in 0..n {
                ins.push(mul(1, if j % 2 == 0 { 2 } else { 3 }));
                ins.push(sum(vec![(k + 2 * j + 1, fe::<C>(g)), (1, Fe::<C>::from(j as u32))], zero::<C>()));
            }
            // v - v = 0
            for j in 0..300 {
                ins.push(sum(vec![(k + 4 * j + 1, one::<C>()), (k + 1, zero::<C>() - one::<C>())], zero::<C>()));
                constraints.push(Constraint { typ: ConstraintType::Zero, var: k + 2 * n + j + 1 });
            }
            ("many readers", k, (0..n).map(|j| k + 2 * j + 2).collect())
        }
        _ => return None,
    };
    subs.insert(0, Ci::<C> { instructions: ins, constraints, outputs: outputs.clone(), num_inputs: k });
    Some((
        name,
        Src {
            rc: source::RootCircuit::<C> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits: subs.into_iter().collect() },
            input_kinds: vec![Kind::Any; k],
            base: (0..k).map(|_| fe::<C>(g)).collect(),
            public: vec![],
            root_out_taint: vec![false; outputs.len()],
            has_random: false,
            has_custom: false,
            tainted_constraint: false,
        },
    ))
}

fn in_field<C: Config>(i: usize, ctx: &mut Ctx, f: &dyn Fn(&mut Gen, &Case<C>, &mut Ctx) -> Result<(), String>) -> Option<Result<(), String>> {
    let mut g = Gen::from_seed(77 + i as u64);
    let (name, src) = src::<C>(i, &mut g)?;
    ctx.tag(name);
    let ins = src.inputs(&mut g, 1);
    let wants: Vec<_> = ins.iter().map(|(x, p)| want(&src, x, p)).collect();
    let c = Case { src, ins, wants };
    Some(f(&mut g, &c, ctx).map_err(|e| format!("{name}: {}", e.chars().take(2000).collect::<String>())))
}
pub const KINDS: usize = 7;
/// every kind of circuit, over M31
pub fn m31(i: usize, ctx: &mut Ctx, f: &dyn Fn(&mut Gen, &Case<M31Config>, &mut Ctx) -> Result<(), String>) -> Option<Result<(), String>> {
    if i >= KINDS {
        return None;
    }
    in_field::<M31Config>(i, ctx, f)
}
/// some of them over another field
pub fn other<C: Config>(i: usize, ctx: &mut Ctx, f: &dyn Fn(&mut Gen, &Case<C>, &mut Ctx) -> Result<(), String>) -> Option<Result<(), String>> {
    in_field::<C>(*[0, 3, 4].get(i.checked_sub(KINDS)?)?, ctx, f)
}
