//! Random source circuits with inputs that satisfy them, and nearby inputs.
use crate::refeval::{self, Env};
use crate::*;
use expander_compiler::circuit::ir::{
    common::{Circuit as Ci, Instruction as _},
    expr::{LinComb, LinCombTerm},
    source::{self, BoolBinOpType, Constraint, ConstraintType, Instruction, Irc, UnconstrainedBinOpType},
};
use expander_compiler::circuit::layered::Coef;
use expander_compiler::hints::BuiltinHintIds;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Any,
    Bool,
    /// below 2^k as an integer
    Small(usize),
}
#[derive(Clone, Copy, Debug)]
pub struct V {
    pub kind: Kind,
    /// depends on the verifier's randomness (or a custom gate): must not reach hints
    pub taint: bool,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub max_insns: usize,
    pub max_circuits: usize,
    pub random: bool,
    pub custom: bool,
    pub public: bool,
    pub hints: bool,
    /// shifts, integer division and the like; needs a real integer meaning
    pub uncon: bool,
    pub zero_outputs: bool,
    /// instructions with implied constraints (division, boolean operations, decomposition)
    pub implied: bool,
    pub failing_hint: bool,
    /// keep values determined by constraints only (no free hints), for soundness checks
    pub constrained_only: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_insns: 40,
            max_circuits: 5,
            random: true,
            custom: true,
            public: true,
            hints: true,
            uncon: true,
            zero_outputs: true,
            implied: true,
            failing_hint: false,
            constrained_only: false,
        }
    }
}

struct Sub {
    id: usize,
    inputs: Vec<V>,
    outputs: Vec<V>,
}

pub struct Src<C: Config> {
    pub rc: source::RootCircuit<C>,
    pub input_kinds: Vec<Kind>,
    pub base: Vec<Fe<C>>,
    pub public: Vec<Fe<C>>,
    pub root_out_taint: Vec<bool>,
    pub has_random: bool,
    pub has_custom: bool,
    /// a constraint lies on a tainted variable
    pub tainted_constraint: bool,
}

struct B<'g, C: Config> {
    g: &'g mut Gen,
    o: Opts,
    n_public: usize,
    subs: Vec<Sub>,
    has_random: bool,
    has_custom: bool,
    /// sub-circuit (a, b) -> (a*b, a-b)
    special: Option<usize>,
    _c: std::marker::PhantomData<C>,
}

fn cap_bits<C: Config>() -> usize {
    field_bits::<C>() - 1
}
fn bits_needed(k: Kind) -> Option<usize> {
    match k {
        Kind::Any => None,
        Kind::Bool => Some(1),
        Kind::Small(k) => Some(k),
    }
}

impl<C: Config> B<'_, C> {
    fn kind(&mut self) -> Kind {
        match self.g.weighted(&[5, 3, 2]) {
            0 => Kind::Any,
            1 => Kind::Bool,
            _ if is_gf2::<C>() => Kind::Bool,
            _ => Kind::Small(1 + self.g.below(cap_bits::<C>().min(8))),
        }
    }
    fn pick_where(&mut self, vs: &[V], f: impl Fn(&V) -> bool) -> Option<usize> {
        let c: Vec<usize> = (1..vs.len()).filter(|&i| f(&vs[i])).collect();
        if c.is_empty() {
            return None;
        }
        let n = c.len();
        Some(if self.g.chance(1, 2) { c[n - 1 - self.g.below(n.min(5))] } else { c[self.g.below(n)] })
    }
    fn any(&mut self, vs: &[V]) -> usize {
        self.pick_where(vs, |_| true).unwrap()
    }
    fn clean(&mut self, vs: &[V]) -> Option<usize> {
        self.pick_where(vs, |v| !v.taint)
    }
    fn coef(&mut self) -> Fe<C> {
        match self.g.weighted(&[4, 2, 1, 2, 2]) {
            0 => one::<C>(),
            1 => zero::<C>() - one::<C>(),
            2 => zero::<C>(),
            3 => fu::<C>(2 + self.g.below(3) as u64),
            _ => fe::<C>(self.g),
        }
    }

    fn body(&mut self, inputs: &[V], root: bool) -> (Ci<Irc<C>>, Vec<V>) {
        let mut vs = vec![V { kind: Kind::Any, taint: true }];
        vs.extend_from_slice(inputs);
        let mut c: Ci<Irc<C>> = Ci { instructions: vec![], constraints: vec![], outputs: vec![], num_inputs: inputs.len() };
        let n = self.g.small(self.o.max_insns);
        let n = if root { n.max(1) } else { n };
        // a circuit may lean on one or two kinds of instruction
        let mut w = vec![5, 5, 2, 3, 2, 1, 3, 3, 6, 2, 1, 1, 2];
        if self.g.chance(1, 3) {
            let i = self.g.below(w.len());
            w[i] += 8;
        }
        if inputs.is_empty() {
            self.push(&mut c, &mut vs, Instruction::ConstantLike(Coef::Constant(one::<C>())), &[V { kind: Kind::Bool, taint: false }]);
        }
        for _ in 0..n {
            self.insn(&mut c, &mut vs, &w);
        }
        let n_out = if root { self.g.small(6) } else { self.g.below(5) };
        for _ in 0..n_out {
            let v = self.any(&vs);
            c.outputs.push(v);
        }
        // constraints that always hold
        if self.g.chance(1, 3) {
            for _ in 0..1 + self.g.below(3) {
                if let Some(v) = self.pick_where(&vs, |v| v.kind == Kind::Bool) {
                    c.constraints.push(Constraint { typ: ConstraintType::Bool, var: v });
                }
            }
        }
        if self.g.chance(1, 4) {
            // x*y - y*x, written differently
            let (x, y) = (self.any(&vs), self.any(&vs));
            let t = vs[x].taint || vs[y].taint;
            let one_v = [V { kind: Kind::Any, taint: t }];
            self.push(&mut c, &mut vs, Instruction::Mul(vec![x, y]), &one_v);
            let p = vs.len() - 1;
            self.push(&mut c, &mut vs, Instruction::Mul(vec![y, x]), &one_v);
            let q = vs.len() - 1;
            self.push(
                &mut c,
                &mut vs,
                Instruction::LinComb(LinComb {
                    terms: vec![LinCombTerm { var: p, coef: one::<C>() }, LinCombTerm { var: q, coef: zero::<C>() - one::<C>() }],
                    constant: zero::<C>(),
                }),
                &[V { kind: Kind::Bool, taint: t }],
            );
            let r = vs.len() - 1;
            c.constraints.push(Constraint { typ: ConstraintType::Zero, var: r });
        }
        if let Some(id) = self.special {
            if self.g.chance(1, 3) {
                self.consistent(&mut c, &mut vs, id);
            }
        }
        (c, vs)
    }

    /// The same value used many times, then compared with itself.
    fn consistent(&mut self, c: &mut Ci<Irc<C>>, vs: &mut Vec<V>, id: usize) {
        let x = self.pick_where(vs, |v| v.taint).filter(|_| self.g.chance(3, 4)).unwrap_or_else(|| self.any(vs));
        let x = if x == 0 { 1 } else { x };
        let zero_v = V { kind: Kind::Bool, taint: true };
        let any_v = V { kind: Kind::Any, taint: true };
        let mut zs = vec![];
        for _ in 0..1 + self.g.below(4) {
            let y = self.any(vs);
            self.push(c, vs, Instruction::Mul(vec![x, y]), &[any_v]);
            let p = vs.len() - 1;
            c.outputs.push(p);
            if self.g.bool() {
                self.push(c, vs, Instruction::SubCircuitCall { sub_circuit_id: id, inputs: vec![x, y], num_outputs: 2 }, &[any_v, any_v]);
                let q = vs.len() - 2;
                let terms = vec![LinCombTerm { var: p, coef: one::<C>() }, LinCombTerm { var: q, coef: zero::<C>() - one::<C>() }];
                self.push(c, vs, Instruction::LinComb(LinComb { terms, constant: zero::<C>() }), &[zero_v]);
                zs.push(vs.len() - 1);
            }
        }
        if self.g.bool() {
            self.push(c, vs, Instruction::SubCircuitCall { sub_circuit_id: id, inputs: vec![x, x], num_outputs: 2 }, &[any_v, zero_v]);
            zs.push(vs.len() - 1);
        }
        for z in zs {
            if self.g.bool() {
                c.constraints.push(Constraint { typ: ConstraintType::Zero, var: z });
            } else {
                c.outputs.push(z);
            }
        }
    }

    fn push(&mut self, c: &mut Ci<Irc<C>>, vs: &mut Vec<V>, i: Instruction<C>, out: &[V]) {
        c.instructions.push(i);
        vs.extend_from_slice(out);
    }

    fn insn(&mut self, c: &mut Ci<Irc<C>>, vs: &mut Vec<V>, w: &[usize]) {
        let any_v = |t: bool| V { kind: Kind::Any, taint: t };
        let bool_v = |t: bool| V { kind: Kind::Bool, taint: t };
        let tainted = |vs: &[V], xs: &[usize]| xs.iter().any(|&i| vs[i].taint);
        let which = self.g.weighted(w);
        match which {
            1 => {
                let k = match self.g.below(6) {
                    0..=3 => 2,
                    4 => 3,
                    _ => 4,
                };
                let mut xs: Vec<usize> = (0..k).map(|_| self.any(vs)).collect();
                if self.g.chance(1, 5) {
                    xs[1] = xs[0];
                }
                let t = tainted(vs, &xs);
                let kind = if xs.iter().all(|&i| vs[i].kind == Kind::Bool) { Kind::Bool } else { Kind::Any };
                self.push(c, vs, Instruction::Mul(xs), &[V { kind, taint: t }]);
            }
            2 if self.o.implied => {
                let (Some(x), Some(mut y)) = (self.clean(vs), self.clean(vs)) else { return };
                let checked = self.g.bool();
                match self.g.below(4) {
                    0 => {
                        let k = fe_nonzero::<C>(self.g);
                        self.push(c, vs, Instruction::ConstantLike(Coef::Constant(k)), &[any_v(false)]);
                        y = vs.len() - 1;
                    }
                    1 => {
                        // y = z*z + k is rarely zero
                        self.push(c, vs, Instruction::Mul(vec![y, y]), &[any_v(false)]);
                        let k = fe_nonzero::<C>(self.g);
                        let s = vs.len() - 1;
                        self.push(c, vs, Instruction::LinComb(LinComb { terms: vec![LinCombTerm { var: s, coef: one::<C>() }], constant: k }), &[any_v(false)]);
                        y = vs.len() - 1;
                    }
                    _ => {
                        if let Some(v) = self.pick_where(vs, |v| !v.taint && v.kind == Kind::Any) {
                            y = v;
                        }
                    }
                }
                self.push(c, vs, Instruction::Div { x, y, checked }, &[any_v(false)]);
            }
            3 if self.o.implied => {
                let f = |v: &V| v.kind == Kind::Bool;
                let (Some(x), Some(y)) = (self.pick_where(vs, f), self.pick_where(vs, f)) else { return };
                let op = [BoolBinOpType::Xor, BoolBinOpType::Or, BoolBinOpType::And][self.g.below(3)].clone();
                let t = vs[x].taint || vs[y].taint;
                self.push(c, vs, Instruction::BoolBinOp { x, y, op }, &[bool_v(t)]);
            }
            4 => {
                let Some(x) = self.clean(vs) else { return };
                self.push(c, vs, Instruction::IsZero(x), &[bool_v(false)]);
            }
            5 if self.o.random => {
                let n = 1 + self.g.below(3);
                let xs = (0..n).map(|_| self.any(vs)).collect();
                self.has_random = true;
                self.push(c, vs, Instruction::Commit(xs), &[any_v(true)]);
            }
            6 if self.o.hints => {
                let n_in = 1 + self.g.below(3);
                let mut xs = vec![];
                for _ in 0..n_in {
                    let Some(v) = self.clean(vs) else { return };
                    xs.push(v);
                }
                if self.o.failing_hint && self.g.chance(1, 3) {
                    self.push(c, vs, Instruction::Hint { hint_id: FAILING_HINT, inputs: xs, num_outputs: 1 }, &[any_v(false)]);
                    return;
                }
                if self.g.chance(1, 3) {
                    // a built-in one
                    let base = BuiltinHintIds::Identity as u64 as usize;
                    let k = self.g.below(20);
                    let id = base + k;
                    let (ni, no) = match k {
                        0 => (xs.len(), xs.len()),
                        9 => (3, 1),
                        19 => {
                            let x = xs[0];
                            let bits = bits_needed(vs[x].kind).unwrap_or(field_bits::<C>());
                            (1, bits + self.g.below(2))
                        }
                        _ => (2, 1),
                    };
                    while xs.len() < ni {
                        let v = self.clean(vs).unwrap();
                        xs.push(v);
                    }
                    xs.truncate(ni);
                    let kind = if matches!(k, 2..=5 | 15..=19) { Kind::Bool } else { Kind::Any };
                    self.push(c, vs, Instruction::Hint { hint_id: id, inputs: xs, num_outputs: no }, &vec![V { kind, taint: false }; no]);
                } else {
                    let id = 1 + self.g.below(NUM_HINTS);
                    let no = 1 + self.g.below(3);
                    self.push(c, vs, Instruction::Hint { hint_id: id, inputs: xs, num_outputs: no }, &vec![V { kind: if matches!(id, 4 | 5) { Kind::Bool } else { Kind::Any }, taint: false }; no]);
                }
            }
            7 => {
                let k: Coef<C> = match self.g.weighted(&[6, if self.n_public > 0 { 3 } else { 0 }, if self.o.random { 1 } else { 0 }]) {
                    0 => Coef::Constant(fe::<C>(self.g)),
                    1 => Coef::PublicInput(self.g.below(self.n_public)),
                    _ => {
                        self.has_random = true;
                        Coef::Random
                    }
                };
                let v = match &k {
                    Coef::Constant(x) if x.is_zero() || *x == one::<C>() => bool_v(false),
                    Coef::Random => any_v(true),
                    _ => any_v(false),
                };
                self.push(c, vs, Instruction::ConstantLike(k), &[v]);
            }
            8 if !self.subs.is_empty() => {
                let s = self.g.below(self.subs.len());
                let ins = self.subs[s].inputs.clone();
                let outs = self.subs[s].outputs.clone();
                let id = self.subs[s].id;
                let mut xs = vec![];
                let mut anything_tainted = false;
                for need in &ins {
                    let ok = |v: &V| {
                        (!v.taint || need.taint)
                            && match need.kind {
                                Kind::Any => true,
                                Kind::Bool => v.kind == Kind::Bool,
                                Kind::Small(k) => bits_needed(v.kind).is_some_and(|b| b <= k),
                            }
                    };
                    let v = if !xs.is_empty() && self.g.chance(1, 6) && ok(&vs[*xs.last().unwrap()]) {
                        *xs.last().unwrap()
                    } else {
                        match self.pick_where(vs, ok) {
                            Some(v) => v,
                            None => {
                                let k = if self.g.bool() { one::<C>() } else { zero::<C>() };
                                self.push(c, vs, Instruction::ConstantLike(Coef::Constant(k)), &[bool_v(false)]);
                                vs.len() - 1
                            }
                        }
                    };
                    anything_tainted |= vs[v].taint;
                    xs.push(v);
                }
                let _ = anything_tainted;
                self.push(c, vs, Instruction::SubCircuitCall { sub_circuit_id: id, inputs: xs, num_outputs: outs.len() }, &outs);
            }
            9 if self.o.uncon && self.o.hints => {
                let (Some(x), Some(y)) = (self.clean(vs), self.clean(vs)) else { return };
                use UnconstrainedBinOpType as O;
                let ops = [
                    O::Div, O::Pow, O::IntDiv, O::Mod, O::ShiftL, O::ShiftR, O::LesserEq, O::GreaterEq, O::Lesser, O::Greater, O::Eq,
                    O::NotEq, O::BoolOr, O::BoolAnd, O::BitOr, O::BitAnd, O::BitXor,
                ];
                let k = self.g.below(ops.len());
                let kind = if (6..=13).contains(&k) { Kind::Bool } else { Kind::Any };
                self.push(c, vs, Instruction::UnconstrainedBinOp { x, y, op: ops[k].clone() }, &[V { kind, taint: false }]);
            }
            10 if self.o.uncon && self.o.hints => {
                let (Some(a), Some(b), Some(d)) = (self.clean(vs), self.clean(vs), self.clean(vs)) else { return };
                self.push(c, vs, Instruction::UnconstrainedSelect { cond: a, if_true: b, if_false: d }, &[any_v(false)]);
            }
            11 if self.o.custom => {
                let n = 1 + self.g.below(3);
                let xs = (0..n).map(|_| self.any(vs)).collect();
                self.has_custom = true;
                let gate_type = 1000 + self.g.below(3);
                self.push(c, vs, Instruction::CustomGate { gate_type, inputs: xs }, &[any_v(true)]);
            }
            12 if self.o.implied => {
                let Some(x) = self.clean(vs) else { return };
                let (x, bits) = match bits_needed(vs[x].kind) {
                    Some(b) => (x, b + self.g.below(3)),
                    None => {
                        if self.g.chance(1, 2) {
                            match self.pick_where(vs, |v| !v.taint && v.kind != Kind::Any) {
                                Some(y) => (y, bits_needed(vs[y].kind).unwrap() + self.g.below(2)),
                                None => return,
                            }
                        } else {
                            // sometimes too few bits for some inputs
                            let fb = field_bits::<C>();
                            (x, if self.g.chance(1, 4) { (fb - self.g.below(fb.min(3))).max(1) } else { fb })
                        }
                    }
                };
                let bits = bits.min(field_bits::<C>() + 1);
                self.push(c, vs, Instruction::ToBinary { x, num_bits: bits }, &vec![bool_v(false); bits]);
            }
            _ => {
                let n = match self.g.below(6) {
                    0 => 0,
                    1..=3 => 2,
                    4 => 1,
                    _ => 3 + self.g.below(4),
                };
                let mut terms = vec![];
                for _ in 0..n {
                    let var = self.any(vs);
                    let coef = self.coef();
                    terms.push(LinCombTerm { var, coef });
                }
                if n >= 2 && self.g.chance(1, 6) {
                    let var = terms[0].var;
                    let coef = self.coef();
                    terms.push(LinCombTerm { var, coef });
                }
                let xs: Vec<usize> = terms.iter().map(|t| t.var).collect();
                let t = tainted(vs, &xs);
                let constant = if self.g.chance(1, 3) { fe::<C>(self.g) } else { zero::<C>() };
                let mut kind = Kind::Any;
                if terms.is_empty() && (constant.is_zero() || constant == one::<C>()) {
                    kind = Kind::Bool;
                }
                if terms.len() == 1 && terms[0].coef == one::<C>() && constant.is_zero() {
                    kind = vs[xs[0]].kind;
                }
                // 1 - b
                if terms.len() == 1 && vs[xs[0]].kind == Kind::Bool && constant == one::<C>() && terms[0].coef == zero::<C>() - one::<C>() {
                    kind = Kind::Bool;
                }
                self.push(c, vs, Instruction::LinComb(LinComb { terms, constant }), &[V { kind, taint: t }]);
            }
        }
    }
}

fn value_of<C: Config>(g: &mut Gen, k: Kind) -> Fe<C> {
    match k {
        Kind::Any => fe::<C>(g),
        Kind::Bool => fu::<C>(g.below(2) as u64),
        Kind::Small(b) => match g.below(4) {
            0 => zero::<C>(),
            1 => fu::<C>((1u64 << b) - 1),
            _ => fu::<C>(g.u64() & ((1u64 << b) - 1)),
        },
    }
}

/// Sub-circuits many layers deep whose inputs come in at various depths, called several times
/// with the same values in different orders: the calls have much of their layout in common, but
/// not where they find what they read late.
pub fn gen_deep<C: Config>(g: &mut Gen) -> Src<C> {
    type I<C> = Instruction<C>;
    let mul = |a: usize, b: usize| -> I<C> { Instruction::Mul(vec![a, b]) };
    let n_subs = 1 + g.below(3);
    let mut circuits: BTreeMap<usize, Ci<Irc<C>>> = BTreeMap::new();
    let mut subs: Vec<(usize, usize, usize)> = vec![];
    for s in 0..n_subs {
        let k = 2 + g.below(4);
        let mut n = k;
        let mut ins: Vec<I<C>> = vec![];
        let mut t = 1;
        let mut outputs = vec![];
        let depth = 1 + g.below(6);
        for _ in 0..depth {
            match g.below(6) {
                0 => {
                    ins.push(mul(t, t));
                    n += 1;
                }
                1 => {
                    let terms = vec![LinCombTerm { var: t, coef: fe_nz::<C>(g) }, LinCombTerm { var: 1 + g.below(k), coef: fe_nz::<C>(g) }];
                    ins.push(Instruction::LinComb(LinComb { terms, constant: fe::<C>(g) }));
                    n += 1;
                    ins.push(mul(n, t));
                    n += 1;
                }
                2 if !subs.is_empty() => {
                    let (id, ki, ko) = *g.pick(&subs);
                    let mut xs: Vec<usize> = (0..ki).map(|_| 1 + g.below(k)).collect();
                    let at = g.below(ki);
                    xs[at] = t;
                    ins.push(Instruction::SubCircuitCall { sub_circuit_id: id, inputs: xs, num_outputs: ko });
                    n += ko;
                }
                3 => {
                    let terms = vec![LinCombTerm { var: t, coef: fe_nz::<C>(g) }, LinCombTerm { var: 1 + g.below(k), coef: fe_nz::<C>(g) }];
                    ins.push(Instruction::LinComb(LinComb { terms, constant: zero::<C>() }));
                    n += 1;
                }
                _ => {
                    ins.push(mul(t, 1 + g.below(k)));
                    n += 1;
                }
            }
            t = n;
            if g.chance(1, 4) {
                outputs.push(t);
            }
        }
        if outputs.last() != Some(&t) {
            outputs.push(t);
        }
        if g.chance(1, 4) {
            outputs.push(1 + g.below(k));
        }
        let id = s * 7 + 1;
        subs.push((id, k, outputs.len()));
        circuits.insert(id, Ci { instructions: ins, constraints: vec![], outputs, num_inputs: k });
    }
    let k = 2 + g.below(5);
    let mut n = k;
    let mut ins: Vec<I<C>> = vec![];
    let mut outputs = vec![];
    for _ in 0..g.below(3) {
        ins.push(mul(1 + g.below(n), 1 + g.below(n)));
        n += 1;
    }
    let avail = n;
    for _ in 0..1 + g.below(2) {
        let (id, ki, ko) = *g.pick(&subs);
        let mut xs: Vec<usize> = (0..ki).map(|_| 1 + g.below(avail)).collect();
        for _ in 0..2 + g.below(3) {
            ins.push(Instruction::SubCircuitCall { sub_circuit_id: id, inputs: xs.clone(), num_outputs: ko });
            for i in 0..ko {
                if i + 1 == ko || g.bool() {
                    outputs.push(n + 1 + i);
                }
            }
            n += ko;
            // the next call has two of them exchanged, or one replaced
            let (i, j) = (g.below(ki), g.below(ki));
            if g.chance(2, 3) {
                xs.swap(i, j);
            } else {
                let top = if g.chance(1, 5) { n } else { avail };
                xs[i] = 1 + g.below(top);
            }
        }
    }
    let mut constraints = vec![];
    if g.chance(1, 3) {
        let i = g.below(outputs.len());
        constraints.push(Constraint { typ: ConstraintType::NonZero, var: outputs[i] });
    }
    g.shuffle(&mut outputs);
    circuits.insert(0, Ci { instructions: ins, constraints, outputs: outputs.clone(), num_inputs: k });
    let input_kinds = vec![Kind::Any; k];
    let base = (0..k).map(|_| fe::<C>(g)).collect();
    Src {
        rc: source::RootCircuit::<C> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits: circuits.into_iter().collect() },
        input_kinds,
        base,
        public: vec![],
        root_out_taint: vec![false; outputs.len()],
        has_random: false,
        has_custom: false,
        tainted_constraint: false,
    }
}
fn fe_nz<C: Config>(g: &mut Gen) -> Fe<C> {
    let x = fe::<C>(g);
    if x.is_zero() {
        one::<C>()
    } else {
        x
    }
}

pub fn gen<C: Config>(g: &mut Gen, o: Opts) -> Src<C> {
    if o.max_circuits > 3 && g.chance(1, 10) {
        return gen_deep::<C>(g);
    }
    let n_public = if o.public { g.small(3) } else { 0 };
    let n_subs = if o.max_circuits <= 1 { 0 } else { g.below(o.max_circuits) };
    let mut b: B<C> = B { g, o: o.clone(), n_public, subs: vec![], has_random: false, has_custom: false, special: None, _c: std::marker::PhantomData };
    let mut circuits: BTreeMap<usize, Ci<Irc<C>>> = BTreeMap::new();
    let mut taints: HashMap<usize, Vec<V>> = HashMap::new();
    if n_subs > 0 && b.g.chance(1, 4) {
        let id = 500 + b.g.below(1000);
        let c = Ci {
            instructions: vec![
                Instruction::Mul(vec![1, 2]),
                Instruction::LinComb(LinComb {
                    terms: vec![LinCombTerm { var: 1, coef: one::<C>() }, LinCombTerm { var: 2, coef: zero::<C>() - one::<C>() }],
                    constant: zero::<C>(),
                }),
            ],
            constraints: vec![],
            outputs: vec![3, 4],
            num_inputs: 2,
        };
        taints.insert(id, vec![V { kind: Kind::Any, taint: true }; 5]);
        circuits.insert(id, c);
        b.special = Some(id);
    }
    for i in 0..n_subs {
        let id = match b.g.below(3) {
            0 => i + 1,
            1 => 1 + b.g.below(1000),
            _ => (b.g.u64() >> 1) as usize | 1,
        };
        if circuits.contains_key(&id) {
            continue;
        }
        let n_in = b.g.below(5);
        let inputs: Vec<V> = (0..n_in).map(|_| V { kind: b.kind(), taint: b.g.chance(1, 5) }).collect();
        let (c, vs) = b.body(&inputs, false);
        let outputs = c.outputs.iter().map(|&v| vs[v]).collect();
        b.subs.push(Sub { id, inputs, outputs });
        taints.insert(id, vs);
        circuits.insert(id, c);
    }
    let n_in = 1 + b.g.small(7);
    let input_kinds: Vec<Kind> = (0..n_in).map(|_| b.kind()).collect();
    let root_in: Vec<V> = input_kinds.iter().map(|&kind| V { kind, taint: false }).collect();
    let (c, vs) = b.body(&root_in, true);
    let (has_random, has_custom) = (b.has_random, b.has_custom);
    taints.insert(0, vs);
    circuits.insert(0, c);

    let base: Vec<Fe<C>> = input_kinds.iter().map(|&k| value_of::<C>(g, k)).collect();
    let public: Vec<Fe<C>> = (0..n_public).map(|_| fe::<C>(g)).collect();

    let mut rc = source::RootCircuit::<C> {
        num_public_inputs: n_public,
        expected_num_output_zeroes: 0,
        circuits: circuits.iter().map(|(k, v)| (*k, v.clone())).collect(),
    };
    // constraints taken from what actually happens on the base input, over all instances
    let mut seen: HashMap<usize, Vec<Vec<Fe<C>>>> = HashMap::new();
    {
        let mut env = Env::<C>::new(&public, 0);
        refeval::source(&rc, &base, &mut env, &mut |id, v| seen.entry(id).or_default().push(v.to_vec()));
    }
    let mut tainted_constraint = false;
    for (id, c) in circuits.iter_mut() {
        let Some(inst) = seen.get(id) else { continue };
        let vs = taints.get_mut(id).unwrap();
        let p = if *id == 0 { 3 } else { 1 };
        if !g.chance(p, 4) {
            continue;
        }
        for _ in 0..1 + g.below(3) {
            let i = 1 + g.below(vs.len() - 1);
            if vs[i].taint || i >= inst[0].len() {
                continue;
            }
            let vals: Vec<Fe<C>> = inst.iter().map(|v| v[i]).collect();
            let all_eq = vals.iter().all(|x| *x == vals[0]);
            let all_bool = vals.iter().all(|x| x.is_zero() || *x == one::<C>());
            let all_nz = vals.iter().all(|x| !x.is_zero());
            if g.chance(1, 25) {
                // may well fail
                let typ = [ConstraintType::Zero, ConstraintType::NonZero, ConstraintType::Bool][g.below(3)];
                c.constraints.push(Constraint { typ, var: i });
            } else if all_nz && g.bool() {
                c.constraints.push(Constraint { typ: ConstraintType::NonZero, var: i });
            } else if all_bool && g.bool() {
                c.constraints.push(Constraint { typ: ConstraintType::Bool, var: i });
            } else if vals.iter().all(|x| x.is_zero()) {
                c.constraints.push(Constraint { typ: ConstraintType::Zero, var: i });
            } else if all_eq {
                c.instructions.push(Instruction::LinComb(LinComb {
                    terms: vec![LinCombTerm { var: i, coef: one::<C>() }],
                    constant: zero::<C>() - vals[0],
                }));
                let n = c.get_num_variables();
                vs.push(V { kind: Kind::Any, taint: false });
                c.constraints.push(Constraint { typ: ConstraintType::Zero, var: n });
            }
        }
    }
    for (id, c) in circuits.iter() {
        let vs = &taints[id];
        tainted_constraint |= c.constraints.iter().any(|k| vs.get(k.var).is_some_and(|v| v.taint));
    }
    let root = circuits.get_mut(&0).unwrap();
    if root.outputs.is_empty() && (root.constraints.is_empty() || g.chance(3, 4)) {
        let n = root.get_num_variables();
        for _ in 0..1 + g.below(3) {
            let v = 1 + g.below(n);
            root.outputs.push(v);
        }
    }
    let mut zeroes = 0;
    if o.zero_outputs && g.chance(1, 8) {
        // the first outputs must be zero
        let vs = taints.get_mut(&0).unwrap();
        let inst = &seen[&0][0];
        for _ in 0..1 + g.below(2) {
            let i = 1 + g.below(inst.len() - 1);
            if vs[i].taint {
                continue;
            }
            root.instructions.push(Instruction::LinComb(LinComb {
                terms: vec![LinCombTerm { var: i, coef: one::<C>() }],
                constant: zero::<C>() - inst[i],
            }));
            vs.push(V { kind: Kind::Any, taint: false });
            let n = root.get_num_variables();
            root.outputs.insert(zeroes, n);
            zeroes += 1;
        }
    }
    let vs = &taints[&0];
    let root_out_taint = root.outputs[zeroes..].iter().map(|&v| vs.get(v).is_some_and(|x| x.taint)).collect();
    rc.circuits = circuits.into_iter().collect();
    rc.expected_num_output_zeroes = zeroes;
    Src { rc, input_kinds, base, public, root_out_taint, has_random, has_custom, tainted_constraint }
}

impl<C: Config> Src<C> {
    /// The base input and `n` variations of it: (inputs, public inputs).
    pub fn inputs(&self, g: &mut Gen, n: usize) -> Vec<(Vec<Fe<C>>, Vec<Fe<C>>)> {
        let mut r = vec![(self.base.clone(), self.public.clone())];
        for _ in 0..n {
            let mut x = self.base.clone();
            let mut p = self.public.clone();
            let respect = g.chance(3, 4);
            for _ in 0..1 + g.below(3) {
                let i = g.below(x.len());
                x[i] = value_of::<C>(g, if respect { self.input_kinds[i] } else { Kind::Any });
            }
            if !p.is_empty() && g.chance(1, 3) {
                let i = g.below(p.len());
                p[i] = fe::<C>(g);
            }
            r.push((x, p));
        }
        r
    }
    pub fn describe(&self, inputs: &[(Vec<Fe<C>>, Vec<Fe<C>>)]) -> String {
        let mut s = format!("field of {} elements\n", modulus::<C>());
        s += &show_source(&self.rc);
        for (x, p) in inputs {
            s += &format!("inputs {} public {}\n", show_all::<C>(x), show_all::<C>(p));
        }
        s
    }
}

pub fn show_source<C: Config>(rc: &source::RootCircuit<C>) -> String {
    let mut s = format!("expected zero outputs {}, public inputs {}\n", rc.expected_num_output_zeroes, rc.num_public_inputs);
    let mut ids: Vec<_> = rc.circuits.keys().collect();
    ids.sort();
    for id in ids {
        let c = &rc.circuits[id];
        s += &format!("circuit {id} inputs v1..v{}\n", c.num_inputs);
        let mut v = c.num_inputs;
        for i in &c.instructions {
            let n = i.num_outputs();
            let text = match i {
                Instruction::LinComb(lc) => {
                    let t: Vec<String> = lc.terms.iter().map(|t| format!("v{}*{}", t.var, show::<C>(&t.coef))).collect();
                    format!("{} + {}", t.join(" + "), show::<C>(&lc.constant))
                }
                Instruction::ConstantLike(Coef::Constant(x)) => format!("const {}", show::<C>(x)),
                _ => format!("{i:?}"),
            };
            s += &match n {
                0 => format!("  {text}\n"),
                1 => format!("  v{} = {text}\n", v + 1),
                _ => format!("  v{}..v{} = {text}\n", v + 1, v + n),
            };
            v += n;
        }
        s += &format!("  constraints {:?} outputs {:?}\n", c.constraints.iter().map(|k| (k.typ, k.var)).collect::<Vec<_>>(), c.outputs);
    }
    s
}
