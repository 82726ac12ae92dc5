//! Reference evaluators of every intermediate circuit, written from the meaning of the instructions.
use crate::*;
use expander_compiler::circuit::ir::{dest, expr::VarSpec, hint_less, hint_normalized, source};
use expander_compiler::circuit::layered::{self, Coef, Input, InputType, InputUsize};
use expander_compiler::hints::BuiltinHintIds;

pub struct Env<'a, C: Config> {
    pub public: &'a [Fe<C>],
    pub rnd: Rnd,
    /// Something without a defined value happened (division by zero, non-boolean operand of a
    /// boolean operation, number too large for its bits, hint that failed).
    pub undef: bool,
    /// A division by zero happened anywhere, also in an unconstrained operation.
    pub div_zero: bool,
    pub hint_failed: bool,
    /// Values fed to hints, in the order in which the hints run: (hint id, inputs, outputs).
    pub hint_log: Option<Vec<(usize, Vec<Fe<C>>, Vec<Fe<C>>)>>,
    /// When set, hint outputs are taken from here (in order) instead of being computed.
    pub hint_tape: Option<std::collections::VecDeque<Fe<C>>>,
    /// Further hints and custom gates.
    pub ext: Option<fn(usize, &[Fe<C>], usize) -> Option<Vec<Fe<C>>>>,
}
impl<'a, C: Config> Env<'a, C> {
    pub fn new(public: &'a [Fe<C>], seed: u64) -> Self {
        Env { public, rnd: Rnd(seed), undef: false, div_zero: false, hint_failed: false, hint_log: None, hint_tape: None, ext: None }
    }
    fn coef(&mut self, c: &Coef<C>) -> Fe<C> {
        match c {
            Coef::Constant(x) => *x,
            Coef::Random => self.rnd.fe::<C>(),
            Coef::PublicInput(i) => self.public[*i],
        }
    }
    pub fn custom(&self, gate_type: usize, x: &[Fe<C>]) -> Fe<C> {
        if let Some(v) = self.ext.and_then(|f| f(gate_type, x, 1)) {
            return v[0];
        }
        expander_compiler::hints::stub_impl(gate_type, &x.to_vec(), 1)[0]
    }
    pub fn hint(&mut self, id: usize, x: Vec<Fe<C>>, n: usize) -> Vec<Fe<C>> {
        if let Some(t) = &mut self.hint_tape {
            return (0..n).map(|_| t.pop_front().expect("hint tape too short")).collect();
        }
        if let Some(v) = self.ext.and_then(|f| f(id, &x, n)) {
            return v;
        }
        let out = match builtin::<C>(id, &x, n) {
            Some(Ok(v)) => v,
            Some(Err(_)) => {
                self.undef = true;
                self.hint_failed = true;
                vec![zero::<C>(); n]
            }
            None => match user_hint::<C>(id, &x, n) {
                Ok(v) => v,
                Err(_) => {
                    self.undef = true;
                    self.hint_failed = true;
                    vec![zero::<C>(); n]
                }
            },
        };
        if let Some(l) = &mut self.hint_log {
            l.push((id, x, out.clone()));
        }
        out
    }
}

fn b<C: Config>(x: bool) -> Fe<C> {
    fu::<C>(x as u64)
}
pub fn pow<C: Config>(x: Fe<C>, e: U256) -> Fe<C> {
    let mut r = one::<C>();
    for i in (0..256u32).rev() {
        r = r * r;
        if (e >> i) & U256::from(1u32) != U256::ZERO {
            r = r * x;
        }
    }
    r
}
pub fn bits_of<C: Config>(x: Fe<C>, n: usize) -> Result<Vec<Fe<C>>, ()> {
    let v = x.to_u256();
    if n < 256 && v >> n as u32 != U256::ZERO {
        return Err(());
    }
    Ok((0..n)
        .map(|i| if i < 256 { Fe::<C>::from_u256((v >> i as u32) & U256::from(1u32)) } else { zero::<C>() })
        .collect())
}

/// The built-in hint functions; None if the id is not built in.
pub fn builtin<C: Config>(id: usize, x: &[Fe<C>], n: usize) -> Option<Result<Vec<Fe<C>>, ()>> {
    use BuiltinHintIds::*;
    let k = BuiltinHintIds::from_usize(id)?;
    let p = modulus::<C>();
    let int = |f: &dyn Fn(U256, U256) -> U256| Ok(vec![Fe::<C>::from_u256(f(x[0].to_u256(), x[1].to_u256()) % p)]);
    let boolean = |v: bool| Ok(vec![b::<C>(v)]);
    let u = |i: usize| x[i].to_u256();
    Some(match k {
        Identity => Ok(x[..n].to_vec()),
        Div => Ok(vec![if x[1].is_zero() { zero::<C>() } else { x[0] * x[1].inv().unwrap() }]),
        Eq => boolean(u(0) == u(1)),
        NotEq => boolean(u(0) != u(1)),
        BoolOr => boolean(!x[0].is_zero() || !x[1].is_zero()),
        BoolAnd => boolean(!x[0].is_zero() && !x[1].is_zero()),
        BitOr => int(&|a, b| a | b),
        BitAnd => int(&|a, b| a & b),
        BitXor => int(&|a, b| a ^ b),
        Select => Ok(vec![if x[0].is_zero() { x[2] } else { x[1] }]),
        Pow => Ok(vec![pow::<C>(x[0], u(1))]),
        IntDiv => int(&|a, b| if b == U256::ZERO { b } else { a / b }),
        Mod => int(&|a, b| if b == U256::ZERO { b } else { a % b }),
        ShiftL => int(&|a, b| shift(p, a, b, true)),
        ShiftR => int(&|a, b| shift(p, a, b, false)),
        LesserEq => boolean(u(0) <= u(1)),
        GreaterEq => boolean(u(0) >= u(1)),
        Lesser => boolean(u(0) < u(1)),
        Greater => boolean(u(0) > u(1)),
        ToBinary => bits_of::<C>(x[0], n),
    })
}

pub fn uncon<C: Config>(op: &source::UnconstrainedBinOpType, x: Fe<C>, y: Fe<C>, div_zero: &mut bool) -> Fe<C> {
    use source::UnconstrainedBinOpType as O;
    use BuiltinHintIds as H;
    if matches!(op, O::Div | O::IntDiv | O::Mod) && y.is_zero() {
        *div_zero = true;
    }
    let id = match op {
        O::Div => H::Div,
        O::Pow => H::Pow,
        O::IntDiv => H::IntDiv,
        O::Mod => H::Mod,
        O::ShiftL => H::ShiftL,
        O::ShiftR => H::ShiftR,
        O::LesserEq => H::LesserEq,
        O::GreaterEq => H::GreaterEq,
        O::Lesser => H::Lesser,
        O::Greater => H::Greater,
        O::Eq => H::Eq,
        O::NotEq => H::NotEq,
        O::BoolOr => H::BoolOr,
        O::BoolAnd => H::BoolAnd,
        O::BitOr => H::BitOr,
        O::BitAnd => H::BitAnd,
        O::BitXor => H::BitXor,
    };
    builtin::<C>(id as u64 as usize, &[x, y], 1).unwrap().unwrap()[0]
}

#[derive(Clone, Debug, PartialEq)]
pub struct Out<C: Config> {
    pub outputs: Vec<Fe<C>>,
    pub sat: bool,
}

/// Called with (circuit id, values of all its variables) once per instance.
pub type Observe<'x, C> = dyn FnMut(usize, &[Fe<C>]) + 'x;

fn split_zeroes<C: Config>(o: Vec<Fe<C>>, mut sat: bool, z: usize) -> Out<C> {
    for x in &o[..z] {
        sat &= x.is_zero();
    }
    Out { outputs: o[z..].to_vec(), sat }
}

// ------------------------------------------------------------------ source

pub fn source<C: Config>(rc: &source::RootCircuit<C>, inputs: &[Fe<C>], env: &mut Env<C>, obs: &mut Observe<C>) -> Out<C> {
    let (o, sat) = source_sub(rc, 0, inputs, env, obs);
    split_zeroes(o, sat, rc.expected_num_output_zeroes)
}

fn source_sub<C: Config>(rc: &source::RootCircuit<C>, id: usize, inputs: &[Fe<C>], env: &mut Env<C>, obs: &mut Observe<C>) -> (Vec<Fe<C>>, bool) {
    use source::{BoolBinOpType as B, ConstraintType as K, Instruction as I};
    let c = &rc.circuits[&id];
    let mut v: Vec<Fe<C>> = vec![zero::<C>()];
    v.extend_from_slice(inputs);
    let mut sat = true;
    let is_bool = |x: Fe<C>| x.is_zero() || x == one::<C>();
    for insn in &c.instructions {
        let args = |xs: &[usize]| xs.iter().map(|&i| v[i]).collect::<Vec<_>>();
        match insn {
            I::LinComb(lc) => {
                let mut s = lc.constant;
                for t in &lc.terms {
                    s = s + v[t.var] * t.coef;
                }
                v.push(s);
            }
            I::Mul(xs) => {
                let r = xs.iter().fold(one::<C>(), |a, &i| a * v[i]);
                v.push(r);
            }
            I::Div { x, y, checked } => {
                let (x, y) = (v[*x], v[*y]);
                if y.is_zero() {
                    env.div_zero = true;
                    if *checked || !x.is_zero() {
                        sat = false;
                        env.undef = true;
                    }
                    v.push(zero::<C>());
                } else {
                    v.push(x * y.inv().unwrap());
                }
            }
            I::BoolBinOp { x, y, op } => {
                let (x, y) = (v[*x], v[*y]);
                if !is_bool(x) || !is_bool(y) {
                    sat = false;
                    env.undef = true;
                }
                let (p, q) = (!x.is_zero(), !y.is_zero());
                v.push(b::<C>(match op {
                    B::Xor => p != q,
                    B::Or => p || q,
                    B::And => p && q,
                }));
            }
            I::IsZero(x) => {
                let r = b::<C>(v[*x].is_zero());
                v.push(r);
            }
            I::Commit(_) => {
                let r = env.rnd.fe::<C>();
                v.push(r);
            }
            I::Hint { hint_id, inputs, num_outputs } => {
                let a = args(inputs);
                v.extend(env.hint(*hint_id, a, *num_outputs));
            }
            I::ConstantLike(k) => {
                let r = env.coef(k);
                v.push(r);
            }
            I::SubCircuitCall { sub_circuit_id, inputs, .. } => {
                let a = args(inputs);
                let (o, s) = source_sub(rc, *sub_circuit_id, &a, env, obs);
                sat &= s;
                v.extend(o);
            }
            I::UnconstrainedBinOp { x, y, op } => {
                let r = uncon::<C>(op, v[*x], v[*y], &mut env.div_zero);
                v.push(r);
            }
            I::UnconstrainedSelect { cond, if_true, if_false } => {
                let r = if v[*cond].is_zero() { v[*if_false] } else { v[*if_true] };
                v.push(r);
            }
            I::CustomGate { gate_type, inputs } => {
                let a = args(inputs);
                v.push(env.custom(*gate_type, &a));
            }
            I::ToBinary { x, num_bits } => match bits_of::<C>(v[*x], *num_bits) {
                Ok(bits) => v.extend(bits),
                Err(()) => {
                    sat = false;
                    env.undef = true;
                    v.extend(vec![zero::<C>(); *num_bits]);
                }
            },
        }
    }
    for k in &c.constraints {
        let x = v[k.var];
        sat &= match k.typ {
            K::Zero => x.is_zero(),
            K::NonZero => !x.is_zero(),
            K::Bool => is_bool(x),
        };
    }
    obs(id, &v);
    (c.outputs.iter().map(|&o| v[o]).collect(), sat)
}

// ------------------------------------------------------------------ hint normalized

pub fn hint_normalized<C: Config>(rc: &hint_normalized::RootCircuit<C>, inputs: &[Fe<C>], env: &mut Env<C>) -> Out<C> {
    let (o, sat) = hn_sub(rc, 0, inputs, env);
    split_zeroes(o, sat, rc.expected_num_output_zeroes)
}
/// All outputs of the root, as the witness program is meant to be run.
pub fn witness_program<C: Config>(rc: &hint_normalized::RootCircuit<C>, inputs: &[Fe<C>], env: &mut Env<C>) -> Vec<Fe<C>> {
    hn_sub(rc, 0, inputs, env).0
}
fn hn_sub<C: Config>(rc: &hint_normalized::RootCircuit<C>, id: usize, inputs: &[Fe<C>], env: &mut Env<C>) -> (Vec<Fe<C>>, bool) {
    use hint_normalized::Instruction as I;
    let c = &rc.circuits[&id];
    let mut v: Vec<Fe<C>> = vec![zero::<C>()];
    v.extend_from_slice(inputs);
    let mut sat = true;
    for insn in &c.instructions {
        let args = |xs: &[usize]| xs.iter().map(|&i| v[i]).collect::<Vec<_>>();
        match insn {
            I::LinComb(lc) => {
                let r = lc.terms.iter().fold(lc.constant, |s, t| s + v[t.var] * t.coef);
                v.push(r);
            }
            I::Mul(xs) => {
                let r = xs.iter().fold(one::<C>(), |a, &i| a * v[i]);
                v.push(r);
            }
            I::Hint { hint_id, inputs, num_outputs } => {
                let a = args(inputs);
                v.extend(env.hint(*hint_id, a, *num_outputs));
            }
            I::ConstantLike(k) => {
                let r = env.coef(k);
                v.push(r);
            }
            I::SubCircuitCall { sub_circuit_id, inputs, .. } => {
                let a = args(inputs);
                let (o, s) = hn_sub(rc, *sub_circuit_id, &a, env);
                sat &= s;
                v.extend(o);
            }
            I::CustomGate { gate_type, inputs } => {
                let a = args(inputs);
                v.push(env.custom(*gate_type, &a));
            }
        }
    }
    for &k in &c.constraints {
        sat &= v[k].is_zero();
    }
    (c.outputs.iter().map(|&o| v[o]).collect(), sat)
}

// ------------------------------------------------------------------ hint less

pub fn hint_less<C: Config>(rc: &hint_less::RootCircuit<C>, inputs: &[Fe<C>], env: &mut Env<C>) -> Out<C> {
    let (o, sat) = hint_less_values(rc, 0, inputs, env, &mut |_, _| {});
    split_zeroes(o, sat, rc.expected_num_output_zeroes)
}
pub fn hint_less_values<C: Config>(rc: &hint_less::RootCircuit<C>, id: usize, inputs: &[Fe<C>], env: &mut Env<C>, obs: &mut Observe<C>) -> (Vec<Fe<C>>, bool) {
    use hint_less::Instruction as I;
    let c = &rc.circuits[&id];
    let mut v: Vec<Fe<C>> = vec![zero::<C>()];
    v.extend_from_slice(inputs);
    let mut sat = true;
    for insn in &c.instructions {
        let args = |xs: &[usize]| xs.iter().map(|&i| v[i]).collect::<Vec<_>>();
        match insn {
            I::LinComb(lc) => {
                let r = lc.terms.iter().fold(lc.constant, |s, t| s + v[t.var] * t.coef);
                v.push(r);
            }
            I::Mul(xs) => {
                let r = xs.iter().fold(one::<C>(), |a, &i| a * v[i]);
                v.push(r);
            }
            I::ConstantLike(k) => {
                let r = env.coef(k);
                v.push(r);
            }
            I::SubCircuitCall { sub_circuit_id, inputs, .. } => {
                let a = args(inputs);
                let (o, s) = hint_less_values(rc, *sub_circuit_id, &a, env, obs);
                sat &= s;
                v.extend(o);
            }
            I::CustomGate { gate_type, inputs } => {
                let a = args(inputs);
                v.push(env.custom(*gate_type, &a));
            }
        }
    }
    obs(id, &v);
    for &k in &c.constraints {
        sat &= v[k].is_zero();
    }
    (c.outputs.iter().map(|&o| v[o]).collect(), sat)
}

// ------------------------------------------------------------------ dest

pub fn expr<C: Config>(e: &expander_compiler::circuit::ir::expr::Expression<C>, v: &[Fe<C>], rnd: &mut Rnd) -> Fe<C> {
    let mut s = zero::<C>();
    for t in e.iter() {
        s = s + match &t.vars {
            VarSpec::Const => t.coef,
            VarSpec::Linear(i) => v[*i] * t.coef,
            VarSpec::Quad(i, j) => v[*i] * v[*j] * t.coef,
            VarSpec::Custom { gate_type, inputs } => {
                let a: Vec<_> = inputs.iter().map(|&i| v[i]).collect();
                expander_compiler::hints::stub_impl(*gate_type, &a, 1)[0] * t.coef
            }
            VarSpec::RandomLinear(i) => v[*i] * rnd.fe::<C>(),
        };
    }
    s
}

macro_rules! dest_eval {
    ($name:ident, $sub:ident, $root:ty) => {
        pub fn $name<C: Config>(rc: &$root, inputs: &[Fe<C>], env: &mut Env<C>) -> Out<C> {
            let (o, sat) = $sub(rc, 0, inputs, env, &mut |_, _| {});
            split_zeroes(o, sat, rc.expected_num_output_zeroes)
        }
        pub fn $sub<C: Config>(rc: &$root, id: usize, inputs: &[Fe<C>], env: &mut Env<C>, obs: &mut Observe<C>) -> (Vec<Fe<C>>, bool) {
            use dest::Instruction as I;
            let c = &rc.circuits[&id];
            let mut v: Vec<Fe<C>> = vec![zero::<C>()];
            v.extend_from_slice(inputs);
            let mut sat = true;
            for insn in &c.instructions {
                match insn {
                    I::InternalVariable { expr: e } => {
                        let r = expr::<C>(e, &v, &mut env.rnd);
                        v.push(r);
                    }
                    I::ConstantLike { value } => {
                        let r = env.coef(value);
                        v.push(r);
                    }
                    I::SubCircuitCall { sub_circuit_id, inputs, .. } => {
                        let a: Vec<_> = inputs.iter().map(|&i| v[i]).collect();
                        let (o, s) = $sub(rc, *sub_circuit_id, &a, env, obs);
                        sat &= s;
                        v.extend(o);
                    }
                }
            }
            obs(id, &v);
            for &k in &c.constraints {
                sat &= v[k].is_zero();
            }
            (c.outputs.iter().map(|&o| v[o]).collect(), sat)
        }
    };
}
dest_eval!(dest_relaxed, dest_relaxed_values, dest::RootCircuitRelaxed<C>);
dest_eval!(dest_strict, dest_strict_values, dest::RootCircuit<C>);

// ------------------------------------------------------------------ layered

/// A gate of the fully expanded circuit: absolute positions, inputs as (absolute layer, offset).
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct FlatGate<C: Config> {
    pub kind: u8, // 2 mul, 1 add, 0 const, 3 custom
    pub gate_type: usize,
    pub inputs: Vec<(usize, usize)>,
    pub layer: usize,
    pub output: usize,
    pub coef: Coef<C>,
}

/// Layer 0 is the input; layer l+1 is the output of layer_ids[l].
pub fn flatten<C: Config, I: InputType>(lc: &layered::Circuit<C, I>) -> Vec<FlatGate<C>> {
    let mut out = vec![];
    for (l, &id) in lc.layer_ids.iter().enumerate() {
        let n = lc.segments[id].num_inputs.len();
        flat_seg(lc, id, l, &vec![0; n], 0, &mut out);
    }
    out
}
fn flat_seg<C: Config, I: InputType>(lc: &layered::Circuit<C, I>, id: usize, l: usize, off: &[usize], oo: usize, out: &mut Vec<FlatGate<C>>) {
    let s = &lc.segments[id];
    let at = |i: &I::Input| (l - i.layer(), off[i.layer()] + i.offset());
    for m in &s.gate_muls {
        out.push(FlatGate { kind: 2, gate_type: 0, inputs: vec![at(&m.inputs[0]), at(&m.inputs[1])], layer: l + 1, output: oo + m.output, coef: m.coef });
    }
    for m in &s.gate_adds {
        out.push(FlatGate { kind: 1, gate_type: 0, inputs: vec![at(&m.inputs[0])], layer: l + 1, output: oo + m.output, coef: m.coef });
    }
    for m in &s.gate_consts {
        out.push(FlatGate { kind: 0, gate_type: 0, inputs: vec![], layer: l + 1, output: oo + m.output, coef: m.coef });
    }
    for m in &s.gate_customs {
        out.push(FlatGate { kind: 3, gate_type: m.gate_type, inputs: m.inputs.iter().map(at).collect(), layer: l + 1, output: oo + m.output, coef: m.coef });
    }
    for (sub, allocs) in &s.child_segs {
        for a in allocs {
            let o: Vec<usize> = a.input_offset.iter().enumerate().map(|(i, x)| off[i] + x).collect();
            flat_seg(lc, *sub, l, &o, oo + a.output_offset, out);
        }
    }
}
pub fn layer_sizes<C: Config, I: InputType>(lc: &layered::Circuit<C, I>) -> Vec<usize> {
    let mut v = vec![lc.segments[lc.layer_ids[0]].num_inputs.get(0)];
    v.extend(lc.layer_ids.iter().map(|&i| lc.segments[i].num_outputs));
    v
}
/// Values of every layer. Each random coefficient of a gate is an independent draw.
pub fn layer_values<C: Config, I: InputType>(lc: &layered::Circuit<C, I>, inputs: &[Fe<C>], public: &[Fe<C>], seed: u64, custom: &dyn Fn(usize, &[Fe<C>]) -> Fe<C>) -> Vec<Vec<Fe<C>>> {
    let mut rnd = Rnd(seed);
    let mut v: Vec<Vec<Fe<C>>> = layer_sizes(lc).iter().map(|&n| vec![zero::<C>(); n]).collect();
    v[0].copy_from_slice(inputs);
    for g in flatten(lc) {
        let k = match &g.coef {
            Coef::Constant(x) => *x,
            Coef::Random => rnd.fe::<C>(),
            Coef::PublicInput(i) => public[*i],
        };
        let ins: Vec<Fe<C>> = g.inputs.iter().map(|&(l, o)| v[l][o]).collect();
        let r = match g.kind {
            3 => custom(g.gate_type, &ins),
            _ => ins.iter().fold(one::<C>(), |a, x| a * *x),
        };
        let t = &mut v[g.layer][g.output];
        *t = *t + r * k;
    }
    v
}
pub fn stub_custom<C: Config>(t: usize, x: &[Fe<C>]) -> Fe<C> {
    expander_compiler::hints::stub_impl(t, &x.to_vec(), 1)[0]
}
pub fn layered<C: Config, I: InputType>(lc: &layered::Circuit<C, I>, inputs: &[Fe<C>], public: &[Fe<C>], seed: u64) -> Out<C> {
    let v = layer_values(lc, inputs, public, seed, &stub_custom::<C>);
    let last = v.last().unwrap();
    split_zeroes(last[..lc.num_actual_outputs].to_vec(), true, lc.expected_num_output_zeroes)
}
