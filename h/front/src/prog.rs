//! Programs over the circuit-building API: their text, meaning, generator and interpreter.
use ecgen::refeval::{bits_of, builtin, uncon};
use ecgen::*;
use ethnum::U256;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir::source::UnconstrainedBinOpType as UB;
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::builder::{ToVariableOrValue, VariableOrValue};
use expander_compiler::frontend::extra::*;
use expander_compiler::frontend::*;
use pbt::Gen;
use std::cell::RefCell;
use std::rc::Rc;

/// An operand of an operation.
#[derive(Clone, Debug, PartialEq)]
pub enum A {
    /// The i-th input of the body, modulo their number; 1 if there are none.
    In(usize),
    Loc(usize),
    /// The number given to the body when it was called.
    Param,
    U32(u32),
    F(U256),
}
#[derive(Clone, Debug, PartialEq)]
pub enum O {
    /// add sub mul xor or and gt geq
    Bin(usize, A, A),
    /// neg inverse is_zero constant unconstrained_identity
    Un(usize, A),
    Div(A, A, bool),
    ToBin(A, usize),
    FromBin(Vec<A>),
    /// zero non_zero bool equal different
    Assert(usize, A, A),
    Unc(usize, A, A),
    Hint(usize, Vec<A>, usize),
    /// asserts that r*x - x*r is zero for a random r; no result, since witness
    /// generation does not know r
    Rand(A),
    /// the value of a variable where it is known while building
    Known(A),
    Call { way: usize, sub: usize, args: Vec<A>, param: u32 },
    Memo { f: usize, ints: Vec<i64>, lens: Vec<usize>, args: Vec<A> },
}
#[derive(Clone, Debug, Default)]
pub struct Body {
    pub ops: Vec<O>,
    pub outs: Vec<A>,
}
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub nx: usize,
    pub np: usize,
    pub root: Body,
    pub subs: Vec<Body>,
    /// set_outputs is called earlier with something else too
    pub twice: bool,
    /// operands are given by reference
    pub refs: bool,
}
pub const WAYS: usize = 4;
pub const BIN: [&str; 8] = ["add", "sub", "mul", "xor", "or", "and", "gt", "geq"];
pub const UN: [&str; 5] = ["neg", "inverse", "is_zero", "constant", "unconstrained_identity"];
pub const AS: [&str; 5] = ["zero", "non_zero", "bool", "equal", "different"];
pub const UNC: [&str; 19] = [
    "add", "mul", "div", "pow", "int_div", "mod", "shift_l", "shift_r", "lesser_eq", "greater_eq", "lesser", "greater", "eq",
    "not_eq", "bool_or", "bool_and", "bit_or", "bit_and", "bit_xor",
];

// ------------------------------------------------------------------ meaning

pub struct State<C: Config> {
    pub sat: bool,
    pub div_zero: bool,
    /// an unchecked division of zero by zero
    pub free: bool,
    pub hint_failed: bool,
    pub calls: usize,
    _c: std::marker::PhantomData<C>,
}
impl<C: Config> Clone for State<C> {
    fn clone(&self) -> Self {
        State { sat: self.sat, div_zero: self.div_zero, free: self.free, hint_failed: self.hint_failed, calls: self.calls, _c: Default::default() }
    }
}
impl<C: Config> State<C> {
    pub fn new() -> Self {
        State { sat: true, div_zero: false, free: false, hint_failed: false, calls: 0, _c: Default::default() }
    }
}
pub struct Frame<'a, C: Config> {
    pub ins: &'a [Fe<C>],
    pub loc: Vec<Fe<C>>,
    pub param: u32,
}
pub fn opnd<C: Config>(a: &A, f: &Frame<C>) -> Fe<C> {
    match a {
        A::In(i) => {
            if f.ins.is_empty() {
                one::<C>()
            } else {
                f.ins[i % f.ins.len()]
            }
        }
        A::Loc(i) => f.loc[*i],
        A::Param => fu::<C>(f.param as u64),
        A::U32(x) => fu::<C>(*x as u64),
        A::F(x) => Fe::<C>::from_u256(*x),
    }
}
fn is_bit<C: Config>(x: Fe<C>) -> bool {
    x.is_zero() || x == one::<C>()
}
/// Runs one operation; `count` bounds the work of nested calls.
pub fn step<C: Config>(p: &Prog, o: &O, f: &mut Frame<C>, s: &mut State<C>) {
    let v = |a: &A| opnd::<C>(a, f);
    let bit = |b: bool| fu::<C>(b as u64);
    let out: Vec<Fe<C>> = match o {
        O::Bin(k, a, b) => {
            let (x, y) = (v(a), v(b));
            if (3..6).contains(k) && (!is_bit::<C>(x) || !is_bit::<C>(y)) {
                s.sat = false;
            }
            let (zx, zy) = (x.is_zero(), y.is_zero());
            vec![match k {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                3 => bit(zx != zy),
                4 => bit(!zx || !zy),
                5 => bit(!zx && !zy),
                6 => bit(x.to_u256() > y.to_u256()),
                _ => bit(x.to_u256() >= y.to_u256()),
            }]
        }
        O::Un(k, a) => {
            let x = v(a);
            vec![match k {
                0 => zero::<C>() - x,
                1 => {
                    if x.is_zero() {
                        s.sat = false;
                        s.div_zero = true;
                    }
                    x.inv().unwrap_or(zero::<C>())
                }
                2 => bit(x.is_zero()),
                _ => x,
            }]
        }
        O::Div(a, b, checked) => {
            let (x, y) = (v(a), v(b));
            if y.is_zero() {
                s.div_zero = true;
                if *checked || !x.is_zero() {
                    s.sat = false;
                } else {
                    s.free = true;
                }
            }
            vec![y.inv().map(|i| x * i).unwrap_or(zero::<C>())]
        }
        O::ToBin(a, n) => bits_of::<C>(v(a), *n).unwrap_or_else(|_| {
            s.sat = false;
            vec![zero::<C>(); *n]
        }),
        O::FromBin(xs) => {
            let mut m = one::<C>();
            let mut r = zero::<C>();
            for x in xs {
                r = r + v(x) * m;
                m = m + m;
            }
            vec![r]
        }
        O::Assert(k, a, b) => {
            let (x, y) = (v(a), v(b));
            let ok = match k {
                0 => x.is_zero(),
                1 => !x.is_zero(),
                2 => is_bit::<C>(x),
                3 => x == y,
                _ => x != y,
            };
            s.sat &= ok;
            vec![]
        }
        O::Unc(k, a, b) => {
            let (x, y) = (v(a), v(b));
            vec![match k {
                0 => x + y,
                1 => x * y,
                k => uncon::<C>(&UNC_OPS[k - 2], x, y, &mut s.div_zero),
            }]
        }
        O::Hint(id, xs, n) => {
            let x: Vec<_> = xs.iter().map(v).collect();
            user_hint::<C>(*id, &x, *n).unwrap_or_else(|_| {
                s.hint_failed = true;
                vec![zero::<C>(); *n]
            })
        }
        O::Rand(_) => vec![],
        O::Known(_) => vec![],
        O::Call { way, sub, args, param } => {
            let x: Vec<_> = args.iter().map(v).collect();
            call::<C>(p, *sub, &x, if *way == 2 { *param } else { 0 }, s)
        }
        O::Memo { f, ints, args, .. } => {
            let x: Vec<_> = args.iter().map(v).collect();
            let r = call::<C>(p, memo_body(p, *f), &x, memo_param(ints), s);
            memo_outputs(*f, r)
        }
    };
    f.loc.extend(out);
}
pub const UNC_OPS: [UB; 17] = [
    UB::Div, UB::Pow, UB::IntDiv, UB::Mod, UB::ShiftL, UB::ShiftR, UB::LesserEq, UB::GreaterEq, UB::Lesser, UB::Greater, UB::Eq,
    UB::NotEq, UB::BoolOr, UB::BoolAnd, UB::BitOr, UB::BitAnd, UB::BitXor,
];
pub fn call<C: Config>(p: &Prog, sub: usize, ins: &[Fe<C>], param: u32, s: &mut State<C>) -> Vec<Fe<C>> {
    s.calls += 1;
    let b = &p.subs[sub];
    let mut f = Frame::<C> { ins, loc: vec![], param };
    for o in &b.ops {
        step::<C>(p, o, &mut f, s);
    }
    b.outs.iter().map(|a| opnd::<C>(a, &f)).collect()
}
#[derive(Clone, Debug)]
pub struct Meaning<C: Config> {
    pub outputs: Vec<Fe<C>>,
    pub sat: bool,
    pub div_zero: bool,
    /// an unchecked division of zero by zero
    pub free: bool,
    pub hint_failed: bool,
    pub calls: usize,
    pub loc: Vec<Fe<C>>,
}
pub fn meaning<C: Config>(p: &Prog, x: &[Fe<C>], pubs: &[Fe<C>]) -> Meaning<C> {
    let ins: Vec<_> = x.iter().chain(pubs).copied().collect();
    let mut s = State::<C>::new();
    let mut f = Frame::<C> { ins: &ins, loc: vec![], param: 0 };
    for o in &p.root.ops {
        step::<C>(p, o, &mut f, &mut s);
    }
    let outputs = p.root.outs.iter().map(|a| opnd::<C>(a, &f)).collect();
    Meaning { outputs, sat: s.sat, div_zero: s.div_zero, free: s.free, hint_failed: s.hint_failed, calls: s.calls, loc: f.loc }
}
/// Reference for the built-in hints, used where a hint is dispatched by id.
pub fn builtin_hint<C: Config>(id: usize, x: &[Fe<C>], n: usize) -> Option<Result<Vec<Fe<C>>, ()>> {
    builtin::<C>(id, x, n)
}

// ------------------------------------------------------------------ memorised functions

/// The sub-program behind the f-th memorised function; several share one.
pub fn memo_body(p: &Prog, f: usize) -> usize {
    f % p.subs.len()
}
pub fn memo_param(ints: &[i64]) -> u32 {
    ints.iter().enumerate().fold(3i64, |a, (i, x)| a.wrapping_mul(31).wrapping_add(x.wrapping_mul(i as i64 + 7))) as u32
}
/// What the f-th function returns of the values its body computes.
pub fn memo_outputs<T: Clone>(f: usize, r: Vec<T>) -> Vec<T> {
    match MEMO[f].3 {
        0 => vec![],
        1 => vec![r[0].clone()],
        _ => r,
    }
}
/// Single variables, vector depths, number of integers, kind of result (none, variable, depths).
pub const MEMO: [(usize, &[usize], usize, usize); 14] = [
    (1, &[], 0, 1),
    (1, &[], 0, 1),
    (2, &[], 1, 2),
    (0, &[1], 0, 2),
    (0, &[1], 1, 2),
    (0, &[2], 1, 3),
    (0, &[1, 1], 0, 3),
    (2, &[], 0, 0),
    (0, &[1], 3, 1),
    (0, &[3], 3, 4),
    (1, &[], 0, 1),
    (1, &[], 0, 1),
    (1, &[1, 2], 2, 2),
    (0, &[1], 1, 2),
];
/// Number of list lengths that describe arguments of the given depths.
pub fn build1(v: &mut &[Variable], lens: &mut &[usize]) -> Vec<Variable> {
    let n = lens[0];
    *lens = &lens[1..];
    let r = v[..n].to_vec();
    *v = &v[n..];
    r
}
pub fn build2(v: &mut &[Variable], lens: &mut &[usize]) -> Vec<Vec<Variable>> {
    let n = lens[0];
    *lens = &lens[1..];
    (0..n).map(|_| build1(v, lens)).collect()
}
pub fn build3(v: &mut &[Variable], lens: &mut &[usize]) -> Vec<Vec<Vec<Variable>>> {
    let n = lens[0];
    *lens = &lens[1..];
    (0..n).map(|_| build2(v, lens)).collect()
}
fn sizes(g: &mut Gen, depth: usize, lens: &mut Vec<usize>) -> usize {
    let n = g.small(3);
    lens.push(n);
    if depth == 1 {
        return n;
    }
    (0..n).map(|_| sizes(g, depth - 1, lens)).sum()
}
/// Rows of 0, 1, 2, … elements, then the rest.
pub fn rows(r: Vec<Variable>, k: usize) -> Vec<Vec<Variable>> {
    let mut out = vec![];
    let mut i = 0;
    let mut w = k % 3;
    while i < r.len() {
        let e = (i + w).min(r.len());
        out.push(r[i..e].to_vec());
        i = e;
        w += 1;
    }
    out
}
fn body_call<C: Config, B: RootAPI<C>>(api: &mut B, f: usize, ins: Vec<Variable>, ints: &[i64]) -> Vec<Variable> {
    let p = prog();
    run_body(api, &p, &p.subs[memo_body(&p, f)], &ins, memo_param(ints))
}

#[memorized]
fn m0<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable) -> Variable {
    body_call(api, 0, vec![x], &[])[0]
}
#[memorized]
fn m1<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable) -> Variable {
    body_call(api, 1, vec![x], &[])[0]
}
#[memorized]
fn m2<C: Config, B: RootAPI<C>>(api: &mut B, x: &Variable, y: Variable, k: u32) -> Vec<Variable> {
    body_call(api, 2, vec![*x, y], &[k as i64])
}
#[memorized]
fn m3<C: Config, B: RootAPI<C>>(api: &mut B, v: Vec<Variable>) -> Vec<Variable> {
    body_call(api, 3, v, &[])
}
#[memorized]
fn m4<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<Variable>, k: &u64) -> Vec<Variable> {
    body_call(api, 4, v.clone(), &[*k as i64])
}
#[memorized]
fn m5<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<Vec<Variable>>, k: i64) -> Vec<Vec<Variable>> {
    let r = body_call(api, 5, v.concat(), &[k]);
    rows(r, k as usize)
}
#[memorized]
fn m6<C: Config, B: RootAPI<C>>(api: &mut B, v: Vec<Variable>, w: Vec<Variable>) -> Vec<Vec<Variable>> {
    let n = v.len();
    let r = body_call(api, 6, [v, w].concat(), &[]);
    rows(r, n)
}
#[memorized]
fn m7<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable, y: Variable) {
    body_call(api, 7, vec![x, y], &[]);
}
#[memorized]
fn m8<C: Config, B: RootAPI<C>>(api: &mut B, k: Vec<usize>, v: &Vec<Variable>, z: i32) -> Variable {
    body_call(api, 8, v.clone(), &[k[0] as i64, k[1] as i64, z as i64])[0]
}
#[memorized]
fn m9<C: Config, B: RootAPI<C>>(api: &mut B, k: &Vec<Vec<u32>>, j: isize, v: Vec<Vec<Vec<Variable>>>) -> Vec<Vec<Vec<Variable>>> {
    let r = body_call(api, 9, v.concat().concat(), &[k[0][0] as i64, k[1][0] as i64, j as i64]);
    vec![rows(r, j as usize % 2), vec![], vec![vec![]]]
}
mod here {
    use super::*;
    #[memorized]
    fn same<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable) -> Variable {
        body_call(api, 10, vec![x], &[])[0]
    }
    pub fn go<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable) -> Variable {
        memorized_same(api, x)
    }
}
mod there {
    use super::*;
    #[memorized]
    fn same<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable) -> Variable {
        body_call(api, 11, vec![x], &[])[0]
    }
    pub fn go<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable) -> Variable {
        memorized_same(api, x)
    }
}
#[memorized]
fn m12<C: Config, B: RootAPI<C>>(api: &mut B, j: &isize, v: &Vec<Variable>, x: &Variable, w: Vec<Vec<Variable>>, k: &i32) -> Vec<Variable> {
    let mut all = vec![*x];
    all.extend(v);
    all.extend(w.concat());
    body_call(api, 12, all, &[*j as i64, *k as i64])
}
#[memorized]
fn m13<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<Variable>, k: &u64) -> Vec<Variable> {
    body_call(api, 13, v.clone(), &[*k as i64])
}
fn memo<C: Config, B: RootAPI<C>>(api: &mut B, f: usize, ints: &[i64], lens: &[usize], args: &[Variable]) -> Vec<Variable> {
    let mut v = args;
    let mut l = lens;
    let one = |v: &mut &[Variable]| {
        let r = v[0];
        *v = &v[1..];
        r
    };
    let shape = |got: Vec<usize>, want: Vec<usize>| {
        if got != want {
            complain(format!("memorised function {f} returned rows of {got:?} instead of {want:?}"));
        }
    };
    let lengths = |r: &Vec<Vec<Variable>>| r.iter().map(|x| x.len()).collect::<Vec<_>>();
    match f {
        0 => vec![memorized_m0(api, v[0])],
        1 => vec![memorized_m1(api, v[0])],
        2 => memorized_m2(api, &v[0], v[1], ints[0] as u32),
        3 => memorized_m3(api, build1(&mut v, &mut l)),
        4 => memorized_m4(api, &build1(&mut v, &mut l), &(ints[0] as u64)),
        5 => {
            let r = memorized_m5(api, &build2(&mut v, &mut l), ints[0]);
            let flat = r.concat();
            shape(lengths(&r), lengths(&rows(flat.clone(), ints[0] as usize)));
            flat
        }
        6 => {
            let (a, b) = (build1(&mut v, &mut l), build1(&mut v, &mut l));
            let n = a.len();
            let r = memorized_m6(api, a, b);
            let flat = r.concat();
            shape(lengths(&r), lengths(&rows(flat.clone(), n)));
            flat
        }
        7 => {
            memorized_m7(api, v[0], v[1]);
            vec![]
        }
        8 => vec![memorized_m8(api, vec![ints[0] as usize, ints[1] as usize], &build1(&mut v, &mut l), ints[2] as i32)],
        9 => {
            let k = vec![vec![ints[0] as u32], vec![ints[1] as u32]];
            let r = memorized_m9(api, &k, ints[2] as isize, build3(&mut v, &mut l));
            let flat = r.concat().concat();
            shape(r.iter().map(|x| x.len()).collect(), vec![rows(flat.clone(), ints[2] as usize % 2).len(), 0, 1]);
            flat
        }
        10 => vec![here::go(api, v[0])],
        11 => vec![there::go(api, v[0])],
        12 => {
            let x = one(&mut v);
            let (a, b) = (build1(&mut v, &mut l), build2(&mut v, &mut l));
            memorized_m12(api, &(ints[0] as isize), &a, &x, b, &(ints[1] as i32))
        }
        _ => memorized_m13(api, &build1(&mut v, &mut l), &(ints[0] as u64)),
    }
}

// ------------------------------------------------------------------ interpreter

thread_local! {
    static PROG: RefCell<Option<Rc<Prog>>> = const { RefCell::new(None) };
    static COMPLAINT: RefCell<Option<String>> = const { RefCell::new(None) };
    static KNOWN: RefCell<Vec<(usize, Option<U256>)>> = const { RefCell::new(Vec::new()) };
}
pub fn set_prog(p: &Prog) {
    PROG.with(|x| *x.borrow_mut() = Some(Rc::new(p.clone())));
    COMPLAINT.with(|x| *x.borrow_mut() = None);
    KNOWN.with(|x| x.borrow_mut().clear());
}
pub fn prog() -> Rc<Prog> {
    PROG.with(|x| x.borrow().clone().unwrap())
}
fn complain(s: String) {
    COMPLAINT.with(|x| *x.borrow_mut() = Some(s));
}
pub fn complaint() -> Option<String> {
    COMPLAINT.with(|x| x.borrow_mut().take())
}
/// What `constant_value` said: (root operation, value).
pub fn known() -> Vec<(usize, Option<U256>)> {
    KNOWN.with(|x| std::mem::take(&mut *x.borrow_mut()))
}

#[derive(Clone)]
pub enum Op {
    V(Variable),
    R(Variable),
    U(u32),
    F(U256),
}
impl<F: Field> ToVariableOrValue<F> for Op {
    fn convert_to_variable_or_value(self) -> VariableOrValue<F> {
        match self {
            Op::V(v) => v.convert_to_variable_or_value(),
            Op::R(v) => (&v).convert_to_variable_or_value(),
            Op::U(x) => x.convert_to_variable_or_value(),
            Op::F(x) => F::from_u256(x).convert_to_variable_or_value(),
        }
    }
}
struct Rt<'a> {
    ins: &'a [Variable],
    loc: Vec<Variable>,
    param: u32,
    refs: bool,
}
impl Rt<'_> {
    fn op(&self, a: &A) -> Op {
        match a {
            A::In(_) if self.ins.is_empty() => Op::U(1),
            A::In(i) => self.var_op(self.ins[i % self.ins.len()]),
            A::Loc(i) => self.var_op(self.loc[*i]),
            A::Param => Op::U(self.param),
            A::U32(x) => Op::U(*x),
            A::F(x) => Op::F(*x),
        }
    }
    fn var_op(&self, v: Variable) -> Op {
        if self.refs {
            Op::R(v)
        } else {
            Op::V(v)
        }
    }
    fn var<C: Config, B: RootAPI<C>>(&self, api: &mut B, a: &A) -> Variable {
        match self.op(a) {
            Op::V(v) | Op::R(v) => v,
            c => api.constant(c),
        }
    }
    fn vars<C: Config, B: RootAPI<C>>(&self, api: &mut B, xs: &[A]) -> Vec<Variable> {
        xs.iter().map(|a| self.var(api, a)).collect()
    }
}
pub fn hint_name(id: usize) -> String {
    format!("user.hint.{id}")
}
fn item<C: Config, B: RootAPI<C>, const K: usize>(api: &mut B, ins: &Vec<Variable>) -> Vec<Variable> {
    let p = prog();
    run_body(api, &p, &p.subs[K], ins, 0)
}
fn simple<C: Config, B: RootAPI<C>, const K: usize>(api: &mut B, way: usize, ins: &[Variable], param: u32) -> Vec<Variable> {
    match way {
        0 => api.memorized_simple_call(item::<C, B, K>, ins),
        1 => api.memorized_simple_call(|api, ins| item::<C, B, K>(api, ins), ins),
        _ => api.memorized_simple_call(
            move |api, ins| {
                let p = prog();
                run_body(api, &p, &p.subs[K], ins, param)
            },
            ins,
        ),
    }
}
fn pointer<C: Config, B: RootAPI<C>>(sub: usize) -> fn(&mut B, &Vec<Variable>) -> Vec<Variable> {
    match sub {
        0 => item::<C, B, 0>,
        1 => item::<C, B, 1>,
        2 => item::<C, B, 2>,
        _ => item::<C, B, 3>,
    }
}
pub fn run_body<C: Config, B: RootAPI<C>>(api: &mut B, p: &Prog, b: &Body, ins: &[Variable], param: u32) -> Vec<Variable> {
    let mut r = Rt { ins, loc: vec![], param, refs: p.refs };
    for (at, o) in b.ops.iter().enumerate() {
        let out = match o {
            O::Bin(k, a, b) => {
                let (x, y) = (r.op(a), r.op(b));
                vec![match k {
                    0 => api.add(x, y),
                    1 => api.sub(x, y),
                    2 => api.mul(x, y),
                    3 => api.xor(x, y),
                    4 => api.or(x, y),
                    5 => api.and(x, y),
                    6 => api.gt(x, y),
                    _ => api.geq(x, y),
                }]
            }
            O::Un(k, a) => {
                let x = r.op(a);
                vec![match k {
                    0 => api.neg(x),
                    1 => api.inverse(x),
                    2 => api.is_zero(x),
                    3 => api.constant(x),
                    _ => api.unconstrained_identity(x),
                }]
            }
            O::Div(a, b, c) => vec![api.div(r.op(a), r.op(b), *c)],
            O::ToBin(a, n) => api.to_binary(r.op(a), *n),
            O::FromBin(xs) => {
                let v = r.vars(api, xs);
                vec![api.from_binary(&v)]
            }
            O::Assert(k, a, b) => {
                let (x, y) = (r.op(a), r.op(b));
                match k {
                    0 => api.assert_is_zero(x),
                    1 => api.assert_is_non_zero(x),
                    2 => api.assert_is_bool(x),
                    3 => api.assert_is_equal(x, y),
                    _ => api.assert_is_different(x, y),
                }
                vec![]
            }
            O::Unc(k, a, b) => {
                let (x, y) = (r.op(a), r.op(b));
                vec![match k {
                    0 => api.unconstrained_add(x, y),
                    1 => api.unconstrained_mul(x, y),
                    2 => api.unconstrained_div(x, y),
                    3 => api.unconstrained_pow(x, y),
                    4 => api.unconstrained_int_div(x, y),
                    5 => api.unconstrained_mod(x, y),
                    6 => api.unconstrained_shift_l(x, y),
                    7 => api.unconstrained_shift_r(x, y),
                    8 => api.unconstrained_lesser_eq(x, y),
                    9 => api.unconstrained_greater_eq(x, y),
                    10 => api.unconstrained_lesser(x, y),
                    11 => api.unconstrained_greater(x, y),
                    12 => api.unconstrained_eq(x, y),
                    13 => api.unconstrained_not_eq(x, y),
                    14 => api.unconstrained_bool_or(x, y),
                    15 => api.unconstrained_bool_and(x, y),
                    16 => api.unconstrained_bit_or(x, y),
                    17 => api.unconstrained_bit_and(x, y),
                    _ => api.unconstrained_bit_xor(x, y),
                }]
            }
            O::Hint(id, xs, n) => {
                let v = r.vars(api, xs);
                api.new_hint(&hint_name(*id), &v, *n)
            }
            O::Rand(a) => {
                let q = api.get_random_value();
                let x = r.op(a);
                let (s, t) = (api.mul(q, x.clone()), api.mul(x, q));
                let d = api.sub(s, t);
                api.assert_is_zero(d);
                vec![]
            }
            O::Known(a) => {
                let v = api.constant_value(r.op(a)).map(|v| v.to_u256());
                if std::ptr::eq(b, &p.root) {
                    KNOWN.with(|x| x.borrow_mut().push((at, v)));
                }
                vec![]
            }
            O::Call { way, sub, args, param } => {
                let v = r.vars(api, args);
                if *way == 3 {
                    // a function chosen at run time; it knows no number
                    if *param % 2 == 0 {
                        api.memorized_simple_call(pointer::<C, B>(*sub), &v)
                    } else {
                        let f = pointer::<C, B>(*sub);
                        api.memorized_simple_call(move |api, ins| f(api, ins), &v)
                    }
                } else {
                    match sub {
                        0 => simple::<C, B, 0>(api, *way, &v, *param),
                        1 => simple::<C, B, 1>(api, *way, &v, *param),
                        2 => simple::<C, B, 2>(api, *way, &v, *param),
                        _ => simple::<C, B, 3>(api, *way, &v, *param),
                    }
                }
            }
            O::Memo { f, ints, lens, args } => {
                let v = r.vars(api, args);
                memo(api, *f, ints, lens, &v)
            }
        };
        r.loc.extend(out);
    }
    b.outs.iter().map(|a| r.var(api, a)).collect()
}

declare_circuit!(Cir { x: [Variable], p: [PublicVariable] });
impl<C: Config> Define<C> for Cir<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let p = prog();
        let ins: Vec<Variable> = self.x.iter().chain(&self.p).copied().collect();
        if p.twice {
            api.set_outputs(ins.clone());
        }
        let out = run_body(api, &p, &p.root, &ins, 0);
        api.set_outputs(out);
    }
}
impl Prog {
    pub fn circuit(&self) -> Cir<Variable> {
        Cir { x: vec![Variable::default(); self.nx], p: vec![Variable::default(); self.np] }
    }
}
pub fn assignment<C: Config>(x: &[Fe<C>], p: &[Fe<C>]) -> Cir<Fe<C>> {
    Cir { x: x.to_vec(), p: p.to_vec() }
}
pub fn hints<C: Config>() -> HintRegistry<Fe<C>> {
    fn h<C: Config, const ID: usize>(x: &[Fe<C>], y: &mut [Fe<C>]) -> Result<(), Error> {
        let r = user_hint::<C>(ID, x, y.len()).map_err(Error::UserError)?;
        y.copy_from_slice(&r);
        Ok(())
    }
    let mut r = HintRegistry::new();
    r.register(&hint_name(1), h::<C, 1>);
    r.register(&hint_name(2), h::<C, 2>);
    r.register(&hint_name(3), h::<C, 3>);
    r.register(&hint_name(4), h::<C, 4>);
    r.register(&hint_name(5), h::<C, 5>);
    r.register(&hint_name(6), h::<C, 6>);
    r.register(&hint_name(FAILING_HINT), h::<C, FAILING_HINT>);
    r
}

// ------------------------------------------------------------------ generator

#[derive(Clone)]
pub struct POpts {
    pub ops: usize,
    pub subs: usize,
    pub sub_ops: usize,
    /// chance of a call among the operations, in sixteenths
    pub calls: usize,
    pub unconstrained: bool,
    pub hints: bool,
    pub random: bool,
    pub compare: bool,
    /// lowest share of satisfied programs, in eighths
    pub sat: usize,
}
struct G<C: Config> {
    p: Prog,
    o: POpts,
    /// the memorised functions this program uses
    fav: Vec<usize>,
    _c: std::marker::PhantomData<C>,
}
impl<C: Config> G<C> {
    fn constant(&self, g: &mut Gen) -> A {
        match g.below(3) {
            0 => A::U32(g.below(4) as u32),
            1 => A::U32(g.u64() as u32 >> g.below(31)),
            _ => A::F(fe::<C>(g).to_u256()),
        }
    }
    fn any(&self, g: &mut Gen, bits: &[bool], param: bool) -> A {
        let n = bits.len();
        match g.weighted(&[5, if n > 0 { 9 } else { 0 }, 3, param as usize * 2]) {
            0 => A::In(g.below(8)),
            // recent results are likelier
            1 => A::Loc(n - 1 - g.small(n - 1)),
            2 => self.constant(g),
            _ => A::Param,
        }
    }
    fn bit(&self, g: &mut Gen, bits: &[bool], param: bool) -> A {
        let b: Vec<usize> = (0..bits.len()).filter(|&i| bits[i]).collect();
        if g.chance(1, 16) {
            return self.any(g, bits, param);
        }
        if b.is_empty() || g.chance(1, 6) {
            return A::U32(g.below(2) as u32);
        }
        A::Loc(*g.pick(&b))
    }
    /// An operation and which of its results are bits.
    fn op(&self, g: &mut Gen, bits: &[bool], level: usize, param: bool) -> (O, Vec<bool>) {
        let o = &self.o;
        let callable = level < self.p.subs.len();
        let w = [
            10,
            4,
            3,
            4,
            2,
            if level == 0 { 4 } else { 2 },
            if o.unconstrained { 5 } else { 0 },
            if o.hints { 2 } else { 0 },
            if o.random { 1 } else { 0 },
            1,
            if callable { o.calls } else { 0 },
            if callable { o.calls } else { 0 },
        ];
        let a = |g: &mut Gen| self.any(g, bits, param);
        match g.weighted(&w) {
            0 => {
                let cmp = o.compare && g.chance(1, 40);
                let k = if cmp { 6 + g.below(2) } else { g.weighted(&[4, 3, 5, 1, 1, 1]) };
                if (3..6).contains(&k) {
                    (O::Bin(k, self.bit(g, bits, param), self.bit(g, bits, param)), vec![true])
                } else {
                    (O::Bin(k, a(g), a(g)), vec![k >= 6])
                }
            }
            1 => {
                let k = g.weighted(&[2, 2, 4, 1, if o.unconstrained { 1 } else { 0 }]);
                (O::Un(k, a(g)), vec![k == 2])
            }
            2 => (O::Div(a(g), a(g), g.bool()), vec![false]),
            3 => {
                let fb = field_bits::<C>();
                // the last bits of the range are left out: see F02
                let n = if is_gf2::<C>() { 1 + g.below(3) } else { [1, 2, 8, fb - 1, 1 + g.below(fb - 1)][g.below(5)] };
                let x = if n < 3 || g.bool() { self.bit(g, bits, param) } else { a(g) };
                (O::ToBin(x, n), vec![true; n])
            }
            4 => {
                let n = g.below(6);
                (O::FromBin((0..n).map(|_| self.bit(g, bits, param)).collect()), vec![false])
            }
            5 => {
                let k = g.below(5);
                let x = if k == 2 { self.bit(g, bits, param) } else { a(g) };
                (O::Assert(k, x, a(g)), vec![])
            }
            6 => {
                let k = g.below(19);
                let y = if (6..8).contains(&k) && g.bool() { A::U32(g.below(70) as u32) } else { a(g) };
                (O::Unc(k, a(g), y), vec![(8..16).contains(&k)])
            }
            7 => {
                let id = if g.chance(1, 12) { FAILING_HINT } else { 1 + g.below(6) };
                let n = 1 + g.small(3);
                let k = 1 + g.small(3);
                (O::Hint(id, (0..k).map(|_| a(g)).collect(), n), vec![id == 4 || id == 5; n])
            }
            8 => (O::Rand(a(g)), vec![]),
            9 => (O::Known(a(g)), vec![]),
            10 => {
                let lo = level;
                let sub = lo + g.below(self.p.subs.len() - lo);
                let k = g.small(5);
                let way = g.below(WAYS);
                let args: Vec<A> = (0..k).map(|_| if g.chance(1, 4) { self.bit(g, bits, param) } else { a(g) }).collect();
                let mut p = g.below(4) as u32;
                if way < 2 {
                    p = 0;
                }
                let n = self.p.subs[sub].outs.len();
                // functions called through a pointer have no number: see `run_body`
                let o = O::Call { way, sub, args, param: p };
                (o, vec![false; n])
            }
            _ => {
                let fs: Vec<usize> = self.fav.iter().copied().filter(|&f| memo_body(&self.p, f) >= level).collect();
                if fs.is_empty() {
                    return (O::Bin(0, a(g), a(g)), vec![false]);
                }
                let f = *g.pick(&fs);
                let (v, depths, ni, _) = MEMO[f];
                let ints: Vec<i64> = (0..ni)
                    .map(|i| {
                        let x = g.below(4) as i64 + if g.chance(1, 8) { 1000 * g.below(40) as i64 } else { 0 };
                        let signed = matches!((f, i), (8, 2) | (9, 2) | (12, _) | (5, 0));
                        if signed && f != 5 && f != 9 && g.chance(1, 4) {
                            -x
                        } else {
                            x
                        }
                    })
                    .collect();
                let mut lens = vec![];
                let n: usize = v + depths.iter().map(|&d| sizes(g, d, &mut lens)).sum::<usize>();
                let args: Vec<A> = (0..n).map(|_| a(g)).collect();
                let no = memo_outputs(f, vec![(); self.p.subs[memo_body(&self.p, f)].outs.len()]).len();
                (O::Memo { f, ints, lens, args }, vec![false; no])
            }
        }
    }
}
pub struct Made<C: Config> {
    pub p: Prog,
    pub ins: Vec<(Vec<Fe<C>>, Vec<Fe<C>>)>,
    pub wants: Vec<Meaning<C>>,
}
pub fn gen<C: Config>(g: &mut Gen, o: POpts, k: usize) -> Made<C> {
    let mut m = G::<C> { p: Prog::default(), o, fav: vec![], _c: Default::default() };
    m.fav = (0..1 + g.small(5)).map(|_| g.below(MEMO.len())).collect();
    m.p.nx = 1 + g.small(5);
    m.p.np = if g.chance(1, 3) { 1 + g.small(2) } else { 0 };
    m.p.refs = g.chance(1, 4);
    m.p.twice = g.chance(1, 8);
    let ns = if m.o.subs == 0 { 0 } else { g.range(1, m.o.subs) };
    m.p.subs = vec![Body::default(); ns];
    // later bodies first: a body calls only later ones
    for s in (0..ns).rev() {
        let mut bits = vec![];
        let mut b = Body::default();
        let n = g.small(m.o.sub_ops);
        for _ in 0..n {
            let (op, r) = m.op(g, &bits, s + 1, true);
            let asserts = matches!(op, O::Assert(..));
            if asserts && g.chance(1, 2) {
                continue;
            }
            b.ops.push(op);
            bits.extend(r);
        }
        for _ in 0..1 + g.small(3) {
            b.outs.push(if g.chance(1, 12) { m.constant(g) } else if bits.is_empty() { A::In(g.below(4)) } else { m.any(g, &bits, false) });
        }
        m.p.subs[s] = b;
    }
    let ins: Vec<(Vec<Fe<C>>, Vec<Fe<C>>)> = (0..k)
        .map(|_| ((0..m.p.nx).map(|_| fe::<C>(g)).collect(), (0..m.p.np).map(|_| fe::<C>(g)).collect()))
        .collect();
    let all: Vec<Vec<Fe<C>>> = ins.iter().map(|(x, p)| x.iter().chain(p).copied().collect()).collect();
    let mut frames: Vec<(Vec<Fe<C>>, State<C>)> = (0..k).map(|_| (vec![], State::new())).collect();
    let mut bits = vec![];
    let keep = g.below(8) < m.o.sat;
    let n = 1 + g.small(m.o.ops - 1);
    for _ in 0..n {
        let (op, r) = m.op(g, &bits, 0, false);
        let mut next = vec![];
        for i in 0..k {
            let mut f = Frame::<C> { ins: &all[i], loc: frames[i].0.clone(), param: 0 };
            let mut s = frames[i].1.clone();
            step::<C>(&m.p, &op, &mut f, &mut s);
            next.push((f.loc, s));
        }
        if (keep || g.chance(7, 8)) && !next[0].1.sat {
            continue;
        }
        if next[0].1.calls > 60 {
            continue;
        }
        m.p.root.ops.push(op);
        bits.extend(r);
        frames = next;
    }
    let no = 1 + g.small(4);
    for _ in 0..no {
        let a = m.any(g, &bits, false);
        m.p.root.outs.push(a);
    }
    let wants = ins.iter().map(|(x, p)| meaning::<C>(&m.p, x, p)).collect();
    Made { p: m.p, ins, wants }
}

// ------------------------------------------------------------------ text

fn sa(a: &A) -> String {
    match a {
        A::In(i) => format!("in{i}"),
        A::Loc(i) => format!("v{i}"),
        A::Param => "k".into(),
        A::U32(x) => format!("{x}u32"),
        A::F(x) => format!("field({x})"),
    }
}
fn sl(x: &[A]) -> String {
    x.iter().map(sa).collect::<Vec<_>>().join(", ")
}
fn so(p: &Prog, o: &O) -> (String, usize) {
    match o {
        O::Bin(k, a, b) => (format!("{}({}, {})", BIN[*k], sa(a), sa(b)), 1),
        O::Un(k, a) => (format!("{}({})", UN[*k], sa(a)), 1),
        O::Div(a, b, c) => (format!("div({}, {}, checked {c})", sa(a), sa(b)), 1),
        O::ToBin(a, n) => (format!("to_binary({}, {n})", sa(a)), *n),
        O::FromBin(x) => (format!("from_binary({})", sl(x)), 1),
        O::Assert(k, a, b) => (format!("assert_is_{}({}{})", AS[*k], sa(a), if *k > 2 { format!(", {}", sa(b)) } else { String::new() }), 0),
        O::Unc(k, a, b) => (format!("unconstrained_{}({}, {})", UNC[*k], sa(a), sa(b)), 1),
        O::Hint(id, x, n) => (format!("hint {id}({})", sl(x)), *n),
        O::Rand(a) => (format!("assert r*{0} = {0}*r", sa(a)), 0),
        O::Known(a) => (format!("constant_value({})", sa(a)), 0),
        O::Call { way, sub, args, param } => {
            (format!("{}(sub {sub}; {}; k = {param})", ["call item", "call closure", "call capturing closure", "call pointer"][*way], sl(args)), p.subs[*sub].outs.len())
        }
        O::Memo { f, ints, lens, args } => (
            format!("memorized {f}(sub {}; {}; integers {ints:?}, lengths {lens:?})", memo_body(p, *f), sl(args)),
            memo_outputs(*f, vec![(); p.subs[memo_body(p, *f)].outs.len()]).len(),
        ),
    }
}
fn sb(p: &Prog, name: &str, b: &Body) -> String {
    let mut s = format!("{name}:\n");
    let mut n = 0;
    for o in &b.ops {
        let (t, k) = so(p, o);
        match k {
            0 => s += &format!("  {t}\n"),
            1 => s += &format!("  v{n} = {t}\n"),
            _ => s += &format!("  v{n}..v{} = {t}\n", n + k - 1),
        }
        n += k;
    }
    s + &format!("  return {}\n", sl(&b.outs))
}
pub fn describe<C: Config>(m: &Made<C>) -> String {
    let p = &m.p;
    let mut s = format!("field of {} bits; {} inputs, {} public inputs\n", field_bits::<C>(), p.nx, p.np);
    for (i, b) in p.subs.iter().enumerate() {
        s += &sb(p, &format!("sub {i}"), b);
    }
    s += &sb(p, "root", &p.root);
    for (x, q) in &m.ins {
        s += &format!("inputs {} public {}\n", show_all::<C>(x), show_all::<C>(q));
    }
    s
}
