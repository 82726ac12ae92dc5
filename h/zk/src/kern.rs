//! Random kernels and what they compute.
use arith::Field as _;
use ecgen::*;
use expander_compiler::circuit::config::Config;
use expander_compiler::frontend::{BasicAPI, Error, HintRegistry, RootAPI, Variable, API};
use expander_compiler::zkcuda::kernel::{compile_with_spec_and_shapes, IOVecSpec, KernelPrimitive};
use expander_compiler::zkcuda::shape::shape_vec_len;
use pbt::Gen;

#[derive(Clone, Debug)]
pub enum N {
    In(usize, usize),
    Const(u32),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    IsZero(usize),
    /// output j of a hint with this many outputs
    Hint(Vec<usize>, usize, usize),
    /// output j of a sub-circuit
    Sub2(usize, usize, usize),
}
#[derive(Clone, Debug)]
pub enum As {
    Eq(usize, usize),
    /// (x^2)^2 = ((x^2)x)x, which no simplification sees through
    Fourth(usize),
    NonZero(usize),
    Bool(usize),
}
#[derive(Clone, Debug)]
pub struct Arg {
    pub shape: Vec<usize>,
    pub inp: bool,
    pub out: bool,
}
#[derive(Clone, Debug)]
pub struct Kern {
    pub args: Vec<Arg>,
    pub nodes: Vec<N>,
    pub asserts: Vec<As>,
    /// per argument, what is written where
    pub writes: Vec<Vec<(usize, usize)>>,
}
pub fn hint_val<C: Config>(x: &[Fe<C>], j: usize) -> Fe<C> {
    x.iter().fold(fu::<C>(j as u64 + 1), |a, v| a * *v + *v + fu::<C>(j as u64 + 3))
}
pub fn hints<C: Config>() -> HintRegistry<Fe<C>> {
    let mut r = HintRegistry::new();
    r.register("k.hint", |x: &[Fe<C>], y: &mut [Fe<C>]| -> Result<(), Error> {
        for (j, y) in y.iter_mut().enumerate() {
            *y = hint_val::<C>(x, j);
        }
        Ok(())
    });
    r
}
fn sub2<C: Config, B: RootAPI<C>>(api: &mut B, x: &Vec<Variable>) -> Vec<Variable> {
    let s = api.mul(x[0], x[0]);
    let a = api.add(s, x[1]);
    let z = api.is_zero(x[1]);
    vec![a, z]
}

pub struct Gives<C: Config> {
    /// per argument, the output
    pub outs: Vec<Vec<Fe<C>>>,
    pub holds: bool,
}
impl Kern {
    pub fn eval<C: Config>(&self, ins: &[Vec<Fe<C>>]) -> Gives<C> {
        let mut v: Vec<Fe<C>> = vec![];
        for n in &self.nodes {
            let x = match n {
                N::In(a, i) => {
                    if self.args[*a].inp {
                        ins[*a][*i]
                    } else {
                        zero::<C>()
                    }
                }
                N::Const(c) => fu::<C>(*c as u64),
                N::Add(a, b) => v[*a] + v[*b],
                N::Sub(a, b) => v[*a] - v[*b],
                N::Mul(a, b) => v[*a] * v[*b],
                N::IsZero(a) => fu::<C>(v[*a].is_zero() as u64),
                N::Hint(xs, j, _) => hint_val::<C>(&xs.iter().map(|&x| v[x]).collect::<Vec<_>>(), *j),
                N::Sub2(a, b, j) => {
                    if *j == 0 {
                        v[*a] * v[*a] + v[*b]
                    } else {
                        fu::<C>(v[*b].is_zero() as u64)
                    }
                }
            };
            v.push(x);
        }
        let holds = self.asserts.iter().all(|a| match a {
            As::Eq(a, b) => v[*a] == v[*b],
            As::Fourth(_) => true,
            As::NonZero(a) => !v[*a].is_zero(),
            As::Bool(a) => v[*a].is_zero() || v[*a] == one::<C>(),
        });
        let mut outs = vec![];
        for (k, a) in self.args.iter().enumerate() {
            let mut o = vec![];
            if a.out {
                o = if a.inp { ins[k].clone() } else { vec![zero::<C>(); shape_vec_len(&a.shape)] };
                for (i, n) in &self.writes[k] {
                    o[*i] = v[*n];
                }
            }
            outs.push(o);
        }
        Gives { outs, holds }
    }

    pub fn compile<C: Config>(&self) -> Result<KernelPrimitive<C>, Error> {
        let specs: Vec<IOVecSpec> = self.args.iter().map(|a| IOVecSpec { len: shape_vec_len(&a.shape), is_input: a.inp, is_output: a.out }).collect();
        let shapes: Vec<Vec<usize>> = self.args.iter().map(|a| a.shape.clone()).collect();
        compile_with_spec_and_shapes(|api: &mut API<C>, io: &mut Vec<Vec<Variable>>| self.build(api, io), &specs, &shapes)
    }
    fn build<C: Config>(&self, api: &mut API<C>, io: &mut Vec<Vec<Variable>>) {
        let mut v: Vec<Variable> = vec![];
        for n in &self.nodes {
            let x = match n {
                N::In(a, i) => io[*a][*i],
                N::Const(c) => api.constant(*c),
                N::Add(a, b) => api.add(v[*a], v[*b]),
                N::Sub(a, b) => api.sub(v[*a], v[*b]),
                N::Mul(a, b) => api.mul(v[*a], v[*b]),
                N::IsZero(a) => api.is_zero(v[*a]),
                N::Hint(xs, j, n) => {
                    let xs: Vec<Variable> = xs.iter().map(|&x| v[x]).collect();
                    api.new_hint("k.hint", &xs, *n)[*j]
                }
                N::Sub2(a, b, j) => api.memorized_simple_call(sub2, &[v[*a], v[*b]])[*j],
            };
            v.push(x);
        }
        for a in &self.asserts {
            match a {
                As::Eq(a, b) => api.assert_is_equal(v[*a], v[*b]),
                As::Fourth(a) => {
                    let s = api.mul(v[*a], v[*a]);
                    let x = api.mul(s, s);
                    let y = api.mul(s, v[*a]);
                    let y = api.mul(y, v[*a]);
                    api.assert_is_equal(x, y);
                }
                As::NonZero(a) => api.assert_is_non_zero(v[*a]),
                As::Bool(a) => api.assert_is_bool(v[*a]),
            }
        }
        for (k, w) in self.writes.iter().enumerate() {
            for (i, n) in w {
                io[k][*i] = v[*n];
            }
        }
    }
    /// Nothing in it is computed by hints.
    pub fn plain(&self) -> bool {
        !self.nodes.iter().any(|n| matches!(n, N::Hint(..) | N::IsZero(_) | N::Sub2(..))) && !self.asserts.iter().any(|a| matches!(a, As::NonZero(_)))
    }
    pub fn has_hints(&self) -> bool {
        self.nodes.iter().any(|n| matches!(n, N::Hint(..)))
    }
}

pub fn gen<C: Config>(g: &mut Gen, args: Vec<Arg>, hints: bool, asserts: bool) -> Kern {
    let mut nodes = vec![];
    let slots: Vec<(usize, usize)> = args.iter().enumerate().flat_map(|(k, a)| (0..shape_vec_len(&a.shape)).map(move |i| (k, i))).collect();
    let ins: Vec<(usize, usize)> = slots.iter().copied().filter(|s| args[s.0].inp).collect();
    for i in 0..1 + g.below(6) {
        let any = ins.is_empty() || i > 0 && g.chance(1, 12);
        let s = *g.pick(if any { &slots } else { &ins });
        nodes.push(N::In(s.0, s.1));
    }
    for _ in 0..g.below(8) {
        let l = nodes.len();
        let mut r = || g.below(l);
        let (a, b) = (r(), r());
        nodes.push(match g.weighted(&[4, 3, 4, 1, 2, 1, 1]) {
            0 => N::Add(a, b),
            1 => N::Sub(a, b),
            2 => N::Mul(a, b),
            3 => N::Const(*g.pick(&[0, 1, 2, 7])),
            4 if hints => {
                let n = 1 + g.below(3);
                let xs = (0..1 + g.below(2)).map(|_| g.below(l)).collect();
                N::Hint(xs, g.below(n), n)
            }
            4 | 5 => N::IsZero(a),
            _ => N::Sub2(a, b, g.below(2)),
        });
    }
    let mut writes = vec![];
    for a in &args {
        let mut w = vec![];
        if a.out {
            for i in 0..shape_vec_len(&a.shape) {
                if g.chance(4, 5) {
                    w.push((i, g.below(nodes.len())));
                }
            }
            g.shuffle(&mut w);
        }
        writes.push(w);
    }
    let mut az = vec![];
    let n = if asserts { g.below(3) } else { 0 };
    let need = !args.iter().any(|a| a.out) && n == 0;
    for _ in 0..n + need as usize {
        let (a, b) = (g.below(nodes.len()), g.below(nodes.len()));
        az.push(match if need { 0 } else { g.weighted(&[4, 2, 1, 1]) } {
            0 => As::Fourth(if need { 0 } else { a }),
            1 => As::NonZero(a),
            2 => As::Bool(a),
            _ => As::Eq(a, b),
        });
    }
    Kern { args, nodes, asserts: az, writes }
}
