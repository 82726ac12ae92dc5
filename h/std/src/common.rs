use crate::ev::{run, Ev, Lies, Out};
use expander_compiler::circuit::config::Config;
use expander_compiler::compile::CompileOptions;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::{compile, CircuitField, Define, HintRegistry, RootAPI, Variable};
use pbt::{guarded, Gen};

pub type Fe<C> = CircuitField<C>;

/// A gadget under test: code of circuit-std-rs applied to a list of inputs.
pub trait Gadget<C: Config>: Clone {
    fn apply<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable>;
}

pub fn eval<C: Config, G: Gadget<C>>(g: &G, x: &[Fe<C>], hints: Option<HintRegistry<Fe<C>>>, lies: Lies, seed: u64) -> Out<C> {
    run::<C>(x, hints, lies, seed, |b: &mut Ev<C>, v| g.apply(b, v))
}

#[derive(Clone)]
struct Circ<G> {
    g: G,
    ins: Vec<Variable>,
    outs: Vec<Variable>,
}
impl<G> DumpLoadTwoVariables<Variable> for Circ<G> {
    fn dump_into(&self, v: &mut Vec<Variable>, _: &mut Vec<Variable>) {
        v.extend(&self.ins);
        v.extend(&self.outs);
    }
    fn load_from(&mut self, v: &mut &[Variable], _: &mut &[Variable]) {
        for x in self.ins.iter_mut().chain(self.outs.iter_mut()) {
            *x = v[0];
            *v = &v[1..];
        }
    }
    fn num_vars(&self) -> (usize, usize) {
        (self.ins.len() + self.outs.len(), 0)
    }
}
impl<C: Config, G: Gadget<C>> Define<C> for Circ<G> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let o = self.g.apply(b, &self.ins);
        assert_eq!(o.len(), self.outs.len(), "number of outputs");
        for (x, y) in o.iter().zip(&self.outs) {
            b.assert_is_equal(x, y);
        }
    }
}
#[derive(Clone)]
struct Asg<F: Clone>(Vec<F>);
impl<F: Clone> DumpLoadTwoVariables<F> for Asg<F> {
    fn dump_into(&self, v: &mut Vec<F>, _: &mut Vec<F>) {
        v.extend(self.0.iter().cloned());
    }
    fn load_from(&mut self, _: &mut &[F], _: &mut &[F]) {
        unreachable!()
    }
    fn num_vars(&self) -> (usize, usize) {
        (self.0.len(), 0)
    }
}

/// The gadget compiled, its witness solved and the layered circuit run: does the circuit accept
/// `outs` as the gadget's outputs on `x`, for each of the claims?
pub fn e2e<C: Config, G: Gadget<C> + 'static>(g: &G, x: &[Fe<C>], claims: &[Vec<Fe<C>>], hints: impl Fn() -> HintRegistry<Fe<C>>) -> Result<Vec<bool>, String> {
    let n = claims[0].len();
    let c = Circ { g: g.clone(), ins: vec![Variable::default(); x.len()], outs: vec![Variable::default(); n] };
    let r = guarded(|| compile::<C, _>(&c, CompileOptions::default()))
        .map_err(|e| format!("compiling panicked: {e}"))?
        .map_err(|e| format!("compiling failed: {e:?}"))?;
    let mut res = vec![];
    for o in claims {
        let mut v = x.to_vec();
        v.extend(o);
        let w = guarded(|| r.witness_solver.solve_witness_with_hints(&Asg(v), &hints()));
        res.push(match w {
            Ok(Ok(w)) => {
                let b = guarded(|| r.layered_circuit.run(&w)).map_err(|e| format!("running panicked: {e}"))?;
                b.iter().all(|x| *x)
            }
            _ => false,
        });
    }
    Ok(res)
}

/// A field element with the shapes that matter.
pub fn felt<C: Config>(g: &mut Gen) -> Fe<C> {
    use arith::Field;
    use ethnum::U256;
    let m = Fe::<C>::MODULUS;
    match g.weighted(&[4, 3, 2, 2]) {
        0 => Fe::<C>::from(g.below(4) as u32),
        1 => {
            let mut b = [0u8; 32];
            b.copy_from_slice(&g.bytes(32));
            Fe::<C>::from_u256(U256::from_le_bytes(b) % m)
        }
        2 => Fe::<C>::from_u256((m - U256::new(1 + g.below(3) as u128)) % m),
        _ => {
            let bits = 256 - m.leading_zeros() as usize;
            Fe::<C>::from_u256(((U256::ONE << g.below(bits)) - U256::new(g.below(2) as u128)) % m)
        }
    }
}
