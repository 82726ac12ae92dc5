//! Stand-ins for Expander's `circuit` and `gkr`. The "proof" is the input vector itself: the
//! verifier re-evaluates the circuit, so what the compiler's orchestration claims about inputs,
//! commitments and evaluation points is really checked (sound, not succinct).
use crate::arith::{ExtensionField, Field, SimdField};
use crate::engine::*;
use crate::serdes_impl::ExpSerde;
use std::io::Read;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CoefType {
    Constant,
    Random,
    PublicInput(usize),
}
#[derive(Debug, Clone, PartialEq)]
pub struct Gate<C: FieldEngine, const N: usize> {
    pub i_ids: [usize; N],
    pub o_id: usize,
    pub coef_type: CoefType,
    pub coef: C::CircuitField,
    pub gate_type: usize,
}
pub type GateMul<C> = Gate<C, 2>;
pub type GateAdd<C> = Gate<C, 1>;
pub type GateUni<C> = Gate<C, 1>;
pub type GateConst<C> = Gate<C, 0>;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Allocation {
    pub i_offset: usize,
    pub o_offset: usize,
}
#[derive(Debug, Clone)]
pub struct Segment<C: FieldEngine> {
    pub i_var_num: usize,
    pub o_var_num: usize,
    pub child_segs: Vec<(usize, Vec<Allocation>)>,
    pub gate_muls: Vec<GateMul<C>>,
    pub gate_adds: Vec<GateAdd<C>>,
    pub gate_consts: Vec<GateConst<C>>,
    pub gate_uni: Vec<GateUni<C>>,
}
#[derive(Debug, Clone)]
pub struct RecursiveCircuit<C: FieldEngine> {
    pub segments: Vec<Segment<C>>,
    pub layers: Vec<usize>,
    pub num_public_inputs: usize,
    pub num_outputs: usize,
    pub expected_num_output_zeros: usize,
}
#[derive(Debug, Clone, Default)]
pub struct CircuitLayer<C: FieldEngine> {
    pub input_var_num: usize,
    pub output_var_num: usize,
    pub input_vals: Vec<C::SimdCircuitField>,
    pub output_vals: Vec<C::SimdCircuitField>,
    pub mul: Vec<GateMul<C>>,
    pub add: Vec<GateAdd<C>>,
    pub const_: Vec<GateConst<C>>,
    pub uni: Vec<GateUni<C>>,
}
#[derive(Debug, Clone, Default)]
pub struct Circuit<C: FieldEngine> {
    pub layers: Vec<CircuitLayer<C>>,
    pub public_input: Vec<C::SimdCircuitField>,
    pub expected_num_output_zeros: usize,
    pub rnd_filled: bool,
}
fn shift<C: FieldEngine, const N: usize>(g: &Gate<C, N>, i: usize, o: usize) -> Gate<C, N> {
    let mut g = g.clone();
    for x in g.i_ids.iter_mut() {
        *x += i;
    }
    g.o_id += o;
    g
}
impl<C: FieldEngine> RecursiveCircuit<C> {
    fn leaves(&self, seg: usize, i: usize, o: usize, l: &mut CircuitLayer<C>) {
        let s = &self.segments[seg];
        l.mul.extend(s.gate_muls.iter().map(|g| shift(g, i, o)));
        l.add.extend(s.gate_adds.iter().map(|g| shift(g, i, o)));
        l.const_.extend(s.gate_consts.iter().map(|g| shift(g, i, o)));
        l.uni.extend(s.gate_uni.iter().map(|g| shift(g, i, o)));
        for (c, allocs) in &s.child_segs {
            for a in allocs {
                self.leaves(*c, i + a.i_offset, o + a.o_offset, l);
            }
        }
    }
    pub fn flatten(&self) -> Circuit<C> {
        Circuit {
            layers: self
                .layers
                .iter()
                .map(|&id| {
                    let mut l = CircuitLayer {
                        input_var_num: self.segments[id].i_var_num,
                        output_var_num: self.segments[id].o_var_num,
                        ..Default::default()
                    };
                    self.leaves(id, 0, 0, &mut l);
                    l
                })
                .collect(),
            public_input: vec![],
            expected_num_output_zeros: self.expected_num_output_zeros,
            rnd_filled: false,
        }
    }
}
impl<C: FieldEngine> Circuit<C> {
    pub fn pre_process_gkr(&mut self) {
        for w in self.layers.windows(2) {
            assert_eq!(w[0].output_var_num, w[1].input_var_num, "layers do not fit");
        }
        for l in &self.layers {
            let (i, o) = (1usize << l.input_var_num, 1usize << l.output_var_num);
            let ok = l.mul.iter().all(|g| g.i_ids.iter().all(|&x| x < i) && g.o_id < o)
                && l.add.iter().chain(&l.uni).all(|g| g.i_ids[0] < i && g.o_id < o)
                && l.const_.iter().all(|g| g.o_id < o);
            assert!(ok, "gate out of range");
        }
    }
    pub fn log_input_size(&self) -> usize {
        self.layers[0].input_var_num
    }
    pub fn fill_rnd_coefs<T: Transcript>(&mut self, t: &mut T) {
        for l in self.layers.iter_mut() {
            for c in l
                .mul
                .iter_mut()
                .map(|g| (&g.coef_type, &mut g.coef))
                .chain(l.add.iter_mut().map(|g| (&g.coef_type, &mut g.coef)))
                .chain(l.const_.iter_mut().map(|g| (&g.coef_type, &mut g.coef)))
                .chain(l.uni.iter_mut().map(|g| (&g.coef_type, &mut g.coef)))
            {
                if *c.0 == CoefType::Random {
                    *c.1 = t.generate_field_element();
                }
            }
        }
        self.rnd_filled = true;
    }
    pub fn evaluate(&mut self) {
        assert!(self.rnd_filled);
        let pi = self.public_input.clone();
        let mut cur = self.layers[0].input_vals.clone();
        for l in self.layers.iter_mut() {
            assert_eq!(cur.len(), 1 << l.input_var_num);
            let mut out = vec![C::SimdCircuitField::ZERO; 1 << l.output_var_num];
            for g in &l.mul {
                out[g.o_id] += (cur[g.i_ids[0]] * cur[g.i_ids[1]]) * coef::<C>(&g.coef_type, &g.coef, &pi);
            }
            for g in &l.add {
                out[g.o_id] += cur[g.i_ids[0]] * coef::<C>(&g.coef_type, &g.coef, &pi);
            }
            for g in &l.const_ {
                out[g.o_id] += coef::<C>(&g.coef_type, &g.coef, &pi);
            }
            for g in &l.uni {
                let x = cur[g.i_ids[0]];
                let y = match g.gate_type {
                    12345 => x.exp(5),
                    12346 => x,
                    _ => panic!("unknown custom gate {}", g.gate_type),
                };
                out[g.o_id] += y * coef::<C>(&g.coef_type, &g.coef, &pi);
            }
            l.input_vals = cur;
            l.output_vals = out.clone();
            cur = out;
        }
    }
    pub fn output(&self) -> &[C::SimdCircuitField] {
        &self.layers.last().unwrap().output_vals
    }
    /// # Safety
    /// plain copies here
    pub unsafe fn create_batch(&self, n: usize) -> (Vec<Circuit<C>>, Vec<Vec<C::SimdCircuitField>>) {
        let mut c = self.clone();
        for l in c.layers.iter_mut() {
            l.input_vals = vec![C::SimdCircuitField::ZERO; 1 << l.input_var_num];
        }
        (vec![c; n], vec![])
    }
    /// # Safety
    /// plain drop here
    pub unsafe fn drop_batch(_c: Vec<Circuit<C>>) {}
}
fn coef<C: FieldEngine>(t: &CoefType, c: &C::CircuitField, pi: &[C::SimdCircuitField]) -> C::SimdCircuitField {
    match t {
        CoefType::PublicInput(i) => pi[*i],
        _ => C::SimdCircuitField::from(*c),
    }
}

// ------------------------------------------------------------------ GKR

fn log2(n: usize) -> usize {
    assert!(n.is_power_of_two(), "number of parties is not a power of two");
    n.trailing_zeros() as usize
}
fn outputs_eval<C: FieldEngine>(
    outs: &[Vec<C::SimdCircuitField>],
    rz: &[C::ChallengeField],
    r_simd: &[C::ChallengeField],
    r_mpi: &[C::ChallengeField],
) -> C::ChallengeField {
    let e = EqPolynomial::build(r_mpi);
    outs.iter().zip(&e).fold(C::ChallengeField::ZERO, |a, (o, e)| a + mle_eval::<C>(o, rz, r_simd) * *e)
}
fn draw<C: FieldEngine, T: Transcript>(c: &Circuit<C>, n: usize, t: &mut T) -> ExpanderDualVarChallenge<C> {
    let has_y = !c.layers[0].mul.is_empty();
    let l0 = c.layers[0].input_var_num;
    ExpanderDualVarChallenge {
        rz_0: t.generate_field_elements(l0),
        rz_1: if has_y { Some(t.generate_field_elements(l0)) } else { None },
        r_simd: t.generate_field_elements(log2(C::SimdCircuitField::PACK_SIZE)),
        r_mpi: t.generate_field_elements(log2(n)),
    }
}
type OutPoint<C> = (
    Vec<<C as FieldEngine>::ChallengeField>,
    Vec<<C as FieldEngine>::ChallengeField>,
    Vec<<C as FieldEngine>::ChallengeField>,
);
fn draw_out<C: FieldEngine, T: Transcript>(c: &Circuit<C>, n: usize, t: &mut T) -> OutPoint<C> {
    (
        t.generate_field_elements(c.layers.last().unwrap().output_var_num),
        t.generate_field_elements(log2(C::SimdCircuitField::PACK_SIZE)),
        t.generate_field_elements(log2(n)),
    )
}
fn ser<S: Field>(v: &[S]) -> Vec<u8> {
    let mut b = vec![];
    for x in v {
        x.serialize_into(&mut b).unwrap();
    }
    b
}
/// Instance by instance: the transcript of a circuit over packed values is that of as many circuits
/// over single ones (as the messages of the sumchecks are).
fn append_lanes<S: SimdField, T: Transcript>(v: &[S], t: &mut T) {
    let lanes: Vec<Vec<S::Scalar>> = v.iter().map(|x| x.unpack()).collect();
    for l in 0..S::PACK_SIZE {
        let mut b = vec![];
        for x in &lanes {
            x[l].serialize_into(&mut b).unwrap();
        }
        t.append_u8_slice(&b);
    }
}
pub fn gkr_prove<C: FieldEngine, T: Transcript>(
    circuit: &Circuit<C>,
    sp: &mut ProverScratchPad<C>,
    transcript: &mut T,
    mpi: &MPIConfig,
) -> (C::ChallengeField, ExpanderDualVarChallenge<C>) {
    for l in &circuit.layers {
        assert!(l.input_var_num <= sp.max_in && l.output_var_num <= sp.max_out, "scratch pad too small");
    }
    let n = mpi.world_size();
    let ins = mpi.allgather_bytes(ser(&circuit.layers[0].input_vals));
    let outs = mpi.allgather_bytes(ser(circuit.output()));
    let n_in = circuit.layers[0].input_vals.len();
    for b in &ins {
        let mut r = &b[..];
        let v: Vec<_> = (0..n_in).map(|_| C::SimdCircuitField::deserialize_from(&mut r).unwrap()).collect();
        append_lanes(&v, transcript);
    }
    let outs: Vec<Vec<C::SimdCircuitField>> = outs
        .iter()
        .map(|b| {
            let mut r = &b[..];
            (0..1 << circuit.layers.last().unwrap().output_var_num)
                .map(|_| C::SimdCircuitField::deserialize_from(&mut r).unwrap())
                .collect()
        })
        .collect();
    let (rz, rs, rm) = draw_out(circuit, n, transcript);
    let v = outputs_eval::<C>(&outs, &rz, &rs, &rm);
    (v, draw(circuit, n, transcript))
}
pub fn gkr_prove_batch<C: FieldEngine, T: Transcript>(
    circuits: &[Circuit<C>],
    sps: &mut [ProverScratchPad<C>],
    transcript: &mut T,
) -> (C::ChallengeField, ExpanderDualVarChallenge<C>) {
    assert_eq!(circuits.len(), sps.len());
    let n = circuits.len();
    for c in circuits {
        append_lanes(&c.layers[0].input_vals, transcript);
    }
    let outs: Vec<_> = circuits.iter().map(|c| c.output().to_vec()).collect();
    let (rz, rs, rm) = draw_out(&circuits[0], n, transcript);
    let v = outputs_eval::<C>(&outs, &rz, &rs, &rm);
    (v, draw(&circuits[0], n, transcript))
}
#[allow(clippy::type_complexity)]
pub fn gkr_verify<C: FieldEngine, T: Transcript>(
    world: usize,
    circuit: &Circuit<C>,
    public_input: &[C::SimdCircuitField],
    claimed_v: &C::ChallengeField,
    transcript: &mut T,
    mut proof: impl Read,
) -> (bool, ExpanderDualVarChallenge<C>, C::ChallengeField, Option<C::ChallengeField>) {
    let n_in = 1usize << circuit.layers[0].input_var_num;
    let mut ok = true;
    let mut ins = vec![];
    for _ in 0..world {
        let mut lanes = vec![vec![]; n_in];
        for _ in 0..C::SimdCircuitField::PACK_SIZE {
            for x in lanes.iter_mut() {
                x.push(match <C::SimdCircuitField as SimdField>::Scalar::deserialize_from(&mut proof) {
                    Ok(x) => x,
                    Err(_) => {
                        ok = false;
                        <C::SimdCircuitField as SimdField>::Scalar::ZERO
                    }
                });
            }
        }
        let v: Vec<C::SimdCircuitField> = lanes.iter().map(|x| C::SimdCircuitField::pack(x)).collect();
        append_lanes(&v, transcript);
        ins.push(v);
    }
    let outs: Vec<_> = ins
        .iter()
        .map(|v| {
            let mut c = circuit.clone();
            c.public_input = public_input.to_vec();
            c.layers[0].input_vals = v.clone();
            c.evaluate();
            c.output().to_vec()
        })
        .collect();
    let (rz, rs, rm) = draw_out(circuit, world, transcript);
    ok &= outputs_eval::<C>(&outs, &rz, &rs, &rm) == *claimed_v;
    let ch = draw(circuit, world, transcript);
    let ev = |rz: &Vec<C::ChallengeField>| outputs_eval::<C>(&ins, rz, &ch.r_simd, &ch.r_mpi);
    let v0 = ev(&ch.rz_0);
    let v1 = ch.rz_1.as_ref().map(ev);
    (ok, ch, v0, v1)
}
#[allow(dead_code)]
fn _assert<E: ExtensionField>() {}
