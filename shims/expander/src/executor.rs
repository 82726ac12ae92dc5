//! Stand-in for Expander's `expander_binary::executor` and its loader of circuit files. The proof is
//! the list of the input values; the verifier evaluates the circuit on them again.
use crate::arith::{Field, SimdField};
use crate::circuit::*;
use crate::engine::*;
use crate::serdes_impl::{ExpSerde, SerdeError, SerdeResult};
use std::io::Read;

const MAGIC: u64 = 3914834606642317635;

struct R<'a>(&'a [u8]);
impl R<'_> {
    fn n(&mut self) -> usize {
        u64::deserialize_from(&mut self.0).unwrap() as usize
    }
    fn coef<C: FieldEngine>(&mut self) -> (CoefType, C::CircuitField) {
        match u8::deserialize_from(&mut self.0).unwrap() {
            1 => (CoefType::Constant, C::CircuitField::deserialize_from(&mut self.0).unwrap()),
            2 => (CoefType::Random, C::CircuitField::ZERO),
            3 => (CoefType::PublicInput(self.n()), C::CircuitField::ZERO),
            _ => panic!("unknown kind of coefficient"),
        }
    }
    fn gates<C: FieldEngine, const N: usize>(&mut self) -> Vec<Gate<C, N>> {
        (0..self.n())
            .map(|_| {
                let mut i_ids = [0; N];
                for x in i_ids.iter_mut() {
                    *x = self.n();
                }
                let o_id = self.n();
                let (coef_type, coef) = self.coef::<C>();
                Gate { i_ids, o_id, coef_type, coef, gate_type: 0 }
            })
            .collect()
    }
}
fn log(n: usize) -> usize {
    assert!(n.is_power_of_two(), "layer of {n} values");
    n.trailing_zeros() as usize
}
impl<C: FieldEngine> RecursiveCircuit<C> {
    pub fn load(path: &str) -> std::io::Result<Self> {
        let mut b = vec![];
        std::fs::File::open(path)?.read_to_end(&mut b)?;
        let mut r = R(&b);
        assert_eq!(r.n() as u64, MAGIC, "not a circuit file");
        let mut m = [0u8; 32];
        r.0.read_exact(&mut m).unwrap();
        assert_eq!(m, C::CircuitField::MODULUS.to_le_bytes(), "a circuit over another field");
        let num_public_inputs = r.n();
        let num_outputs = r.n();
        let expected_num_output_zeros = r.n();
        let segments = (0..r.n())
            .map(|_| {
                let (i, o) = (r.n(), r.n());
                let child_segs = (0..r.n())
                    .map(|_| {
                        let id = r.n();
                        (id, (0..r.n()).map(|_| Allocation { i_offset: r.n(), o_offset: r.n() }).collect())
                    })
                    .collect();
                let (gate_muls, gate_adds, gate_consts) = (r.gates(), r.gates(), r.gates());
                let gate_uni = (0..r.n())
                    .map(|_| {
                        let gate_type = r.n();
                        assert_eq!(r.n(), 1, "custom gates have one input");
                        let i_ids = [r.n()];
                        let o_id = r.n();
                        let (coef_type, coef) = r.coef::<C>();
                        Gate { i_ids, o_id, coef_type, coef, gate_type }
                    })
                    .collect();
                Segment { i_var_num: log(i), o_var_num: log(o), child_segs, gate_muls, gate_adds, gate_consts, gate_uni }
            })
            .collect();
        let layers = (0..r.n()).map(|_| r.n()).collect();
        assert!(r.0.is_empty());
        Ok(RecursiveCircuit { segments, layers, num_public_inputs, num_outputs, expected_num_output_zeros })
    }
}
impl<C: FieldEngine> Circuit<C> {
    pub fn single_thread_prover_load_circuit<Cfg: GKREngine<FieldConfig = C>>(path: &str) -> Self {
        let mut c = RecursiveCircuit::<C>::load(path).unwrap().flatten();
        c.pre_process_gkr();
        c.rnd_filled = true; // evaluated once before the challenges are drawn
        c
    }
    pub fn verifier_load_circuit<Cfg: GKREngine<FieldConfig = C>>(path: &str) -> Self {
        Self::single_thread_prover_load_circuit::<Cfg>(path)
    }
}
type Ch<C> = <<C as GKREngine>::FieldConfig as FieldEngine>::ChallengeField;
type Simd<C> = <<C as GKREngine>::FieldConfig as FieldEngine>::SimdCircuitField;

fn claimed<C: GKREngine>(circuit: &mut Circuit<C::FieldConfig>, input: &[Simd<C>]) -> (Vec<u8>, Ch<C>) {
    let mut t = C::TranscriptConfig::new();
    let mut b = vec![];
    for x in input {
        for y in x.unpack() {
            y.serialize_into(&mut b).unwrap();
        }
    }
    t.append_u8_slice(&b);
    circuit.layers[0].input_vals = input.to_vec();
    circuit.fill_rnd_coefs(&mut t);
    circuit.evaluate();
    let mut v = Ch::<C>::ZERO;
    for x in circuit.output() {
        for y in x.unpack() {
            v += t.generate_field_element::<Ch<C>>() * <Ch<C> as crate::arith::ExtensionField>::embed(&y);
        }
    }
    (b, v)
}
pub fn prove<C: GKREngine>(circuit: &mut Circuit<C::FieldConfig>, _mpi: MPIConfig) -> (Ch<C>, Proof) {
    let input = circuit.layers[0].input_vals.clone();
    let (bytes, v) = claimed::<C>(circuit, &input);
    (v, Proof { bytes })
}
/// The commitment of the stand-in is the input: only the inputs in the proof count.
pub fn verify<C: GKREngine>(circuit: &mut Circuit<C::FieldConfig>, _mpi: MPIConfig, proof: &Proof, v: &Ch<C>) -> bool {
    let n = 1usize << circuit.log_input_size();
    let mut r = &proof.bytes[..];
    let mut input = vec![];
    for _ in 0..n {
        let mut lanes = vec![];
        for _ in 0..Simd::<C>::PACK_SIZE {
            match <Simd<C> as SimdField>::Scalar::deserialize_from(&mut r) {
                Ok(x) => lanes.push(x),
                Err(_) => return false,
            }
        }
        input.push(Simd::<C>::pack(&lanes));
    }
    r.is_empty() && claimed::<C>(circuit, &input).1 == *v
}
pub fn dump_proof_and_claimed_v<F: Field>(proof: &Proof, v: &F) -> SerdeResult<Vec<u8>> {
    let mut b = vec![];
    proof.bytes.serialize_into(&mut b)?;
    v.serialize_into(&mut b)?;
    Ok(b)
}
pub fn load_proof_and_claimed_v<F: Field>(bytes: &[u8]) -> SerdeResult<(Proof, F)> {
    let mut r = bytes;
    let n = u64::deserialize_from(&mut r)? as usize;
    if n > r.len() {
        return Err(SerdeError::DeserializeError);
    }
    let (p, mut r) = r.split_at(n);
    let v = F::deserialize_from(&mut r)?;
    Ok((Proof { bytes: p.to_vec() }, v))
}
