//! Stand-in for Expander's `crosslayer_prototype`: data types only.
use expander_shim::FieldEngine;
pub use expander_shim::CoefType;

#[derive(Debug, Clone, PartialEq)]
pub struct SimpleGate<C: FieldEngine, const N: usize> {
    pub i_ids: [usize; N],
    pub o_id: usize,
    pub coef_type: CoefType,
    pub coef: C::CircuitField,
}
pub type SimpleGateMul<C> = SimpleGate<C, 2>;
pub type SimpleGateAdd<C> = SimpleGate<C, 1>;
pub type SimpleGateCst<C> = SimpleGate<C, 0>;
#[derive(Debug, Clone, PartialEq)]
pub struct CrossLayerRelay<C: FieldEngine> {
    pub i_id: usize,
    pub o_id: usize,
    pub i_layer: usize,
    pub coef: C::CircuitField,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Allocation {
    pub i_offset: Vec<usize>,
    pub o_offset: usize,
}
#[derive(Debug, Clone)]
pub struct CrossLayerSegment<C: FieldEngine> {
    pub input_size: Vec<usize>,
    pub output_size: usize,
    pub child_segs: Vec<(usize, Vec<Allocation>)>,
    pub gate_muls: Vec<SimpleGateMul<C>>,
    pub gate_adds: Vec<SimpleGateAdd<C>>,
    pub gate_csts: Vec<SimpleGateCst<C>>,
    pub gate_relay: Vec<CrossLayerRelay<C>>,
}
#[derive(Debug, Clone)]
pub struct CrossLayerRecursiveCircuit<C: FieldEngine> {
    pub num_public_inputs: usize,
    pub num_outputs: usize,
    pub expected_num_output_zeros: usize,
    pub segments: Vec<CrossLayerSegment<C>>,
    pub layers: Vec<usize>,
}
