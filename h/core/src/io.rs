//! C10: stored artefacts read back. C11: malformed artefacts are rejected.
use crate::per_field;
use ecgen::lcgen::{self, LcOpts};
use ecgen::refeval;
use ecgen::srcgen::{self, Opts};
use ecgen::*;
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::ir::common::{Constraint as _, Instruction as _, IrConfig, RootCircuit};
use expander_compiler::circuit::ir::expr::{LinComb, LinCombTerm};
use expander_compiler::circuit::ir::hint_normalized::{self, witness_solver::WitnessSolver};
use expander_compiler::circuit::ir::source;
use expander_compiler::circuit::layered::witness::{Witness, WitnessValues};
use expander_compiler::circuit::layered::{
    Allocation, Circuit, Coef, CrossLayerInputType, Gate, GateCustom, Input, InputType, InputUsize, NormalInputType, Segment,
};
use arith::SimdField as _;
use pbt::{guarded, Ctx, Gen};
use serdes::ExpSerde;
use std::collections::HashMap;
use std::io::{Read, Write};

/// Hands out a few bytes at a time.
struct Slow<'a> {
    data: &'a [u8],
    pos: usize,
    step: usize,
}
impl Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.step).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Takes a few bytes at a time.
struct SlowW {
    data: Vec<u8>,
    step: usize,
}
impl Write for SlowW {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.step);
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- arbitrary objects

fn num(g: &mut Gen) -> usize {
    match g.weighted(&[4, 4, 1, 1, 1]) {
        0 => g.below(4),
        1 => g.below(300),
        2 => g.u64() as usize,
        3 => usize::MAX - g.below(3),
        _ => 1usize << g.below(64),
    }
}
fn nums(g: &mut Gen) -> Vec<usize> {
    (0..g.small(6)).map(|_| num(g)).collect()
}
fn arb_coef<C: Config>(g: &mut Gen) -> Coef<C> {
    match g.below(3) {
        0 => Coef::Constant(fe::<C>(g)),
        1 => Coef::Random,
        _ => Coef::PublicInput(num(g)),
    }
}
fn arb_lin<C: Config>(g: &mut Gen) -> LinComb<C> {
    LinComb { terms: (0..g.small(5)).map(|_| LinCombTerm { var: num(g), coef: fe::<C>(g) }).collect(), constant: fe::<C>(g) }
}
fn arb_source<C: Config>(g: &mut Gen) -> source::Instruction<C> {
    use source::{BoolBinOpType as B, Instruction::*, UnconstrainedBinOpType as U};
    match g.below(13) {
        0 => LinComb(arb_lin::<C>(g)),
        1 => Mul(nums(g)),
        2 => Div { x: num(g), y: num(g), checked: g.bool() },
        3 => BoolBinOp { x: num(g), y: num(g), op: g.pick(&[B::Xor, B::Or, B::And]).clone() },
        4 => IsZero(num(g)),
        5 => Commit(nums(g)),
        6 => Hint { hint_id: num(g), inputs: nums(g), num_outputs: num(g) },
        7 => ConstantLike(arb_coef::<C>(g)),
        8 => SubCircuitCall { sub_circuit_id: num(g), inputs: nums(g), num_outputs: num(g) },
        9 => UnconstrainedBinOp {
            x: num(g),
            y: num(g),
            op: g
                .pick(&[
                    U::Div, U::Pow, U::IntDiv, U::Mod, U::ShiftL, U::ShiftR, U::LesserEq, U::GreaterEq, U::Lesser, U::Greater, U::Eq, U::NotEq, U::BoolOr, U::BoolAnd, U::BitOr,
                    U::BitAnd, U::BitXor,
                ])
                .clone(),
        },
        10 => UnconstrainedSelect { cond: num(g), if_true: num(g), if_false: num(g) },
        11 => CustomGate { gate_type: num(g), inputs: nums(g) },
        _ => ToBinary { x: num(g), num_bits: num(g) },
    }
}
fn arb_hn<C: Config>(g: &mut Gen) -> hint_normalized::Instruction<C> {
    use hint_normalized::Instruction::*;
    match g.below(6) {
        0 => LinComb(arb_lin::<C>(g)),
        1 => Mul(nums(g)),
        2 => Hint { hint_id: num(g), inputs: nums(g), num_outputs: num(g) },
        3 => ConstantLike(arb_coef::<C>(g)),
        4 => SubCircuitCall { sub_circuit_id: num(g), inputs: nums(g), num_outputs: num(g) },
        _ => CustomGate { gate_type: num(g), inputs: nums(g) },
    }
}
fn arb_root<Irc: IrConfig>(g: &mut Gen, insn: fn(&mut Gen) -> Irc::Instruction, con: fn(&mut Gen) -> Irc::Constraint) -> RootCircuit<Irc> {
    let mut circuits = HashMap::new();
    for _ in 0..g.small(5) {
        let c = expander_compiler::circuit::ir::common::Circuit::<Irc> {
            instructions: (0..g.small(8)).map(|_| insn(g)).collect(),
            constraints: (0..g.small(4)).map(|_| con(g)).collect(),
            outputs: nums(g),
            num_inputs: num(g),
        };
        circuits.insert(num(g), c);
    }
    RootCircuit { num_public_inputs: num(g), expected_num_output_zeroes: num(g), circuits }
}
fn arb_source_con(g: &mut Gen) -> source::Constraint {
    use source::ConstraintType::*;
    source::Constraint { typ: *g.pick(&[Zero, NonZero, Bool]), var: num(g) }
}
fn arb_input<I: InputType>(g: &mut Gen) -> I::Input {
    let l = if I::CROSS_LAYER_RELAY { num(g) } else { 0 };
    I::Input::new(l, num(g))
}
fn arb_usize<I: InputType>(g: &mut Gen) -> I::InputUsize {
    if I::CROSS_LAYER_RELAY {
        I::InputUsize::from_vec(nums(g))
    } else {
        I::InputUsize::from_vec(vec![num(g)])
    }
}
fn arb_layered<C: Config, I: InputType>(g: &mut Gen) -> Circuit<C, I> {
    let segments = (0..g.small(5))
        .map(|_| Segment::<C, I> {
            num_inputs: arb_usize::<I>(g),
            num_outputs: num(g),
            child_segs: (0..g.small(3)).map(|_| (num(g), (0..g.small(3)).map(|_| Allocation { input_offset: arb_usize::<I>(g), output_offset: num(g) }).collect())).collect(),
            gate_muls: (0..g.small(4)).map(|_| Gate { inputs: [arb_input::<I>(g), arb_input::<I>(g)], output: num(g), coef: arb_coef::<C>(g) }).collect(),
            gate_adds: (0..g.small(4)).map(|_| Gate { inputs: [arb_input::<I>(g)], output: num(g), coef: arb_coef::<C>(g) }).collect(),
            gate_consts: (0..g.small(4)).map(|_| Gate { inputs: [], output: num(g), coef: arb_coef::<C>(g) }).collect(),
            gate_customs: (0..g.small(3))
                .map(|_| GateCustom { gate_type: num(g), inputs: (0..g.small(4)).map(|_| arb_input::<I>(g)).collect(), output: num(g), coef: arb_coef::<C>(g) })
                .collect(),
        })
        .collect();
    Circuit { num_public_inputs: num(g), num_actual_outputs: num(g), expected_num_output_zeroes: num(g), segments, layer_ids: nums(g) }
}
fn arb_witness<C: Config>(g: &mut Gen) -> Witness<C> {
    let n_pack = SIMDField::<C>::PACK_SIZE;
    let n = match g.below(6) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => n_pack,
        4 => n_pack + 1,
        _ => g.below(2 * n_pack + 3),
    };
    let (a, b) = (g.small(5), g.small(3));
    let simd = g.bool();
    let values = if simd {
        let blocks = n.div_ceil(n_pack);
        WitnessValues::Simd((0..blocks * (a + b)).map(|_| SIMDField::<C>::pack(&(0..n_pack).map(|_| fu::<C>(g.below(1000) as u64)).collect::<Vec<_>>())).collect())
    } else {
        WitnessValues::Scalar((0..n * (a + b)).map(|i| if i < 8 { fe::<C>(g) } else { fu::<C>(g.below(1000) as u64) }).collect())
    };
    Witness { num_witnesses: n, num_inputs_per_witness: a, num_public_inputs_per_witness: b, values }
}

// ---------------------------------------------------------------- C10

fn bytes_of<T: ExpSerde>(t: &T, step: usize) -> Result<Vec<u8>, String> {
    let mut w = SlowW { data: vec![], step };
    t.serialize_into(&mut w).map_err(|e| format!("writing: {e}"))?;
    Ok(w.data)
}
/// Reads from the bytes followed by others.
fn back<T: ExpSerde>(bytes: &[u8], g: &mut Gen) -> Result<T, String> {
    let mut all = bytes.to_vec();
    all.extend(g.bytes(g_len(bytes.len())));
    let mut r = Slow { data: &all, pos: 0, step: 1 + g.below(40) };
    let t = T::deserialize_from(&mut r).map_err(|e| format!("reading back what was written: {e}"))?;
    if r.pos != bytes.len() {
        return Err(format!("reading consumed {} bytes of {} written", r.pos, bytes.len()));
    }
    Ok(t)
}
fn g_len(n: usize) -> usize {
    n % 9
}
fn trip<T: ExpSerde>(t: &T, eq: fn(&T, &T) -> bool, ordered: bool, g: &mut Gen, ctx: &mut Ctx) -> Result<Vec<u8>, String> {
    let step = 1 + g.below(60);
    let b = guarded(|| bytes_of(t, step)).map_err(|e| format!("writing panicked: {e}"))??;
    let r: T = guarded(|| back::<T>(&b, g)).map_err(|e| format!("reading panicked: {e}"))??;
    if !eq(t, &r) {
        return Err("the object read back differs from the one written".into());
    }
    let b2 = bytes_of(&r, 1000)?;
    if ordered && b2 != b {
        return Err("writing the object read back gives other bytes".into());
    }
    if b2.len() != b.len() {
        return Err(format!("written again: {} bytes instead of {}", b2.len(), b.len()));
    }
    let r2: T = back(&b2, g)?;
    if !eq(t, &r2) {
        return Err("the object read back a second time differs".into());
    }
    ctx.units += 1;
    ctx.nontrivial(b.len() > 120);
    Ok(b)
}
fn refused<T: ExpSerde>(what: &str, b: &[u8]) -> Result<(), String> {
    match guarded(|| T::deserialize_from(b).is_ok()) {
        Ok(false) => Ok(()),
        Ok(true) => Err(format!("{what} was accepted")),
        Err(e) => Err(format!("reading {what} panicked: {e}")),
    }
}
fn refused_fields<C: Config>(kind: usize, b: &[u8]) -> Result<(), String> {
    fn one<D: Config>(kind: usize, b: &[u8]) -> Result<(), String> {
        let w = format!("an artefact of another field, read for a field of {} elements,", modulus::<D>());
        match kind {
            0 => refused::<source::RootCircuit<D>>(&w, b),
            1 => refused::<WitnessSolver<D>>(&w, b),
            2 => refused::<Circuit<D, NormalInputType>>(&w, b),
            3 => refused::<Circuit<D, CrossLayerInputType>>(&w, b),
            _ => refused::<Witness<D>>(&w, b),
        }
    }
    let m = modulus::<C>();
    macro_rules! each { ($($d:ty),*) => {$( if modulus::<$d>() != m { one::<$d>(kind, b)?; } )*} }
    each!(M31Config, BN254Config, GF2Config, GoldilocksConfig, BabyBearConfig);
    Ok(())
}
fn eq_witness<C: Config>(a: &Witness<C>, b: &Witness<C>) -> bool {
    a.num_witnesses == b.num_witnesses
        && a.num_inputs_per_witness == b.num_inputs_per_witness
        && a.num_public_inputs_per_witness == b.num_public_inputs_per_witness
        && a.iter_scalar().collect::<Vec<_>>() == b.iter_scalar().collect::<Vec<_>>()
}

fn c10_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let kind = g.below(5);
    let real = g.chance(1, 3);
    let lo = LcOpts { max_layers: 3, max_log: 3, random: true, public: true, custom: true, common: false, any_coef: true };
    let b = match kind {
        0 => {
            ctx.tag("source");
            let rc = if real { srcgen::gen::<C>(g, Opts { max_insns: 15, ..Default::default() }).rc } else { arb_root(g, arb_source::<C>, arb_source_con) };
            ctx.describe(|| format!("field of {} elements, {rc:?}", modulus::<C>()));
            trip(&rc, |a, b| a == b, rc.circuits.len() < 2, g, ctx)?
        }
        1 => {
            ctx.tag("witness program");
            let rc = arb_root(g, arb_hn::<C>, |g| num(g));
            ctx.describe(|| format!("field of {} elements, {rc:?}", modulus::<C>()));
            let s = WitnessSolver::<C> { circuit: rc };
            let one = s.circuit.circuits.len() < 2;
            let a = trip(&s, |a, b| a.circuit == b.circuit, one, g, ctx)?;
            let b = trip(&s.circuit, |a, b| a == b, one, g, ctx)?;
            if one && a != b {
                return Err("a witness program and its circuit are written differently".into());
            }
            a
        }
        2 => {
            ctx.tag("layered");
            let lc = if real { lcgen::gen::<C, NormalInputType>(g, &lo) } else { arb_layered::<C, NormalInputType>(g) };
            ctx.describe(|| format!("field of {} elements, {lc:?}", modulus::<C>()));
            trip(&lc, |a, b| a == b, true, g, ctx)?
        }
        3 => {
            ctx.tag("cross-layer");
            let lc = if real { lcgen::gen::<C, CrossLayerInputType>(g, &lo) } else { arb_layered::<C, CrossLayerInputType>(g) };
            ctx.describe(|| format!("field of {} elements, {lc:?}", modulus::<C>()));
            trip(&lc, |a, b| a == b, true, g, ctx)?
        }
        _ => {
            ctx.tag("witness");
            let w = arb_witness::<C>(g);
            ctx.describe(|| format!("field of {} elements, {w:?}", modulus::<C>()));
            // a witness of no values may be refused, but nothing else may happen to it
            trip(&w, eq_witness::<C>, true, g, ctx)?
        }
    };
    refused_fields::<C>(kind, &b)?;
    if kind == 2 || kind == 3 {
        let mut x = b.clone();
        x[g.below(8)] ^= 1 << g.below(8);
        if kind == 2 {
            refused::<Circuit<C, NormalInputType>>("a circuit of another format version", &x)?;
        } else {
            refused::<Circuit<C, CrossLayerInputType>>("a circuit of another format version", &x)?;
        }
    }
    // a prefix is never a whole artefact
    let cut = g.below(b.len());
    let cut = &b[..cut];
    match kind {
        0 => refused::<source::RootCircuit<C>>("a prefix of an artefact", cut),
        1 => refused::<WitnessSolver<C>>("a prefix of an artefact", cut),
        2 => refused::<Circuit<C, NormalInputType>>("a prefix of an artefact", cut),
        3 => refused::<Circuit<C, CrossLayerInputType>>("a prefix of an artefact", cut),
        _ => refused::<Witness<C>>("a prefix of an artefact", cut),
    }
}
pub fn c10(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c10_f, g, ctx)
}

// ---------------------------------------------------------------- C11: bytes

fn mutate(g: &mut Gen, b: &mut Vec<u8>) -> &'static str {
    if b.is_empty() {
        b.push(g.below(256) as u8);
        return "grown";
    }
    let big = |g: &mut Gen, n: usize| -> u64 {
        match g.below(9) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1 << 63,
            4 => 1 << (16 + g.below(47)),
            5 => (1 << 61) + g.below(3) as u64,
            6 => n as u64,
            7 => g.below(64) as u64,
            _ => u64::MAX - g.below(20) as u64,
        }
    };
    match g.weighted(&[2, 2, 6, 2, 1, 1, 1]) {
        0 => {
            let i = g.below(b.len());
            b[i] ^= 1 << g.below(8);
            "bit"
        }
        1 => {
            let i = g.below(b.len());
            b[i] = g.below(256) as u8;
            "byte"
        }
        2 => {
            // a field that looks like a count or an index
            let mut i = g.below(b.len());
            for j in 0..b.len() {
                let k = (i + j) % b.len();
                if k + 8 <= b.len() && b[k + 2..k + 8].iter().all(|x| *x == 0) {
                    i = k;
                    break;
                }
            }
            if i + 8 <= b.len() {
                let v = u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
                let n = match g.below(4) {
                    0 => v.wrapping_add(1),
                    1 => v.wrapping_sub(1),
                    _ => big(g, b.len()),
                };
                b[i..i + 8].copy_from_slice(&n.to_le_bytes());
            }
            "number"
        }
        3 => {
            let i = g.below(b.len());
            b.truncate(i);
            "truncated"
        }
        4 => {
            let i = g.below(b.len());
            let j = (i + 1 + g.below(16)).min(b.len());
            b.drain(i..j);
            "removed"
        }
        5 => {
            let i = g.below(b.len());
            let n = 1 + g.below(16);
            let x = g.bytes(n);
            b.splice(i..i, x);
            "inserted"
        }
        _ => {
            let (i, j) = (g.below(b.len()), g.below(b.len()));
            let n = (1 + g.below(32)).min(b.len() - i.max(j));
            let x = b[i..i + n].to_vec();
            b[j..j + n].copy_from_slice(&x);
            "copied"
        }
    }
}

/// Reads with a bound on single allocations.
fn read<T: ExpSerde>(b: &[u8]) -> Result<Option<T>, String> {
    let _cap = crate::alloc_cap(256 << 20);
    guarded(|| T::deserialize_from(b).ok()).map_err(|e| format!("reading a malformed artefact: {e}"))
}
const BUILTIN: std::ops::RangeInclusive<usize> = 0xccc000000000..=0xccc000000000 + 100;

/// Number of values the evaluation of a circuit handles; None if too many.
fn work<Irc: IrConfig>(rc: &RootCircuit<Irc>, id: usize, depth: usize) -> Option<usize> {
    let c = rc.circuits.get(&id)?;
    if depth > 12 {
        return None;
    }
    let mut n = c.num_inputs.checked_add(c.outputs.len())?;
    for i in &c.instructions {
        n = n.checked_add(i.num_outputs())?;
        if let Some((s, _, _)) = i.as_sub_circuit_call() {
            n = n.checked_add(work(rc, s, depth + 1)?)?;
        }
        if n > 1 << 14 {
            return None;
        }
    }
    (n <= 1 << 14).then_some(n)
}
fn run_source<C: Config>(rc: &source::RootCircuit<C>, g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    use source::Instruction as S;
    if guarded(|| rc.validate()).map_err(|e| format!("validating: {e}"))?.is_err() {
        ctx.tag("invalid");
        return Ok(());
    }
    let skip = rc.circuits.values().any(|c| {
        c.instructions.iter().any(|i| match i {
            S::Commit(_) => true,
            S::CustomGate { gate_type, .. } => BUILTIN.contains(gate_type),
            // the stand-in for public inputs overflows far out
            S::ConstantLike(Coef::PublicInput(x)) => *x > 1 << 20,
            _ => false,
        })
    });
    if skip || work(rc, 0, 0).is_none() {
        ctx.tag("large");
        return Ok(());
    }
    ctx.tag("evaluated");
    ctx.nontrivial(true);
    let x: Vec<Fe<C>> = (0..rc.circuits[&0].num_inputs).map(|_| fe::<C>(g)).collect();
    guarded(|| rc.eval_unsafe_with_errors(x).is_ok()).map(|_| ()).map_err(|e| format!("evaluating a circuit that passed validation: {e}"))
}
fn run_program<C: Config>(rc: &hint_normalized::RootCircuit<C>, g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if guarded(|| rc.validate()).map_err(|e| format!("validating: {e}"))?.is_err() {
        ctx.tag("invalid");
        return Ok(());
    }
    if work(rc, 0, 0).is_none() || rc.num_public_inputs > 1 << 14 {
        ctx.tag("large");
        return Ok(());
    }
    ctx.tag("evaluated");
    ctx.nontrivial(true);
    let s = WitnessSolver { circuit: rc.clone() };
    let x: Vec<Fe<C>> = (0..rc.circuits[&0].num_inputs).map(|_| fe::<C>(g)).collect();
    let p: Vec<Fe<C>> = (0..rc.num_public_inputs).map(|_| fe::<C>(g)).collect();
    let h = Hints::<C>::new();
    let one = guarded(|| s.solve_witness_from_raw_inputs(x.clone(), p.clone(), &h).is_ok()).map_err(|e| format!("running a witness program that passed validation: {e}"))?;
    let many =
        guarded(|| s.solve_witnesses_from_raw_inputs(2, |_| (x.clone(), p.clone()), &h).is_ok()).map_err(|e| format!("running a witness program that passed validation on a batch: {e}"))?;
    if one != many {
        return Err(format!("a witness program succeeds: one at a time {one}, in a batch {many}"));
    }
    Ok(())
}
fn run_layered<C: Config, I: InputType>(lc: &Circuit<C, I>, g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    // declared sizes that would need more memory than is sensible to try
    let cap = 1usize << 20;
    let sizes: usize = lc.segments.iter().map(|s| s.num_inputs.iter().fold(s.num_outputs, |a, b| a.saturating_add(b))).fold(0, |a: usize, b| a.saturating_add(b));
    if sizes > cap {
        ctx.tag("large");
        return Ok(());
    }
    if guarded(|| lc.validate()).map_err(|e| format!("validating: {e}"))?.is_err() {
        ctx.tag("invalid");
        return Ok(());
    }
    let far = |k: &Coef<C>| matches!(k, Coef::PublicInput(x) if *x > 1 << 20);
    let skip = lc.num_public_inputs > 1 << 16
        || lc.segments.iter().any(|s| {
            s.gate_customs.iter().any(|x| BUILTIN.contains(&x.gate_type) || far(&x.coef))
                || s.gate_muls.iter().any(|x| far(&x.coef))
                || s.gate_adds.iter().any(|x| far(&x.coef))
                || s.gate_consts.iter().any(|x| far(&x.coef))
        });
    let mut cost = vec![0usize; lc.segments.len()];
    for (i, s) in lc.segments.iter().enumerate() {
        cost[i] = 1 + s.gate_adds.len() + s.gate_muls.len();
        for (c, a) in &s.child_segs {
            cost[i] = cost[i].saturating_add(cost[*c].saturating_mul(a.len()));
        }
    }
    let total = lc.layer_ids.iter().fold(0usize, |a, l| a.saturating_add(cost[*l]).saturating_add(lc.segments[*l].num_outputs));
    if skip || total > 1 << 20 {
        ctx.tag("large");
        return Ok(());
    }
    ctx.tag("evaluated");
    ctx.nontrivial(true);
    let x: Vec<Fe<C>> = (0..lc.input_size()).map(|_| fu::<C>(g.below(100) as u64)).collect();
    let p: Vec<Fe<C>> = (0..lc.num_public_inputs).map(|_| fu::<C>(g.below(100) as u64)).collect();
    let sx: Vec<SIMDField<C>> = x.iter().map(|v| SIMDField::<C>::pack(&vec![*v; SIMDField::<C>::PACK_SIZE])).collect();
    let sp: Vec<SIMDField<C>> = p.iter().map(|v| SIMDField::<C>::pack(&vec![*v; SIMDField::<C>::PACK_SIZE])).collect();
    let what = |e: String| format!("evaluating a layered circuit that passed validation: {e}");
    guarded(|| lc.eval_unsafe(x.clone())).map_err(what)?;
    guarded(|| lc.eval_with_public_inputs(x, &p)).map_err(what)?;
    guarded(|| lc.eval_with_public_inputs_simd::<SIMDField<C>>(sx, &sp)).map_err(what)?;
    Ok(())
}
fn run_witness<C: Config>(w: &Witness<C>, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("evaluated");
    ctx.nontrivial(true);
    guarded(|| {
        let a = w.iter_scalar().take(1000).count();
        let b = w.iter_simd().take(1000).count();
        (a, b)
    })
    .map_err(|e| format!("iterating a witness that was read: {e}"))?;
    Ok(())
}

fn bytes_case<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let kind = g.below(5);
    let lo = LcOpts { max_layers: 3, max_log: 2, random: true, public: true, custom: true, common: false, any_coef: true };
    let mut b = match kind {
        0 => bytes_of(&srcgen::gen::<C>(g, Opts { max_insns: 8, max_circuits: 3, ..Default::default() }).rc, 1000)?,
        1 => bytes_of(&program::<C>(g), 1000)?,
        2 => bytes_of(&lcgen::gen::<C, NormalInputType>(g, &lo), 1000)?,
        3 => bytes_of(&lcgen::gen::<C, CrossLayerInputType>(g, &lo), 1000)?,
        _ => bytes_of(&arb_witness::<C>(g), 1000)?,
    };
    ctx.tag(["source", "witness program", "layered", "cross-layer", "witness"][kind]);
    if g.chance(1, 20) {
        // nothing of the original but the beginning
        let n = g.below(b.len().min(80) + 1);
        b.truncate(n);
        let k = g.small(100);
        b.extend(g.bytes(k));
        ctx.tag("random bytes");
    } else {
        for _ in 0..1 + g.below(3) {
            let t = mutate(g, &mut b);
            ctx.tag(t);
        }
    }
    ctx.describe(|| format!("{} over a field of {} elements, bytes {}", ["source circuit", "witness program", "layered circuit", "cross-layer circuit", "witness"][kind], modulus::<C>(), b.iter().map(|x| format!("{x:02x}")).collect::<String>()));
    ctx.units += 1;
    match kind {
        0 => match read::<source::RootCircuit<C>>(&b)? {
            Some(x) => run_source(&x, g, ctx),
            None => Ok(()),
        },
        1 => match read::<WitnessSolver<C>>(&b)? {
            Some(x) => run_program(&x.circuit, g, ctx),
            None => Ok(()),
        },
        2 => match read::<Circuit<C, NormalInputType>>(&b)? {
            Some(x) => run_layered(&x, g, ctx),
            None => Ok(()),
        },
        3 => match read::<Circuit<C, CrossLayerInputType>>(&b)? {
            Some(x) => run_layered(&x, g, ctx),
            None => Ok(()),
        },
        _ => match read::<Witness<C>>(&b)? {
            Some(x) => run_witness(&x, ctx),
            None => Ok(()),
        },
    }
}

// ---------------------------------------------------------------- C11: structure

/// A valid witness program.
fn program<C: Config>(g: &mut Gen) -> hint_normalized::RootCircuit<C> {
    use hint_normalized::Instruction as H;
    let n_public = g.below(3);
    let n = 1 + g.below(3);
    let mut circuits = HashMap::new();
    let ids: Vec<usize> = (0..n).map(|i| if i + 1 == n { 0 } else { 3 + 2 * i }).collect();
    let mut made: Vec<(usize, usize, usize)> = vec![];
    for (k, &id) in ids.iter().enumerate() {
        let num_inputs = 1 + g.below(3);
        let mut vars = num_inputs;
        let mut instructions = vec![];
        for _ in 0..1 + g.small(6) {
            let v = |g: &mut Gen| 1 + g.below(vars);
            let i = match g.below(7) {
                0 => H::LinComb(LinComb { terms: (0..g.below(3)).map(|_| LinCombTerm { var: v(g), coef: fe::<C>(g) }).collect(), constant: fe::<C>(g) }),
                1 => H::Mul((0..2 + g.below(2)).map(|_| v(g)).collect()),
                2 => H::Hint { hint_id: 1 + g.below(NUM_HINTS), inputs: (0..1 + g.below(3)).map(|_| v(g)).collect(), num_outputs: 1 + g.below(3) },
                3 => H::ConstantLike(if n_public > 0 && g.bool() { Coef::PublicInput(g.below(n_public)) } else { Coef::Constant(fe::<C>(g)) }),
                4 => {
                    let id = 0xccc000000000 + 1 + g.below(8);
                    H::Hint { hint_id: id, inputs: vec![v(g), v(g)], num_outputs: 1 }
                }
                5 if g.chance(1, 3) => H::CustomGate { gate_type: 1000, inputs: vec![v(g)] },
                _ => {
                    let ok: Vec<&(usize, usize, usize)> = made.iter().filter(|m| m.1 <= vars).collect();
                    if ok.is_empty() {
                        continue;
                    }
                    let m = ok[g.below(ok.len())];
                    let mut all: Vec<usize> = (1..=vars).collect();
                    g.shuffle(&mut all);
                    H::SubCircuitCall { sub_circuit_id: m.0, inputs: all[..m.1].to_vec(), num_outputs: m.2 }
                }
            };
            vars += i.num_outputs();
            instructions.push(i);
        }
        let mut all: Vec<usize> = (1..=vars).collect();
        g.shuffle(&mut all);
        let outputs = all[..1 + g.below(all.len().min(3))].to_vec();
        made.push((id, num_inputs, outputs.len()));
        let _ = k;
        circuits.insert(id, hint_normalized::Circuit::<C> { instructions, constraints: vec![], outputs, num_inputs });
    }
    RootCircuit { num_public_inputs: n_public, expected_num_output_zeroes: 0, circuits }
}

/// One change that makes the circuit refer to what is not there. None if it does not apply.
fn break_ir<Irc: IrConfig>(
    rc: &mut RootCircuit<Irc>,
    g: &mut Gen,
    constant: fn(Coef<Irc::Config>) -> Irc::Instruction,
    set_zero_arity: fn(&mut Gen, usize) -> Irc::Instruction,
    wide: fn(usize) -> Option<Irc::Instruction>,
) -> Option<(String, bool)> {
    let mut ids: Vec<usize> = rc.circuits.keys().copied().collect();
    ids.sort();
    let id = ids[g.below(ids.len())];
    let n_public = rc.num_public_inputs;
    let missing = loop {
        let x = num(g);
        if !rc.circuits.contains_key(&x) {
            break x;
        }
    };
    let arity: HashMap<usize, (usize, usize)> = rc.circuits.iter().map(|(k, c)| (*k, (c.num_inputs, c.outputs.len()))).collect();
    let total: usize = rc.circuits[&id].get_num_variables();
    let over = |g: &mut Gen, max: usize| match g.below(4) {
        0 => 0,
        1 => max + 1,
        2 => max + 1 + g.below(100),
        _ => usize::MAX,
    };
    let c = rc.circuits.get_mut(&id).unwrap();
    let calls: Vec<usize> = (0..c.instructions.len()).filter(|&i| c.instructions[i].as_sub_circuit_call().is_some()).collect();
    let kind = g.below(12);
    Some(match kind {
        0 | 1 => {
            if c.instructions.is_empty() {
                return None;
            }
            let i = g.below(c.instructions.len());
            let max = c.num_inputs + c.instructions[..i].iter().map(|x| x.num_outputs()).sum::<usize>();
            let ins = c.instructions[i].inputs();
            if ins.is_empty() {
                return None;
            }
            let (v, bad) = (ins[g.below(ins.len())], over(g, max));
            c.instructions[i] = c.instructions[i].replace_vars(|x| if x == v { bad } else { x });
            (format!("circuit {id} instruction {i} refers to variable {bad} of {max}"), true)
        }
        2 | 3 | 4 => {
            if calls.is_empty() {
                return None;
            }
            let i = calls[g.below(calls.len())];
            let (s, ins, n) = c.instructions[i].as_sub_circuit_call().map(|(a, b, c)| (a, b.clone(), c)).unwrap();
            let (s2, ins2, n2) = match kind {
                2 => (missing, ins.clone(), n),
                3 => {
                    let mut x = ins.clone();
                    if x.is_empty() || g.bool() {
                        let free = (1..=c.num_inputs).find(|v| !x.contains(v));
                        x.push(free?);
                    } else {
                        x.pop();
                    }
                    (s, x, n)
                }
                _ => (s, ins.clone(), if n > 0 && g.bool() { n - 1 } else { n + 1 + g.below(2) }),
            };
            c.instructions[i] = Irc::Instruction::sub_circuit_call(s2, ins2, n2);
            (format!("circuit {id} instruction {i} calls circuit {s2} with other inputs or outputs"), true)
        }
        5 => {
            rc.circuits.remove(&0);
            ("no circuit 0".into(), true)
        }
        6 => {
            if c.constraints.is_empty() {
                return None;
            }
            let i = g.below(c.constraints.len());
            let v = over(g, total);
            c.constraints[i] = Irc::Constraint::new(v, c.constraints[i].typ());
            (format!("circuit {id} constraint {i} on variable {v} of {total}"), true)
        }
        7 => {
            if c.outputs.is_empty() {
                return None;
            }
            let i = g.below(c.outputs.len());
            c.outputs[i] = over(g, total);
            (format!("circuit {id} output {i} is variable {} of {total}", c.outputs[i]), true)
        }
        8 => {
            let x = match g.below(3) {
                0 => n_public,
                1 => n_public + g.below(50),
                _ => usize::MAX,
            };
            c.instructions.push(constant(Coef::PublicInput(x)));
            (format!("circuit {id} reads public input {x} of {n_public}"), true)
        }
        9 => {
            // a cycle: the callee, or the circuit itself, calls the circuit
            let at = if calls.is_empty() || g.bool() { id } else { c.instructions[calls[g.below(calls.len())]].as_sub_circuit_call().unwrap().0 };
            let (n_in, n_out) = arity[&id];
            let d = rc.circuits.get_mut(&at).unwrap();
            let vars = d.get_num_variables();
            if vars < n_in {
                return None;
            }
            d.instructions.push(Irc::Instruction::sub_circuit_call(id, (1..=n_in).collect(), n_out));
            (format!("circuit {at} calls circuit {id}, which contains it"), true)
        }
        10 => {
            let n = rc.circuits[&0].outputs.len();
            rc.expected_num_output_zeroes = if g.bool() { n + 1 + g.below(5) } else { usize::MAX };
            (format!("{} of {n} outputs expected to be zero", rc.expected_num_output_zeroes), true)
        }
        _ => {
            if total == 0 {
                return None;
            }
            if g.chance(1, 3) {
                // more variables than can be counted
                let (a, b) = (wide(usize::MAX - g.below(2))?, wide(usize::MAX / 2 + g.below(5))?);
                c.instructions.push(a);
                c.instructions.push(b);
                (format!("circuit {id} has too many variables"), true)
            } else {
                c.instructions.push(set_zero_arity(g, 1));
                (format!("circuit {id} has an instruction without the operands it needs: {:?}", c.instructions.last()), true)
            }
        }
    })
}
fn zero_arity_source<C: Config>(g: &mut Gen, v: usize) -> source::Instruction<C> {
    use source::Instruction::*;
    match g.below(8) {
        0 => Mul(vec![]),
        1 => Mul(vec![v]),
        2 => Hint { hint_id: 1, inputs: vec![], num_outputs: 1 },
        3 => Hint { hint_id: 1, inputs: vec![v], num_outputs: 0 },
        4 => CustomGate { gate_type: 1000, inputs: vec![] },
        5 => ToBinary { x: v, num_bits: 0 },
        6 => Hint { hint_id: 0xccc000000001 + g.below(8), inputs: vec![v; *g.pick(&[1, 3])], num_outputs: 1 },
        _ => builtin_wrong(g, v, |a, b, c| Hint { hint_id: a, inputs: b, num_outputs: c }),
    }
}
fn builtin_wrong<T>(g: &mut Gen, v: usize, f: fn(usize, Vec<usize>, usize) -> T) -> T {
    let b = 0xccc000000000usize;
    match g.below(5) {
        0 => f(b, vec![v; 2], 3),
        1 => f(b + 9, vec![v; *g.pick(&[1, 2, 4])], 1),
        2 => f(b + 9, vec![v; 3], 2),
        3 => f(b + 19, vec![v; 2], 4),
        _ => f(b + 1 + g.below(8), vec![v; 2], *g.pick(&[0, 2])),
    }
}
fn zero_arity_hn<C: Config>(g: &mut Gen, v: usize) -> hint_normalized::Instruction<C> {
    use hint_normalized::Instruction::*;
    match g.below(7) {
        0 => Mul(vec![]),
        1 => Mul(vec![v]),
        2 => Hint { hint_id: 1, inputs: vec![], num_outputs: 1 },
        3 => Hint { hint_id: 1, inputs: vec![v], num_outputs: 0 },
        4 => CustomGate { gate_type: 1000, inputs: vec![] },
        5 => Hint { hint_id: 0xccc000000001 + g.below(8), inputs: vec![v; *g.pick(&[1, 3])], num_outputs: 1 },
        _ => builtin_wrong(g, v, |a, b, c| Hint { hint_id: a, inputs: b, num_outputs: c }),
    }
}

/// One change that makes a valid layered circuit malformed.
fn break_layered<C: Config, I: InputType>(lc: &mut Circuit<C, I>, g: &mut Gen) -> Option<String> {
    let cross = I::CROSS_LAYER_RELAY;
    let n = lc.segments.len();
    let written = {
        let mut w: Vec<Vec<bool>> = refeval::layer_sizes(lc).iter().map(|&n| vec![false; n]).collect();
        for f in refeval::flatten(lc) {
            w[f.layer][f.output] = true;
        }
        w
    };
    let i = if g.bool() { lc.layer_ids[g.below(lc.layer_ids.len())] } else { g.below(n) };
    let sub_sizes: Vec<(Vec<usize>, usize)> = lc.segments.iter().map(|s| (s.num_inputs.to_vec(), s.num_outputs)).collect();
    let n_public = lc.num_public_inputs;
    let over = |g: &mut Gen, n: usize| match g.below(3) {
        0 => n,
        1 => n + g.below(64),
        _ => usize::MAX,
    };
    let kind = g.below(14);
    let s = &mut lc.segments[i];
    Some(match kind {
        0 => {
            // an input of a gate
            let l = g.below(s.num_inputs.len());
            let (l, o) = if cross && g.bool() { (over(g, s.num_inputs.len()), 0) } else { (l, over(g, s.num_inputs.get(l))) };
            let bad = I::Input::new(l, o);
            match g.below(3) {
                0 if !s.gate_muls.is_empty() => {
                    let k = g.below(s.gate_muls.len());
                    s.gate_muls[k].inputs[g.below(2)] = bad;
                }
                1 if !s.gate_adds.is_empty() => {
                    let k = g.below(s.gate_adds.len());
                    s.gate_adds[k].inputs[0] = bad;
                }
                _ => {
                    let k = s.gate_customs.iter().position(|x| !x.inputs.is_empty())?;
                    let j = g.below(s.gate_customs[k].inputs.len());
                    s.gate_customs[k].inputs[j] = bad;
                }
            }
            format!("a gate of segment {i} reads {bad:?}")
        }
        1 => {
            let o = over(g, s.num_outputs);
            let coef = Coef::Constant(one::<C>());
            let x = I::Input::new(0, 0);
            match g.below(4) {
                0 => s.gate_muls.push(Gate { inputs: [x, x], output: o, coef }),
                1 => s.gate_adds.push(Gate { inputs: [x], output: o, coef }),
                2 => s.gate_consts.push(Gate { inputs: [], output: o, coef }),
                _ => s.gate_customs.push(GateCustom { gate_type: 1000, inputs: vec![x], output: o, coef }),
            }
            format!("a gate of segment {i} writes {o} of {}", s.num_outputs)
        }
        2 => {
            if s.child_segs.is_empty() {
                return None;
            }
            let k = g.below(s.child_segs.len());
            let bad = match g.below(3) {
                0 => i,
                1 => n + g.below(3),
                _ => usize::MAX,
            };
            s.child_segs[k].0 = bad;
            format!("child {k} of segment {i} is segment {bad}")
        }
        3 | 4 | 5 => {
            let ks: Vec<usize> = (0..s.child_segs.len()).filter(|&k| !s.child_segs[k].1.is_empty()).collect();
            if ks.is_empty() {
                return None;
            }
            let k = ks[g.below(ks.len())];
            let (sub, al) = &mut s.child_segs[k];
            let (ins, outs) = sub_sizes[*sub].clone();
            let a = g.below(al.len());
            let a = &mut al[a];
            let bad = |g: &mut Gen, size: usize, room: usize, at: usize| match g.below(4) {
                0 if size > 1 => at + 1,
                1 => room,
                2 => room * 2,
                _ => usize::MAX - (size - 1),
            };
            if kind == 3 {
                a.output_offset = bad(g, outs, s.num_outputs, a.output_offset);
                format!("child {k} of segment {i}: output offset {}", a.output_offset)
            } else if kind == 4 {
                let mut v = a.input_offset.to_vec();
                let l = g.below(v.len());
                v[l] = bad(g, ins[l], s.num_inputs.get(l), v[l]);
                a.input_offset = I::InputUsize::from_vec(v);
                format!("child {k} of segment {i}: input offset {:?}", a.input_offset)
            } else {
                if !cross {
                    return None;
                }
                let mut v = a.input_offset.to_vec();
                if g.bool() {
                    v.push(0);
                } else {
                    v.pop();
                }
                a.input_offset = I::InputUsize::from_vec(v);
                format!("child {k} of segment {i}: input offsets {:?}", a.input_offset)
            }
        }
        6 => {
            let k = g.below(lc.layer_ids.len());
            lc.layer_ids[k] = over(g, n);
            format!("layer {k} is segment {} of {n}", lc.layer_ids[k])
        }
        7 => {
            lc.layer_ids.clear();
            "no layers".into()
        }
        8 => {
            let bad = *g.pick(&[0, 3, 6, usize::MAX, (1 << 20) + 1]);
            if g.bool() {
                s.num_outputs = bad;
            } else {
                let mut v = s.num_inputs.to_vec();
                let l = g.below(v.len());
                v[l] = bad;
                s.num_inputs = I::InputUsize::from_vec(v);
            }
            format!("segment {i}: {:?} inputs, {} outputs", s.num_inputs, s.num_outputs)
        }
        9 => {
            let x = over(g, n_public);
            let coef = Coef::PublicInput(x);
            let r = I::Input::new(0, 0);
            match g.below(4) {
                0 if !s.gate_muls.is_empty() => s.gate_muls[0].coef = coef,
                1 if !s.gate_adds.is_empty() => s.gate_adds[0].coef = coef,
                2 if !s.gate_customs.is_empty() => s.gate_customs[0].coef = coef,
                _ => s.gate_consts.push(Gate { inputs: [], output: 0, coef }),
            }
            let _ = r;
            format!("a gate of segment {i} has public input {x} of {n_public} as its coefficient")
        }
        10 => {
            let last = *written.last().map(|w| w.len()).as_ref().unwrap();
            lc.num_actual_outputs = over(g, last + 1);
            format!("{} outputs declared, the last layer has {last}", lc.num_actual_outputs)
        }
        11 => {
            lc.expected_num_output_zeroes = over(g, lc.num_actual_outputs + 1);
            format!("{} of {} outputs expected to be zero", lc.expected_num_output_zeroes, lc.num_actual_outputs)
        }
        12 => {
            // reading a wire nothing writes
            let mut open = vec![];
            for (l, &id) in lc.layer_ids.iter().enumerate() {
                for (j, len) in lc.segments[id].num_inputs.iter().enumerate() {
                    if j < l {
                        for o in 0..len {
                            if !written[l - j][o] {
                                open.push((id, j, o, l));
                            }
                        }
                    }
                }
            }
            if open.is_empty() {
                return None;
            }
            let (id, j, o, l) = open[g.below(open.len())];
            let s = &mut lc.segments[id];
            s.gate_adds.push(Gate { inputs: [I::Input::new(j, o)], output: g.below(s.num_outputs), coef: Coef::Constant(one::<C>()) });
            // the segment may be used earlier too and now write it
            if refeval::flatten(lc).iter().any(|f| f.layer == l - j && f.output == o) {
                return None;
            }
            format!("segment {id} reads ({j}, {o}), which is never written")
        }
        _ => {
            // the following layer does not expect this size
            let l = g.below(lc.layer_ids.len());
            if l + 1 == lc.layer_ids.len() {
                return None;
            }
            let s = &mut lc.segments[lc.layer_ids[l]];
            s.num_outputs *= 2;
            format!("layer {l} has twice as many outputs as the next has inputs")
        }
    })
}

fn must_refuse(what: &str, valid: Result<bool, String>) -> Result<(), String> {
    match valid {
        Ok(false) => Ok(()),
        Ok(true) => Err(format!("validation accepts a malformed circuit: {what}")),
        Err(e) => Err(format!("validation panics on a malformed circuit ({what}): {e}")),
    }
}
fn struct_layered<C: Config, I: InputType>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let lo = LcOpts { max_layers: 3, max_log: 3, random: true, public: true, custom: true, common: false, any_coef: true };
    let mut lc = lcgen::gen::<C, I>(g, &lo);
    if let Err(e) = lc.validate() {
        return Err(format!("validation refuses a valid circuit: {e}\n{}", lcgen::describe(&lc)));
    }
    let Some(what) = break_layered(&mut lc, g) else { return Ok(()) };
    ctx.describe(|| format!("{what}\n{lc:?}"));
    ctx.nontrivial(true);
    ctx.units += 1;
    must_refuse(&what, guarded(|| lc.validate().is_ok()))
}
fn struct_case<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.below(4) {
        0 => {
            let mut rc = srcgen::gen::<C>(g, Opts { max_insns: 8, max_circuits: 4, ..Default::default() }).rc;
            if let Err(e) = rc.validate() {
                return Err(format!("validation refuses a valid circuit: {e}"));
            }
            let Some((what, _)) = break_ir(&mut rc, g, source::Instruction::<C>::ConstantLike, zero_arity_source::<C>, |n| Some(source::Instruction::<C>::ToBinary { x: 1, num_bits: n })) else {
                return Ok(());
            };
            ctx.describe(|| format!("{what}\n{rc:?}"));
            ctx.nontrivial(true);
            ctx.units += 1;
            ctx.tag("source structure");
            must_refuse(&what, guarded(|| rc.validate().is_ok()))
        }
        1 => {
            let mut rc = program::<C>(g);
            if let Err(e) = rc.validate() {
                return Err(format!("validation refuses a valid witness program: {e}"));
            }
            let Some((what, _)) = break_ir(&mut rc, g, hint_normalized::Instruction::<C>::ConstantLike, zero_arity_hn::<C>, |n| {
                Some(hint_normalized::Instruction::<C>::Hint { hint_id: 1, inputs: vec![1], num_outputs: n })
            }) else {
                return Ok(());
            };
            ctx.describe(|| format!("{what}\n{rc:?}"));
            ctx.nontrivial(true);
            ctx.units += 1;
            ctx.tag("program structure");
            must_refuse(&what, guarded(|| rc.validate().is_ok()))
        }
        2 => {
            ctx.tag("layered structure");
            struct_layered::<C, NormalInputType>(g, ctx)
        }
        _ => {
            ctx.tag("cross-layer structure");
            struct_layered::<C, CrossLayerInputType>(g, ctx)
        }
    }
}
fn c11_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.below(5) {
        0 | 1 => struct_case::<C>(g, ctx),
        2 => {
            // valid circuits, as generated, evaluate
            ctx.tag("unchanged");
            let rc = program::<C>(g);
            ctx.describe(|| format!("{rc:?}"));
            run_program(&rc, g, ctx)
        }
        _ => bytes_case::<C>(g, ctx),
    }
}
pub fn c11(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c11_f, g, ctx)
}
