//! G01: what one language has written the other reads, and it means the same there.
use crate::g03::{self, Run};
use crate::{g02, model, srv};
use arith::Field;
use ecgen::lcgen::LcOpts;
use ecgen::refeval::Env;
use ecgen::*;
use ethnum::U256;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir::common::Circuit as IrCircuit;
use expander_compiler::circuit::ir::expr::{LinComb, LinCombTerm};
use expander_compiler::circuit::ir::hint_normalized::{self, Instruction as I};
use expander_compiler::circuit::ir::source;
use expander_compiler::circuit::layered::witness::Witness;
use expander_compiler::circuit::layered::{Circuit, Coef, NormalInputType};
use pbt::json::J;
use pbt::{Ctx, Gen};
use serdes::ExpSerde;

const DIV: usize = 0xCCC000000001;

/// Hints and custom gates as the Go side has them.
fn ext<C: Config>(id: usize, x: &[Fe<C>], n: usize) -> Option<Vec<Fe<C>>> {
    if (7000..7002).contains(&id) {
        return Some(vec![model::gate::<C>(id - 7000, x)]);
    }
    if id >> 32 != 0 {
        return None;
    }
    if let Some(h) = srv::with(|s| s.ids.iter().position(|&i| i == id as u64)) {
        return Some(model::hint::<C>(h, x, n));
    }
    let strs: Vec<String> = std::iter::once(U256::from(id as u64)).chain(x.iter().map(|v| v.to_u256())).map(|v| format!("\"{v}\"")).collect();
    let r = srv::ask(&format!("{{\"cmd\":\"hint\",\"field\":{},\"kind\":{n},\"strs\":[{}]}}", C::CONFIG_ID, strs.join(","))).ok()?;
    let v = g03::elements::<C>(&r, "out").ok()?;
    (v.len() == n && srv::s(&r, "err").is_empty()).then_some(v)
}
fn env<C: Config>(public: &[Fe<C>], seed: u64) -> Env<'_, C> {
    let mut e = Env::new(public, seed);
    e.ext = Some(ext::<C>);
    e
}
fn custom<C: Config>(t: usize, x: &[Fe<C>]) -> Fe<C> {
    ext::<C>(t, x, 1).unwrap()[0]
}
fn read<T: ExpSerde>(what: &str, hex: &str) -> Result<T, String> {
    let b = srv::unhex(hex);
    let mut r = &b[..];
    let v = T::deserialize_from(&mut r).map_err(|e| format!("{what} cannot be read: {e}"))?;
    if !r.is_empty() {
        return Err(format!("{what} has {} bytes too many", r.len()));
    }
    Ok(v)
}
fn bytes<T: ExpSerde>(v: &T) -> Vec<u8> {
    let mut b = vec![];
    v.serialize_into(&mut b).unwrap();
    b
}
fn dec<C: Config>(v: &[Fe<C>]) -> String {
    format!("[{}]", v.iter().map(|x| format!("\"{}\"", x.to_u256())).collect::<Vec<_>>().join(","))
}
/// A witness as Go has written it: inputs and public inputs of each assignment.
fn witness<C: Config>(hex: &str) -> Result<Vec<(Vec<Fe<C>>, Vec<Fe<C>>)>, String> {
    let w: Witness<C> = read("Go's witness", hex)?;
    if srv::hex(&bytes(&w)) != hex {
        return Err("Go's witness is written differently by Rust".into());
    }
    Ok(w.iter_scalar().collect())
}
fn outputs<C: Config>(lc: &Circuit<C, NormalInputType>, x: &[Fe<C>], p: &[Fe<C>]) -> Option<Vec<Fe<C>>> {
    if refeval::flatten(lc).iter().any(|g| g.coef == Coef::Random) {
        return None;
    }
    refeval::layer_values(lc, x, p, 1, &custom::<C>).pop()
}
/// The verdict and the outputs of the Go side, against those of the reference.
fn judge<C: Config>(lc: &Circuit<C, NormalInputType>, x: &[Fe<C>], p: &[Fe<C>], j: &J) -> Result<bool, String> {
    let e = srv::s(j, "panic");
    if !e.is_empty() {
        return Err(format!("evaluation panics: {e}"));
    }
    let Some(want) = outputs(lc, x, p) else { return Ok(false) };
    let got = g03::elements::<C>(j, "outs")?;
    let n = lc.num_actual_outputs;
    if got.len() < n || got[..n] != want[..n] {
        return Err(format!("Go evaluates the circuit to {}, it means {}", show_all::<C>(&got), show_all::<C>(&want)));
    }
    let sat = want[..lc.expected_num_output_zeroes].iter().all(|x| x.is_zero());
    if matches!(j.get("ok"), Some(J::Bool(true))) != sat {
        return Err(format!("Go's check says {}, the circuit {sat}", !sat));
    }
    Ok(true)
}

fn program<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let custom_gates = g.chance(1, 4);
    let c = model::gen::<C>(g, 12, custom_gates);
    let n = c.vals.len();
    let runs: Vec<Run> = (0..n).map(|of| Run { of, lie: 0, at: 0 }).collect();
    let multi: Vec<usize> = if g.bool() { (0..1 + g.below(4)).map(|_| g.below(n)).collect() } else { vec![] };
    ctx.describe(|| g03::request(&c, &runs, &multi, false));
    ctx.tag("program of Go");
    let Some(r) = g03::compile(&c, &runs, &multi, true, ctx)? else { return Ok(()) };
    let src: source::RootCircuit<C> = read("Go's source circuit", srv::s(&r, "irs"))?;
    let lc: Circuit<C, NormalInputType> = read("Go's layered circuit", srv::s(&r, "lc"))?;
    if srv::hex(&bytes(&lc)) != srv::s(&r, "lc") {
        return Err("Go's layered circuit is written differently by Rust".into());
    }
    let solver: hint_normalized::RootCircuit<C> = read("Go's witness solver", srv::s(&r, "irwg"))?;
    let split = |of: usize, public: bool| -> Vec<Fe<C>> { c.vals[of].iter().zip(&c.public).filter(|x| *x.1 == public).map(|x| x.0 .1).collect() };
    let mut steps = 0;
    for (run, j) in runs.iter().zip(srv::arr(&r, "runs")) {
        let m = &c.models[run.of];
        let e = format!("{}{}", srv::s(j, "err"), srv::s(j, "panic"));
        if !e.is_empty() {
            return Err(format!("assignment {}: solving and checking fails: {e}", run.of));
        }
        let (sec, pub_) = (split(run.of, false), split(run.of, true));
        let mut v = env::<C>(&pub_, 7);
        let o = refeval::source(&src, &sec, &mut v, &mut |_, vs| steps += vs.len());
        if v.hint_failed {
            return Err("the source circuit calls hints nobody has registered".into());
        }
        if o.sat != m.sat || o.sat && o.outputs != m.outs {
            return Err(format!("assignment {}: the source circuit is satisfied: {}, and gives {}; the program {}, {}", run.of, o.sat, show_all::<C>(&o.outputs), m.sat, show_all::<C>(&m.outs)));
        }
        let mut v = env::<C>(&pub_, 7);
        let want = refeval::witness_program(&solver, &sec, &mut v);
        if v.hint_failed {
            return Err("the witness solver calls hints nobody has registered".into());
        }
        let w = witness::<C>(srv::s(j, "wit"))?;
        if w.len() != 1 || w[0] != (want.clone(), pub_.clone()) {
            return Err(format!("assignment {}: the witness is {w:?}, expected {} and {}", run.of, show_all::<C>(&want), show_all::<C>(&pub_)));
        }
        judge(&lc, &want, &pub_, j)?;
    }
    if !multi.is_empty() {
        let w = witness::<C>(srv::s(&r, "mwit"))?;
        let want: Vec<_> = multi
            .iter()
            .map(|&i| {
                let (sec, pub_) = (split(i, false), split(i, true));
                (refeval::witness_program(&solver, &sec, &mut env::<C>(&pub_, 7)), pub_)
            })
            .collect();
        if w != want {
            return Err(format!("assignments {multi:?}: the witness is {w:?}, expected {want:?}"));
        }
        ctx.tag("several assignments");
    }
    ctx.nontrivial(steps >= 3);
    Ok(())
}

/// A valid layered circuit of the Rust side.
fn layered<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = LcOpts { max_layers: 4, max_log: 4, random: g.chance(1, 5), public: g.bool(), custom: g.chance(1, 3), common: g.bool(), any_coef: g.bool() };
    let mut lc = lcgen::gen::<C, NormalInputType>(g, &o);
    for s in lc.segments.iter_mut() {
        for c in s.gate_customs.iter_mut() {
            c.gate_type = 7000 + c.gate_type % 2;
        }
    }
    let gates: usize = lc.segments.iter().map(|s| s.gate_muls.len() + s.gate_adds.len() + s.gate_consts.len() + s.gate_customs.len()).sum();
    let ins: Vec<_> = (0..1 + g.below(3)).map(|_| lcgen::inputs(&lc, g)).collect();
    ctx.describe(|| lcgen::describe(&lc));
    ctx.tag("layered circuit of Rust");
    let b = bytes(&lc);
    let runs: Vec<String> = ins.iter().map(|(x, p)| format!("{{\"vals\":{},\"pub\":{}}}", dec::<C>(x), dec::<C>(p))).collect();
    let file = if g.chance(1, 4) { srv::with(|s| s.dir.join("layered.txt").display().to_string()) } else { String::new() };
    let r = srv::ask(&format!("{{\"cmd\":\"lc\",\"data\":\"{}\",\"file\":\"{file}\",\"runs\":[{}]}}", srv::hex(&b), runs.join(",")))?;
    head::<C>(&r, "the layered circuit")?;
    if !file.is_empty() && r.get("ids").map(|x| x.nums()) != Some(vec![C::CONFIG_ID as u64]) {
        return Err("the field of a circuit file is not recognised".into());
    }
    if srv::unhex(srv::s(&r, "lc")) != b {
        return Err("the layered circuit is written differently by Go".into());
    }
    for ((x, p), j) in ins.iter().zip(srv::arr(&r, "runs")) {
        judge(&lc, x, p, j)?;
    }
    ctx.nontrivial(gates >= 3);
    cut(g, ctx, "lc", &b)
}
fn head<C: Config>(r: &J, what: &str) -> Result<(), String> {
    let e = srv::s(r, "panic");
    if !e.is_empty() {
        return Err(format!("Go does not read {what}: {e}"));
    }
    if r.get("field").and_then(|x| x.num()) != Some(C::CONFIG_ID as u64) {
        return Err(format!("Go takes {what} to be over another field"));
    }
    Ok(())
}
/// A file of which the end is missing is not taken for a circuit.
fn cut(g: &mut Gen, ctx: &mut Ctx, cmd: &str, b: &[u8]) -> Result<(), String> {
    if !g.chance(1, 3) {
        return Ok(());
    }
    let n = if g.bool() { b.len() - 1 - g.below(b.len().min(12)) } else { g.below(b.len()) };
    ctx.tag("cut short");
    let r = srv::ask(&format!("{{\"cmd\":\"{cmd}\",\"data\":\"{}\"}}", srv::hex(&b[..n])))?;
    if srv::s(&r, "panic").is_empty() {
        return Err(format!("Go reads the first {n} of {} bytes as a circuit", b.len()));
    }
    Ok(())
}

/// A witness solver of the Rust side.
fn solver<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let n_pub = g.below(3);
    let k = 1 + g.below(3);
    let hint_ids: Vec<usize> = srv::with(|s| s.ids.iter().map(|&x| x as usize).collect());
    let missing = g.chance(1, 8);
    let random = g.chance(1, 8);
    let mut rc = hint_normalized::RootCircuit::<C> { num_public_inputs: n_pub, expected_num_output_zeroes: 0, ..Default::default() };
    let mut ids: Vec<usize> = vec![];
    let (mut fails, mut insns) = (false, 0);
    for c in 0..k {
        let root = c + 1 == k;
        let id = if root { 0 } else { 1 + g.u64() as usize % 1000 * (1 << g.below(40)) };
        if rc.circuits.contains_key(&id) {
            continue;
        }
        let n_in = 1 + g.below(4);
        let mut nv = n_in;
        let mut list = vec![];
        let (n, mut bad) = (g.small(8), false);
        for _ in 0..n {
            let var = |g: &mut Gen| 1 + g.below(nv);
            let some = |g: &mut Gen, lo: usize| -> Vec<usize> { (0..lo + g.below(3)).map(|_| 1 + g.below(nv)).collect() };
            let (i, outs) = match g.weighted(&[4, 3, 3, 2, 1, 2, if ids.is_empty() { 0 } else { 4 }, 2, missing as u32 as _, random as u32 as _]) {
                0 => {
                    let terms = some(g, 0).into_iter().map(|var| LinCombTerm { var, coef: fe::<C>(g) }).collect();
                    (I::LinComb(LinComb { terms, constant: fe::<C>(g) }), 1)
                }
                1 => (I::Mul(some(g, 2)), 1),
                2 => {
                    let n = 1 + g.below(3);
                    (I::Hint { hint_id: *g.pick(&hint_ids), inputs: some(g, 1), num_outputs: n }, n)
                }
                3 => (I::Hint { hint_id: DIV, inputs: vec![var(g), var(g)], num_outputs: 1 }, 1),
                4 => (I::ConstantLike(Coef::Constant(fe::<C>(g))), 1),
                5 if n_pub > 0 => (I::ConstantLike(Coef::PublicInput(g.below(n_pub))), 1),
                5 => (I::Mul(some(g, 2)), 1),
                6 => {
                    let s = *g.pick(&ids);
                    let (ni, no) = (rc.circuits[&s].num_inputs, rc.circuits[&s].outputs.len());
                    let inputs = (0..ni).map(|_| var(g)).collect();
                    (I::SubCircuitCall { sub_circuit_id: s, inputs, num_outputs: no }, no)
                }
                7 => (I::CustomGate { gate_type: 7000 + g.below(2), inputs: some(g, 1) }, 1),
                8 => {
                    bad = true;
                    (I::Hint { hint_id: 12345, inputs: some(g, 1), num_outputs: 1 }, 1)
                }
                _ => {
                    bad = true;
                    (I::ConstantLike(Coef::Random), 1)
                }
            };
            if let I::SubCircuitCall { sub_circuit_id, .. } = &i {
                bad |= failing(&rc, *sub_circuit_id);
            }
            nv += outs;
            list.push(i);
        }
        let outputs: Vec<usize> = (0..1 + g.below(5)).map(|_| 1 + g.below(nv)).collect();
        let constraints = (0..g.below(2)).map(|_| 1 + g.below(nv)).collect::<Vec<_>>();
        insns += list.len();
        rc.circuits.insert(id, IrCircuit { instructions: list, constraints, outputs, num_inputs: n_in });
        ids.push(id);
        if root {
            fails = bad;
        }
    }
    let n_in = rc.circuits[&0].num_inputs;
    let ins: Vec<(Vec<Fe<C>>, Vec<Fe<C>>)> = (0..1 + g.below(3)).map(|_| ((0..n_in).map(|_| fe::<C>(g)).collect(), (0..n_pub).map(|_| fe::<C>(g)).collect())).collect();
    ctx.describe(|| format!("field {}, {} public inputs, inputs {ins:?}, {:?}", C::CONFIG_ID, n_pub, rc.circuits));
    ctx.tag("witness solver of Rust");
    ctx.tag_if(fails, "solver that cannot run");
    let b = bytes(&rc);
    let runs: Vec<String> = ins.iter().map(|(x, p)| format!("{{\"vals\":{},\"pub\":{}}}", dec::<C>(x), dec::<C>(p))).collect();
    let r = srv::ask(&format!("{{\"cmd\":\"irwg\",\"data\":\"{}\",\"runs\":[{}]}}", srv::hex(&b), runs.join(",")))?;
    head::<C>(&r, "the witness solver")?;
    let back: hint_normalized::RootCircuit<C> = read("the witness solver as Go writes it", srv::s(&r, "irwg"))?;
    if back != rc {
        return Err(format!("the witness solver comes back as {back:?}"));
    }
    for ((x, p), j) in ins.iter().zip(srv::arr(&r, "runs")) {
        let e = srv::s(j, "panic");
        if !e.is_empty() {
            return Err(format!("solving panics: {e}"));
        }
        if fails {
            if srv::s(j, "err").is_empty() {
                return Err("Go solves what asks for an unknown hint or a random number".into());
            }
            continue;
        }
        let mut v = env::<C>(p, 7);
        let want = refeval::witness_program(&rc, x, &mut v);
        let w = witness::<C>(srv::s(j, "wit"))?;
        if w.len() != 1 || w[0] != (want.clone(), p.clone()) {
            return Err(format!("for {} and {} the witness is {w:?}, expected {}", show_all::<C>(x), show_all::<C>(p), show_all::<C>(&want)));
        }
    }
    ctx.nontrivial(insns >= 3);
    cut(g, ctx, "irwg", &b)
}
fn failing<C: Config>(rc: &hint_normalized::RootCircuit<C>, id: usize) -> bool {
    rc.circuits[&id].instructions.iter().any(|i| match i {
        I::Hint { hint_id: 12345, .. } | I::ConstantLike(Coef::Random) => true,
        I::SubCircuitCall { sub_circuit_id, .. } => failing(rc, *sub_circuit_id),
        _ => false,
    })
}
pub fn case<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.weighted(&[4, 4, 4, 1]) {
        0 => program::<C>(g, ctx),
        1 => layered::<C>(g, ctx),
        2 => solver::<C>(g, ctx),
        _ => g02::buf::<C>(g, ctx),
    }
}
