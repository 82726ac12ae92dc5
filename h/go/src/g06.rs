//! G06: a layered circuit is printed and drawn as it is.
use crate::srv;
use arith::Field;
use ecgen::lcgen::{self, LcOpts};
use ecgen::refeval::flatten;
use ecgen::*;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::layered::{Circuit, Coef, Gate, GateCustom, InputUsize, NormalInput, NormalInputType, Segment};
use pbt::{Ctx, Gen};
use serdes::ExpSerde;
use std::collections::HashMap;

type Lc<C> = Circuit<C, NormalInputType>;
/// kind or layer, inputs, output, coefficient, gate type
type G = (u8, Vec<usize>, usize, String, usize);

fn konst<C: Config>(c: &Coef<C>) -> String {
    match c {
        Coef::Constant(x) => x.to_u256().to_string(),
        _ => "?".into(),
    }
}
fn own<C: Config>(s: &Segment<C, NormalInputType>) -> Vec<G> {
    let mut v: Vec<G> = vec![];
    v.extend(s.gate_muls.iter().map(|m| (2, m.inputs.iter().map(|i| i.offset).collect(), m.output, konst(&m.coef), 0)));
    v.extend(s.gate_adds.iter().map(|m| (1, vec![m.inputs[0].offset], m.output, konst(&m.coef), 0)));
    v.extend(s.gate_consts.iter().map(|m| (0, vec![], m.output, konst(&m.coef), 0)));
    v.extend(s.gate_customs.iter().map(|m| (3, m.inputs.iter().map(|i| i.offset).collect(), m.output, konst(&m.coef), m.gate_type)));
    v.sort();
    v
}
fn num(s: &str) -> Option<usize> {
    s.parse().ok()
}

#[derive(Default, PartialEq, Debug)]
struct Printed {
    io: (usize, usize),
    subs: Vec<(usize, Vec<(usize, usize)>)>,
    gates: Vec<G>,
}
/// What the printed text says.
fn printed(text: &str) -> Option<(Vec<Printed>, Vec<usize>)> {
    let mut segs: Vec<Printed> = vec![];
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("Layers: [") {
            let ids = x.strip_suffix(']')?.split_whitespace().map(num).collect::<Option<Vec<_>>>()?;
            for s in &mut segs {
                s.gates.sort();
            }
            return Some((segs, ids));
        }
        let mut l = l;
        if let Some(x) = l.strip_prefix("Circuit ") {
            let (n, rest) = x.split_once(": ")?;
            if num(n)? != segs.len() {
                return None;
            }
            segs.push(Printed::default());
            l = rest;
        }
        let l = l.trim();
        if l.is_empty() || l.starts_with("===") {
            continue;
        }
        let s = segs.last_mut()?;
        if let Some(x) = l.strip_prefix("Input=") {
            let (a, b) = x.split_once(" Output=")?;
            s.io = (num(a)?, num(b)?);
        } else if let Some(x) = l.strip_prefix("Apply circuit ") {
            s.subs.push((num(x.strip_suffix(" at:")?)?, vec![]));
        } else if let Some(x) = l.strip_prefix("InputOffset=") {
            let (a, b) = x.split_once(" OutputOffset=")?;
            s.subs.last_mut()?.1.push((num(a)?, num(b)?));
        } else if let Some(x) = l.strip_prefix("out") {
            let (o, x) = x.split_once(" += ")?;
            let o = num(o)?;
            let ins = |x: &[&str]| x.iter().map(|y| num(y.strip_prefix("in")?)).collect::<Option<Vec<_>>>();
            if let Some(y) = x.strip_prefix("custom_gate_") {
                let (t, y) = y.split_once('(')?;
                let (a, k) = y.split_once(") * ")?;
                s.gates.push((3, ins(&a.split(',').collect::<Vec<_>>())?, o, k.into(), num(t)?));
            } else {
                let p: Vec<&str> = x.split(" * ").collect();
                let (k, i) = p.split_last()?;
                s.gates.push((i.len() as u8, ins(i)?, o, k.to_string(), 0));
            }
        } else {
            return None;
        }
    }
    None
}

/// What the drawing says: for every layer its gates.
fn drawn(dot: &str, layers: usize) -> Result<Vec<Vec<G>>, String> {
    let mut gates: HashMap<(u8, usize, usize), G> = HashMap::new();
    // of a node: what sort it is, of which layer, which number
    let node = |n: &str| -> Option<(String, usize, usize)> {
        let p: Vec<&str> = n.split('_').collect();
        match p[..] {
            ["I", k] => Some(("I".into(), 0, num(k)?)),
            [s, l, k] => Some((s.into(), num(l)?, num(k)?)),
            _ => None,
        }
    };
    let kind = |s: &str| ["C", "Add", "Mul", "Cus"].iter().position(|k| *k == s).map(|x| x as u8);
    for st in dot.split([';', '{', '}', ']', '\n']) {
        let st = st.trim();
        let bad = || format!("the drawing has a line that says nothing: {st:?}");
        if st.starts_with("E_") || st.starts_with("digraph") || st.starts_with("//") || st.is_empty() {
            continue;
        }
        let (head, attr) = match st.split_once('[') {
            Some((h, a)) => (h.trim(), a),
            None => (st, ""),
        };
        if let Some((a, b)) = head.split_once("->") {
            let (a, b) = (node(a.trim()).ok_or_else(bad)?, node(b.trim()).ok_or_else(bad)?);
            let wire = |x: &(String, usize, usize)| x.0 == "S" || x.0 == "I";
            match (wire(&a), wire(&b)) {
                (true, false) => {
                    // a source: the input layer, or the layer before
                    let g = gates.get_mut(&(kind(&b.0).ok_or_else(bad)?, b.1, b.2)).ok_or_else(|| format!("{st}: no such gate"))?;
                    let layer = if a.0 == "I" { 0 } else { a.1 + 1 };
                    if layer != b.1 {
                        return Err(format!("{st}: a gate of layer {} reads layer {layer}", b.1));
                    }
                    g.1.push(a.2);
                }
                (false, true) => {
                    let g = gates.get_mut(&(kind(&a.0).ok_or_else(bad)?, a.1, a.2)).ok_or_else(|| format!("{st}: no such gate"))?;
                    if b.1 != a.1 || b.0 != "S" || g.2 != usize::MAX {
                        return Err(format!("{st}: the output of a gate of layer {}", a.1));
                    }
                    g.2 = b.2;
                }
                _ => return Err(bad()),
            }
            continue;
        }
        let Some(n) = node(head) else { continue };
        let Some(k) = kind(&n.0) else { continue };
        let label = attr.strip_prefix("label=\"").and_then(|x| x.split_once('"')).ok_or_else(bad)?.0;
        let (t, c) = match k {
            3 => label.split_once(":*").ok_or_else(bad)?,
            0 => ("0", label),
            _ => ("0", label.strip_prefix("* ").ok_or_else(bad)?),
        };
        if gates.insert((k, n.1, n.2), (k, vec![], usize::MAX, c.into(), num(t).ok_or_else(bad)?)).is_some() {
            return Err(format!("{head} is drawn twice"));
        }
    }
    let mut v = vec![vec![]; layers];
    for ((_, l, _), g) in gates {
        v.get_mut(l).ok_or_else(|| format!("the drawing has a layer {l} of {layers}"))?.push(g);
    }
    v.iter_mut().for_each(|x: &mut Vec<G>| x.sort());
    Ok(v)
}

/// Every layer one segment, of any number.
fn plain<C: Config>(g: &mut Gen, lc: &Lc<C>) -> Lc<C> {
    let n = lc.layer_ids.len();
    let mut ids: Vec<usize> = (0..n).collect();
    if g.chance(3, 4) {
        g.shuffle(&mut ids);
    }
    let mut segs = vec![Segment::<C, NormalInputType>::default(); n];
    for (l, &id) in lc.layer_ids.iter().enumerate() {
        segs[ids[l]].num_inputs = lc.segments[id].num_inputs.clone();
        segs[ids[l]].num_outputs = lc.segments[id].num_outputs;
    }
    for f in flatten(lc) {
        let s = &mut segs[ids[f.layer - 1]];
        let i: Vec<NormalInput> = f.inputs.iter().map(|x| NormalInput { offset: x.1 }).collect();
        match f.kind {
            2 => s.gate_muls.push(Gate { inputs: [i[0], i[1]], output: f.output, coef: f.coef }),
            1 => s.gate_adds.push(Gate { inputs: [i[0]], output: f.output, coef: f.coef }),
            0 => s.gate_consts.push(Gate { inputs: [], output: f.output, coef: f.coef }),
            _ => s.gate_customs.push(GateCustom { gate_type: f.gate_type, inputs: i, output: f.output, coef: f.coef }),
        }
    }
    Circuit { segments: segs, layer_ids: ids, ..lc.clone() }
}

fn judge<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = LcOpts { max_layers: 5, max_log: 3, random: false, public: false, custom: g.bool(), common: g.chance(1, 4), any_coef: g.bool() };
    let mut lc = lcgen::gen::<C, NormalInputType>(g, &o);
    let flat = g.bool();
    if flat {
        lc = plain(g, &lc);
    }
    ctx.describe(|| lcgen::describe(&lc));
    lc.validate().map_err(|e| format!("harness: {e:?}"))?;
    let mut b = vec![];
    lc.serialize_into(&mut b).unwrap();
    let r = srv::ask(&format!("{{\"cmd\":\"draw\",\"data\":\"{}\"}}", srv::hex(&b)))?;
    let e = srv::s(&r, "panic");
    if !e.is_empty() {
        return Err(format!("printing fails: {e}"));
    }
    let out = srv::arr(&r, "out");
    let text = |i: usize| match out.get(i) {
        Some(pbt::json::J::Str(s)) => s.clone(),
        _ => String::new(),
    };
    let t = text(0);
    let Some((segs, ids)) = printed(&t) else { return Err(format!("the printed circuit is not understood: {t}")) };
    if ids != lc.layer_ids || segs.len() != lc.segments.len() {
        return Err(format!("printed are layers {ids:?} of {} circuits, there are {:?} of {}", segs.len(), lc.layer_ids, lc.segments.len()));
    }
    for (i, (s, p)) in lc.segments.iter().zip(&segs).enumerate() {
        let subs = s.child_segs.iter().map(|c| (c.0, c.1.iter().map(|a| (a.input_offset.get(0), a.output_offset)).collect())).collect();
        let want = Printed { io: (s.num_inputs.get(0), s.num_outputs), subs, gates: own(s) };
        if *p != want {
            return Err(format!("circuit {i} is printed as {p:?}, it is {want:?}"));
        }
    }
    ctx.nontrivial(segs.iter().map(|s| s.gates.len()).sum::<usize>() >= 3);
    if !flat {
        ctx.tag("printed");
        return Ok(());
    }
    ctx.tag("drawn");
    ctx.tag_if(lc.layer_ids.iter().enumerate().any(|(i, x)| i != *x), "circuits not in the order of the layers");
    let e = srv::s(&r, "err");
    if !e.is_empty() {
        return Err(format!("drawing fails: {e}"));
    }
    let d = text(1);
    let v = drawn(&d, lc.layer_ids.len())?;
    for (l, (got, &id)) in v.iter().zip(&lc.layer_ids).enumerate() {
        let want = own(&lc.segments[id]);
        if *got != want {
            return Err(format!("layer {l} is drawn with {got:?}, it has {want:?}"));
        }
    }
    Ok(())
}
pub fn case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    use expander_compiler::circuit::config::*;
    match g.below(3) {
        0 => judge::<M31Config>(g, ctx),
        1 => judge::<BN254Config>(g, ctx),
        _ => judge::<GF2Config>(g, ctx),
    }
}
