//! Random valid layered circuits, also of shapes the compiler would not produce.
use crate::*;
use expander_compiler::circuit::layered::{Allocation, Circuit, Coef, Gate, GateCustom, Input, InputType, InputUsize, Segment};

#[derive(Clone, Debug)]
pub struct LcOpts {
    pub max_layers: usize,
    pub max_log: usize,
    pub random: bool,
    pub public: bool,
    pub custom: bool,
    /// many gates shared by several segments
    pub common: bool,
    /// coefficients of multiplications may be public inputs or random too
    pub any_coef: bool,
}

fn coef<C: Config>(g: &mut Gen, o: &LcOpts, n_public: usize, special: bool) -> Coef<C> {
    match g.weighted(&[8, if special && o.public && n_public > 0 { 2 } else { 0 }, if special && o.random { 2 } else { 0 }]) {
        0 => Coef::Constant(match g.below(4) {
            0 => one::<C>(),
            1 => zero::<C>(),
            _ => fe::<C>(g),
        }),
        1 => Coef::PublicInput(g.below(n_public)),
        _ => Coef::Random,
    }
}

/// Positions (layer, offset) a gate of a segment may read. `open[l]` lists readable offsets.
fn input<I: InputType>(g: &mut Gen, open: &[Vec<usize>]) -> Option<I::Input> {
    let ls: Vec<usize> = (0..open.len()).filter(|&l| !open[l].is_empty()).collect();
    if ls.is_empty() {
        return None;
    }
    let l = if ls[0] == 0 && g.bool() { 0 } else { ls[g.below(ls.len())] };
    let o = open[l][g.below(open[l].len())];
    Some(I::Input::new(l, o))
}

fn gates<C: Config, I: InputType>(g: &mut Gen, o: &LcOpts, n_public: usize, s: &mut Segment<C, I>, open: &[Vec<usize>], n: usize) {
    for _ in 0..n {
        let output = g.below(s.num_outputs);
        match g.weighted(&[3, 4, 2, if o.custom { 1 } else { 0 }]) {
            0 => {
                let (Some(a), Some(b)) = (input::<I>(g, open), input::<I>(g, open)) else { continue };
                let coef = coef::<C>(g, o, n_public, o.any_coef);
                s.gate_muls.push(Gate { inputs: [a, b], output, coef });
            }
            1 => {
                let Some(a) = input::<I>(g, open) else { continue };
                let coef = coef::<C>(g, o, n_public, o.any_coef);
                s.gate_adds.push(Gate { inputs: [a], output, coef });
            }
            2 => {
                let coef = coef::<C>(g, o, n_public, true);
                s.gate_consts.push(Gate { inputs: [], output, coef });
            }
            _ => {
                let k = 1 + g.below(3);
                let mut v = vec![];
                for _ in 0..k {
                    if let Some(a) = input::<I>(g, open) {
                        v.push(a);
                    }
                }
                if v.is_empty() {
                    continue;
                }
                let coef = coef::<C>(g, o, n_public, o.any_coef);
                s.gate_customs.push(GateCustom { gate_type: 1000 + g.below(2), inputs: v, output, coef });
            }
        }
    }
    // repeated gates
    if g.chance(1, 3) && !s.gate_adds.is_empty() {
        let i = g.below(s.gate_adds.len());
        let mut x = s.gate_adds[i].clone();
        if g.bool() {
            x.coef = coef::<C>(g, o, n_public, o.any_coef);
        }
        s.gate_adds.push(x);
    }
    if g.chance(1, 4) && !s.gate_muls.is_empty() {
        let i = g.below(s.gate_muls.len());
        let mut x = s.gate_muls[i].clone();
        if g.bool() {
            x.coef = coef::<C>(g, o, n_public, o.any_coef);
        }
        s.gate_muls.push(x);
    }
    if g.chance(1, 4) && !s.gate_consts.is_empty() {
        let i = g.below(s.gate_consts.len());
        let mut x = s.gate_consts[i].clone();
        if g.bool() {
            x.coef = coef::<C>(g, o, n_public, true);
        }
        s.gate_consts.push(x);
    }
    if g.chance(1, 8) && !s.gate_customs.is_empty() {
        // cancels
        let mut x = s.gate_customs[0].clone();
        if let Coef::Constant(k) = x.coef {
            x.coef = Coef::Constant(zero::<C>() - k);
        }
        s.gate_customs.push(x);
    }
}

pub fn gen<C: Config, I: InputType>(g: &mut Gen, o: &LcOpts) -> Circuit<C, I> {
    let n_public = if o.public { g.below(4) } else { 0 };
    let n_layers = 1 + g.below(o.max_layers);
    let sizes: Vec<usize> = (0..=n_layers).map(|_| 1usize << g.below(o.max_log + 1)).collect();
    let mut segments: Vec<Segment<C, I>> = vec![];
    let relay = I::CROSS_LAYER_RELAY;
    // building blocks; they read anything in their range
    for _ in 0..g.below(5) {
        let depth = if relay { 1 + g.below(n_layers.min(3)) } else { 1 };
        let ins: Vec<usize> = (0..depth).map(|_| 1usize << g.below(o.max_log.min(3) + 1)).collect();
        let open: Vec<Vec<usize>> = ins.iter().map(|&n| (0..n).collect()).collect();
        let mut s = Segment::<C, I> { num_inputs: I::InputUsize::from_vec(ins.clone()), num_outputs: 1 << g.below(o.max_log.min(3) + 1), ..Default::default() };
        let n = if o.common && g.bool() { 12 + g.below(20) } else { g.small(6) };
        gates(g, o, n_public, &mut s, &open, n);
        children(g, &segments, &mut s, None, &vec![vec![]; 0]);
        segments.push(s);
    }
    if o.common && !segments.is_empty() && g.chance(2, 3) {
        // near copies
        for _ in 0..1 + g.below(2) {
            let i = g.below(segments.len());
            let mut s = segments[i].clone();
            if !s.gate_adds.is_empty() && g.bool() {
                s.gate_adds.pop();
            }
            if g.bool() {
                s.gate_consts.push(Gate { inputs: [], output: g.below(s.num_outputs), coef: coef::<C>(g, o, n_public, true) });
            }
            segments.push(s);
        }
    }
    let blocks = segments.len();
    let mut layer_ids = vec![];
    // which positions of every layer are written; the input layer always is
    let mut written: Vec<Vec<bool>> = vec![vec![true; sizes[0]]];
    let mut masks: Vec<(Vec<Vec<bool>>, Vec<bool>)> = segments.iter().map(|_| (vec![], vec![])).collect();
    for i in 0..blocks {
        masks[i] = mask(&segments, &masks, i);
    }
    for l in 0..n_layers {
        // reuse an earlier layer of the same shape
        if l > 0 && !relay && g.chance(1, 4) {
            let same: Vec<usize> = layer_ids
                .iter()
                .copied()
                .filter(|&id: &usize| {
                    let s: &Segment<C, I> = &segments[id];
                    s.num_inputs.get(0) == sizes[l] && s.num_outputs == sizes[l + 1] && masks[id].0[0].iter().zip(&written[l]).all(|(r, w)| !r || *w)
                })
                .collect();
            if !same.is_empty() {
                let id = same[g.below(same.len())];
                layer_ids.push(id);
                written.push(masks[id].1.clone());
                continue;
            }
        }
        let depth = if relay { 1 + g.below(l + 1) } else { 1 };
        let ins: Vec<usize> = (0..depth).map(|j| sizes[l - j]).collect();
        let open: Vec<Vec<usize>> = (0..depth).map(|j| (0..sizes[l - j]).filter(|&p| written[l - j][p]).collect()).collect();
        let mut s = Segment::<C, I> { num_inputs: I::InputUsize::from_vec(ins), num_outputs: sizes[l + 1], ..Default::default() };
        let n = if o.common && g.bool() { 12 + g.below(20) } else { g.small(12) };
        gates(g, o, n_public, &mut s, &open, n);
        let w: Vec<Vec<bool>> = (0..depth).map(|j| written[l - j].clone()).collect();
        children(g, &segments[..blocks], &mut s, Some(&masks), &w);
        segments.push(s);
        let id = segments.len() - 1;
        let m = mask(&segments, &masks, id);
        written.push(m.1.clone());
        masks.push(m);
        layer_ids.push(id);
    }
    let last = sizes[n_layers];
    // only written positions can be outputs
    let mut k = 0;
    while k < last && written[n_layers][k] {
        k += 1;
    }
    let mut num_actual_outputs = if k == 0 { 0 } else { 1 + g.below(k) };
    if num_actual_outputs == 0 {
        let id = *layer_ids.last().unwrap();
        segments[id].gate_consts.push(Gate { inputs: [], output: 0, coef: Coef::Constant(zero::<C>()) });
        num_actual_outputs = 1;
    }
    let expected_num_output_zeroes = if g.bool() { 0 } else { g.below(num_actual_outputs + 1) };
    if g.chance(1, 4) {
        // an unused segment
        let s = segments[g.below(segments.len())].clone();
        segments.push(s);
    }
    Circuit { num_public_inputs: n_public, num_actual_outputs, expected_num_output_zeroes, segments, layer_ids }
}

fn children<C: Config, I: InputType>(g: &mut Gen, subs: &[Segment<C, I>], s: &mut Segment<C, I>, masks: Option<&Vec<(Vec<Vec<bool>>, Vec<bool>)>>, written: &[Vec<bool>]) {
    if subs.is_empty() {
        return;
    }
    let ins = s.num_inputs.to_vec();
    for _ in 0..g.below(4) {
        let id = g.below(subs.len());
        let t = &subs[id];
        let tin = t.num_inputs.to_vec();
        if tin.len() > ins.len() || t.num_outputs > s.num_outputs || tin.iter().zip(&ins).any(|(a, b)| a > b) {
            continue;
        }
        let mut allocs = vec![];
        for _ in 0..1 + g.below(3) {
            let off: Vec<usize> = tin.iter().zip(&ins).map(|(a, b)| a * g.below(b / a)).collect();
            if let Some(m) = masks {
                let ok = m[id].0.iter().enumerate().all(|(l, r)| r.iter().enumerate().all(|(i, r)| !r || written[l][off[l] + i]));
                if !ok {
                    continue;
                }
            }
            allocs.push(Allocation { input_offset: I::InputUsize::from_vec(off), output_offset: t.num_outputs * g.below(s.num_outputs / t.num_outputs) });
        }
        if !allocs.is_empty() && s.child_segs.iter().all(|c| c.0 != id) {
            s.child_segs.push((id, allocs));
        }
    }
}

fn mask<C: Config, I: InputType>(segs: &[Segment<C, I>], masks: &[(Vec<Vec<bool>>, Vec<bool>)], id: usize) -> (Vec<Vec<bool>>, Vec<bool>) {
    let s = &segs[id];
    let mut r: Vec<Vec<bool>> = s.num_inputs.iter().map(|n| vec![false; n]).collect();
    let mut w = vec![false; s.num_outputs];
    let mut rd = |i: &I::Input| r[i.layer()][i.offset()] = true;
    for x in &s.gate_muls {
        rd(&x.inputs[0]);
        rd(&x.inputs[1]);
        w[x.output] = true;
    }
    for x in &s.gate_adds {
        rd(&x.inputs[0]);
        w[x.output] = true;
    }
    for x in &s.gate_consts {
        w[x.output] = true;
    }
    for x in &s.gate_customs {
        x.inputs.iter().for_each(&mut rd);
        w[x.output] = true;
    }
    for (c, al) in &s.child_segs {
        for a in al {
            for (l, m) in masks[*c].0.iter().enumerate() {
                for (i, b) in m.iter().enumerate() {
                    r[l][a.input_offset.get(l) + i] |= b;
                }
            }
            for (i, b) in masks[*c].1.iter().enumerate() {
                w[a.output_offset + i] |= b;
            }
        }
    }
    (r, w)
}

/// Every gate of the expanded circuit, constant coefficients of equal gates added up, zero ones dropped.
pub type Canon<C> = std::collections::BTreeMap<(u8, usize, Vec<(usize, usize)>, usize, usize), (Fe<C>, Vec<Coef<C>>)>;
pub fn canonical<C: Config, I: InputType>(lc: &Circuit<C, I>) -> Canon<C> {
    let mut m: Canon<C> = Default::default();
    for f in refeval::flatten(lc) {
        let e = m.entry((f.kind, f.gate_type, f.inputs, f.layer, f.output)).or_insert((zero::<C>(), vec![]));
        match f.coef {
            Coef::Constant(x) => e.0 = e.0 + x,
            x => e.1.push(x),
        }
    }
    m.retain(|_, e| {
        e.1.sort();
        !e.0.is_zero() || !e.1.is_empty()
    });
    m
}
pub fn inputs<C: Config, I: InputType>(lc: &Circuit<C, I>, g: &mut Gen) -> (Vec<Fe<C>>, Vec<Fe<C>>) {
    let x = (0..lc.input_size()).map(|_| fe::<C>(g)).collect();
    let p = (0..lc.num_public_inputs).map(|_| fe::<C>(g)).collect();
    (x, p)
}
pub fn describe<C: Config, I: InputType>(lc: &Circuit<C, I>) -> String {
    format!("field of {} elements, {} public inputs, {} outputs ({} zero)\n{lc}", modulus::<C>(), lc.num_public_inputs, lc.num_actual_outputs, lc.expected_num_output_zeroes)
}
