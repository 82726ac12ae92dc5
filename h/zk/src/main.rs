//! Z01-Z03: device arrays, kernel launches, computation graphs.
mod acc;
mod hist;
mod kern;
mod z03;
use acc::*;
use ecgen::*;
use expander_compiler::circuit::config::Config;
use expander_compiler::zkcuda::shape::{multi_dimension_data_padding, shape_padded_mapping, shape_vec_len, shape_vec_padded_len, Reshape, ShapeHistory, Transpose};
use hist::*;
use pbt::{guarded, Ctx, Gen, Prop};

#[macro_export]
macro_rules! per_field {
    ($g:expr, $f:ident, $($a:expr),*) => {{
        use expander_compiler::circuit::config::*;
        match $g.weighted(&[6, 2, 2, 1, 1]) {
            0 => $f::<M31Config>($($a),*),
            1 => $f::<BN254Config>($($a),*),
            2 => $f::<GF2Config>($($a),*),
            3 => $f::<GoldilocksConfig>($($a),*),
            _ => $f::<BabyBearConfig>($($a),*),
        }
    }};
}

fn nd_pad(shape: &[usize], n: usize) -> (Vec<usize>, usize, Vec<usize>) {
    // for every padded position the position padded from, and where each position goes
    let ps: Vec<usize> = shape.iter().map(|d| d.next_power_of_two()).collect();
    let total = prod(&ps);
    let mut from = vec![];
    let mut to = vec![0; n];
    for i in 0..total {
        let mut r = i;
        let mut c = vec![0; ps.len()];
        for k in (0..ps.len()).rev() {
            c[k] = r % ps[k];
            r /= ps[k];
        }
        let inside = c.iter().zip(shape).all(|(x, d)| x < d);
        let at = c.iter().zip(shape).fold(0, |s, (x, d)| s * d + x.min(&(d - 1)));
        if inside {
            to[at] = i;
        }
        from.push(at);
    }
    (from, total, to)
}

fn z01_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let t = History::<C>::gen(g, &HOpts { ops: 10, calls: 0, transpose: true, hints: false, asserts: false, max: 48, split: false });
    ctx.describe(|| t.describe());
    ctx.tag(format!("field {}", field_bits::<C>()));
    let Some(r) = run_all(&t, ctx)? else { return Ok(()) };
    for (i, h) in t.hs.iter().enumerate() {
        check_back::<C>(&r.cx, &r.hs[i], &h.arr, &format!("a{i}"))?;
    }
    let (mut re, mut tr) = (0, 0);
    for o in &t.ops {
        match o {
            Op::Reshape(..) => re += 1,
            Op::Transpose(..) => tr += 1,
            _ => {}
        }
    }
    ctx.tag_if(re > 0, "reshape");
    ctx.tag_if(tr > 0, "transpose");
    ctx.nontrivial(re + tr >= 2 && t.hs.iter().any(|h| h.arr.v.len() >= 4));

    // the same on the bookkeeping itself
    let h = g.below(t.hs.len());
    let shape = t.hs[h].arr.shape.clone();
    let data: Vec<usize> = (1..=prod(&shape)).collect();
    let mut sh = ShapeHistory::new(shape.clone());
    let mut model = data.clone();
    let mut cur = shape.clone();
    let mut moved = false;
    for _ in 0..g.below(5) {
        if g.bool() {
            cur = factors(g, data.len(), 4);
            sh = sh.reshape(&cur);
        } else {
            let mut a: Vec<usize> = (0..cur.len()).collect();
            g.shuffle(&mut a);
            sh = sh.transpose(&a);
            moved |= a.windows(2).any(|w| w[0] > w[1]);
            let arr = ndt(&cur, &model, &a);
            cur = arr.0;
            model = arr.1;
        }
    }
    let got = guarded(|| (sh.shape(), sh.permute_vec(&data), sh.is_identity_permutation())).map_err(|e| format!("a shape history panicked: {e}"))?;
    if got.0 != cur || got.1 != model {
        return Err(format!("a shape history gives {:?} of shape {:?}, expected {model:?} of shape {cur:?}", got.1, got.0));
    }
    if got.2 && model != data {
        return Err("a shape history that moves elements counts as the identity".into());
    }
    ctx.tag_if(moved, "moved history");
    // padding
    let (from, total, to) = nd_pad(&cur, data.len());
    if (shape_vec_len(&cur), shape_vec_padded_len(&cur)) != (data.len(), total) {
        return Err(format!("lengths of shape {cur:?}: {} and {}", shape_vec_len(&cur), shape_vec_padded_len(&cur)));
    }
    let im = shape_padded_mapping(&cur);
    if im.mapping() != &to {
        return Err(format!("shape {cur:?} is padded with the mapping {:?}, expected {to:?}", im.mapping()));
    }
    let p = guarded(|| multi_dimension_data_padding(&cur, &model)).map_err(|e| format!("padding panicked: {e}"))?;
    let want: Vec<usize> = from.iter().map(|&i| model[i]).collect();
    if p != want {
        return Err(format!("{model:?} of shape {cur:?} is padded to {p:?}, expected {want:?}"));
    }

    // refusals
    let h = g.below(t.hs.len());
    let a = &t.hs[h].arr;
    let dh = &r.hs[h];
    let bad = match g.below(6) {
        0 => {
            let n = a.v.len() + 1 + g.below(3);
            let mut s = factors(g, n, 3);
            if prod(&s) == a.v.len() {
                s.push(2);
            }
            (guarded(|| dh.reshape(&s)).is_err(), format!("reshaping {:?} to {s:?}", a.shape))
        }
        1 => {
            let n = a.shape.len();
            let m = if n > 0 && g.bool() { n - 1 } else { n + 1 };
            let mut x: Vec<usize> = (0..m).collect();
            g.shuffle(&mut x);
            (guarded(|| dh.transpose(&x)).is_err(), format!("transposing shape {:?} with axes {x:?}", a.shape))
        }
        2 if a.shape.len() >= 2 => {
            let mut x: Vec<usize> = (0..a.shape.len()).collect();
            g.shuffle(&mut x);
            let i = g.below(x.len());
            let j = (i + 1) % x.len();
            x[i] = x[j];
            (guarded(|| dh.transpose(&x)).is_err(), format!("transposing shape {:?} with axes {x:?}", a.shape))
        }
        3 if !a.shape.is_empty() => {
            let mut x: Vec<usize> = (0..a.shape.len()).collect();
            let i = g.below(x.len());
            x[i] = x.len() + g.below(2);
            (guarded(|| dh.transpose(&x)).is_err(), format!("transposing shape {:?} with axes {x:?}", a.shape))
        }
        4 => {
            let n = a.shape.len();
            let k = if n > 0 && g.bool() { n - 1 } else { n + 1 };
            (wrong_rank::<C>(&r.cx, dh, k), format!("copying shape {:?} to a nesting of depth {k}", a.shape))
        }
        _ => {
            // ragged or empty vectors
            let mut v: Vec<Vec<Fe<C>>> = (0..2 + g.below(3)).map(|_| vec![one::<C>(); 3]).collect();
            let i = g.below(v.len());
            let n = *g.pick(&[0, 1, 2, 4]);
            v[i] = vec![one::<C>(); n];
            if g.chance(1, 3) {
                v = vec![];
            }
            let mut cx: Cx<C> = expander_compiler::zkcuda::context::Context::new(kern::hints::<C>());
            (guarded(|| cx.copy_to_device(&v)).is_err(), format!("copying rows of lengths {:?} to the device", v.iter().map(|x| x.len()).collect::<Vec<_>>()))
        }
    };
    if !bad.0 {
        return Err(format!("{} is not refused", bad.1));
    }
    Ok(())
}
fn ndt(shape: &[usize], v: &[usize], axes: &[usize]) -> (Vec<usize>, Vec<usize>) {
    use expander_compiler::circuit::config::BN254Config as B;
    let a = Arr::<B> { shape: shape.to_vec(), v: (0..v.len()).map(|i| vec![fu::<B>(i as u64)]).collect() };
    use arith::Field as _;
    let b = a.transpose(axes);
    (b.shape, b.v.iter().map(|x| v[x[0].to_u256().as_usize()]).collect())
}
fn z01(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, z01_f, g, ctx)
}

fn z02_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let t = History::<C>::gen(g, &HOpts { ops: 9, calls: 5, transpose: true, hints: true, asserts: true, max: 32, split: false });
    ctx.describe(|| t.describe());
    note(&t, ctx);
    let Some(mut r) = run_all(&t, ctx)? else { return Ok(()) };
    for (i, h) in t.hs.iter().enumerate() {
        check_back::<C>(&r.cx, &r.hs[i], &h.arr, &format!("a{i}"))?;
        ctx.units += 1;
    }
    if let Some(what) = bad_call(g, &t, &mut r)? {
        return Err(format!("{what} is not refused"));
    }
    Ok(())
}
pub fn note<C: Config>(t: &History<C>, ctx: &mut Ctx) {
    ctx.tag(format!("field {}", field_bits::<C>()));
    let mut calls = 0;
    for o in &t.ops {
        if let Op::Call { k, n, args } = o {
            calls += 1;
            ctx.tag_if(*n > 1, "several slices");
            for (a, h) in t.kernels[*k].args.iter().zip(args) {
                ctx.tag(match (a.inp, a.out) {
                    (true, true) => "in-out argument",
                    (true, false) if t.hs[h.unwrap()].arr.shape.len() == a.shape.len() => "broadcast argument",
                    (true, false) => "split argument",
                    _ => "output argument",
                });
            }
            ctx.tag_if(t.kernels[*k].has_hints(), "hints");
        }
    }
    ctx.tag_if(t.transposed, "transposed");
    ctx.tag_if(t.pow2, "powers of two");
    ctx.tag_if(t.holds.iter().any(|h| !h), "constraints fail");
    ctx.nontrivial(calls >= 2 && !t.outs.is_empty());
}
/// An invalid call; Some: it was accepted.
fn bad_call<C: Config>(g: &mut Gen, t: &History<C>, r: &mut Ran<C>) -> Result<Option<String>, String> {
    let calls: Vec<usize> = (0..t.ops.len()).filter(|&i| matches!(t.ops[i], Op::Call { .. })).collect();
    if calls.is_empty() {
        return Ok(None);
    }
    let Op::Call { k, n, args } = &t.ops[*g.pick(&calls)] else { unreachable!() };
    let kern = &t.kernels[*k];
    let kp = r.kernels[*k].as_ref().unwrap();
    let mut n = *n;
    let mut io: Vec<_> = args.iter().map(|a| a.and_then(|a| r.hs[a].clone())).collect();
    let ins: Vec<usize> = (0..io.len()).filter(|&i| kern.args[i].inp).collect();
    let split: Vec<usize> = ins.iter().copied().filter(|&i| t.hs[args[i].unwrap()].arr.shape.len() > kern.args[i].shape.len()).collect();
    let what = match g.below(5) {
        0 => {
            if g.bool() {
                io.push(None);
            } else {
                io.pop();
            }
            format!("kernel {k} with {} arguments", io.len())
        }
        1 if !ins.is_empty() => {
            let i = *g.pick(&ins);
            io[i] = None;
            format!("kernel {k} without argument {i}")
        }
        2 if !split.is_empty() => {
            n += 1;
            format!("kernel {k} with {n} slices")
        }
        3 if !ins.is_empty() => {
            // another shape of the same size, or another size
            let i = *g.pick(&ins);
            let a = &t.hs[args[i].unwrap()].arr;
            let s = factors(g, a.v.len(), 5);
            let want = &kern.args[i].shape;
            let mut full = vec![n];
            full.extend(want);
            if (s == *want && !kern.args[i].out) || s == full {
                return Ok(None);
            }
            let h = guarded(|| io[i].reshape(&s)).map_err(|e| format!("reshaping panicked: {e}"))?;
            io[i] = h;
            format!("kernel {k} with {n} slices and argument {i} of shape {s:?}")
        }
        _ => {
            // an in-out argument handed in whole
            let Some(&i) = ins.iter().find(|&&i| kern.args[i].out) else { return Ok(None) };
            let s = kern.args[i].shape.clone();
            let v = values::<C>(g, &s, false);
            io[i] = copy_in::<C>(&mut r.cx, &Arr { shape: s, v }, 0);
            format!("kernel {k} with in-out argument {i} broadcast")
        }
    };
    Ok(match guarded(|| r.cx.call_kernel(kp, n, &mut io).is_ok()) {
        Ok(true) => Some(what),
        _ => None,
    })
}
fn z02(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, z02_f, g, ctx)
}

fn p(id: &'static str, rule: &'static str, case: fn(&mut Gen, &mut Ctx) -> Result<(), String>, quick: usize, assumptions: &'static [&'static str]) -> Prop {
    Prop { id, rule, case, directed: None, quick, thorough: quick * 100, threads: 8, assumptions, min_nontrivial_pct: 20 }
}
const STANDINS: &[&str] = &["field arithmetic and serialization of the stand-ins for Expander's crates are correct"];

fn main() {
    pbt::main(&[
        p("Z01", "at least two shape operations and an array of at least four elements", z01, 600_000, STANDINS),
        p("Z02", "at least two launches, one with outputs", z02, 120_000, STANDINS),
        Prop { min_nontrivial_pct: 10, ..p("Z03", "at least two launches, one with outputs, whose graph compiles", z03::z03, 40_000, STANDINS) },
    ])
}
