//! F06: expressions and linear combinations as polynomials, input mappings as functions.
use crate::*;
use arith::{Field as _, SimdField};
use expander_compiler::circuit::config::SIMDField;
use expander_compiler::circuit::input_mapping::{InputMapping, EMPTY};
use expander_compiler::circuit::ir::expr::{Expression, LinComb, LinCombTerm, Term, VarSpec};
use std::collections::BTreeMap;

/// What a term multiplies: nothing, a variable, two variables in order, a gate.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Mono {
    One,
    Var(usize),
    Two(usize, usize),
    Gate(usize, Vec<usize>),
}
type Poly<C> = BTreeMap<Mono, Fe<C>>;
fn spec(m: &Mono) -> VarSpec {
    match m {
        Mono::One => VarSpec::Const,
        Mono::Var(x) => VarSpec::Linear(*x),
        Mono::Two(x, y) => VarSpec::Quad(*x, *y),
        Mono::Gate(t, v) => VarSpec::Custom { gate_type: *t, inputs: v.clone() },
    }
}
fn sorted(m: &Mono) -> Mono {
    match m {
        Mono::Two(x, y) => Mono::Two(*x.max(y), *x.min(y)),
        m => m.clone(),
    }
}
fn mono(s: &VarSpec) -> Option<Mono> {
    Some(match s {
        VarSpec::Const => Mono::One,
        VarSpec::Linear(x) => Mono::Var(*x),
        VarSpec::Quad(x, y) => Mono::Two(*x, *y),
        VarSpec::Custom { gate_type, inputs } => Mono::Gate(*gate_type, inputs.clone()),
        VarSpec::RandomLinear(_) => return None,
    })
}
fn poly<C: Config>(ts: &[(Mono, Fe<C>)]) -> Poly<C> {
    let mut p = Poly::<C>::new();
    for (m, c) in ts {
        let e = p.entry(sorted(m)).or_insert(zero::<C>());
        *e = *e + *c;
    }
    p.retain(|_, c| !c.is_zero());
    p
}
fn eval<C: Config>(ts: &[(Mono, Fe<C>)], v: &[Fe<C>]) -> Fe<C> {
    ts.iter().fold(zero::<C>(), |s, (m, c)| {
        s + *c
            * match m {
                Mono::One => one::<C>(),
                Mono::Var(x) => v[*x],
                Mono::Two(x, y) => v[*x] * v[*y],
                // any function of the arguments serves
                Mono::Gate(t, a) => a.iter().fold(fu::<C>(*t as u64), |s, &i| s * fu::<C>(3) + v[i] + v[i] * v[i] * v[i]),
            }
    })
}
fn terms_of<C: Config>(e: &Expression<C>) -> Result<Vec<(Mono, Fe<C>)>, String> {
    e.iter().map(|t| Ok((mono(&t.vars).ok_or("a random term appeared")?, t.coef))).collect()
}
fn to_terms<C: Config>(ts: &[(Mono, Fe<C>)]) -> Vec<Term<C>> {
    ts.iter().map(|(m, c)| Term { coef: *c, vars: spec(m) }).collect()
}
/// The expression is the canonical form of the polynomial.
fn canonical<C: Config>(what: &str, e: &Expression<C>, p: &Poly<C>) -> Result<(), String> {
    let ts = terms_of(e)?;
    let mut seen = Poly::<C>::new();
    for (i, (m, c)) in ts.iter().enumerate() {
        if sorted(m) != *m {
            return Err(format!("{what}: the factors of {m:?} are not in order in {e}"));
        }
        if seen.insert(m.clone(), *c).is_some() {
            return Err(format!("{what}: two terms {m:?} in {e}"));
        }
        if c.is_zero() && (ts.len() != 1 || *m != Mono::One) {
            return Err(format!("{what}: a zero term in {e}"));
        }
        if i > 0 && spec(&ts[i - 1].0) >= spec(m) {
            return Err(format!("{what}: terms out of order in {e}"));
        }
    }
    if ts.is_empty() {
        return Err(format!("{what}: no terms"));
    }
    if poly::<C>(&ts) != *p {
        return Err(format!("{what} is {e}, expected {p:?}"));
    }
    Ok(())
}
fn coef<C: Config>(g: &mut Gen) -> Fe<C> {
    match g.below(4) {
        0 => one::<C>(),
        1 => zero::<C>() - one::<C>(),
        2 => fu::<C>(g.below(3) as u64),
        _ => fe::<C>(g),
    }
}
fn gen_mono(g: &mut Gen, n: usize, deg: usize) -> Mono {
    match g.below(1 + [1, 2, 5][deg]) {
        0 | 1 if deg == 0 => Mono::One,
        0 => Mono::One,
        1 | 2 if deg == 1 => Mono::Var(1 + g.below(n)),
        1 => Mono::Var(1 + g.below(n)),
        2 => Mono::Gate(1 + g.below(2), (0..1 + g.small(2)).map(|_| 1 + g.below(n)).collect()),
        _ => Mono::Two(1 + g.below(n), 1 + g.below(n)),
    }
}
fn gen_terms<C: Config>(g: &mut Gen, n: usize, deg: usize) -> Vec<(Mono, Fe<C>)> {
    let mut ts: Vec<(Mono, Fe<C>)> = vec![];
    for _ in 0..g.small(8) {
        let m = if !ts.is_empty() && g.chance(1, 3) { ts[g.below(ts.len())].0.clone() } else { gen_mono(g, n, deg) };
        ts.push((m, coef::<C>(g)));
    }
    // cancellation
    if !ts.is_empty() && g.chance(1, 3) {
        let (m, c) = g.pick(&ts).clone();
        ts.push((m, zero::<C>() - c));
    }
    ts
}
fn swapped<C: Config>(g: &mut Gen, ts: &[(Mono, Fe<C>)]) -> Vec<(Mono, Fe<C>)> {
    let mut r = vec![];
    for (m, c) in ts {
        let m = match m {
            Mono::Two(x, y) if g.bool() => Mono::Two(*y, *x),
            m => m.clone(),
        };
        if g.chance(1, 3) {
            let d = coef::<C>(g);
            r.push((m.clone(), d));
            r.push((m, *c - d));
        } else {
            r.push((m, *c));
        }
    }
    for i in (1..r.len()).rev() {
        r.swap(i, g.below(i + 1));
    }
    r
}

fn expressions<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let n = 1 + g.small(4);
    let ts = gen_terms::<C>(g, n, 2);
    let p = poly::<C>(&ts);
    ctx.tag(format!("{} distinct terms", p.len().min(4)));
    ctx.describe(|| format!("terms {ts:?}"));
    ctx.nontrivial(ts.len() >= 2 && p.len() < ts.len() && !p.is_empty());
    let v: Vec<Fe<C>> = (0..=n).map(|_| fe::<C>(g)).collect();
    let e = Expression::<C>::from_terms(to_terms::<C>(&ts));
    canonical::<C>("from_terms", &e, &p)?;
    if eval::<C>(&terms_of::<C>(&e)?, &v) != eval::<C>(&ts, &v) {
        return Err("from_terms changes the value".into());
    }
    let other = swapped::<C>(g, &ts);
    let e2 = Expression::<C>::from_terms(to_terms::<C>(&other));
    if e != e2 || pbt::hash_of(&e) != pbt::hash_of(&e2) || e.cmp(&e2) != std::cmp::Ordering::Equal {
        return Err(format!("equal polynomials as {e} and {e2}, from {other:?}"));
    }
    let ts3 = if g.bool() { gen_terms::<C>(g, n, 2) } else { [&ts[..], &[(gen_mono(g, n, 2), coef::<C>(g))]].concat() };
    let (e3, p3) = (Expression::<C>::from_terms(to_terms::<C>(&ts3)), poly::<C>(&ts3));
    if (e == e3) != (p == p3) || (e.cmp(&e3) == std::cmp::Ordering::Equal) != (p == p3) || e.cmp(&e3) != e3.cmp(&e).reverse() {
        return Err(format!("comparing {e} with {e3}"));
    }
    // sums
    let both = Expression::<C>::from_terms(e.to_vec().into_iter().chain(e3.to_vec()).collect());
    canonical::<C>("sum", &both, &poly::<C>(&[&ts[..], &ts3[..]].concat()))?;
    // scaling
    let k = coef::<C>(g);
    let scaled: Vec<_> = ts.iter().map(|(m, c)| (m.clone(), *c * k)).collect();
    canonical::<C>("mul_constant", &e.mul_constant(k), &poly::<C>(&scaled))?;
    // products of linear expressions
    let (a, b) = (gen_terms::<C>(g, n, 1), gen_terms::<C>(g, n, 1));
    let (ea, eb) = (Expression::<C>::from_terms(to_terms::<C>(&a)), Expression::<C>::from_terms(to_terms::<C>(&b)));
    let prod = Expression::<C>::from_terms(ea.iter().flat_map(|x| eb.iter().map(|y| x.mul(y)).collect::<Vec<_>>()).collect());
    let want: Vec<(Mono, Fe<C>)> = a
        .iter()
        .flat_map(|(m, c)| {
            b.iter()
                .map(|(n, d)| {
                    let r = match (m, n) {
                        (Mono::One, x) | (x, Mono::One) => x.clone(),
                        (Mono::Var(x), Mono::Var(y)) => Mono::Two(*x, *y),
                        _ => unreachable!(),
                    };
                    (r, *c * *d)
                })
                .collect::<Vec<_>>()
        })
        .collect();
    canonical::<C>("product", &prod, &poly::<C>(&want))?;
    // a product with a constant on either side
    if let Some(t) = e.first() {
        let c = Term::new_const(k);
        for r in [t.mul(&c), c.mul(t)] {
            if r.coef != t.coef * k || r.vars != t.vars {
                return Err(format!("{t} times {c} is {r}"));
            }
        }
    }
    // substitution
    let f: Vec<usize> = (0..=n).map(|_| 1 + g.below(n)).collect();
    let s = e.replace_vars(|x| f[x]);
    let fv: Vec<Fe<C>> = f.iter().map(|&x| v[x]).collect();
    if eval::<C>(&terms_of(&s)?, &v) != eval::<C>(&ts, &fv) {
        return Err(format!("replacing variables by {f:?} in {e} gives {s}"));
    }
    // what is read off
    let deg = |m: &Mono| match m {
        Mono::One => 0,
        Mono::Var(_) => 1,
        _ => 2,
    };
    let mut counts = [0; 3];
    p.keys().for_each(|m| counts[deg(m)] += 1);
    let d = p.keys().map(deg).max().unwrap_or(0);
    if e.degree() != d {
        return Err(format!("degree of {e} is {}", e.degree()));
    }
    if p.is_empty() {
        counts[0] = e.count_of_degrees()[0];
    }
    if e.count_of_degrees() != counts {
        return Err(format!("terms of each degree in {e}: {:?}, expected {counts:?}", e.count_of_degrees()));
    }
    let want = match p.len() {
        0 => Some(zero::<C>()),
        1 => p.get(&Mono::One).copied(),
        _ => None,
    };
    if e.constant_value() != want {
        return Err(format!("constant value of {e} is {:?}", e.constant_value()));
    }
    let mut vars: Vec<usize> = e.get_vars();
    let mut want: Vec<usize> = p
        .keys()
        .flat_map(|m| match m {
            Mono::One => vec![],
            Mono::Var(x) => vec![*x],
            Mono::Two(x, y) => vec![*x, *y],
            Mono::Gate(_, v) => v.clone(),
        })
        .collect();
    vars.sort();
    want.sort();
    if vars != want {
        return Err(format!("variables of {e}: {vars:?}"));
    }
    if e.clone().to_terms() != *e {
        return Err("to_terms".into());
    }
    // terms given in order
    let given = to_terms::<C>(&ts);
    let fine = ts.iter().all(|t| sorted(&t.0) == t.0) && given.windows(2).all(|w| w[0].vars < w[1].vars);
    match guarded(|| Expression::from_terms_sorted(given.clone())) {
        Ok(x) if fine && !given.is_empty() && *x != given => return Err(format!("sorted terms {given:?} became {x}")),
        Ok(x) if given.is_empty() && x != Expression::default() => return Err(format!("no terms became {x}")),
        Ok(x) if !fine => return Err(format!("from_terms_sorted accepts {x}")),
        Err(e) if fine => return Err(format!("from_terms_sorted refuses {given:?}: {e}")),
        _ => {}
    }
    ctx.units += 1;
    Ok(())
}

fn lincombs<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let n = 1 + g.small(5);
    let v: Vec<Fe<C>> = (0..=n).map(|_| fe::<C>(g)).collect();
    let ts: Vec<(usize, Fe<C>)> = (0..g.small(7)).map(|_| (1 + g.below(n), coef::<C>(g))).collect();
    let k = coef::<C>(g);
    let lc = LinComb::<C> { terms: ts.iter().map(|&(var, coef)| LinCombTerm { var, coef }).collect(), constant: k };
    ctx.describe(|| format!("linear combination {lc} at {}", show_all::<C>(&v)));
    ctx.nontrivial(ts.len() >= 2);
    let value = |v: &[Fe<C>]| ts.iter().fold(k, |s, &(x, c)| s + v[x] * c);
    if lc.eval(&v) != value(&v) {
        return Err(format!("eval gives {}", show::<C>(&lc.eval(&v))));
    }
    if lc.get_vars() != ts.iter().map(|t| t.0).collect::<Vec<_>>() {
        return Err("get_vars".into());
    }
    let f: Vec<usize> = (0..=n).map(|_| 1 + g.below(n)).collect();
    let fv: Vec<Fe<C>> = f.iter().map(|&x| v[x]).collect();
    if lc.replace_vars(|x| f[x]).eval(&v) != value(&fv) {
        return Err(format!("replacing variables by {f:?} gives {}", lc.replace_vars(|x| f[x])));
    }
    let w = SIMDField::<C>::PACK_SIZE;
    let lanes: Vec<Vec<Fe<C>>> = (0..w).map(|i| if i == 0 { v.clone() } else { v.iter().map(|x| *x + rand_fe::<C>(g)).collect() }).collect();
    let packed: Vec<SIMDField<C>> = (0..=n).map(|i| SIMDField::<C>::pack(&lanes.iter().map(|l| l[i]).collect::<Vec<_>>())).collect();
    let r = lc.eval_simd(&packed).unpack();
    if r != lanes.iter().map(|l| value(l)).collect::<Vec<_>>() {
        return Err(format!("eval_simd over {w} lanes differs from eval"));
    }
    let (x, a, b) = (g.below(n + 1), coef::<C>(g), coef::<C>(g));
    let l = LinComb::<C>::from_kx_plus_b(x, a, b);
    // variable 0 is none
    let want = if x == 0 { b } else { a * v[x] + b };
    if l.eval(&v) != want || l.terms.iter().any(|t| t.var == 0 || t.coef.is_zero()) {
        return Err(format!("{}*v{x} + {} is {l}", show::<C>(&a), show::<C>(&b)));
    }
    ctx.units += 1;
    Ok(())
}

/// A mapping from a list of positions onto the first `next`, some positions left out.
fn gen_mapping(g: &mut Gen, cur: usize) -> (usize, Vec<Option<usize>>) {
    let mut used: Vec<usize> = (0..cur).filter(|_| g.chance(3, 4)).collect();
    for i in (1..used.len()).rev() {
        used.swap(i, g.below(i + 1));
    }
    let mut m = vec![None; cur];
    for (to, &at) in used.iter().enumerate() {
        m[at] = Some(to);
    }
    (used.len(), m)
}
fn make(next: usize, m: &[Option<usize>]) -> InputMapping {
    InputMapping::new(next, m.iter().map(|x| x.unwrap_or(EMPTY)).collect())
}
fn mappings(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let cur = g.small(8);
    let (mut size, mut model) = (cur, (0..cur).map(Some).collect::<Vec<_>>());
    let mut all = InputMapping::new_identity(cur);
    let mut steps = vec![];
    for _ in 0..1 + g.small(3) {
        let (next, m) = gen_mapping(g, size);
        let im = make(next, &m);
        if !im.validate() {
            return Err(format!("{m:?} onto {next} is refused"));
        }
        let composed = all.compose(&im);
        all.compose_in_place(&im);
        if all != composed {
            return Err(format!("composing in place gives {all:?}, apart {composed:?}"));
        }
        for x in model.iter_mut() {
            *x = x.and_then(|x| m[x]);
        }
        size = next;
        steps.push(m);
    }
    ctx.describe(|| format!("mapping of {cur} composed from {steps:?}"));
    ctx.nontrivial(size > 0 && steps.len() >= 2);
    if all.cur_size() != cur || all.next_size() != size || !all.validate() {
        return Err(format!("the composition is {all:?}"));
    }
    for (i, m) in model.iter().enumerate() {
        if all.map(i) != m.unwrap_or(EMPTY) || all.mapping()[i] != m.unwrap_or(EMPTY) {
            return Err(format!("position {i} goes to {}, expected {m:?}", all.map(i)));
        }
    }
    let xs: Vec<u32> = (0..cur as u32).map(|i| 100 + i).collect();
    let mut want = vec![0; size];
    for (i, m) in model.iter().enumerate() {
        if let Some(m) = m {
            want[*m] = xs[i];
        }
    }
    if all.map_inputs(&xs) != want {
        return Err(format!("inputs become {:?}, expected {want:?}", all.map_inputs(&xs)));
    }
    // not onto, not injective, out of range
    if size > 0 {
        let mut bad = model.clone();
        let at = (0..cur).filter(|&i| bad[i].is_some()).nth(g.below(size)).unwrap();
        let (how, next) = match g.below(3) {
            0 => {
                bad[at] = None;
                ("not onto", size)
            }
            1 if cur > size => {
                let free = (0..cur).find(|&i| bad[i].is_none()).unwrap();
                bad[free] = bad[at];
                ("two to one", size)
            }
            1 => ("not onto", size + 1),
            _ => {
                bad[at] = Some(size + g.below(2));
                ("out of range", size)
            }
        };
        if make(next, &bad).validate() {
            return Err(format!("{bad:?} onto {next}, {how}, is accepted"));
        }
    }
    ctx.units += 1;
    Ok(())
}

pub fn f06(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.weighted(&[5, 2, 2]) {
        0 => {
            ctx.tag("expressions");
            per_field!(g, expressions, g, ctx)
        }
        1 => {
            ctx.tag("linear combinations");
            per_field!(g, lincombs, g, ctx)
        }
        _ => {
            ctx.tag("input mappings");
            mappings(g, ctx)
        }
    }
}
