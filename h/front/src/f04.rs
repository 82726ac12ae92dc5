//! F04: built-in hints, the registry, and what programs hand to their hints.
use crate::*;
use arith::Field as _;
use ecgen::refeval;
use expander_compiler::declare_circuit;
use expander_compiler::frontend::{Define, RootAPI, Variable};
use expander_compiler::hints::registry::{hint_key_to_id, EmptyHintCaller, HintCaller, StubHintCaller};
use expander_compiler::hints::{self, BuiltinHintIds};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// (inputs, outputs) of a built-in hint; None where any count serves.
fn arity(k: usize) -> (Option<usize>, Option<usize>) {
    match k {
        0 => (None, None),
        9 => (Some(3), Some(1)),
        19 => (Some(1), None),
        _ => (Some(2), Some(1)),
    }
}
const FIRST: usize = BuiltinHintIds::Identity as u64 as usize;
const NAMES: [&str; 20] = [
    "identity", "div", "eq", "not_eq", "bool_or", "bool_and", "bit_or", "bit_and", "bit_xor", "select", "pow", "int_div", "mod", "shift_l", "shift_r", "lesser_eq",
    "greater_eq", "lesser", "greater", "to_binary",
];

fn builtin<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let k = g.below(20);
    let id = FIRST + k;
    let (ni, no) = arity(k);
    let mut n_in = ni.unwrap_or(1 + g.small(6));
    let mut n_out = no.unwrap_or_else(|| if k == 0 { n_in } else { 1 + g.below(field_bits::<C>() + 40) });
    let mut x: Vec<Fe<C>> = (0..n_in).map(|_| fe::<C>(g)).collect();
    if n_in >= 2 && g.chance(1, 4) {
        x[1] = x[0];
    }
    if k == 13 || k == 14 {
        // shifts by small amounts, and by what counts as a negative amount
        match g.below(3) {
            0 => x[1] = fu::<C>(g.below(300) as u64),
            1 => x[1] = zero::<C>() - fu::<C>(g.below(300) as u64),
            _ => {}
        }
    }
    ctx.tag(NAMES[k]);
    ctx.describe(|| format!("{} of {} to {n_out}, field of {} bits", NAMES[k], show_all::<C>(&x), field_bits::<C>()));
    let want = refeval::builtin::<C>(id, &x, n_out).unwrap();
    let got = guarded(|| hints::safe_impl(&EmptyHintCaller::new(), id, &x, n_out)).map_err(|e| format!("panicked: {e}"))?;
    let stub = guarded(|| hints::safe_impl(&StubHintCaller, id, &x, n_out)).map_err(|e| format!("panicked: {e}"))?;
    for got in [&got, &stub] {
        match (&want, got) {
            (Ok(w), Ok(r)) if w == r => {}
            (Err(_), Err(_)) => {}
            _ => return Err(format!("gives {:?}, expected {:?}", got.as_ref().map(|r| show_all::<C>(r)).ok(), want.as_ref().map(|r| show_all::<C>(r)).ok())),
        }
    }
    if let Ok(w) = &want {
        let k = BuiltinHintIds::from_usize(id).ok_or("the identifier is not known")?;
        if hints::impl_builtin_hint(k, &x, n_out) != *w || hints::stub_impl(id, &x, n_out) != *w {
            return Err("the unchecked form gives another result".into());
        }
        ctx.nontrivial(x.iter().all(|x| !x.is_zero()));
    }
    hints::validate_hint(id, n_in, n_out).map_err(|e| format!("{n_in} inputs and {n_out} outputs are refused: {e}"))?;
    // counts that do not fit
    if g.bool() || ni.is_none() && no.is_none() {
        n_in = g.below(6);
    } else {
        n_out = g.below(4);
    }
    let fits = ni.map_or(n_in > 0, |n| n == n_in) && no.map_or(n_out > 0, |n| n == n_out) && (k != 0 || n_in == n_out);
    if hints::validate_hint(id, n_in, n_out).is_ok() != fits {
        return Err(format!("{n_in} inputs and {n_out} outputs: accepted is {}", !fits));
    }
    let user = 1 + g.below(1 << 40);
    if hints::validate_hint(user, n_in, n_out).is_ok() != (n_in > 0 && n_out > 0) {
        return Err(format!("a user hint of {n_in} inputs and {n_out} outputs: accepted is {}", !(n_in > 0 && n_out > 0)));
    }
    let other = if g.bool() { FIRST + 20 + g.below(100) } else { FIRST - 1 - g.below(100) };
    if BuiltinHintIds::from_usize(other).is_some() {
        return Err(format!("{other} counts as a built-in hint"));
    }
    ctx.units += 1;
    Ok(())
}

thread_local! {
    static LOG: RefCell<Vec<(usize, Vec<ethnum::U256>)>> = const { RefCell::new(vec![]) };
}
/// Hint number K: logs, fails if its first input is zero and K is 3.
fn logged<C: Config, const K: usize>(x: &[Fe<C>], y: &mut [Fe<C>]) -> Result<(), Error> {
    LOG.with(|l| l.borrow_mut().push((K, x.iter().map(|x| x.to_u256()).collect())));
    if K == 3 && x[0].is_zero() {
        return Err(Error::UserError("no".into()));
    }
    let r = formula::<C>(K, x, y.len());
    y.copy_from_slice(&r);
    Ok(())
}
fn formula<C: Config>(k: usize, x: &[Fe<C>], n: usize) -> Vec<Fe<C>> {
    (0..n).map(|j| x.iter().enumerate().fold(fu::<C>((j + 10 * k) as u64), |s, (i, v)| s * fu::<C>(2 + i as u64) + *v * fu::<C>((1 + j + 3 * i) as u64))).collect()
}
fn key(g: &mut Gen) -> String {
    let n = g.small(12);
    let s: String = (0..n).map(|_| *g.pick(&['a', 'b', '.', '0', 'é', ' '])).collect();
    if g.bool() {
        format!("hint.{s}")
    } else {
        s
    }
}
fn registry<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let table: [fn(&[Fe<C>], &mut [Fe<C>]) -> Result<(), Error>; 4] = [logged::<C, 0>, logged::<C, 1>, logged::<C, 2>, logged::<C, 3>];
    let mut reg = HintRegistry::<Fe<C>>::new();
    let mut model: BTreeMap<String, usize> = BTreeMap::new();
    let keys: Vec<String> = (0..1 + g.small(6)).map(|_| key(g)).collect();
    let mut steps = vec![];
    LOG.with(|l| l.borrow_mut().clear());
    let mut calls = 0;
    for _ in 0..1 + g.small(14) {
        let k = g.pick(&keys).clone();
        let id = hint_key_to_id(&k);
        if id != hint_key_to_id(&k) || BuiltinHintIds::from_usize(id).is_some() {
            return Err(format!("key {k:?} has the identifier {id}"));
        }
        if g.chance(2, 5) {
            let f = g.below(4);
            steps.push(format!("register {k:?} as {f}"));
            let mut r2 = reg.clone();
            let r = guarded(move || {
                r2.register(&k, table[f]);
                r2
            });
            let k = steps.last().map(|_| ()).map(|_| keys.iter().find(|k| hint_key_to_id(k) == id).unwrap().clone()).unwrap();
            match r {
                Ok(_) if model.contains_key(&k) => return Err(format!("after {steps:?}: a key is registered twice")),
                Ok(r) => {
                    reg = r;
                    model.insert(k, f);
                }
                Err(_) if model.contains_key(&k) => ctx.tag("registered twice"),
                Err(e) => return Err(format!("after {steps:?}: {e}")),
            }
        } else {
            let x: Vec<Fe<C>> = (0..1 + g.small(4)).map(|_| fe::<C>(g)).collect();
            let n = 1 + g.small(4);
            steps.push(format!("call {k:?} on {} for {n}", show_all::<C>(&x)));
            let r = match g.below(3) {
                0 => reg.call(id, &x, n),
                1 => HintCaller::call(&reg, id, &x, n),
                _ => hints::safe_impl(&reg, id, &x, n),
            };
            let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
            let f = model.get(&k).copied();
            let want_log: Vec<_> = f.iter().map(|&f| (f, x.iter().map(|x| x.to_u256()).collect::<Vec<_>>())).collect();
            if log != want_log {
                return Err(format!("after {steps:?}: hints ran {log:?}, expected {want_log:?}"));
            }
            let want = match f {
                None => None,
                Some(3) if x[0].is_zero() => None,
                Some(f) => Some(formula::<C>(f, &x, n)),
            };
            calls += want.is_some() as usize;
            ctx.tag_if(f.is_none(), "unknown hint");
            ctx.tag_if(f == Some(3) && want.is_none(), "failing hint");
            if r.as_ref().ok() != want.as_ref() {
                return Err(format!("after {steps:?}: {r:?}, expected {want:?}"));
            }
            if EmptyHintCaller::new().call(id, &x, n).is_ok() as usize + hints::safe_impl(&EmptyHintCaller::new(), id, &x, n).is_ok() as usize > 0 {
                return Err("the empty registry knows a hint".into());
            }
        }
        ctx.units += 1;
    }
    // different keys, different hints
    for a in &keys {
        for b in &keys {
            if (a == b) != (hint_key_to_id(a) == hint_key_to_id(b)) {
                return Err(format!("identifiers of {a:?} and {b:?}"));
            }
        }
    }
    ctx.describe(|| format!("{steps:?}"));
    ctx.nontrivial(calls >= 2);
    Ok(())
}

/// A chain of hint calls: key, arguments (inputs then results so far), number of results.
#[derive(Clone, Default)]
struct Calls {
    nx: usize,
    calls: Vec<(usize, Vec<usize>, usize)>,
}
thread_local! {
    static CALLS: RefCell<Calls> = RefCell::new(Calls::default());
}
declare_circuit!(HintCir { x: [Variable] });
impl<C: Config> Define<C> for HintCir<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let p = CALLS.with(|c| c.borrow().clone());
        let mut v = self.x.clone();
        for (k, args, n) in &p.calls {
            let a: Vec<Variable> = args.iter().map(|&i| v[i]).collect();
            let r = api.new_hint(&format!("case.{k}"), &a, *n);
            assert_eq!(r.len(), *n, "results of a hint");
            v.extend(r);
        }
        let out = v[p.nx..].to_vec();
        api.set_outputs(out);
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    TooFew,
    TooMany,
    Fails,
}
/// Logs what it is asked; misbehaves on one key.
#[derive(Clone)]
struct Caller {
    log: Arc<Mutex<Vec<(usize, Vec<ethnum::U256>, usize)>>>,
    fault: Fault,
    on: usize,
}
impl<F: expander_compiler::field::Field + 'static> HintCaller<F> for Caller {
    fn call(&self, id: usize, x: &[F], n: usize) -> Result<Vec<F>, Error> {
        let k = (0..8).find(|k| hint_key_to_id(&format!("case.{k}")) == id).ok_or(Error::UserError("unknown".into()))?;
        self.log.lock().unwrap().push((k, x.iter().map(|x| x.to_u256()).collect(), n));
        let mut r: Vec<F> = (0..n + 1)
            .map(|j| x.iter().enumerate().fold(F::from((j + 10 * k) as u32), |s, (i, v)| s * F::from(2 + i as u32) + *v * F::from((1 + j + 3 * i) as u32)))
            .collect();
        r.truncate(match self.fault {
            _ if k != self.on => n,
            Fault::None => n,
            Fault::TooFew => n - 1,
            Fault::TooMany => n + 1,
            Fault::Fails => return Err(Error::UserError("failing".into())),
        });
        Ok(r)
    }
}
fn programs<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let mut p = Calls { nx: 1 + g.small(3), calls: vec![] };
    let mut n = p.nx;
    for _ in 0..1 + g.small(5) {
        let k = g.below(8);
        let args = (0..1 + g.small(3)).map(|_| g.below(n)).collect();
        let out = 1 + g.small(3);
        p.calls.push((k, args, out));
        n += out;
    }
    let used: Vec<usize> = p.calls.iter().map(|c| c.0).collect();
    let fault = *g.pick(&[Fault::None, Fault::None, Fault::TooFew, Fault::TooMany, Fault::Fails]);
    let on = if fault == Fault::None { 99 } else { *g.pick(&used) };
    let lots = g.chance(1, 3);
    let xs: Vec<Vec<Fe<C>>> = (0..if lots { 1 + g.below(5) } else { 1 }).map(|_| (0..p.nx).map(|_| fe::<C>(g)).collect()).collect();
    let way = if lots { 2 } else { g.below(2) };
    ctx.tag(format!("{fault:?}"));
    ctx.tag(["single witness", "debug evaluation", "several witnesses"][way]);
    ctx.describe(|| format!("{} inputs, calls (key, arguments, results) {:?}, {fault:?} on {on}, inputs {:?}", p.nx, p.calls, xs.iter().map(|x| show_all::<C>(x)).collect::<Vec<_>>()));
    CALLS.with(|c| *c.borrow_mut() = p.clone());
    // expected calls and results
    let mut want_log = vec![];
    let mut want_out = vec![];
    for x in &xs {
        let mut v = x.clone();
        for (k, args, n) in &p.calls {
            let a: Vec<Fe<C>> = args.iter().map(|&i| v[i]).collect();
            want_log.push((*k, a.iter().map(|x| x.to_u256()).collect::<Vec<_>>(), *n));
            v.extend(formula::<C>(*k, &a, *n));
        }
        want_out.push(v[p.nx..].to_vec());
    }
    let caller = Caller { log: Default::default(), fault, on };
    let cir = HintCir { x: vec![Variable::default(); p.nx] };
    let asg: Vec<HintCir<Fe<C>>> = xs.iter().map(|x| HintCir { x: x.clone() }).collect();
    let outs = if way == 1 {
        let c = caller.clone();
        guarded(|| debug_eval::<C, _, _, _>(&cir, &asg[0], c)).map(|o| vec![o])
    } else {
        let b = guarded(|| compile::<C, _>(&cir, CompileOptions::default()))
            .map_err(|e| format!("compiling panicked: {e}"))?
            .map_err(|e| format!("compiling failed: {e}"))?;
        let w = if way == 0 {
            guarded(|| b.witness_solver.solve_witness_with_hints(&asg[0], &caller))
        } else {
            guarded(|| b.witness_solver.solve_witnesses_with_hints(&asg, &caller))
        };
        let w = w.map_err(|e| format!("solving panicked instead of returning an error: {e}"))?;
        match w {
            Ok(w) => w
                .iter_scalar()
                .map(|(x, p)| {
                    let (o, sat) = b.layered_circuit.eval_with_public_inputs(x, &p);
                    if sat {
                        Ok(o)
                    } else {
                        Err("the witness is refused".to_string())
                    }
                })
                .collect::<Result<Vec<_>, _>>()
                .map(Ok)?,
            Err(e) => Err(format!("{e}")),
        }
    };
    let mut log = caller.log.lock().unwrap().clone();
    log.sort();
    log.dedup();
    want_log.sort();
    want_log.dedup();
    match (outs, fault) {
        (Ok(o), Fault::None) => {
            if o != want_out {
                return Err(format!("outputs {:?}, expected {:?}", o.iter().map(|x| show_all::<C>(x)).collect::<Vec<_>>(), want_out.iter().map(|x| show_all::<C>(x)).collect::<Vec<_>>()));
            }
            if log != want_log {
                return Err(format!("hints were called as {log:?}, expected {want_log:?}"));
            }
        }
        (Ok(_), _) => return Err("the misbehaving hint went unnoticed".into()),
        (Err(e), Fault::None) => return Err(format!("failed: {e}")),
        (Err(_), _) => {}
    }
    ctx.units += xs.len() as u64;
    ctx.nontrivial(p.calls.len() >= 2);
    Ok(())
}

pub fn f04(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.weighted(&[6, 2, 3]) {
        0 => per_field!(g, builtin, g, ctx),
        1 => {
            ctx.tag("registry");
            per_field!(g, registry, g, ctx)
        }
        _ => per_field!(g, programs, g, ctx),
    }
}
