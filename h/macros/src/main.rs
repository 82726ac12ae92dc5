//! U04: what the real macros expand generated declarations to.
use ecgen::*;
use expander_compiler::frontend::internal::{DumpLoadTwoVariables, DumpLoadVariables};
use expander_compiler::frontend::*;
use expander_compiler::zkcuda::context::{call_kernel, Context, DeviceMemoryHandle};
use expander_compiler::zkcuda::kernel::{compile_with_spec_and_shapes, kernel, IOVecSpec, KernelPrimitive};
use expander_compiler::zkcuda::shape::Reshape;
use pbt::{guarded, Ctx, Gen, Prop};
use std::cell::RefCell;

#[allow(unused_imports, unused_braces, unused_parens, dead_code, clippy::all)]
mod items {
    use super::*;
    use expander_compiler::frontend::extra;
    const N: usize = 2;
    const M: usize = 3;
    include!(concat!(env!("OUT_DIR"), "/gen.rs"));
}

// ---- a function of a list of values, over variables and over numbers ----

pub fn comb<C: Config, B: RootAPI<C>>(api: &mut B, ins: &[Variable], t: usize) -> Variable {
    let mut acc = api.constant(t as u32 + 1);
    let n = ins.len();
    if n > 0 {
        let m = api.mul(ins[(5 * t + 1) % n], ins[3 * t % n]);
        acc = api.add(acc, m);
        let m = api.mul(ins[t % n], t as u32 + 2);
        acc = api.add(acc, m);
        if t % 4 == 0 {
            for (i, x) in ins.iter().enumerate() {
                let m = api.mul(*x, i as u32 * 3 + 2);
                acc = api.add(acc, m);
            }
        }
    }
    acc
}
fn comb_v<C: Config>(ins: &[Fe<C>], t: usize) -> Fe<C> {
    let mut acc = fu::<C>(t as u64 + 1);
    let n = ins.len();
    if n > 0 {
        acc += ins[(5 * t + 1) % n] * ins[3 * t % n] + ins[t % n] * fu::<C>(t as u64 + 2);
        if t % 4 == 0 {
            for (i, x) in ins.iter().enumerate() {
                acc += *x * fu::<C>(i as u64 * 3 + 2);
            }
        }
    }
    acc
}

// ---- declared circuits ----

pub type CircuitItem = fn(&mut Gen, &mut Ctx) -> Result<(), String>;

/// Builds a circuit value from given numbers; says which inputs it asked for.
pub struct Maker<T> {
    supply: Box<dyn FnMut(usize) -> T>,
    nums: Vec<usize>,
    at: usize,
    pub flags: Vec<bool>,
    sum_at: Option<usize>,
}
impl<T> Maker<T> {
    fn new(nums: &[usize], supply: impl FnMut(usize) -> T + 'static) -> Self {
        Maker { supply: Box::new(supply), nums: nums.to_vec(), at: 0, flags: vec![], sum_at: None }
    }
    pub fn next(&mut self, public: bool) -> T {
        self.flags.push(public);
        (self.supply)(self.flags.len() - 1)
    }
    pub fn sum(&mut self, public: bool) -> T {
        self.sum_at = Some(self.flags.len());
        self.next(public)
    }
    pub fn number(&mut self) -> usize {
        self.at += 1;
        self.nums[(self.at - 1) % self.nums.len()]
    }
    pub fn len(&mut self) -> usize {
        self.number() % 4
    }
}
pub trait Fields<T> {
    const TEXT: &'static str;
    fn make(m: &mut Maker<T>) -> Self;
    fn read(&self, f: &mut dyn FnMut(bool, T));
    fn sum(&self) -> T;
    fn others(&self) -> String;
}
fn weight(i: usize) -> u32 {
    7u32.wrapping_pow(i as u32 % 10) % 65_521 + i as u32
}
pub fn define<C: Config, B: RootAPI<C>, F: Fields<Variable>>(api: &mut B, f: &F) {
    let mut v = vec![];
    f.read(&mut |_, x| {
        if x.id() != f.sum().id() {
            v.push(x)
        }
    });
    let mut acc = api.mul(v[0], v[v.len() - 1]);
    for (i, x) in v.iter().enumerate() {
        let t = api.mul(*x, weight(i));
        acc = api.add(acc, t);
    }
    api.assert_is_equal(acc, f.sum());
}
fn read_all<T: Copy, F: Fields<T>>(f: &F) -> Vec<(bool, T)> {
    let mut v = vec![];
    f.read(&mut |p, x| v.push((p, x)));
    v
}
fn same<C: Config>(what: &str, got: &[Fe<C>], want: &[Fe<C>]) -> Result<(), String> {
    if got != want {
        return Err(format!("{what}: {}, expected {}", show_all::<C>(got), show_all::<C>(want)));
    }
    Ok(())
}
pub fn check_circuit<C, V, A>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String>
where
    C: Config,
    V: Fields<Variable> + Define<C> + DumpLoadTwoVariables<Variable> + Clone,
    A: Fields<Fe<C>> + DumpLoadTwoVariables<Fe<C>> + Clone + Default,
{
    let nums: Vec<usize> = (0..6).map(|_| g.below(8)).collect();
    let mut m = Maker::new(&nums, |_| Variable::default());
    let v = V::make(&mut m);
    let (flags, sum_at) = (m.flags, m.sum_at.unwrap());
    let n = flags.len();
    let mut vals: Vec<Fe<C>> = (0..n).map(|_| fe::<C>(g)).collect();
    let rest: Vec<usize> = (0..n).filter(|&i| i != sum_at).collect();
    let mut s = vals[rest[0]] * vals[*rest.last().unwrap()];
    for (i, &x) in rest.iter().enumerate() {
        s += vals[x] * fu::<C>(weight(i) as u64);
    }
    vals[sum_at] = s;
    ctx.describe(|| format!("declare_circuit!({{ {} }}) with numbers {nums:?} and values {}", A::TEXT, show_all::<C>(&vals)));
    ctx.nontrivial(n >= 3 && flags.contains(&true));
    ctx.tag("declared circuit");
    let make = |vals: Vec<Fe<C>>| A::make(&mut Maker::new(&nums, move |i| vals[i]));
    let a = make(vals.clone());
    let private: Vec<Fe<C>> = (0..n).filter(|&i| !flags[i]).map(|i| vals[i]).collect();
    let public: Vec<Fe<C>> = (0..n).filter(|&i| flags[i]).map(|i| vals[i]).collect();
    for c in [a.num_vars(), v.num_vars(), a.clone().num_vars()] {
        if c != (private.len(), public.len()) {
            return Err(format!("{c:?} inputs counted, {:?} declared", (private.len(), public.len())));
        }
    }
    let (mut x, mut p) = (vec![], vec![]);
    a.dump_into(&mut x, &mut p);
    same::<C>("inputs listed", &x, &private)?;
    same::<C>("public inputs listed", &p, &public)?;
    // read back, from slices longer than needed
    let mut b = make(vec![zero::<C>(); n]);
    let others = b.others();
    let extra = fe::<C>(g);
    x.push(extra);
    p.push(extra);
    p.push(extra);
    let (mut xs, mut ps) = (x.as_slice(), p.as_slice());
    b.load_from(&mut xs, &mut ps);
    if (xs.len(), ps.len()) != (1, 2) {
        return Err(format!("{:?} values left over after reading back", (xs.len(), ps.len())));
    }
    let back = read_all(&b);
    same::<C>("values read back", &back.iter().map(|x| x.1).collect::<Vec<_>>(), &vals)?;
    if b.others() != others {
        return Err("reading back changed other fields".into());
    }
    if read_all(&A::default()).iter().any(|x| x.1 != zero::<C>()) {
        return Err("a default field is not zero".into());
    }
    let cl = a.clone();
    same::<C>("values of a clone", &read_all(&cl).iter().map(|x| x.1).collect::<Vec<_>>(), &vals)?;
    ctx.units += 1;
    if !g.chance(1, 2) {
        return Ok(());
    }
    // compiled
    let r = guarded(|| compile::<C, _>(&v, CompileOptions::default())).map_err(|e| format!("compiling panicked: {e}"))?;
    let r = r.map_err(|e| format!("compiling failed: {e}"))?;
    let run = |vals: Vec<Fe<C>>| -> Result<bool, String> {
        let a = make(vals.clone());
        let w = guarded(|| r.witness_solver.solve_witness(&a)).map_err(|e| format!("solving panicked: {e}"))?;
        let w = w.map_err(|e| format!("solving failed: {e}"))?;
        let (x, p) = w.iter_scalar().next().unwrap();
        let public: Vec<Fe<C>> = (0..n).filter(|&i| flags[i]).map(|i| vals[i]).collect();
        same::<C>("public inputs of the witness", &p, &public)?;
        let (_, ok) = guarded(|| r.layered_circuit.eval_with_public_inputs(x, &p)).map_err(|e| format!("evaluating panicked: {e}"))?;
        Ok(ok)
    };
    if !run(vals.clone())? {
        return Err("the circuit does not accept the values".into());
    }
    if g.chance(1, 4) {
        // several assignments at once are each as if on its own
        let many: Vec<A> = (0..1 + g.below(4))
            .map(|_| {
                if g.chance(1, 3) {
                    a.clone()
                } else {
                    let v: Vec<Fe<C>> = (0..n).map(|_| fe::<C>(g)).collect();
                    make(v)
                }
            })
            .collect();
        let err = |e: Error| format!("solving several: {e}");
        let w = guarded(|| r.witness_solver.solve_witnesses(&many)).map_err(|e| format!("solving several panicked: {e}"))?.map_err(err)?;
        let all: Vec<_> = w.iter_scalar().collect();
        if all.len() != many.len() {
            return Err(format!("{} witnesses for {} assignments", all.len(), many.len()));
        }
        for (i, (m, (x, p))) in many.iter().zip(&all).enumerate() {
            let one = r.witness_solver.solve_witness(m).map_err(err)?;
            let (x1, p1) = one.iter_scalar().next().unwrap();
            same::<C>(&format!("inputs of witness {i} of several"), x, &x1)?;
            same::<C>(&format!("public inputs of witness {i} of several"), p, &p1)?;
        }
        ctx.tag("several assignments");
    }
    // without the product, every change of a value breaks the sum
    if rest.len() >= 3 {
        let i = rest[1 + g.below(rest.len() - 2)];
        vals[i] += one::<C>();
        if run(vals)? {
            return Err(format!("the circuit accepts value {i} changed"));
        }
    }
    ctx.units += 1;
    Ok(())
}

// ---- kernels ----

pub struct KArg {
    pub shape: Vec<usize>,
    pub inp: bool,
    pub out: bool,
    pub writes: bool,
    pub marked: bool,
}
pub struct KItem<C: Config> {
    pub text: &'static str,
    pub args: Vec<KArg>,
    pub compile: fn() -> Result<KernelPrimitive<C>, Error>,
    #[allow(clippy::type_complexity)]
    pub call: fn(&mut Context<C>, &KernelPrimitive<C>, usize, &[DeviceMemoryHandle]) -> Result<Vec<DeviceMemoryHandle>, Error>,
}
fn check_kernel<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    thread_local!(static MADE: RefCell<std::collections::HashMap<(usize, usize), Box<dyn std::any::Any>>> = RefCell::default());
    let all = items::kernels::<C>();
    let at = g.below(all.len());
    let it = &all[at];
    let n = 1 + g.below(4);
    let ins: Vec<Option<(bool, Vec<Fe<C>>)>> = it
        .args
        .iter()
        .map(|a| {
            a.inp.then(|| {
                let whole = !a.out && g.chance(1, 3);
                let len = a.shape.iter().product::<usize>() * if whole { 1 } else { n };
                (whole, (0..len).map(|i| if g.chance(1, 4) { fe::<C>(g) } else { fu::<C>(i as u64 + 2) }).collect())
            })
        })
        .collect();
    ctx.describe(|| {
        format!(
            "kernel({}), {n} slices, on {:?}",
            it.text,
            ins.iter().map(|i| i.as_ref().map(|(w, v)| format!("{}{}", if *w { "broadcast " } else { "" }, show_all::<C>(v)))).collect::<Vec<_>>()
        )
    });
    ctx.nontrivial(it.args.iter().any(|a| a.shape.len() >= 2));
    ctx.tag("kernel");
    MADE.with(|made| -> Result<(), String> {
        let mut made = made.borrow_mut();
        let key = (at, field_bits::<C>());
        if !made.contains_key(&key) {
            let k = guarded(it.compile).map_err(|e| format!("compiling panicked: {e}"))?.map_err(|e| format!("compiling failed: {e}"))?;
            made.insert(key, Box::new(k));
        }
        let k = made[&key].downcast_ref::<KernelPrimitive<C>>().unwrap();
        for (j, a) in it.args.iter().enumerate() {
            let s = &k.io_specs()[j];
            let want = (a.shape.iter().product::<usize>(), a.inp, a.out);
            if (s.len, s.is_input, s.is_output) != want || k.io_shapes()[j] != a.shape {
                return Err(format!("argument {j} is {s:?} of shape {:?}, expected {want:?} of shape {:?}", k.io_shapes()[j], a.shape));
            }
        }
        if k.io_specs().len() != it.args.len() || k.io_shapes().len() != it.args.len() {
            return Err("another number of arguments".into());
        }
        let mut cx = Context::<C>::default();
        let hs: Vec<DeviceMemoryHandle> = it
            .args
            .iter()
            .zip(&ins)
            .map(|(a, i)| {
                i.as_ref().map_or(None, |(whole, v)| {
                    let h = cx.copy_to_device(v);
                    let mut s = a.shape.clone();
                    if !whole {
                        s.insert(0, n);
                    }
                    h.reshape(&s)
                })
            })
            .collect();
        let out = guarded(|| (it.call)(&mut cx, k, n, &hs)).map_err(|e| format!("calling panicked: {e}"))?.map_err(|e| format!("calling failed: {e}"))?;
        // what the body means
        let mut want: Vec<Vec<Fe<C>>> = vec![vec![]; it.args.len()];
        for p in 0..n {
            let mut v = vec![];
            for (a, i) in it.args.iter().zip(&ins) {
                if let Some((whole, x)) = i {
                    let l: usize = a.shape.iter().product();
                    let from = if *whole { 0 } else { p * l };
                    v.extend_from_slice(&x[from..from + l]);
                }
            }
            let mut t = 0;
            for (j, a) in it.args.iter().enumerate() {
                if a.writes {
                    for _ in 0..a.shape.iter().product::<usize>() {
                        want[j].push(comb_v::<C>(&v, t));
                        t += 1;
                    }
                }
            }
        }
        for (j, a) in it.args.iter().enumerate() {
            let mut expect = None;
            let mut shape = a.shape.clone();
            shape.insert(0, n);
            if !a.marked {
                // the caller's variable is untouched
                if let Some((whole, x)) = &ins[j] {
                    if *whole {
                        shape.remove(0);
                    }
                    expect = Some(x.clone());
                }
            } else if a.out {
                expect = Some(want[j].clone());
            }
            match (&out[j], expect) {
                (None, None) => {}
                (Some(_), Some(e)) => {
                    let flat = out[j].reshape(&[e.len()]);
                    let got: Vec<Fe<C>> = guarded(|| cx.copy_to_host(flat)).map_err(|x| format!("argument {j} afterwards: {x}"))?;
                    same::<C>(&format!("argument {j} afterwards"), &got, &e)?;
                }
                (a, e) => return Err(format!("argument {j} afterwards is {a:?}, expected {}", if e.is_some() { "an array" } else { "nothing" })),
            }
            ctx.units += 1;
        }
        Ok(())
    })
}

// ---- memorized functions ----

/// The variables, integers and lengths of arguments or results.
#[derive(Default)]
pub struct Seen {
    pub vars: Vec<Variable>,
    pub ints: Vec<i128>,
    pub lens: Vec<usize>,
}
/// Where arguments come from: numbers decide, variables are inputs of the circuit.
pub struct Args {
    x: Vec<Variable>,
    nums: Vec<usize>,
    at: usize,
    pub used: Vec<usize>,
    pub ints: Vec<i128>,
    pub lens: Vec<usize>,
}
impl Args {
    fn num(&mut self) -> usize {
        self.at += 1;
        self.nums[(self.at - 1) % self.nums.len()]
    }
}
pub trait Flat {
    fn flat(&self, s: &mut Seen);
    fn make(m: &mut Args) -> Self;
    /// A value of this structure from further results.
    fn build(next: &mut dyn FnMut() -> Variable, len: &mut dyn FnMut() -> usize) -> Self;
}
impl Flat for Variable {
    fn flat(&self, s: &mut Seen) {
        s.vars.push(*self);
    }
    fn make(m: &mut Args) -> Self {
        let i = m.num() % m.x.len();
        m.used.push(i);
        m.x[i]
    }
    fn build(next: &mut dyn FnMut() -> Variable, _: &mut dyn FnMut() -> usize) -> Self {
        next()
    }
}
impl<T: Flat> Flat for Vec<T> {
    fn flat(&self, s: &mut Seen) {
        s.lens.push(self.len());
        self.iter().for_each(|x| x.flat(s));
    }
    fn make(m: &mut Args) -> Self {
        let n = m.num() % 4;
        m.lens.push(n);
        (0..n).map(|_| T::make(m)).collect()
    }
    fn build(next: &mut dyn FnMut() -> Variable, len: &mut dyn FnMut() -> usize) -> Self {
        let n = len();
        (0..n).map(|_| T::build(next, len)).collect()
    }
}
impl<T: Flat> Flat for &T {
    fn flat(&self, s: &mut Seen) {
        (*self).flat(s)
    }
    fn make(_: &mut Args) -> Self {
        unreachable!()
    }
    fn build(_: &mut dyn FnMut() -> Variable, _: &mut dyn FnMut() -> usize) -> Self {
        unreachable!()
    }
}
macro_rules! int {
    ($($t:ty),*) => {$(
        impl Flat for $t {
            fn flat(&self, s: &mut Seen) {
                s.ints.push(*self as i128);
            }
            fn make(m: &mut Args) -> Self {
                let v = match m.num() {
                    0 => <$t>::MIN,
                    1 => <$t>::MAX,
                    n => (n as i64 - 4) as $t,
                };
                m.ints.push(v as i128);
                v
            }
            fn build(_: &mut dyn FnMut() -> Variable, _: &mut dyn FnMut() -> usize) -> Self {
                unreachable!()
            }
        }
    )*};
}
int!(u64, u32, usize, i64, i32, isize);

pub fn salt(id: usize, ints: &[i128], lens: &[usize]) -> usize {
    let mut h = id as u64 + 11;
    for x in ints.iter().map(|x| *x as u64).chain([77]).chain(lens.iter().map(|x| *x as u64)) {
        h = (h ^ x).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
    }
    (h >> 50) as usize
}
pub fn body<C: Config, B: RootAPI<C>, T: Flat>(api: &mut B, id: usize, s: Seen) -> T {
    let salt = salt(id, &s.ints, &s.lens);
    let mut l = salt;
    let mut t = 0;
    T::build(
        &mut || {
            t += 1;
            comb::<C, B>(api, &s.vars, (t + salt) % 1000)
        },
        &mut || {
            l = l / 3 + 7;
            l % 3
        },
    )
}
/// The results and their lengths.
fn body_v<C: Config>(depth: usize, ins: &[Fe<C>], salt: usize) -> (Vec<Fe<C>>, Vec<usize>) {
    fn go<C: Config>(d: usize, t: &mut usize, l: &mut usize, ins: &[Fe<C>], salt: usize, o: &mut (Vec<Fe<C>>, Vec<usize>)) {
        if d == 0 {
            *t += 1;
            o.0.push(comb_v::<C>(ins, (*t + salt) % 1000));
            return;
        }
        *l = *l / 3 + 7;
        let n = *l % 3;
        o.1.push(n);
        for _ in 0..n {
            go::<C>(d - 1, t, l, ins, salt, o);
        }
    }
    let mut o = (vec![], vec![]);
    go::<C>(depth, &mut 0, &mut salt.clone(), ins, salt, &mut o);
    o
}
/// A function without results: states a fact about its arguments.
pub fn nothing<C: Config, B: RootAPI<C>>(api: &mut B, _: usize, s: Seen) {
    for v in s.vars {
        let y = api.mul(v, v);
        let z = api.sub(y, 5u32);
        api.assert_is_non_zero(z);
    }
}
pub struct MItem<B> {
    pub text: &'static str,
    pub outs: bool,
    pub call: fn(&mut B, &mut Args, bool) -> Seen,
}

#[derive(Clone, Default)]
struct Plan {
    calls: Vec<(usize, Vec<usize>)>,
    weights: Vec<u32>,
    /// per call, what it must have: the inputs used, integers and lengths; and the lengths of its results
    log: Vec<(Vec<usize>, Vec<i128>, Vec<usize>, Vec<usize>, usize)>,
    memo: bool,
}
thread_local!(static PLAN: RefCell<Plan> = RefCell::default());
declare_circuit!(MemoCir { x: [Variable], y: Variable });
impl<C: Config> Define<C> for MemoCir<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let mut p = PLAN.with(|p| p.borrow().clone());
        let all = items::memorized_items::<C, B>();
        let mut acc = api.mul(self.x[0], self.x[self.x.len() - 1]);
        let mut w = 0;
        p.log.clear();
        for (f, nums) in &p.calls {
            let mut a = Args { x: self.x.clone(), nums: nums.clone(), at: 0, used: vec![], ints: vec![], lens: vec![] };
            let r = (all[*f].call)(api, &mut a, p.memo);
            for v in &r.vars {
                let t = api.mul(*v, p.weights[w % p.weights.len()]);
                acc = api.add(acc, t);
                w += 1;
            }
            p.log.push((a.used, a.ints, a.lens, r.lens, r.vars.len()));
        }
        api.assert_is_equal(acc, self.y);
        PLAN.with(|q| *q.borrow_mut() = p);
    }
}
fn check_memorized<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let texts: Vec<(&str, bool)> = items::memorized_items::<C, API<C>>().into_iter().map(|i| (i.text, i.outs)).collect();
    let mut p = Plan { memo: true, ..Plan::default() };
    for _ in 0..1 + g.below(5) {
        if !p.calls.is_empty() && g.chance(1, 2) {
            // like an earlier call, with one number changed
            let mut c = g.pick(&p.calls).clone();
            let i = g.below(c.1.len());
            c.1[i] = g.below(12);
            p.calls.push(c);
        } else {
            let f = g.below(texts.len());
            p.calls.push((f, (0..3 + g.below(8)).map(|_| g.below(12)).collect()));
        }
    }
    p.weights = (0..5).map(|i| 1 + g.below(1000) as u32 * 5 + i).collect();
    let nx = 1 + g.below(5);
    let x: Vec<Fe<C>> = (0..nx).map(|_| fu::<C>(2 + g.below(40) as u64)).collect();
    ctx.describe(|| {
        let t: Vec<_> = p.calls.iter().map(|(f, n)| format!("{f}{} with numbers {n:?}", texts[*f].0)).collect();
        format!("memorized calls {}; inputs {}", t.join("; "), show_all::<C>(&x))
    });
    ctx.nontrivial(p.calls.len() >= 2);
    ctx.tag("memorized");
    let cir = MemoCir { x: vec![Variable::default(); nx], y: Variable::default() };
    PLAN.with(|q| *q.borrow_mut() = p.clone());
    let r = guarded(|| compile::<C, _>(&cir, CompileOptions::default())).map_err(|e| format!("compiling panicked: {e}"))?;
    let r = match r {
        // a call without any variable
        Err(e) if e.to_string().contains("circuit has no inputs") => return Ok(()),
        r => r.map_err(|e| format!("compiling failed: {e}"))?,
    };
    let log = PLAN.with(|q| q.borrow().log.clone());
    let mut y = x[0] * x[nx - 1];
    let mut w = 0;
    for (i, ((f, _), (used, ints, lens, out_lens, outs))) in p.calls.iter().zip(&log).enumerate() {
        if !texts[*f].1 {
            continue;
        }
        let ins: Vec<Fe<C>> = used.iter().map(|&i| x[i]).collect();
        let depth = texts[*f].0.split("->").nth(1).unwrap().matches("Vec<").count();
        let (vals, want) = body_v::<C>(depth, &ins, salt(*f, ints, lens));
        if &want != out_lens || vals.len() != *outs {
            return Err(format!("call {i} returns lists of lengths {out_lens:?}, {outs} variables, expected {want:?}, {}", vals.len()));
        }
        for v in vals {
            y += v * fu::<C>(p.weights[w % p.weights.len()] as u64);
            w += 1;
        }
        ctx.units += 1;
    }
    let run = |y: Fe<C>| -> Result<bool, String> {
        let a = MemoCir { x: x.clone(), y };
        let w = guarded(|| r.witness_solver.solve_witness(&a)).map_err(|e| format!("solving panicked: {e}"))?;
        let w = w.map_err(|e| format!("solving failed: {e}"))?;
        let (x, p) = w.iter_scalar().next().unwrap();
        Ok(guarded(|| r.layered_circuit.eval_with_public_inputs(x, &p)).map_err(|e| format!("evaluating panicked: {e}"))?.1)
    };
    if !run(y)? {
        return Err("the results are not those of the function bodies".into());
    }
    if run(y + one::<C>())? {
        return Err("another sum of results is accepted".into());
    }
    Ok(())
}

// ---- arrays of variables ----

fn array<C: Config, T: DumpLoadVariables<Fe<C>> + Clone>(what: &str, blank: T, g: &mut Gen, ctx: &mut Ctx, n: usize, at: impl Fn(&T, usize) -> Fe<C>) -> Result<(), String> {
    let vals: Vec<Fe<C>> = (0..n + g.below(3)).map(|_| fe::<C>(g)).collect();
    ctx.describe(|| format!("{what} filled from {}", show_all::<C>(&vals)));
    ctx.tag("array");
    let mut a = blank.clone();
    let mut rest = vals.as_slice();
    a.load_from(&mut rest);
    same::<C>("values left over after reading", rest, &vals[n..])?;
    same::<C>("elements read", &(0..n).map(|i| at(&a, i)).collect::<Vec<_>>(), &vals[..n])?;
    let before: Vec<Fe<C>> = (0..g.below(3)).map(|_| fe::<C>(g)).collect();
    let mut out = before.clone();
    a.dump_into(&mut out);
    same::<C>("values listed", &out, &[before, vals[..n].to_vec()].concat())?;
    if (a.num_vars(), blank.num_vars()) != (n, n) {
        return Err(format!("{} and {} variables counted, expected {n}", a.num_vars(), blank.num_vars()));
    }
    Ok(())
}
fn check_array<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let z = zero::<C>();
    match g.below(5) {
        0 => array::<C, Fe<C>>("an element", z, g, ctx, 1, |a, _| *a),
        1 => array::<C, [Fe<C>; 4]>("[F; 4]", [z; 4], g, ctx, 4, |a, i| a[i]),
        2 => array::<C, [[Fe<C>; 3]; 2]>("[[F; 3]; 2]", [[z; 3]; 2], g, ctx, 6, |a, i| a[i / 3][i % 3]),
        3 => array::<C, [[[Fe<C>; 2]; 1]; 5]>("[[[F; 2]; 1]; 5]", [[[z; 2]; 1]; 5], g, ctx, 10, |a, i| a[i / 2][0][i % 2]),
        _ => array::<C, [[Fe<C>; 1]; 3]>("[[F; 1]; 3]", [[z; 1]; 3], g, ctx, 3, |a, i| a[i][0]),
    }
}

fn case_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.chance(1, 50) {
        return check_array::<C>(g, ctx);
    }
    match g.weighted(&[4, 5, 3]) {
        0 => {
            let all = items::circuits::<C>();
            let i = g.below(all.len());
            all[i](g, ctx)
        }
        1 => check_kernel::<C>(g, ctx),
        _ => check_memorized::<C>(g, ctx),
    }
}
fn u04(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.chance(1, 3) {
        case_f::<BN254Config>(g, ctx)
    } else {
        case_f::<M31Config>(g, ctx)
    }
}
fn main() {
    pbt::main(&[Prop {
        id: "U04",
        rule: "a circuit of at least three inputs, one of them public; a kernel with an array of arrays; at least two memorized calls",
        case: u04,
        directed: None,
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        assumptions: &["field arithmetic of the stand-ins for Expander's crates is correct", "the declarations are drawn once, when the harness is built; the values at run time"],
        min_nontrivial_pct: 40,
    }])
}
