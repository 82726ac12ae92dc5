//! A second, independent meaning for gadget code: an implementation of the frontend's builder
//! interface that computes values directly, notes which assertions fail (instead of building a
//! circuit), and can answer hints and unconstrained operations falsely, as a dishonest prover may.
use arith::Field;
use ethnum::U256;
use expander_compiler::circuit::config::Config;
use expander_compiler::frontend::builder::{ToVariableOrValue, VariableOrValue};
use expander_compiler::frontend::extra::UnconstrainedAPI;
use expander_compiler::frontend::{BasicAPI, CircuitField, HintRegistry, RootAPI, Variable};
use expander_compiler::hints::registry::hint_key_to_id;
use std::collections::HashMap;

/// One false answer: what happens to the value a hint (or unconstrained operation) would give.
#[derive(Clone, Debug, PartialEq)]
pub enum Lie {
    Add(U256),
    Sub(U256),
    Set(U256),
    Flip,
}

pub type Lies = HashMap<usize, Lie>;

#[derive(Clone, Debug)]
pub struct Free<F> {
    /// what asked for it: the hint key or the operation
    pub kind: String,
    /// index among the outputs of that call
    pub at: usize,
    /// which call
    pub call: usize,
    pub value: F,
}

pub struct Ev<C: Config> {
    vals: Vec<CircuitField<C>>,
    konst: Vec<bool>,
    pub failed: Vec<String>,
    lies: Lies,
    pub free: Vec<Free<CircuitField<C>>>,
    calls: usize,
    pub hint_errors: Vec<String>,
    hints: HintRegistry<CircuitField<C>>,
    has_hints: bool,
    rng: u64,
    ids: HashMap<[u8; 32], usize>,
    structure: HashMap<usize, Vec<usize>>,
    pub ops: usize,
}

fn mix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn u<F: Field>(x: F) -> U256 {
    x.to_u256()
}
fn mask<F: Field>() -> U256 {
    let m = F::MODULUS;
    let bits = 256 - m.leading_zeros();
    if bits >= 256 { U256::MAX } else { (U256::ONE << bits) - 1 }
}

impl<C: Config> Ev<C> {
    pub fn new(hints: Option<HintRegistry<CircuitField<C>>>, lies: Lies, seed: u64) -> Self {
        Ev {
            vals: vec![CircuitField::<C>::ZERO],
            konst: vec![false],
            failed: vec![],
            lies,
            free: vec![],
            calls: 0,
            hint_errors: vec![],
            has_hints: hints.is_some(),
            hints: hints.unwrap_or_default(),
            rng: seed,
            ids: HashMap::new(),
            structure: HashMap::new(),
            ops: 0,
        }
    }
    pub fn push(&mut self, v: CircuitField<C>) -> Variable {
        self.raw(v, false)
    }
    fn raw(&mut self, v: CircuitField<C>, k: bool) -> Variable {
        self.vals.push(v);
        self.konst.push(k);
        self.ops += 1;
        Variable::from(self.vals.len() - 1)
    }
    pub fn val(&self, v: Variable) -> CircuitField<C> {
        assert!(v.id() > 0 && v.id() < self.vals.len(), "a variable that does not exist: {}", v.id());
        self.vals[v.id()]
    }
    fn get(&self, x: impl ToVariableOrValue<CircuitField<C>>) -> (CircuitField<C>, bool) {
        match x.convert_to_variable_or_value() {
            VariableOrValue::Variable(v) => (self.val(v), self.konst[v.id()]),
            VariableOrValue::Value(v) => (v, true),
        }
    }
    fn fail(&mut self, what: String) {
        if self.failed.len() < 8 {
            self.failed.push(what);
        }
    }
    fn lied(&mut self, kind: &str, at: usize, call: usize, honest: CircuitField<C>) -> CircuitField<C> {
        let i = self.free.len();
        let v = match self.lies.get(&i) {
            None => honest,
            Some(Lie::Add(d)) => honest + CircuitField::<C>::from_u256(*d % CircuitField::<C>::MODULUS),
            Some(Lie::Sub(d)) => honest - CircuitField::<C>::from_u256(*d % CircuitField::<C>::MODULUS),
            Some(Lie::Set(d)) => CircuitField::<C>::from_u256(*d % CircuitField::<C>::MODULUS),
            Some(Lie::Flip) => CircuitField::<C>::ONE - honest,
        };
        self.free.push(Free { kind: kind.to_string(), at, call, value: v });
        v
    }
    fn unc(
        &mut self,
        kind: &str,
        x: impl ToVariableOrValue<CircuitField<C>>,
        y: impl ToVariableOrValue<CircuitField<C>>,
        f: impl Fn(CircuitField<C>, CircuitField<C>) -> CircuitField<C>,
    ) -> Variable {
        let (x, xk) = self.get(x);
        let (y, yk) = self.get(y);
        let h = f(x, y);
        if xk && yk {
            return self.raw(h, true);
        }
        let call = self.calls;
        self.calls += 1;
        let v = self.lied(kind, 0, call, h);
        self.raw(v, false)
    }
    fn boolean(&mut self, x: CircuitField<C>, w: &str) {
        if x != CircuitField::<C>::ZERO && x != CircuitField::<C>::ONE {
            self.fail(format!("{w}: {x:?} is not boolean"));
        }
    }
}

macro_rules! bin {
    ($n:ident, $f:expr) => {
        fn $n(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
            let (x, xk) = self.get(x);
            let (y, yk) = self.get(y);
            let f: fn(CircuitField<C>, CircuitField<C>) -> CircuitField<C> = $f;
            self.raw(f(x, y), xk && yk)
        }
    };
}
macro_rules! boolbin {
    ($n:ident, $f:expr) => {
        fn $n(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
            let (x, xk) = self.get(x);
            let (y, yk) = self.get(y);
            self.boolean(x, stringify!($n));
            self.boolean(y, stringify!($n));
            let f: fn(bool, bool) -> bool = $f;
            let one = CircuitField::<C>::ONE;
            self.raw(CircuitField::<C>::from(f(x == one, y == one) as u32), xk && yk)
        }
    };
}

impl<C: Config> BasicAPI<C> for Ev<C> {
    bin!(add, |x, y| x + y);
    bin!(sub, |x, y| x - y);
    bin!(mul, |x, y| x * y);
    boolbin!(xor, |x, y| x ^ y);
    boolbin!(or, |x, y| x | y);
    boolbin!(and, |x, y| x & y);
    fn div(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>, checked: bool) -> Variable {
        let (x, xk) = self.get(x);
        let (y, yk) = self.get(y);
        match y.inv() {
            Some(i) => self.raw(x * i, xk && yk),
            None => {
                if checked || x != CircuitField::<C>::ZERO {
                    self.fail(format!("division of {x:?} by zero"));
                    return self.raw(CircuitField::<C>::ZERO, false);
                }
                let call = self.calls;
                self.calls += 1;
                let v = self.lied("div 0/0", 0, call, CircuitField::<C>::ZERO);
                self.raw(v, false)
            }
        }
    }
    fn neg(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, k) = self.get(x);
        self.raw(-x, k)
    }
    fn is_zero(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, k) = self.get(x);
        self.raw(CircuitField::<C>::from((x == CircuitField::<C>::ZERO) as u32), k)
    }
    fn to_binary(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, n: usize) -> Vec<Variable> {
        let (x, k) = self.get(x);
        let v = u(x);
        if n < 256 && (v >> n) != U256::ZERO {
            self.fail(format!("{v} has more than {n} bits"));
        }
        (0..n).map(|i| {
            let b = if i < 256 { (v >> i).as_u32() & 1 } else { 0 };
            self.raw(CircuitField::<C>::from(b), k)
        }).collect()
    }
    fn gt(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, xk) = self.get(x);
        let (y, yk) = self.get(y);
        self.raw(CircuitField::<C>::from((u(x) > u(y)) as u32), xk && yk)
    }
    fn geq(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, xk) = self.get(x);
        let (y, yk) = self.get(y);
        self.raw(CircuitField::<C>::from((u(x) >= u(y)) as u32), xk && yk)
    }
    fn assert_is_zero(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) {
        let (x, _) = self.get(x);
        if x != CircuitField::<C>::ZERO {
            self.fail(format!("{x:?} is not zero"));
        }
    }
    fn assert_is_non_zero(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) {
        let (x, _) = self.get(x);
        if x == CircuitField::<C>::ZERO {
            self.fail("zero where it must not be".into());
        }
    }
    fn assert_is_bool(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) {
        let (x, _) = self.get(x);
        self.boolean(x, "assert_is_bool");
    }
    fn get_random_value(&mut self) -> Variable {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&mix(&mut self.rng).to_le_bytes());
        }
        let v = CircuitField::<C>::from_u256(U256::from_le_bytes(b) % CircuitField::<C>::MODULUS);
        self.raw(v, false)
    }
    fn new_hint(&mut self, key: &str, inputs: &[Variable], n: usize) -> Vec<Variable> {
        let args: Vec<_> = inputs.iter().map(|v| self.val(*v)).collect();
        let call = self.calls;
        self.calls += 1;
        let r = if self.has_hints {
            pbt::guarded(|| self.hints.call(hint_key_to_id(key), &args, n))
        } else {
            Err("no hints here".into())
        };
        let out = match r {
            Ok(Ok(o)) if o.len() == n => o,
            Ok(Ok(o)) => {
                self.hint_errors.push(format!("{key}: {} outputs for {n}", o.len()));
                vec![CircuitField::<C>::ZERO; n]
            }
            Ok(Err(e)) => {
                self.hint_errors.push(format!("{key}: {e:?}"));
                vec![CircuitField::<C>::ZERO; n]
            }
            Err(e) => {
                self.hint_errors.push(format!("{key}: {e}"));
                vec![CircuitField::<C>::ZERO; n]
            }
        };
        out.into_iter().enumerate().map(|(i, h)| {
            let v = self.lied(key, i, call, h);
            self.raw(v, false)
        }).collect()
    }
    fn constant(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, k) = self.get(x);
        self.raw(x, k)
    }
    fn constant_value(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Option<CircuitField<C>> {
        let (x, k) = self.get(x);
        k.then_some(x)
    }
}

macro_rules! unc {
    ($n:ident, $f:expr) => {
        fn $n(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
            self.unc(stringify!($n), x, y, $f)
        }
    };
}
fn bit<F: Field>(b: bool) -> F {
    F::from(b as u32)
}
fn red<F: Field>(v: U256) -> F {
    F::from_u256(v % F::MODULUS)
}
impl<C: Config> UnconstrainedAPI<C> for Ev<C> {
    fn unconstrained_identity(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        self.unc("unconstrained_identity", x, CircuitField::<C>::ZERO, |x, _| x)
    }
    unc!(unconstrained_add, |x, y| x + y);
    unc!(unconstrained_mul, |x, y| x * y);
    unc!(unconstrained_div, |x, y| y.inv().map(|i| x * i).unwrap_or(CircuitField::<C>::ZERO));
    unc!(unconstrained_pow, |x, y| {
        let e: U256 = u(y);
        let mut r = CircuitField::<C>::ONE;
        for i in (0..256).rev() {
            r = r * r;
            if ((e >> i) as U256).as_u32() & 1 == 1 {
                r *= x;
            }
        }
        r
    });
    unc!(unconstrained_int_div, |x, y| if u(y) == U256::ZERO { CircuitField::<C>::ZERO } else { red(u(x) / u(y)) });
    unc!(unconstrained_mod, |x, y| if u(y) == U256::ZERO { CircuitField::<C>::ZERO } else { red(u(x) % u(y)) });
    unc!(unconstrained_shift_l, |x, y| if u(y) < U256::new(256) { red((u(x) << u(y).as_u32()) & mask::<CircuitField<C>>()) } else { CircuitField::<C>::ZERO });
    unc!(unconstrained_shift_r, |x, y| if u(y) < U256::new(256) { red(u(x) >> u(y).as_u32()) } else { CircuitField::<C>::ZERO });
    unc!(unconstrained_lesser_eq, |x, y| bit(u(x) <= u(y)));
    unc!(unconstrained_greater_eq, |x, y| bit(u(x) >= u(y)));
    unc!(unconstrained_lesser, |x, y| bit(u(x) < u(y)));
    unc!(unconstrained_greater, |x, y| bit(u(x) > u(y)));
    unc!(unconstrained_eq, |x, y| bit(x == y));
    unc!(unconstrained_not_eq, |x, y| bit(x != y));
    unc!(unconstrained_bool_or, |x, y| bit(u(x) != U256::ZERO || u(y) != U256::ZERO));
    unc!(unconstrained_bool_and, |x, y| bit(u(x) != U256::ZERO && u(y) != U256::ZERO));
    unc!(unconstrained_bit_or, |x, y| red(u(x) | u(y)));
    unc!(unconstrained_bit_and, |x, y| red(u(x) & u(y)));
    unc!(unconstrained_bit_xor, |x, y| red(u(x) ^ u(y)));
}

impl<C: Config> RootAPI<C> for Ev<C> {
    fn memorized_simple_call<F: Fn(&mut Self, &Vec<Variable>) -> Vec<Variable> + 'static>(&mut self, f: F, inputs: &[Variable]) -> Vec<Variable> {
        let ins: Vec<Variable> = inputs.iter().map(|v| { let x = self.val(*v); self.raw(x, false) }).collect();
        f(self, &ins)
    }
    fn hash_to_sub_circuit_id(&mut self, hash: &[u8; 32]) -> usize {
        let n = self.ids.len();
        *self.ids.entry(*hash).or_insert(n)
    }
    fn call_sub_circuit<F: FnOnce(&mut Self, &Vec<Variable>) -> Vec<Variable>>(&mut self, _id: usize, inputs: &[Variable], f: F) -> Vec<Variable> {
        let ins: Vec<Variable> = inputs.iter().map(|v| { let x = self.val(*v); self.raw(x, false) }).collect();
        f(self, &ins)
    }
    fn register_sub_circuit_output_structure(&mut self, id: usize, s: Vec<usize>) {
        self.structure.insert(id, s);
    }
    fn get_sub_circuit_output_structure(&self, id: usize) -> Vec<usize> {
        self.structure[&id].clone()
    }
    fn set_outputs(&mut self, _: Vec<Variable>) {}
}

pub struct Out<C: Config> {
    pub ok: bool,
    pub why: String,
    pub outs: Vec<CircuitField<C>>,
    pub free: Vec<Free<CircuitField<C>>>,
    pub hint_errors: Vec<String>,
}

/// Runs a gadget on values. A panic while running is a refusal.
pub fn run<C: Config>(
    inputs: &[CircuitField<C>],
    hints: Option<HintRegistry<CircuitField<C>>>,
    lies: Lies,
    seed: u64,
    f: impl FnOnce(&mut Ev<C>, &[Variable]) -> Vec<Variable>,
) -> Out<C> {
    let mut e = Ev::<C>::new(hints, lies, seed);
    let ins: Vec<Variable> = inputs.iter().map(|v| e.push(*v)).collect();
    let r = pbt::guarded(|| f(&mut e, &ins));
    match r {
        Ok(o) => {
            let outs = o.iter().map(|v| e.val(*v)).collect();
            Out { ok: e.failed.is_empty(), why: e.failed.join("; "), outs, free: e.free, hint_errors: e.hint_errors }
        }
        Err(p) => Out { ok: false, why: format!("panic: {p}"), outs: vec![], free: e.free, hint_errors: e.hint_errors },
    }
}
