//! Programs for the Go front end: what they mean, and a generator of them.
use ecgen::*;
use arith::Field;
use ethnum::U256;
use expander_compiler::circuit::config::Config;
use pbt::Gen;
use std::collections::BTreeMap;

/// An operand: register, parameter, or a constant as the Go side writes it with its value.
#[derive(Clone, Debug)]
pub enum X {
    R(usize),
    P(usize),
    /// text, value
    K(String, K),
}
/// sign and magnitude
pub type K = (bool, U256);

#[derive(Clone, Debug, Default)]
pub struct Op {
    pub o: &'static str,
    pub a: Vec<X>,
    pub n: i64,
    pub f: usize,
    pub k: usize,
    pub s: Vec<String>,
    pub l: Vec<usize>,
    pub b: Option<Body>,
}
#[derive(Clone, Debug, Default)]
pub struct Body {
    pub ops: Vec<Op>,
    pub out: Vec<X>,
}
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub root: Body,
    pub simple: Vec<Body>,
    pub mem: Vec<Body>,
}
fn list<T>(xs: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", xs.iter().map(f).collect::<Vec<_>>().join(","))
}
impl X {
    fn json(&self) -> String {
        match self {
            X::R(i) => format!("\"r{i}\""),
            X::P(i) => format!("\"p{i}\""),
            X::K(s, _) => format!("\"{s}\""),
        }
    }
}
impl Op {
    fn json(&self) -> String {
        let mut s = format!("{{\"o\":\"{}\",\"a\":{}", self.o, list(&self.a, X::json));
        for (k, v) in [("n", self.n), ("f", self.f as i64), ("k", self.k as i64)] {
            if v != 0 {
                s += &format!(",\"{k}\":{v}");
            }
        }
        if !self.s.is_empty() {
            s += &format!(",\"s\":{}", list(&self.s, |x| pbt::json::quote(x)));
        }
        if !self.l.is_empty() {
            s += &format!(",\"l\":{:?}", self.l);
        }
        if let Some(b) = &self.b {
            s += &format!(",\"b\":{}", b.json());
        }
        s + "}"
    }
}
impl Body {
    pub fn json(&self) -> String {
        format!("{{\"ops\":{},\"out\":{}}}", list(&self.ops, Op::json), list(&self.out, X::json))
    }
}
impl Prog {
    pub fn json(&self) -> String {
        format!("{{\"root\":{},\"simple\":{},\"mem\":{}}}", self.root.json(), list(&self.simple, Body::json), list(&self.mem, Body::json))
    }
}

pub fn value<C: Config>(k: &K) -> Fe<C> {
    let v = Fe::<C>::from_u256(k.1 % modulus::<C>());
    if k.0 {
        zero::<C>() - v
    } else {
        v
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Val<C: Config> {
    pub v: Fe<C>,
    pub c: bool,
}
/// What happens when a program is run on given values.
#[derive(Clone, Debug)]
pub struct M<C: Config> {
    pub sat: bool,
    /// the meaning is left open (a constant cut to its low bits)
    pub undef: bool,
    pub outs: Vec<Fe<C>>,
    /// values ConstantValue was asked about
    pub cv: BTreeMap<usize, Vec<Fe<C>>>,
    pub shapes: Vec<String>,
    /// sub circuits in use
    pub calls: usize,
    pub bits: usize,
    /// divisions of zero by zero, which a prover is free to answer and the compiler to refuse
    pub free_div: bool,
    pub regs: Vec<Val<C>>,
    kv: BTreeMap<String, Val<C>>,
    defers: Vec<(Body, Vec<Val<C>>)>,
    params: Vec<i64>,
    root: bool,
}

fn shp(s: &str) -> i64 {
    s.bytes().fold(7, |h, c| (h * 31 + c as i64) % 1000003)
}
fn lens(l: &[usize]) -> i64 {
    l.iter().fold(11, |h, &n| (h * 37 + n as i64 + 1) % 1000003)
}
fn rows<T: Clone>(r: &[T], w: usize) -> Vec<Vec<T>> {
    let mut c = 0;
    (0..w)
        .map(|i| {
            (0..1 + (i + r.len()) % 3)
                .map(|_| {
                    c += 1;
                    r[(c - 1) % r.len()].clone()
                })
                .collect()
        })
        .collect()
}
pub fn hint<C: Config>(which: usize, x: &[Fe<C>], n: usize) -> Vec<Fe<C>> {
    (0..n)
        .map(|j| match which {
            0 => x.iter().enumerate().fold(fu::<C>(j as u64 + 1), |a, (i, v)| a + *v * fu::<C>(i as u64 + 2)),
            1 => x.iter().enumerate().fold(one::<C>(), |a, (i, v)| a * (*v + fu::<C>((i + j) as u64))),
            _ => fu::<C>(j as u64) - x[j % x.len()],
        })
        .collect()
}
pub fn gate<C: Config>(which: usize, x: &[Fe<C>]) -> Fe<C> {
    match which {
        0 => x.iter().enumerate().fold(fu::<C>(3), |a, (i, v)| a + *v * *v * fu::<C>(i as u64 + 1)),
        _ => x.iter().enumerate().fold(one::<C>(), |a, (i, v)| a * (*v + fu::<C>(i as u64 + 1))),
    }
}

impl<C: Config> M<C> {
    pub fn new(regs: Vec<Fe<C>>) -> M<C> {
        let mut m = M::sub(regs.into_iter().map(|v| Val { v, c: false }).collect(), vec![]);
        m.root = true;
        m
    }
    fn sub(regs: Vec<Val<C>>, params: Vec<i64>) -> M<C> {
        M { sat: true, undef: false, outs: vec![], cv: BTreeMap::new(), shapes: vec![], calls: 0, bits: 0, free_div: false, regs, kv: BTreeMap::new(), defers: vec![], params, root: false }
    }
    fn get(&self, x: &X) -> Val<C> {
        match x {
            X::R(_) if self.regs.is_empty() => Val { v: zero::<C>(), c: true },
            X::R(i) => self.regs[i % self.regs.len()],
            X::P(_) if self.params.is_empty() => Val { v: zero::<C>(), c: true },
            X::P(i) => {
                let p = self.params[i % self.params.len()];
                Val { v: value::<C>(&(p < 0, U256::from(p.unsigned_abs()))), c: true }
            }
            X::K(_, k) => Val { v: value::<C>(k), c: true },
        }
    }
    /// Runs the deferred functions.
    pub fn finish(&mut self, p: &Prog) {
        let mut i = 0;
        while i < self.defers.len() {
            let (b, regs) = self.defers[i].clone();
            let mine = std::mem::replace(&mut self.regs, regs);
            for o in &b.ops {
                self.op(o, p);
            }
            self.regs = mine;
            i += 1;
        }
    }
    fn boolean(&mut self, x: &Val<C>) {
        self.sat &= x.v.is_zero() || x.v == one::<C>();
    }
    fn call(&mut self, p: &Prog, b: &Body, in_: Vec<Val<C>>, params: Vec<i64>, wanted: Option<usize>) -> Vec<Val<C>> {
        let mut m = M::sub(in_.into_iter().map(|x| Val { v: x.v, c: false }).collect(), params);
        for o in &b.ops {
            m.op(o, p);
        }
        let r: Vec<Val<C>> = match wanted {
            None => b.out.iter().map(|x| m.get(x)).collect(),
            Some(n) => (0..n).map(|i| if b.out.is_empty() { Val { v: fu::<C>(i as u64), c: true } } else { m.get(&b.out[i % b.out.len()]) }).collect(),
        };
        m.finish(p);
        self.sat &= m.sat;
        self.undef |= m.undef;
        self.calls += 1 + m.calls;
        self.bits += m.bits;
        self.free_div |= m.free_div;
        for (k, v) in m.cv {
            self.cv.entry(k).or_default().extend(v);
        }
        r.into_iter().map(|x| Val { v: x.v, c: false }).collect()
    }
    pub fn op(&mut self, o: &Op, p: &Prog) {
        let a: Vec<Val<C>> = o.a.iter().map(|x| self.get(x)).collect();
        let all = a.iter().all(|x| x.c);
        let b01 = |x: bool| fu::<C>(x as u64);
        let mut push = |m: &mut Self, v: Fe<C>, c: bool| m.regs.push(Val { v, c });
        match o.o {
            "add" => push(self, a.iter().fold(zero::<C>(), |s, x| s + x.v), all),
            "sub" => push(self, a[1..].iter().fold(a[0].v, |s, x| s - x.v), all),
            "mul" => push(self, a.iter().fold(one::<C>(), |s, x| s * x.v), all),
            "mulacc" => push(self, a[0].v + a[1].v * a[2].v, all),
            "neg" => push(self, zero::<C>() - a[0].v, all),
            "div" | "inv" => {
                let (x, y) = if o.o == "inv" { (one::<C>(), a[0].v) } else { (a[0].v, a[1].v) };
                self.sat &= !y.is_zero();
                push(self, x * y.inv().unwrap_or(zero::<C>()), all)
            }
            "divu" => {
                self.sat &= !a[1].v.is_zero() || a[0].v.is_zero();
                self.free_div |= a[1].v.is_zero();
                push(self, a[0].v * a[1].v.inv().unwrap_or(zero::<C>()), all)
            }
            "tobin" => {
                let n = if o.n < 0 { elem_bits::<C>() } else { o.n as usize };
                let x = a[0].v.to_u256();
                let fits = n >= 256 || (x >> n as u32) == U256::ZERO;
                if !fits {
                    self.sat = false;
                    self.undef |= a[0].c;
                }
                self.bits += 1;
                for i in 0..n {
                    push(self, fu::<C>(((x >> i as u32) & U256::ONE).as_u64()), a[0].c);
                }
            }
            "frombin" => {
                let mut s = zero::<C>();
                let mut c = one::<C>();
                for x in &a {
                    self.boolean(x);
                    s = s + c * x.v;
                    c = c + c;
                }
                push(self, s, all)
            }
            "xor" | "or" | "and" => {
                self.boolean(&a[0]);
                self.boolean(&a[1]);
                let (x, y) = (!a[0].v.is_zero(), !a[1].v.is_zero());
                push(
                    self,
                    b01(match o.o {
                        "xor" => x != y,
                        "or" => x || y,
                        _ => x && y,
                    }),
                    all,
                )
            }
            "select" => {
                self.boolean(&a[0]);
                let r = if a[0].v.is_zero() { a[2] } else { a[1] };
                push(self, r.v, r.c && a[0].c)
            }
            "lookup2" => {
                self.boolean(&a[0]);
                self.boolean(&a[1]);
                let i = !a[0].v.is_zero() as usize + 2 * !a[1].v.is_zero() as usize;
                push(self, a[2 + i].v, all)
            }
            "iszero" => push(self, b01(a[0].v.is_zero()), all),
            "cmp" => {
                self.bits += 1;
                let (x, y) = (a[0].v.to_u256(), a[1].v.to_u256());
                let r = match x.cmp(&y) {
                    std::cmp::Ordering::Less => zero::<C>() - one::<C>(),
                    std::cmp::Ordering::Equal => zero::<C>(),
                    std::cmp::Ordering::Greater => one::<C>(),
                };
                push(self, r, all)
            }
            "aeq" | "rnd" => self.sat &= a[0].v == a[1].v,
            "ane" => self.sat &= a[0].v != a[1].v,
            "abool" => self.boolean(&a[0]),
            "acrumb" => self.sat &= (0..4u64).any(|i| a[0].v == fu::<C>(i)),
            "ale" => {
                self.bits += 1;
                self.sat &= a[0].v.to_u256() <= a[1].v.to_u256()
            }
            "hint" => {
                for v in hint::<C>(o.f % 3, &a.iter().map(|x| x.v).collect::<Vec<_>>(), o.n as usize) {
                    push(self, v, false)
                }
            }
            "custom" => push(self, gate::<C>(o.f % 2, &a.iter().map(|x| x.v).collect::<Vec<_>>()), false),
            "first" => push(self, a[0].v, false),
            "single" => push(self, a[0].v, a[0].c),
            "out" => self.outs.push(a[0].v),
            "cv" => self.cv.entry(o.k).or_default().push(a[0].v),
            "kvset" => {
                self.kv.insert(o.s[0].clone(), a[0]);
            }
            "kvget" => {
                let v = self.kv.get(&o.s[0]).copied().unwrap_or(Val { v: zero::<C>(), c: true });
                self.regs.push(v)
            }
            "mark" => {}
            "defer" => {
                let regs = self.regs.clone();
                self.defers.push((o.b.clone().unwrap(), regs));
            }
            "call" => {
                let n = a.len() as i64;
                let r = self.call(p, &p.simple[o.f % 3], a, vec![n], None);
                self.regs.extend(r);
            }
            "mcall" => {
                let num = |i: usize| o.s[i].parse::<i128>().unwrap();
                let n = a.len() as i64;
                let (params, wanted) = match o.f % 9 {
                    0 => (vec![num(0) as i64, (num(1) != 0) as i64], 1 + num(0).unsigned_abs() as usize % 3),
                    1 => (vec![lens(&o.l), shp(&o.s[0])], 1 + o.s[0].len() % 3),
                    2 => (vec![num(0) as i64], 1),
                    3 => (vec![], 1),
                    4 => (vec![num(0) as i64], 1),
                    5 => (vec![num(0) as i64, lens(&o.l)], 2),
                    6 => {
                        let h = o.n as usize % (o.l.len() + 1);
                        let mut s = 3;
                        for y in [&o.l[..h], &o.l[h..]] {
                            s = (s * 41 + lens(y)) % 1000003;
                        }
                        (vec![(num(0) % 1000003) as i64, s], 2)
                    }
                    7 => (vec![num(0) as i64, (num(1) != 0) as i64, num(2) as i64], 1 + a.len() % 2),
                    _ => (vec![shp(&o.s[0]), shp(&o.s[1]), o.s[0].len() as i64], 1),
                };
                let mut params = params;
                params.push(n);
                let r = self.call(p, &p.mem[o.f % 9], a, params, Some(wanted));
                let d = |x: &[Vec<Val<C>>]| list(x, |y| y.len().to_string());
                let (shape, res) = match o.f % 9 {
                    1 => {
                        let x = rows(&r, 1 + o.s[0].len() % 2);
                        (d(&x), x.concat())
                    }
                    2 | 3 | 8 => ("v".to_string(), r),
                    4 => ("-".to_string(), vec![]),
                    5 => {
                        let x = rows(&r, 2);
                        (d(&x), x.concat())
                    }
                    6 => {
                        let x = rows(&r, 3);
                        (format!("[{},{},[]]", d(&x[..1]), d(&x[1..])), x.concat())
                    }
                    _ => (r.len().to_string(), r),
                };
                if self.root {
                    self.shapes.push(shape);
                }
                self.regs.extend(res);
            }
            x => panic!("unknown op {x}"),
        }
    }
}

// ---------------------------------------------------------------- generation

pub fn konst<C: Config>(g: &mut Gen, small: bool) -> X {
    let p = modulus::<C>();
    let n = |neg: bool, v: U256| if neg { format!("-{v}") } else { format!("{v}") };
    let low = |g: &mut Gen, bits: u32| {
        let v = match g.below(4) {
            0 => g.below(3) as u64,
            1 => g.u64(),
            2 => g.below(300) as u64,
            _ => u64::MAX - g.below(3) as u64,
        };
        if bits == 64 {
            v
        } else {
            v % (1u64 << bits)
        }
    };
    if small {
        let v = g.below(3) as u64;
        let neg = g.chance(1, 8);
        return X::K(format!("i:{}{v}", if neg { "-" } else { "" }), (neg, U256::from(v)));
    }
    match g.below(12) {
        0 | 1 => {
            let neg = g.bool();
            let v = U256::from(low(g, 63));
            X::K(format!("{}:{}", if g.bool() { "i" } else { "I" }, n(neg, v)), (neg, v))
        }
        2 => {
            let neg = g.bool();
            let v = U256::from(low(g, 31));
            X::K(format!("j:{}", n(neg, v)), (neg, v))
        }
        3 => {
            let v = U256::from(low(g, 64));
            X::K(format!("{}:{v}", if g.bool() { "u" } else { "U" }), (false, v))
        }
        4 => {
            let v = U256::from(low(g, 8));
            X::K(format!("y:{v}"), (false, v))
        }
        5 => {
            let v = U256::from(low(g, 16));
            X::K(format!("w:{v}"), (false, v))
        }
        6 | 7 | 8 => {
            let neg = g.chance(1, 3);
            let mut v = match g.below(4) {
                0 => fe::<C>(g).to_u256(),
                1 => p + U256::from(g.below(3) as u32) - U256::ONE,
                2 => U256::from(g.u64()) << g.below(192) as u32,
                _ => rand_fe::<C>(g).to_u256() + p,
            };
            if v == U256::ZERO && neg {
                v = U256::ONE;
            }
            match g.below(5) {
                0 => X::K(format!("b:{}", n(neg, v)), (neg, v)),
                1 => X::K(format!("B:{}", n(neg, v)), (neg, v)),
                2 => X::K(format!("s:{}", n(neg, v)), (neg, v)),
                3 => X::K(format!("s:{}0x{v:x}", if neg { "-" } else { "" }), (neg, v)),
                _ => {
                    let w = v & U256::from(0xffffu32);
                    X::K(format!("s:0b{w:b}"), (false, w))
                }
            }
        }
        9 => {
            let k = g.below(10);
            let b = g.bytes(k);
            let v = b.iter().fold(U256::ZERO, |a, &x| (a << 8u32) | U256::from(x));
            X::K(format!("x:{}", crate::srv::hex(&b)), (false, v))
        }
        _ => {
            let v = fe::<C>(g).to_u256();
            X::K(format!("{}:{v}", if g.bool() { "e" } else { "E" }), (false, v))
        }
    }
}

pub struct GenState<C: Config> {
    pub heavy: usize,
    pub cv: usize,
    pub custom: bool,
    pub rnd: bool,
    pub _c: std::marker::PhantomData<C>,
}
const KEYS: [&str; 3] = ["", "k", "other"];

impl<C: Config> GenState<C> {
    fn opd(&mut self, g: &mut Gen, regs: usize) -> X {
        match g.weighted(&[12, 2, 1, 1]) {
            0 => X::R(if g.bool() { regs.saturating_sub(1 + g.below(6)) } else { g.below(regs.max(1)) }),
            1 => konst::<C>(g, true),
            2 => konst::<C>(g, false),
            _ => X::P(g.below(3)),
        }
    }
    /// One op for a body with so many registers. `known` are the values of the registers, where
    /// they are known. depth: 0 root, 1.. functions (which may call functions of higher index).
    fn op(&mut self, g: &mut Gen, regs: usize, known: Option<&[Vec<Val<C>>]>, level: usize, deferred: bool) -> Op {
        let bools: Vec<usize> = match known {
            Some(ks) => (0..regs).filter(|&i| ks.iter().all(|k| k[i].v.is_zero() || k[i].v == one::<C>())).collect(),
            None => vec![],
        };
        let mut op = Op::default();
        let boolean = |s: &mut Self, g: &mut Gen| {
            if !bools.is_empty() && g.chance(9, 10) {
                X::R(*g.pick(&bools))
            } else if g.chance(3, 4) {
                X::K(format!("i:{}", 0), (false, U256::ZERO))
            } else {
                s.opd(g, regs)
            }
        };
        let bits = elem_bits::<C>();
        let heavy = self.heavy > 0;
        let funcs = level < 3;
        let asserts = if known.is_some() { 3 } else { 1 };
        let w = [
            6, // 0 add
            4, // 1 sub
            7, // 2 mul
            2, // 3 mulacc
            1, // 4 neg
            if known.is_some() { 3 } else { 1 }, // 5 div..
            if heavy { 3 } else { 0 }, // 6 tobin
            1, // 7 frombin
            if known.is_some() { 5 } else { 1 }, // 8 xor or and
            3, // 9 select
            2, // 10 lookup2
            3, // 11 iszero
            if heavy { 2 } else { 0 }, // 12 cmp
            asserts, // 13 aeq
            asserts, // 14 ane
            asserts, // 15 abool
            if known.is_some() { 1 } else { 0 }, // 16 acrumb
            if heavy { 2 } else { 0 }, // 17 ale
            2, // 18 hint
            if self.custom { 2 } else { 0 }, // 19 custom
            1, // 20 first, single
            if level == 0 { 3 } else { 0 }, // 21 out
            if self.rnd { 1 } else { 0 }, // 22 rnd
            if level == 0 { 2 } else { 0 }, // 23 cv
            1, // 24 kvset
            1, // 25 kvget
            1, // 26 mark
            if deferred { 1 } else { 2 }, // 27 defer
            if funcs { 4 } else { 0 }, // 28 call
            if funcs { 7 } else { 0 }, // 29 mcall
        ];
        let n_ary = |s: &mut Self, g: &mut Gen, lo: usize, hi: usize| {
            let n = lo + g.small(hi - lo);
            (0..n).map(|_| s.opd(g, regs)).collect::<Vec<_>>()
        };
        match g.weighted(&w) {
            0 => (op.o, op.a) = ("add", n_ary(self, g, 2, 5)),
            1 => (op.o, op.a) = ("sub", n_ary(self, g, 2, 5)),
            2 => (op.o, op.a) = ("mul", n_ary(self, g, 2, 4)),
            3 => (op.o, op.a) = ("mulacc", n_ary(self, g, 3, 3)),
            4 => (op.o, op.a) = ("neg", n_ary(self, g, 1, 1)),
            5 => match g.below(3) {
                0 => (op.o, op.a) = ("div", n_ary(self, g, 2, 2)),
                1 => (op.o, op.a) = ("divu", n_ary(self, g, 2, 2)),
                _ => (op.o, op.a) = ("inv", n_ary(self, g, 1, 1)),
            },
            6 => {
                self.heavy -= 1;
                op.o = "tobin";
                op.a = n_ary(self, g, 1, 1);
                op.n = match g.below(4) {
                    0 => -1,
                    1 => bits as i64,
                    2 => 1 + g.below(bits.min(20)) as i64,
                    _ => (bits - g.below(bits.min(3))) as i64,
                };
                if known.is_none() && op.n < bits as i64 {
                    op.n = -1;
                }
                if matches!(op.a[0], X::P(_)) && op.n >= 0 {
                    op.n = -1;
                }
            }
            7 => {
                op.o = "frombin";
                let n = g.below(5);
                op.a = (0..n).map(|_| boolean(self, g)).collect();
            }
            8 => {
                op.o = *g.pick(&["xor", "or", "and"]);
                op.a = vec![boolean(self, g), boolean(self, g)];
            }
            9 => {
                op.o = "select";
                op.a = vec![boolean(self, g), self.opd(g, regs), self.opd(g, regs)];
            }
            10 => {
                op.o = "lookup2";
                op.a = vec![boolean(self, g), boolean(self, g)];
                op.a.extend(n_ary(self, g, 4, 4));
            }
            11 => (op.o, op.a) = ("iszero", n_ary(self, g, 1, 1)),
            12 => {
                self.heavy -= 1;
                (op.o, op.a) = ("cmp", n_ary(self, g, 2, 2))
            }
            13 | 22 => {
                (op.o, op.a) = ("aeq", n_ary(self, g, 2, 2));
                // a pair of equal registers, when there is one
                if let Some(ks) = known {
                    if g.chance(4, 5) && regs > 1 {
                        let i = g.below(regs);
                        if let Some(j) = (0..regs).rev().find(|&j| j != i && ks.iter().all(|k| k[i].v == k[j].v)) {
                            op.a = vec![X::R(i), X::R(j)];
                        } else if ks.iter().all(|k| k[i].v == ks[0][i].v) {
                            let v = ks[0][i].v.to_u256();
                            op.a = vec![X::R(i), X::K(format!("B:{v}"), (false, v))];
                        }
                    }
                }
                if self.rnd && g.chance(1, 3) {
                    op.o = "rnd";
                    op.f = g.below(2);
                }
            }
            14 => (op.o, op.a) = ("ane", n_ary(self, g, 2, 2)),
            15 => (op.o, op.a) = ("abool", vec![boolean(self, g)]),
            16 => (op.o, op.a) = ("acrumb", vec![boolean(self, g)]),
            17 => {
                self.heavy -= 1;
                (op.o, op.a) = ("ale", n_ary(self, g, 2, 2));
                if let (Some(ks), true) = (known, g.chance(1, 3)) {
                    // just at the bound, or next to it
                    let i = g.below(regs.max(1));
                    if regs > 0 {
                        let v = ks[0][i].v.to_u256();
                        let d = if v > U256::ZERO && g.bool() { v - U256::ONE } else { v };
                        let x = X::K(format!("B:{d}"), (false, d));
                        op.a = if g.bool() { vec![X::R(i), x] } else { vec![x, X::R(i)] };
                    }
                }
            }
            18 => {
                (op.o, op.a) = ("hint", n_ary(self, g, 1, 4));
                op.n = 1 + g.below(3) as i64;
                op.f = g.below(3);
                op.k = g.below(3);
            }
            19 => {
                (op.o, op.a) = ("custom", n_ary(self, g, 1, 3));
                op.f = g.below(2);
            }
            20 => (op.o, op.a) = (if g.bool() { "first" } else { "single" }, n_ary(self, g, 1, 1)),
            21 => (op.o, op.a) = ("out", n_ary(self, g, 1, 1)),
            23 => {
                (op.o, op.a) = ("cv", n_ary(self, g, 1, 1));
                op.k = self.cv;
                self.cv += 1;
            }
            24 => {
                (op.o, op.a) = ("kvset", n_ary(self, g, 1, 1));
                op.s = vec![g.pick(&KEYS).to_string()];
            }
            25 => {
                op.o = "kvget";
                op.s = vec![g.pick(&KEYS).to_string()];
            }
            26 => (op.o, op.a) = ("mark", n_ary(self, g, 1, 1)),
            27 => {
                op.o = "defer";
                let n = 1 + g.below(3);
                op.b = Some(self.body(g, regs, n, level.max(if known.is_some() { 0 } else { 1 }), true));
            }
            28 => {
                op.o = "call";
                op.a = n_ary(self, g, 1, 4);
                op.f = g.range(level.min(2), 2);
                op.k = g.below(2);
            }
            _ => {
                op.o = "mcall";
                // functions of a level only call those of higher levels
                let lo = [0, 3, 6][level.min(2)];
                op.f = g.range(lo, 8);
                op.k = g.below(2);
                let num = |g: &mut Gen, lo: i64, hi: i64| match g.below(4) {
                    0 => g.below(3) as i64,
                    1 => (lo.max(-3)).max(-(g.below(3) as i64)),
                    2 => lo.wrapping_add((g.u64() % (hi.wrapping_sub(lo) as u64).max(1)) as i64),
                    _ => *g.pick(&[lo, hi]),
                };
                let text = |g: &mut Gen| g.pick(&["", "a", "ab", "b", "1", "10xxxxxxxxx", "xxxxxxxxx0", "1b", "<int Value>", "é"]).to_string();
                match op.f {
                    0 => {
                        op.a = n_ary(self, g, 1, 4);
                        op.s = vec![num(g, i64::MIN / 2, i64::MAX / 2).to_string(), g.below(2).to_string()];
                    }
                    1 | 5 | 6 => {
                        let r = g.below(4);
                        op.l = (0..r).map(|_| g.below(3)).collect();
                        // calls without variables are refused
                        if op.l.iter().sum::<usize>() == 0 {
                            op.l.push(1 + g.below(2));
                        }
                        let n: usize = op.l.iter().sum();
                        op.a = n_ary(self, g, n, n);
                        op.n = g.below(4) as i64;
                        op.s = vec![match op.f {
                            1 => text(g),
                            5 => num(g, -128, 127).to_string(),
                            _ => (if g.bool() { g.u64() } else { g.below(3) as u64 }).to_string(),
                        }];
                    }
                    2 => {
                        op.a = n_ary(self, g, 1, 1);
                        op.s = vec![num(g, 0, 255).to_string()];
                    }
                    3 => op.a = n_ary(self, g, 1, 4),
                    4 => {
                        op.a = n_ary(self, g, 1, 1);
                        op.s = vec![num(g, i64::MIN / 2, i64::MAX / 2).to_string()];
                    }
                    7 => {
                        op.a = n_ary(self, g, 1, 3);
                        op.s = vec![num(g, -32768, 32767).to_string(), g.below(2).to_string(), num(g, 0, u32::MAX as i64).to_string()];
                    }
                    _ => {
                        op.a = n_ary(self, g, 1, 1);
                        op.s = match g.below(3) {
                            0 => vec!["1".into(), "xxxxxxxxx0".into()],
                            1 => vec!["10xxxxxxxxx".into(), "".into()],
                            _ => vec![text(g), text(g)],
                        };
                    }
                }
            }
        }
        op
    }
    /// A body whose inputs are not known.
    pub fn body(&mut self, g: &mut Gen, regs: usize, n: usize, level: usize, deferred: bool) -> Body {
        let mut b = Body::default();
        let mut r = regs;
        for _ in 0..n {
            let mut o = self.op(g, r, None, level, deferred);
            if deferred {
                // equal values are likely enough only for these
                if o.o == "aeq" && g.chance(3, 4) {
                    o.a[1] = o.a[0].clone();
                }
            } else if matches!(o.o, "aeq" | "ane" | "abool" | "rnd" | "div" | "inv" | "divu" | "ale") && g.chance(2, 3) {
                continue;
            }
            r += 1;
            b.ops.push(o);
        }
        let k = 1 + g.below(3);
        b.out = (0..k).map(|_| self.opd(g, r)).collect();
        b
    }
}

pub struct Case<C: Config> {
    pub prog: Prog,
    pub kind: usize,
    pub dims: Vec<usize>,
    /// values of the fields, as they are written and as they are
    pub vals: Vec<Vec<(String, Fe<C>)>>,
    /// which of the values are public
    pub public: Vec<bool>,
    pub models: Vec<M<C>>,
}

fn publics(kind: usize, d: &[usize]) -> Vec<bool> {
    let r = |b: bool, n: usize| vec![b; n];
    match kind {
        0 => [r(false, d[0]), r(true, d[1])].concat(),
        1 => [r(true, d[1]), r(false, d[0]), r(true, 1)].concat(),
        _ => {
            let mut v = [r(false, 1), r(true, d[0]), r(false, d[1] + d[2]), r(true, 1), r(false, 2)].concat();
            for i in 0..d[3] {
                v.push(true);
                v.extend(r(false, 1 + i));
            }
            v
        }
    }
}

pub fn gen<C: Config>(g: &mut Gen, max_ops: usize, custom: bool) -> Case<C> {
    let kind = g.weighted(&[3, 2, 2]);
    let dims = match kind {
        0 | 1 => vec![1 + g.below(4), g.below(3)],
        _ => vec![g.below(3), g.below(3), g.below(3), g.below(3)],
    };
    let public = publics(kind, &dims);
    let n_runs = 1 + g.below(3);
    let mut vals: Vec<Vec<(String, Fe<C>)>> = vec![];
    for _ in 0..n_runs {
        let small = g.bool();
        vals.push(
            public
                .iter()
                .map(|_| {
                    // elements of the compiler's own type are no values of inputs
                    let X::K(s, k) = konst::<C>(g, small) else { unreachable!() };
                    let v = value::<C>(&k);
                    (if s.starts_with(['e', 'E']) { format!("B:{}", v.to_u256()) } else { s }, v)
                })
                .collect(),
        );
    }
    // registers are the secrets first, then the public ones? No: the fields in order of declaration.
    let mut st = GenState::<C> { heavy: if elem_bits::<C>() > 200 { 2 } else { 4 }, cv: 0, custom, rnd: !is_gf2::<C>(), _c: std::marker::PhantomData };
    let mut p = Prog::default();
    let heavy = st.heavy;
    st.heavy = heavy / 2;
    for f in 0..3 {
        let n = g.small(6);
        p.simple.push(st.body(g, 2, n, 1 + f, false));
    }
    for f in 0..9 {
        let n = g.small(6);
        p.mem.push(st.body(g, 2, n, 1 + f / 3, false));
    }
    st.heavy = heavy;
    let mut ms: Vec<M<C>> = vals.iter().map(|v| M::new(v.iter().map(|x| x.1).collect())).collect();
    let nregs = public.len();
    let first = Op { o: "mul", a: vec![X::R(0), X::R(if kind == 1 { dims[1] } else { 0 })], ..Op::default() };
    // something depends on a secret input
    let secret = public.iter().position(|x| !x).unwrap();
    let mut ops = vec![Op { a: vec![X::R(secret), X::R(secret)], ..first }, Op { o: "out", a: vec![X::R(nregs)], ..Op::default() }];
    if let (Some(i), true) = (public.iter().position(|&x| x), g.bool()) {
        ops.push(Op { o: "out", a: vec![X::R(i)], ..Op::default() });
    }
    for m in ms.iter_mut() {
        for o in &ops {
            m.op(o, &p);
        }
    }
    let n = 3 + g.small(max_ops);
    for _ in 0..n {
        let regs = ms[0].regs.len();
        let known: Vec<Vec<Val<C>>> = ms.iter().map(|m| m.regs.clone()).collect();
        let o = st.op(g, regs, Some(&known), 0, false);
        let mut next = ms.clone();
        let mut done = next.clone();
        for (m, d) in next.iter_mut().zip(done.iter_mut()) {
            m.op(&o, &p);
            *d = m.clone();
            d.finish(&p);
        }
        let worse = done.iter().any(|d| d.undef) || next.iter().zip(&done).zip(&ms).any(|((_, d), m)| m.sat && !d.sat);
        if worse && g.chance(11, 12) || done.iter().any(|d| d.undef) {
            continue;
        }
        ms = next;
        ops.push(o);
    }
    p.root = Body { ops, out: vec![] };
    for m in ms.iter_mut() {
        m.finish(&p);
    }
    Case { prog: p, kind, dims, vals, public, models: ms }
}
/// Bits of an element.
pub fn elem_bits<C: Config>() -> usize {
    if is_gf2::<C>() {
        1
    } else {
        field_bits::<C>()
    }
}
