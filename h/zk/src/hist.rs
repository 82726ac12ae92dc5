//! Histories of device operations: generation, the plain-array model, and execution.
use crate::kern::{self, Arg, Kern};
use arith::SimdField as _;
use ecgen::*;
use expander_compiler::circuit::config::{Config, SIMDField};
use expander_compiler::frontend::HintRegistry;
use expander_compiler::zkcuda::context::{Context, DeviceMemoryHandle};
use expander_compiler::zkcuda::kernel::KernelPrimitive;
use expander_compiler::zkcuda::shape::{Reshape, Transpose};
use pbt::{guarded, Gen};

pub type Sf<C> = SIMDField<C>;
pub fn pack<C: Config>() -> usize {
    Sf::<C>::PACK_SIZE
}
pub fn prod(s: &[usize]) -> usize {
    s.iter().product()
}

/// Row-major array of SIMD elements, each a list of lanes.
#[derive(Clone, Debug, PartialEq)]
pub struct Arr<C: Config> {
    pub shape: Vec<usize>,
    pub v: Vec<Vec<Fe<C>>>,
}
impl<C: Config> Arr<C> {
    pub fn reshape(&self, s: &[usize]) -> Self {
        Arr { shape: s.to_vec(), v: self.v.clone() }
    }
    pub fn transpose(&self, axes: &[usize]) -> Self {
        let shape: Vec<usize> = axes.iter().map(|&a| self.shape[a]).collect();
        let mut v = vec![];
        for i in 0..self.v.len() {
            // coordinates in the new array
            let mut r = i;
            let mut c = vec![0; shape.len()];
            for k in (0..shape.len()).rev() {
                c[k] = r % shape[k];
                r /= shape[k];
            }
            let mut old = vec![0; shape.len()];
            for (k, &a) in axes.iter().enumerate() {
                old[a] = c[k];
            }
            let at = old.iter().zip(&self.shape).fold(0, |s, (x, n)| s * n + x);
            v.push(self.v[at].clone());
        }
        Arr { shape, v }
    }
}

#[derive(Clone, Debug)]
pub enum Op<C: Config> {
    /// way: 0 scalar, 1 packing, 2 simd, 3 flat simd
    Copy { arr: Arr<C>, way: usize },
    Reshape(usize, Vec<usize>),
    Transpose(usize, Vec<usize>),
    Call { k: usize, n: usize, args: Vec<Option<usize>> },
}

#[derive(Clone)]
pub struct H<C: Config> {
    pub arr: Arr<C>,
    /// which memory it views
    pub mem: usize,
    /// as created
    pub fresh: bool,
}
pub struct History<C: Config> {
    pub ops: Vec<Op<C>>,
    pub kernels: Vec<Kern>,
    pub hs: Vec<H<C>>,
    pub mems: usize,
    /// for every call, whether its constraints hold on every slice
    pub holds: Vec<bool>,
    /// every dimension is a power of two
    pub pow2: bool,
    /// no reshaped or transposed array is used and one parallel count only
    pub plain: bool,
    pub transposed: bool,
    /// memories written by a call
    pub outs: Vec<usize>,
    /// kernels are handed to the launches in one variable, overwritten each time
    pub one_slot: bool,
}

pub struct HOpts {
    pub ops: usize,
    pub calls: usize,
    pub transpose: bool,
    pub hints: bool,
    pub asserts: bool,
    pub max: usize,
    /// every kernel has an argument that is not broadcast
    pub split: bool,
}

fn dims(g: &mut Gen, pow2: bool, max: usize) -> Vec<usize> {
    let rank = g.weighted(&[1, 4, 4, 3, 1]);
    let mut s = vec![];
    let mut t = 1;
    for _ in 0..rank {
        let d = if pow2 { *g.pick(&[1, 2, 2, 4]) } else { 1 + g.below(5) };
        if t * d > max {
            s.push(1);
        } else {
            t *= d;
            s.push(d);
        }
    }
    s
}
/// A random factorization of n.
pub fn factors(g: &mut Gen, mut n: usize, most: usize) -> Vec<usize> {
    let mut s = vec![];
    while s.len() + 1 < most && g.chance(3, 4) {
        let ds: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
        let d = if g.chance(1, 8) { 1 } else { *g.pick(&ds) };
        s.push(d);
        n /= d;
    }
    if n > 1 || most == 0 || s.is_empty() && g.bool() {
        s.push(n);
    }
    g.shuffle(&mut s);
    s
}
pub fn values<C: Config>(g: &mut Gen, shape: &[usize], lanes: bool) -> Vec<Vec<Fe<C>>> {
    let style = g.below(3);
    (0..prod(shape))
        .map(|i| {
            let mut one = || match style {
                0 => rand_fe::<C>(g),
                1 => fe::<C>(g),
                _ => fu::<C>(i as u64 + 1),
            };
            if lanes {
                (0..pack::<C>()).map(|_| one()).collect()
            } else {
                vec![one(); pack::<C>()]
            }
        })
        .collect()
}

pub fn slice<C: Config>(a: &Arr<C>, s: &[usize], p: usize, lane: usize) -> Vec<Fe<C>> {
    let n = prod(s);
    let at = if a.shape.len() == s.len() { 0 } else { p * n };
    a.v[at..at + n].iter().map(|x| x[lane]).collect()
}

impl<C: Config> History<C> {
    pub fn new() -> Self {
        History { ops: vec![], kernels: vec![], hs: vec![], mems: 0, holds: vec![], pow2: true, plain: true, transposed: false, outs: vec![], one_slot: false }
    }
    fn see(&mut self, s: &[usize]) {
        self.pow2 &= s.iter().all(|d| d.is_power_of_two());
    }
    pub fn push_copy(&mut self, arr: Arr<C>, way: usize) -> usize {
        self.see(&arr.shape);
        self.ops.push(Op::Copy { arr: arr.clone(), way });
        self.hs.push(H { arr, mem: self.mems, fresh: true });
        self.mems += 1;
        self.hs.len() - 1
    }
    fn copy(&mut self, g: &mut Gen, shape: Vec<usize>) -> usize {
        let way = g.weighted(&[4, 1, 2, if shape.len() == 2 { 1 } else { 0 }]);
        let v = values::<C>(g, &shape, way != 0);
        self.push_copy(Arr { shape, v }, way)
    }
    pub fn reshape(&mut self, h: usize, s: Vec<usize>) -> usize {
        self.see(&s);
        let n = H { arr: self.hs[h].arr.reshape(&s), mem: self.hs[h].mem, fresh: false };
        self.ops.push(Op::Reshape(h, s));
        self.hs.push(n);
        self.hs.len() - 1
    }
    pub fn transpose(&mut self, h: usize, a: Vec<usize>) -> usize {
        let n = H { arr: self.hs[h].arr.transpose(&a), mem: self.hs[h].mem, fresh: false };
        self.transposed |= a.iter().enumerate().any(|(i, &x)| i != x);
        self.ops.push(Op::Transpose(h, a));
        self.hs.push(n);
        self.hs.len() - 1
    }
    /// Runs the model of a valid call.
    pub fn call(&mut self, k: usize, n: usize, args: Vec<Option<usize>>) {
        self.see(&[n]);
        let kern = self.kernels[k].clone();
        let mut outs: Vec<Vec<Vec<Fe<C>>>> = kern.args.iter().map(|a| if a.out { vec![vec![]; n * prod(&a.shape)] } else { vec![] }).collect();
        let mut holds = true;
        for p in 0..n {
            for lane in 0..pack::<C>() {
                let ins: Vec<Vec<Fe<C>>> = kern.args.iter().zip(&args).map(|(a, h)| if a.inp { slice(&self.hs[h.unwrap()].arr, &a.shape, p, lane) } else { vec![] }).collect();
                let r = kern.eval::<C>(&ins);
                holds &= r.holds;
                for ((o, r), a) in outs.iter_mut().zip(&r.outs).zip(&kern.args) {
                    for (i, x) in r.iter().enumerate() {
                        o[p * prod(&a.shape) + i].push(*x);
                    }
                }
            }
        }
        self.holds.push(holds);
        for (a, h) in kern.args.iter().zip(&args) {
            self.see(&a.shape);
            if let (true, Some(h)) = (a.inp, h) {
                self.plain &= self.hs[*h].fresh;
            }
        }
        if self.ops.iter().any(|o| matches!(o, Op::Call { n: m, .. } if *m != n)) {
            self.plain = false;
        }
        self.ops.push(Op::Call { k, n, args });
        for (a, v) in kern.args.iter().zip(outs) {
            if a.out {
                let mut shape = vec![n];
                shape.extend(&a.shape);
                self.hs.push(H { arr: Arr { shape, v }, mem: self.mems, fresh: true });
                self.outs.push(self.mems);
                self.mems += 1;
            }
        }
    }
    /// An array of this shape, existing or new.
    fn array(&mut self, g: &mut Gen, s: &[usize]) -> usize {
        let fit: Vec<usize> = (0..self.hs.len()).filter(|&h| self.hs[h].arr.v.len() == prod(s)).collect();
        if fit.is_empty() || g.chance(1, 4) {
            return self.copy(g, s.to_vec());
        }
        let h = *g.pick(&fit);
        if self.hs[h].arr.shape == s && g.chance(7, 8) {
            return h;
        }
        self.reshape(h, s.to_vec())
    }
    pub fn gen_call(&mut self, g: &mut Gen, o: &HOpts, pow2: bool) {
        if !self.kernels.is_empty() && g.chance(1, 3) {
            // an earlier kernel again
            let k = g.below(self.kernels.len());
            let n = if pow2 { 1 << g.below(4) } else { 1 + g.below(6) };
            let mut split = !o.split;
            let args = self.kernels[k].args.clone();
            let mut a = vec![];
            for x in &args {
                if !x.inp {
                    split = true;
                    a.push(None);
                    continue;
                }
                let mut s = x.shape.clone();
                if x.out || !split || g.chance(2, 3) {
                    split = true;
                    s.insert(0, n);
                }
                a.push(Some(self.array(g, &s)));
            }
            return self.call(k, n, a);
        }
        let mut args = vec![];
        let mut hs = vec![];
        let mut n = 0;
        let mut split = false;
        for _ in 0..1 + g.below(3) {
            if !args.is_empty() && g.chance(1, 3) {
                let s = dims(g, pow2, 8);
                split = true;
                args.push(Arg { shape: s, inp: false, out: true });
                // what is handed in for an output does not matter
                hs.push(if g.chance(1, 10) { Some(g.below(self.hs.len())) } else { None });
                continue;
            }
            let h = g.below(self.hs.len());
            let len = self.hs[h].arr.v.len();
            let broadcast = g.chance(1, 4);
            if broadcast {
                let s = if g.bool() { self.hs[h].arr.shape.clone() } else { factors(g, len, 3) };
                let h = if s == self.hs[h].arr.shape { h } else { self.reshape(h, s.clone()) };
                args.push(Arg { shape: s, inp: true, out: false });
                hs.push(Some(h));
                continue;
            }
            split = true;
            if n == 0 {
                let s = &self.hs[h].arr.shape;
                n = if !s.is_empty() && g.chance(2, 3) {
                    s[0]
                } else {
                    let ds: Vec<usize> = (1..=len.min(16)).filter(|d| len % d == 0).collect();
                    *g.pick(&ds)
                };
            }
            if len % n != 0 {
                let mut s = dims(g, pow2, 6);
                s.truncate(3);
                let out = g.chance(1, 5);
                args.push(Arg { shape: s.clone(), inp: true, out });
                s.insert(0, n);
                let h = self.array(g, &s);
                hs.push(Some(h));
                continue;
            }
            let cur = self.hs[h].arr.shape.clone();
            let s = if cur.first() == Some(&n) && g.chance(3, 4) { cur[1..].to_vec() } else { factors(g, len / n, 3) };
            let mut full = s.clone();
            full.insert(0, n);
            let h = if full == cur { h } else { self.reshape(h, full) };
            let out = g.chance(1, 5);
            args.push(Arg { shape: s, inp: true, out });
            hs.push(Some(h));
        }
        if n == 0 {
            n = if pow2 { 1 << g.below(3) } else { 1 + g.below(5) };
        }
        if (o.split && !split) || (g.bool() && args.iter().all(|a| !a.out)) {
            let s = dims(g, pow2, 6);
            args.push(Arg { shape: s, inp: false, out: true });
            hs.push(None);
        }
        // outputs of rank 3 at most, so that arrays stay at rank 4
        if args.iter().any(|a| a.out && a.shape.len() > 3) {
            for a in args.iter_mut() {
                if a.out && !a.inp {
                    a.shape.truncate(3);
                }
            }
            if args.iter().any(|a| a.out && a.shape.len() > 3) {
                return;
            }
        }
        let k = kern::gen::<C>(g, args, o.hints, o.asserts);
        self.kernels.push(k);
        self.call(self.kernels.len() - 1, n, hs);
    }
    pub fn gen(g: &mut Gen, o: &HOpts) -> Self {
        let mut t = History::new();
        let pow2 = g.bool();
        let s = dims(g, pow2, o.max);
        t.copy(g, s);
        let mut calls = 0;
        for _ in 0..1 + g.below(o.ops) {
            match g.weighted(&[2, 3, if o.transpose { 3 } else { 0 }, if calls < o.calls { 5 } else { 0 }]) {
                0 => {
                    let s = dims(g, pow2, o.max);
                    t.copy(g, s);
                }
                1 => {
                    let h = g.below(t.hs.len());
                    let s = factors(g, t.hs[h].arr.v.len(), 4);
                    t.reshape(h, s);
                }
                2 => {
                    let h = g.below(t.hs.len());
                    let mut a: Vec<usize> = (0..t.hs[h].arr.shape.len()).collect();
                    g.shuffle(&mut a);
                    t.transpose(h, a);
                }
                _ => {
                    t.gen_call(g, o, pow2);
                    calls += 1;
                }
            }
        }
        t
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        let mut h = 0;
        for (i, k) in self.kernels.iter().enumerate() {
            s += &format!("kernel {i}: args {:?}\n  nodes {:?}\n  asserts {:?} writes {:?}\n", k.args, k.nodes, k.asserts, k.writes);
        }
        for o in &self.ops {
            match o {
                Op::Copy { arr, way } => {
                    s += &format!("a{h} = copy (way {way}) shape {:?} of {:?}\n", arr.shape, arr.v.iter().map(|x| show::<C>(&x[0])).collect::<Vec<_>>());
                    h += 1;
                }
                Op::Reshape(x, d) => {
                    s += &format!("a{h} = a{x} reshaped to {d:?}\n");
                    h += 1;
                }
                Op::Transpose(x, a) => {
                    s += &format!("a{h} = a{x} with axes {a:?}\n");
                    h += 1;
                }
                Op::Call { k, n, args } => {
                    s += &format!("call kernel {k}, {n} parallel, on {args:?}, giving");
                    for a in &self.kernels[*k].args {
                        if a.out {
                            s += &format!(" a{h}");
                            h += 1;
                        }
                    }
                    s += "\n";
                }
            }
        }
        s
    }
}

pub type Cx<C> = Context<C, HintRegistry<Fe<C>>>;

fn n2<T: Clone>(v: &[T], s: &[usize]) -> Vec<Vec<T>> {
    v.chunks(s[1]).map(|c| c.to_vec()).collect()
}
fn n3<T: Clone>(v: &[T], s: &[usize]) -> Vec<Vec<Vec<T>>> {
    v.chunks(prod(&s[1..])).map(|c| n2(c, &s[1..])).collect()
}
fn n4<T: Clone>(v: &[T], s: &[usize]) -> Vec<Vec<Vec<Vec<T>>>> {
    v.chunks(prod(&s[1..])).map(|c| n3(c, &s[1..])).collect()
}
fn n5<T: Clone>(v: &[T], s: &[usize]) -> Vec<Vec<Vec<Vec<Vec<T>>>>> {
    v.chunks(prod(&s[1..])).map(|c| n4(c, &s[1..])).collect()
}
macro_rules! by_rank {
    ($f:ident, $cx:expr, $v:expr, $s:expr) => {
        match $s.len() {
            0 => $cx.$f(&$v[0]),
            1 => $cx.$f(&$v),
            2 => $cx.$f(&n2(&$v, $s)),
            3 => $cx.$f(&n3(&$v, $s)),
            4 => $cx.$f(&n4(&$v, $s)),
            5 => $cx.$f(&n5(&$v, $s)),
            _ => $cx.$f(&n5(&$v, &$s[1..]).chunks($s[1]).map(|c| c.to_vec()).collect::<Vec<_>>()),
        }
    };
}
macro_rules! back {
    ($f:ident, $t:ty, $cx:expr, $h:expr, $n:expr) => {
        match $n {
            0 => {
                let x: $t = $cx.$f($h);
                (vec![x], vec![])
            }
            1 => {
                let x: Vec<$t> = $cx.$f($h);
                let s = vec![x.len()];
                (x, s)
            }
            2 => {
                let x: Vec<Vec<$t>> = $cx.$f($h);
                let s = vec![x.len(), x[0].len()];
                (x.into_iter().flatten().collect(), s)
            }
            3 => {
                let x: Vec<Vec<Vec<$t>>> = $cx.$f($h);
                let s = vec![x.len(), x[0].len(), x[0][0].len()];
                (x.into_iter().flatten().flatten().collect(), s)
            }
            4 => {
                let x: Vec<Vec<Vec<Vec<$t>>>> = $cx.$f($h);
                let s = vec![x.len(), x[0].len(), x[0][0].len(), x[0][0][0].len()];
                (x.into_iter().flatten().flatten().flatten().collect(), s)
            }
            6 => {
                let x: Vec<Vec<Vec<Vec<Vec<Vec<$t>>>>>> = $cx.$f($h);
                let s = vec![x.len(), x[0].len(), x[0][0].len(), x[0][0][0].len(), x[0][0][0][0].len(), x[0][0][0][0][0].len()];
                (x.into_iter().flatten().flatten().flatten().flatten().flatten().collect(), s)
            }
            _ => {
                let x: Vec<Vec<Vec<Vec<Vec<$t>>>>> = $cx.$f($h);
                let s = vec![x.len(), x[0].len(), x[0][0].len(), x[0][0][0].len(), x[0][0][0][0].len()];
                (x.into_iter().flatten().flatten().flatten().flatten().collect(), s)
            }
        }
    };
}

pub fn copy_in<C: Config>(cx: &mut Cx<C>, a: &Arr<C>, way: usize) -> DeviceMemoryHandle {
    let simd: Vec<Sf<C>> = a.v.iter().map(|x| Sf::<C>::pack(x)).collect();
    match way {
        0 => {
            let v: Vec<Fe<C>> = a.v.iter().map(|x| x[0]).collect();
            by_rank!(copy_to_device, cx, v, &a.shape)
        }
        1 => {
            let mut s = vec![pack::<C>()];
            s.extend(&a.shape);
            let v: Vec<Fe<C>> = (0..pack::<C>()).flat_map(|l| a.v.iter().map(move |x| x[l])).collect();
            by_rank!(copy_to_device_and_pack_simd, cx, v, &s)
        }
        2 => by_rank!(copy_simd_to_device, cx, simd, &a.shape),
        _ => cx.copy_flat_simd_to_device(simd, a.shape[1]),
    }
}
/// Copied back in every way; rank: the nesting asked for.
pub fn check_back<C: Config>(cx: &Cx<C>, h: &DeviceMemoryHandle, a: &Arr<C>, name: &str) -> Result<(), String> {
    let rank = a.shape.len();
    if rank > 5 {
        return Ok(());
    }
    let r = guarded(|| {
        let (v, s): (Vec<Fe<C>>, Vec<usize>) = back!(copy_to_host, Fe<C>, cx, h.clone(), rank);
        if s != a.shape {
            return Err(format!("{name} comes back with shape {s:?}, expected {:?}", a.shape));
        }
        let want: Vec<Fe<C>> = a.v.iter().map(|x| x[0]).collect();
        if v != want {
            return Err(format!("{name} of shape {s:?} comes back as {}, expected {}", show_all::<C>(&v), show_all::<C>(&want)));
        }
        let (v, s): (Vec<Sf<C>>, Vec<usize>) = back!(copy_simd_to_host, Sf<C>, cx, h.clone(), rank);
        let v: Vec<Vec<Fe<C>>> = v.iter().map(|x| x.unpack()).collect();
        if s != a.shape || v != a.v {
            return Err(format!("{name} comes back as another SIMD array"));
        }
        let (v, s): (Vec<Fe<C>>, Vec<usize>) = back!(copy_to_host_and_unpack_simd, Fe<C>, cx, h.clone(), rank + 1);
        let n = a.v.len();
        if s[0] != pack::<C>() || s[1..] != a.shape[..] || (0..pack::<C>()).any(|l| (0..n).any(|i| v[l * n + i] != a.v[i][l])) {
            return Err(format!("{name} comes back as another unpacked array"));
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("copying {name} back panicked: {e}")),
    }
}
pub fn wrong_rank<C: Config>(cx: &Cx<C>, h: &DeviceMemoryHandle, rank: usize) -> bool {
    guarded(|| {
        let (v, _): (Vec<Fe<C>>, Vec<usize>) = back!(copy_to_host, Fe<C>, cx, h.clone(), rank);
        v
    })
    .is_err()
}

pub struct Ran<C: Config> {
    pub cx: Cx<C>,
    pub hs: Vec<DeviceMemoryHandle>,
    pub kernels: Vec<Option<KernelPrimitive<C>>>,
    slot: Option<KernelPrimitive<C>>,
    one_slot: bool,
}
pub enum Stop {
    /// where and why it was refused
    Refused(usize, String),
    Failed(String),
}
impl<C: Config> Ran<C> {
    pub fn new(n: usize) -> Self {
        Ran { cx: Context::new(kern::hints::<C>()), hs: vec![], kernels: vec![None; n], slot: None, one_slot: false }
    }
    pub fn kernel(&mut self, ks: &[Kern], k: usize) -> Result<(), String> {
        if self.kernels[k].is_none() {
            let r = guarded(|| ks[k].compile::<C>()).map_err(|e| format!("building kernel {k} panicked: {e}"))?;
            self.kernels[k] = Some(r.map_err(|e| format!("kernel {k} does not compile: {e}"))?);
        }
        Ok(())
    }
    /// The context cannot be used after a refusal.
    pub fn op(&mut self, ks: &[Kern], i: usize, o: &Op<C>) -> Result<(), Stop> {
        match o {
            Op::Copy { arr, way } => {
                let h = guarded(|| copy_in(&mut self.cx, arr, *way)).map_err(|e| Stop::Failed(format!("op {i}: copying in panicked: {e}")))?;
                self.hs.push(h);
            }
            Op::Reshape(h, s) => {
                let h = guarded(|| self.hs[*h].reshape(s)).map_err(|e| Stop::Failed(format!("op {i}: reshaping panicked: {e}")))?;
                self.hs.push(h);
            }
            Op::Transpose(h, a) => {
                let h = guarded(|| self.hs[*h].transpose(a)).map_err(|e| Stop::Failed(format!("op {i}: transposing panicked: {e}")))?;
                self.hs.push(h);
            }
            Op::Call { k, n, args } => {
                self.kernel(ks, *k).map_err(|e| Stop::Refused(i, e))?;
                let mut io: Vec<DeviceMemoryHandle> = args.iter().map(|a| a.and_then(|a| self.hs[a].clone())).collect();
                let mut kp = self.kernels[*k].as_ref().unwrap();
                if self.one_slot {
                    match &mut self.slot {
                        Some(s) => s.clone_from(kp),
                        None => self.slot = Some(kp.clone()),
                    }
                    kp = self.slot.as_ref().unwrap();
                }
                let r = guarded(|| self.cx.call_kernel(kp, *n, &mut io)).map_err(|e| Stop::Refused(i, format!("op {i}: the call panicked: {e}")))?;
                r.map_err(|e| Stop::Failed(format!("op {i}: the call failed: {e}")))?;
                for (a, h) in ks[*k].args.iter().zip(&io) {
                    if a.out {
                        if h.is_none() {
                            return Err(Stop::Failed(format!("op {i}: no array for an output")));
                        }
                        self.hs.push(h.clone());
                    } else if h.is_some() {
                        return Err(Stop::Failed(format!("op {i}: an array for an argument that is no output")));
                    }
                }
            }
        }
        Ok(())
    }
    pub fn run(t: &History<C>) -> Result<Self, Stop> {
        let mut r = Ran::new(t.kernels.len());
        r.one_slot = t.one_slot;
        for (i, o) in t.ops.iter().enumerate() {
            r.op(&t.kernels, i, o)?;
        }
        Ok(r)
    }
}
