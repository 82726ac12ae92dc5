//! U05: programs in the textual low-level format.
use crate::*;
use arith::Field as _;
use expander_compiler::circuit::config::M31Config;
use expander_compiler::declare_circuit;
use expander_compiler::frontend::{Define, RootAPI, Variable};
use expander_compiler::utils::interpreter_loader::M31Loader;
use std::cell::RefCell;
use std::collections::BTreeMap;

const P: u64 = (1 << 31) - 1;
const LIMB: u64 = 1 << 30;

#[derive(Clone, Default)]
struct Loaded {
    path: String,
    /// lengths of the input rows
    rows: Vec<usize>,
    slots: Vec<(usize, usize)>,
    /// instead of a program: the sum of the first two rows, in limbs of so many bits
    limb_bits: Option<usize>,
}
thread_local! {
    static PROG: RefCell<Loaded> = RefCell::new(Loaded::default());
}
declare_circuit!(TextCir { x: [Variable] });
impl<C: Config> Define<C> for TextCir<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let p = PROG.with(|p| p.borrow().clone());
        let mut rows = vec![];
        let mut at = 0;
        for n in &p.rows {
            rows.push(self.x[at..at + n].to_vec());
            at += n;
        }
        if let Some(k) = p.limb_bits {
            let mut all = M31Loader::big_array_add(api, &rows[0], &rows[1], k);
            all.extend_from_slice(&self.x);
            return api.set_outputs(all);
        }
        let mut out = vec![];
        let mut l = M31Loader::new();
        l.load(&p.path, &rows, &mut out, api);
        let mut all = vec![];
        for (i, j) in &p.slots {
            all.extend_from_slice(&out[*i][*j]);
        }
        // a circuit of constants only is refused
        all.extend_from_slice(&self.x);
        api.set_outputs(all);
    }
}
fn to_bits(x: &[Fe<M31Config>], y: &mut [Fe<M31Config>]) -> Result<(), Error> {
    let v = x[0].to_u256().as_u64();
    for (i, y) in y.iter_mut().enumerate() {
        *y = Fe::<M31Config>::from((v >> i & 1) as u32);
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Bits,
    Pair,
    Num,
}
struct Text {
    lines: Vec<String>,
    kinds: Vec<Kind>,
    vals: Vec<Vec<u64>>,
    store: BTreeMap<(usize, usize), usize>,
}
impl Text {
    fn lval(&mut self, k: Kind, v: Vec<u64>) -> usize {
        self.kinds.push(k);
        self.vals.push(v);
        self.vals.len() - 1
    }
    fn of(&self, f: impl Fn(Kind, &[u64]) -> bool) -> Vec<usize> {
        (0..self.vals.len()).filter(|&i| f(self.kinds[i], &self.vals[i])).collect()
    }
    /// A bit: text and value.
    fn bit(&self, g: &mut Gen) -> (String, u64) {
        let s = self.of(|k, v| k == Kind::Bits && v.len() == 1);
        if s.is_empty() || g.chance(1, 6) {
            let b = g.below(2) as u64;
            return (format!("{b}"), b);
        }
        let s = *g.pick(&s);
        (format!("v{s}"), self.vals[s][0])
    }
    fn scalar(&self, g: &mut Gen) -> (String, u64) {
        let s = self.of(|_, v| v.len() == 1);
        if s.is_empty() || g.chance(1, 6) {
            let v = g.u64() >> (33 + g.below(31));
            return (format!("{v}"), v % P);
        }
        let s = *g.pick(&s);
        (format!("v{s}"), self.vals[s][0])
    }
}
fn bits(v: u64, n: usize) -> Vec<u64> {
    (0..n).map(|i| v >> i & 1).collect()
}
fn sum(b: &[u64]) -> u64 {
    b.iter().enumerate().fold(0, |s, (i, b)| (s + (b << i)) % P)
}

/// The loader names every file it reads on stderr.
fn quiet() {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn dup2(a: i32, b: i32) -> i32;
    }
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        if let Ok(f) = std::fs::File::create("/dev/null") {
            unsafe { dup2(f.as_raw_fd(), 2) };
        }
    });
}

fn run(t: &Text, rows: &[Vec<u64>], text: &str, compiled: bool) -> Result<(), String> {
    thread_local! {
        static PATH: String = format!("{}/h_front-{}-{:?}.txt", std::env::temp_dir().display(), std::process::id(), std::thread::current().id()).replace(['(', ')'], "");
    }
    quiet();
    let path = PATH.with(|p| p.clone());
    std::fs::write(&path, text).map_err(|e| e.to_string())?;
    let slots: Vec<(usize, usize)> = t.store.keys().copied().collect();
    PROG.with(|p| *p.borrow_mut() = Loaded { path: path.clone(), rows: rows.iter().map(|r| r.len()).collect(), slots, limb_bits: None });
    let want: Vec<u64> = t.store.values().flat_map(|&s| t.vals[s].clone()).collect();
    let r = decide(rows, want, compiled);
    let _ = std::fs::remove_file(&path);
    r
}
fn decide(rows: &[Vec<u64>], mut want: Vec<u64>, compiled: bool) -> Result<(), String> {
    let x: Vec<Fe<M31Config>> = rows.iter().flatten().map(|&v| Fe::<M31Config>::from(v as u32)).collect();
    want.extend(rows.iter().flatten());
    let mut h = HintRegistry::new();
    h.register("myhint.tobinary", to_bits);
    let got = if compiled {
        let c = TextCir { x: vec![Variable::default(); x.len()] };
        guarded(|| compile::<M31Config, _>(&c, CompileOptions::default())).and_then(|b| {
            let b = b.map_err(|e| format!("compiling failed: {e}"))?;
            let w = guarded(|| b.witness_solver.solve_witness_with_hints(&TextCir { x }, &h))?.map_err(|e| format!("no witness: {e}"))?;
            let (x, p) = w.iter_scalar().next().ok_or("no witness")?;
            let (o, sat) = b.layered_circuit.eval_with_public_inputs(x, &p);
            if sat {
                Ok(o)
            } else {
                Err("refused".into())
            }
        })
    } else {
        guarded(|| debug_eval::<M31Config, _, _, _>(&TextCir { x: vec![Variable::default(); x.len()] }, &TextCir { x }, h))
    };
    let got: Vec<u64> = got?.iter().map(|x| x.to_u256().as_u64()).collect();
    if got != want {
        return Err(format!("outputs {got:?}, expected {want:?}"));
    }
    Ok(())
}

/// A sum of two numbers in limbs: the same number of limbs, the carry out of the last one dropped.
fn sums(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let n = g.small(6);
    let k = 1 + g.below(29);
    let m = (1u64 << k) - 1;
    let a: Vec<u64> = (0..n).map(|_| if g.chance(1, 3) { *g.pick(&[0, 1, m, m - 1]) } else { g.u64() } & m).collect();
    let b: Vec<u64> = a.iter().map(|x| if g.chance(1, 3) { m - x } else if g.chance(1, 3) { *g.pick(&[0, 1, m]) } else { g.u64() } & m).collect();
    let (mut carry, mut ripples, mut want) = (0, false, vec![]);
    for i in 0..n {
        let s = a[i] + b[i] + carry;
        ripples |= carry == 1 && a[i] + b[i] == m;
        want.push(s & m);
        carry = s >> k;
    }
    let compiled = n > 0 && g.chance(1, 4);
    ctx.tag("sum in limbs");
    ctx.tag_if(ripples, "carry through a full limb");
    ctx.nontrivial(n > 1);
    ctx.describe(|| format!("{a:x?} + {b:x?} in limbs of {k} bits"));
    // the last row keeps the circuit from being empty
    let rows = [a, b, vec![1]];
    PROG.with(|p| *p.borrow_mut() = Loaded { rows: rows.iter().map(|r| r.len()).collect(), limb_bits: Some(k), ..Default::default() });
    decide(&rows, want, compiled)
}

pub fn u05(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.chance(1, 8) {
        return sums(g, ctx);
    }
    let rows: Vec<Vec<u64>> = (0..1 + g.small(2)).map(|_| (0..1 + g.small(3)).map(|_| g.u64() >> (33 + g.below(31)) & (P - 1)).collect()).collect();
    let mut t = Text { lines: vec![], kinds: vec![], vals: vec![], store: BTreeMap::new() };
    t.lines.push(format!("num_args {}", rows.len()));
    if g.bool() {
        t.lines.push(format!("input {}", rows.iter().map(|r| r.len().to_string()).collect::<Vec<_>>().join(" ")));
    }
    let mut ops = 0;
    for _ in 0..*g.pick(&[3, 8, 20, 40]) {
        let l = t.vals.len();
        match g.weighted(&[3, 1, 4, 5, 2, 3, 3, 1, 2, 4]) {
            0 => {
                let i = g.below(rows.len());
                let j = g.below(rows[i].len());
                let n = 1 + g.below(32);
                t.lval(Kind::Bits, bits(rows[i][j], n));
                t.lines.push(format!("decompose =v{l} i {i} {j} {n}"));
            }
            1 => {
                let (s, v) = t.scalar(g);
                t.lval(Kind::Bits, bits(v, 30));
                t.lines.push(format!("decompose =v{l} {s}"));
            }
            2 => {
                let from = t.of(|k, _| k == Kind::Bits);
                if from.is_empty() {
                    continue;
                }
                let s = *g.pick(&from);
                let i = g.below(t.vals[s].len());
                let v = t.vals[s][i];
                t.lval(Kind::Bits, vec![v]);
                t.lines.push(format!("extractbit =v{l} v{s} {i}"));
            }
            3 => {
                let ((a, x), (b, y)) = (t.bit(g), t.bit(g));
                let k = g.below(3);
                t.lval(Kind::Bits, vec![[x ^ y, x & y, x | y][k]]);
                t.lines.push(format!("{} =v{l} {a} {b}", ["xor", "and", "or"][k]));
            }
            4 => {
                let ((a, x), (b, y)) = (t.scalar(g), t.scalar(g));
                t.lval(Kind::Num, vec![(x as u128 * y as u128 % P as u128) as u64]);
                t.lines.push(format!("mul =v{l} {a} {b}"));
            }
            5 => {
                let n = g.below(61);
                let bs: Vec<(String, u64)> = (0..n).map(|_| t.bit(g)).collect();
                let mut v: Vec<u64> = bs.iter().map(|b| b.1).collect();
                v.resize(60, 0);
                t.lval(Kind::Pair, vec![sum(&v[..30]), sum(&v[30..])]);
                t.lines.push(format!("zk.m31.compose =v{l} {n} {}", bs.iter().map(|b| b.0.as_str()).collect::<Vec<_>>().join(" ")));
            }
            6 => {
                let from = t.of(|k, _| k == Kind::Pair);
                if from.is_empty() {
                    continue;
                }
                let (a, b) = (*g.pick(&from), *g.pick(&from));
                let (x, y) = (&t.vals[a], &t.vals[b]);
                let lo = x[0] + y[0];
                let hi = x[1] + y[1] + lo / LIMB;
                if hi == P || lo == P {
                    // a sum of two limbs that is the modulus is listed apart
                    continue;
                }
                t.lval(Kind::Pair, vec![lo % LIMB, hi % LIMB]);
                t.lines.push(format!("zk.m31.add =v{l} v{a} v{b}"));
            }
            7 => {
                let from = t.of(|k, _| k == Kind::Pair);
                if from.is_empty() {
                    continue;
                }
                let (s, i) = (*g.pick(&from), g.below(2));
                let v = t.vals[s][i];
                t.lval(Kind::Num, vec![v]);
                t.lines.push(format!("zk.m31.extract =v{l} v{s} {i}"));
            }
            8 => {
                let n = g.small(31);
                let bs: Vec<(String, u64)> = (0..n).map(|_| t.bit(g)).collect();
                let v = sum(&bs.iter().map(|b| b.1).collect::<Vec<_>>());
                t.lval(Kind::Num, vec![v]);
                t.lines.push(format!("compose =v{l} {n} {}", bs.iter().map(|b| b.0.as_str()).collect::<Vec<_>>().join(" ")));
            }
            _ => {
                if l == 0 {
                    continue;
                }
                let (s, i, j) = (l - 1 - g.small(l - 1), g.below(3), g.below(4));
                let k = t.store.len();
                let late = t.store.keys().any(|&o| o > (i, j));
                ctx.tag_if(late, "stores out of order");
                ctx.tag_if(t.store.insert((i, j), s).is_some() && k > 0, "stored twice");
                t.lines.push(format!("store o {i} {j} v{s}"));
                continue;
            }
        }
        ops += 1;
        ctx.tag(t.lines.last().unwrap().split(' ').next().unwrap().to_string());
    }
    if t.store.is_empty() && !t.vals.is_empty() {
        let s = t.vals.len() - 1;
        t.store.insert((1, 2), s);
        t.lines.push(format!("store o 1 2 v{s}"));
    }
    let text = t.lines.join("\n") + if g.bool() { "\n" } else { "" };
    let compiled = g.chance(1, 3);
    ctx.tag(if compiled { "compiled" } else { "debug evaluation" });
    ctx.describe(|| format!("inputs {rows:?}, program:\n{text}\nexpected {:?}", t.store.iter().map(|(k, &s)| (*k, &t.vals[s])).collect::<Vec<_>>()));
    if t.store.is_empty() {
        return Ok(());
    }
    run(&t, &rows, &text, compiled)?;
    ctx.nontrivial(ops >= 3);
    Ok(())
}

/// The listed finding: a limb sum that is the modulus.
pub fn u05_directed(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    if i > 0 {
        return None;
    }
    ctx.finding("add-sum-is-modulus");
    let mut t = Text { lines: vec![], kinds: vec![], vals: vec![], store: BTreeMap::new() };
    t.store.insert((0, 0), t.vals.len());
    let ones = vec!["v1"; 60].join(" ");
    // twice 2^60 - 1, modulo 2^60
    t.lval(Kind::Pair, vec![LIMB - 2, LIMB - 1]);
    let text = format!("decompose =v0 i 0 0 1\nextractbit =v1 v0 0\nzk.m31.compose =v2 60 {ones}\nzk.m31.add =v3 v2 v2\nstore o 0 0 v3\n");
    Some(run(&t, &[vec![1]], &text, true))
}
