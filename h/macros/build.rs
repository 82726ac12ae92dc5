//! Generates struct declarations, kernels and memorized functions for the real macros to expand.
use std::fmt::Write;

struct Rng(u64);
impl Rng {
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    fn pick<'a, T>(&mut self, x: &'a [T]) -> &'a T {
        &x[self.below(x.len())]
    }
}

/// An array length: its text and its value. N = 2, M = 3.
fn dim(r: &mut Rng, max: usize) -> (String, usize) {
    loop {
        let (t, v): (&str, usize) = match r.below(22) {
            0 | 1 => ("1", 1),
            2..=4 => ("2", 2),
            5..=7 => ("3", 3),
            8 => ("4", 4),
            9 => ("5", 5),
            10 => ("7", 7),
            11 => ("N", 2),
            12 => ("M", 3),
            13 | 14 => ("N + 1", 3),
            15 => ("M - 1", 2),
            16 => ("2 * N", 4),
            17 => ("(N + M)", 5),
            18 => ("{ N }", 2),
            19 => ("1 + N * M", 7),
            20 => ("1 << N", 4),
            _ => ("N + M - 2", 3),
        };
        if v <= max {
            return (t.to_string(), v);
        }
    }
}

enum Ty {
    Leaf(String),
    Arr(Box<Ty>, String),
    List(Box<Ty>),
}
impl Ty {
    fn text(&self) -> String {
        match self {
            Ty::Leaf(s) => s.clone(),
            Ty::Arr(t, n) => format!("[{}; {n}]", t.text()),
            Ty::List(t) => format!("[{}]", t.text()),
        }
    }
    fn leaf(&self) -> &str {
        match self {
            Ty::Leaf(s) => s,
            Ty::Arr(t, _) | Ty::List(t) => t.leaf(),
        }
    }
    fn make(&self) -> String {
        match self {
            Ty::Leaf(s) if s == "Variable" => "m.next(false)".into(),
            Ty::Leaf(s) if s == "PublicVariable" => "m.next(true)".into(),
            Ty::Leaf(s) if s == "usize" => "m.number()".into(),
            Ty::Leaf(s) if s == "bool" => "m.number() % 2 == 1".into(),
            Ty::Leaf(_) => "(m.number() as u8, m.number() as i64)".into(),
            Ty::Arr(t, _) => format!("std::array::from_fn(|_| {})", t.make()),
            Ty::List(t) => format!("{{ let n = m.len(); (0..n).map(|_| {}).collect() }}", t.make()),
        }
    }
    fn read(&self, at: &str, depth: usize) -> String {
        match self {
            Ty::Leaf(s) if s == "Variable" => format!("f(false, {at});"),
            Ty::Leaf(s) if s == "PublicVariable" => format!("f(true, {at});"),
            Ty::Leaf(_) => String::new(),
            Ty::Arr(t, _) | Ty::List(t) => {
                let x = format!("x{depth}");
                format!("for {x} in {}.iter() {{ {} }}", at.trim_start_matches('*'), t.read(&format!("*{x}"), depth + 1))
            }
        }
    }
}
fn ty(r: &mut Rng, depth: usize, in_array: bool, size: usize, leaf: &str) -> Ty {
    if depth == 0 || r.chance(1, 4) {
        return Ty::Leaf(leaf.to_string());
    }
    if !in_array && r.chance(2, 5) {
        return Ty::List(Box::new(ty(r, depth - 1, false, size, leaf)));
    }
    let (t, v) = dim(r, size.max(1));
    Ty::Arr(Box::new(ty(r, depth - 1, true, size / v.max(1), leaf)), t)
}

fn circuits(r: &mut Rng, o: &mut String, n: usize) {
    let mut list = String::new();
    for i in 0..n {
        let nf = 1 + r.below(5);
        let mut fs: Vec<(String, Ty)> = vec![];
        for j in 0..nf {
            let leaf = match r.below(9) {
                0..=3 => "Variable",
                4..=7 => "PublicVariable",
                _ => *r.pick(&["usize", "bool", "(u8, i64)"]),
            };
            let t = if leaf.ends_with("Variable") { ty(r, 3, false, 16, leaf) } else { Ty::Leaf(leaf.into()) };
            fs.push((format!("f{j}"), t));
        }
        let at = r.below(nf + 1);
        fs.insert(at, ("sum".into(), Ty::Leaf(if r.chance(1, 2) { "PublicVariable" } else { "Variable" }.into())));
        // without a secret input next to the checked sum there is nothing to compute
        let at = r.below(fs.len() + 1);
        fs.insert(at, ("own".into(), Ty::Leaf("Variable".into())));
        let text = fs.iter().map(|(n, t)| format!("{n}: {}", t.text())).collect::<Vec<_>>().join(", ");
        let trail = if r.chance(1, 2) { "," } else { "" };
        writeln!(o, "declare_circuit!(C{i} {{ {text}{trail} }});").unwrap();
        writeln!(o, "impl<T: Copy> Fields<T> for C{i}<T> {{").unwrap();
        writeln!(o, "  const TEXT: &'static str = {text:?};").unwrap();
        writeln!(o, "  fn make(m: &mut Maker<T>) -> Self {{ {} Self {{ {} }} }}", fs.iter().map(|(n, t)| format!("let {n} = {};", if n == "sum" { format!("m.sum({})", t.leaf() == "PublicVariable") } else { t.make() })).collect::<String>(), fs.iter().map(|(n, _)| n.clone()).collect::<Vec<_>>().join(", ")).unwrap();
        writeln!(o, "  fn read(&self, f: &mut dyn FnMut(bool, T)) {{ {} }}", fs.iter().map(|(n, t)| t.read(&format!("self.{n}"), 0)).collect::<String>()).unwrap();
        writeln!(o, "  fn sum(&self) -> T {{ self.sum }}").unwrap();
        writeln!(o, "  fn others(&self) -> String {{ format!(\"{{:?}}\", ({})) }}", fs.iter().filter(|(_, t)| !t.leaf().ends_with("Variable")).map(|(n, _)| format!("&self.{n}, ")).collect::<String>()).unwrap();
        writeln!(o, "}}").unwrap();
        writeln!(o, "impl<C: Config> Define<C> for C{i}<Variable> {{ fn define<B: RootAPI<C>>(&self, api: &mut B) {{ define::<C, B, _>(api, self) }} }}").unwrap();
        writeln!(list, "    check_circuit::<C, C{i}<Variable>, C{i}<Fe<C>>>,").unwrap();
    }
    writeln!(o, "pub fn circuits<C: Config>() -> Vec<CircuitItem> {{ vec![\n{list}] }}").unwrap();
}

fn kernels(r: &mut Rng, o: &mut String, n: usize) {
    let mut list = String::new();
    for i in 0..n {
        let na = 1 + r.below(4);
        let mut args: Vec<(Vec<(String, usize)>, bool, bool, bool)> = vec![]; // dims, input, output, &mut
        for j in 0..na {
            let nd = [0, 1, 1, 2, 2, 3, 3, 3, 4][r.below(9)];
            let mut size = 36;
            let mut ds = vec![];
            for _ in 0..nd {
                let d = dim(r, size.min(7));
                size = (size / d.1).max(1);
                ds.push(d);
            }
            let (inp, out) = match r.below(6) {
                0..=2 => (true, false),
                3 | 4 if j > 0 => (false, true),
                3 | 4 => (true, false),
                _ => (true, true),
            };
            let m = out || r.chance(1, 4);
            args.push((ds, inp, out, m));
        }
        if !args.iter().any(|a| a.2) {
            args.push((vec![dim(r, 7)], false, true, true));
        }
        let sig = args
            .iter()
            .enumerate()
            .map(|(j, (ds, inp, out, m))| {
                let mut t = match (inp, out) {
                    (true, true) => "InputOutputVariable",
                    (true, false) => "InputVariable",
                    _ => "OutputVariable",
                }
                .to_string();
                for (d, _) in ds.iter().rev() {
                    t = format!("[{t}; {d}]");
                }
                format!("a{j}: &{}{t}", if *m { "mut " } else { "" })
            })
            .collect::<Vec<_>>()
            .join(", ");
        let over = |j: usize, ds: &[(String, usize)], body: &dyn Fn(String) -> String| {
            let mut at = if ds.is_empty() { format!("*a{j}") } else { format!("a{j}") };
            let mut s = String::new();
            for (k, (_, v)) in ds.iter().enumerate() {
                write!(s, "for i{k} in 0..{v}usize {{ ").unwrap();
                write!(at, "[i{k}]").unwrap();
            }
            s += &body(at);
            s += &" }".repeat(ds.len());
            s
        };
        writeln!(o, "#[kernel]\nfn k{i}<C: Config>(api: &mut API<C>, {sig}) {{").unwrap();
        writeln!(o, "  let mut ins: Vec<Variable> = vec![]; let mut t = 0;").unwrap();
        for (j, a) in args.iter().enumerate().filter(|x| x.1 .1) {
            writeln!(o, "  {}", over(j, &a.0, &|at| format!("ins.push({at});"))).unwrap();
        }
        for (j, a) in args.iter().enumerate().filter(|x| x.1 .3) {
            // an input handed in as mutable can be written to, which nobody sees
            writeln!(o, "  {}", over(j, &a.0, &|at| format!("{at} = comb::<C, _>(api, &ins, t); t += 1;"))).unwrap();
        }
        writeln!(o, "  let _ = t;\n}}").unwrap();
        // the call
        let marks: Vec<bool> = args.iter().map(|a| a.2 || r.chance(1, 3)).collect();
        writeln!(o, "fn call_k{i}<C: Config>(cx: &mut Context<C>, k: &KernelPrimitive<C>, n: usize, h: &[DeviceMemoryHandle]) -> Result<Vec<DeviceMemoryHandle>, Error> {{").unwrap();
        for j in 0..args.len() {
            writeln!(o, "  #[allow(unused_mut)] let mut a{j} = h[{j}].clone();").unwrap();
        }
        let al = (0..args.len()).map(|j| format!("{}a{j}", if marks[j] { "mut " } else { "" })).collect::<Vec<_>>().join(", ");
        let io = (0..args.len()).map(|j| if marks[j] { format!("a{j}") } else { format!("a{j}.clone()") }).collect::<Vec<_>>().join(", ");
        let _ = io;
        let copies = (0..args.len()).filter(|&j| !marks[j]).map(|j| format!("let b{j} = a{j}.clone();")).collect::<String>();
        let back = (0..args.len()).map(|j| if marks[j] { format!("a{j}") } else { format!("b{j}") }).collect::<Vec<_>>().join(", ");
        writeln!(o, "  {copies}\n  call_kernel!(cx, k, {}, {al}{})?;\n  Ok(vec![{back}])\n}}", if r.chance(1, 2) { "n" } else { "n * 2 / 2" }, if r.chance(1, 3) { "," } else { "" }).unwrap();
        let meta = args
            .iter()
            .enumerate()
            .map(|(j, a)| format!("KArg {{ shape: vec![{}], inp: {}, out: {}, writes: {}, marked: {} }}", a.0.iter().map(|d| d.1.to_string()).collect::<Vec<_>>().join(", "), a.1, a.2, a.3, marks[j]))
            .collect::<Vec<_>>()
            .join(", ");
        writeln!(list, "    KItem {{ text: {sig:?}, args: vec![{meta}], compile: compile_k{i}::<C>, call: call_k{i}::<C> }},").unwrap();
    }
    writeln!(o, "pub fn kernels<C: Config>() -> Vec<KItem<C>> {{ vec![\n{list}] }}").unwrap();
}

fn memorized(r: &mut Rng, o: &mut String, n: usize) {
    let vecs = |t: &str, d: usize| {
        let mut t = t.to_string();
        for _ in 0..d {
            t = format!("Vec<{t}>");
        }
        t
    };
    let mut list = String::new();
    for i in 0..n {
        let np = 1 + r.below(4);
        let mut sig = vec![];
        for j in 0..np {
            let d = [0, 0, 1, 1, 2, 3][r.below(6)];
            let t = if r.chance(2, 3) || j == 0 {
                vecs("Variable", d)
            } else {
                vecs(*r.pick(&["u64", "u32", "usize", "i64", "i32", "isize"]), [0, 0, 1, 2][r.below(4)])
            };
            sig.push((t, r.chance(1, 2)));
        }
        if r.chance(1, 3) {
            sig.reverse();
        }
        let ret = match r.below(6) {
            0 => None,
            1 | 2 => Some(vecs("Variable", 0)),
            3 => Some(vecs("Variable", 1)),
            4 => Some(vecs("Variable", 2)),
            _ => Some(vecs("Variable", 3)),
        };
        let text = sig.iter().enumerate().map(|(j, (t, rf))| format!("p{j}: {}{t}", if *rf { "&" } else { "" })).collect::<Vec<_>>().join(", ");
        let rt = ret.as_ref().map_or(String::new(), |t| format!(" -> {t}"));
        // some functions share a name in different modules
        let (pre, post, path) = if r.chance(1, 3) { (format!("mod n{i} {{ use super::*;\n"), "}\n", format!("n{i}::")) } else { (String::new(), "", String::new()) };
        let name = if path.is_empty() { format!("m{i}") } else { "same".to_string() };
        write!(o, "{pre}").unwrap();
        writeln!(o, "#[memorized]\nfn {name}<C: Config, B: RootAPI<C>>(api: &mut B, {text}){rt} {{").unwrap();
        writeln!(o, "  let mut s = Seen::default();").unwrap();
        for j in 0..np {
            writeln!(o, "  Flat::flat(&p{j}, &mut s);").unwrap();
        }
        match &ret {
            Some(t) => writeln!(o, "  body::<C, B, {t}>(api, {i}, s)\n}}").unwrap(),
            None => writeln!(o, "  nothing::<C, B>(api, {i}, s)\n}}").unwrap(),
        }
        writeln!(o, "pub fn call_{name}<C: Config, B: RootAPI<C>>(api: &mut B, m: &mut Args, memo: bool) -> Seen {{").unwrap();
        for (j, (t, _)) in sig.iter().enumerate() {
            writeln!(o, "  let p{j} = <{t} as Flat>::make(m);").unwrap();
        }
        let al = sig.iter().enumerate().map(|(j, (_, rf))| format!("{}p{j}", if *rf { "&" } else { "" })).collect::<Vec<_>>().join(", ");
        writeln!(o, "  #[allow(unused_mut)] let mut out = Seen::default();").unwrap();
        if ret.is_some() {
            writeln!(o, "  let r = if memo {{ memorized_{name}::<C, B>(api, {al}) }} else {{ {name}::<C, B>(api, {al}) }};\n  Flat::flat(&r, &mut out);").unwrap();
        } else {
            writeln!(o, "  if memo {{ memorized_{name}::<C, B>(api, {al}) }} else {{ {name}::<C, B>(api, {al}) }}").unwrap();
        }
        writeln!(o, "  out\n}}\n{post}").unwrap();
        writeln!(list, "    MItem {{ text: {:?}, outs: {}, call: {path}call_{name}::<C, B> }},", format!("({text}){rt}"), ret.is_some()).unwrap();
    }
    writeln!(o, "pub fn memorized_items<C: Config, B: RootAPI<C>>() -> Vec<MItem<B>> {{ vec![\n{list}] }}").unwrap();
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=VERIF_MACRO_SEED");
    println!("cargo:rerun-if-env-changed=VERIF_TIER");
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let seed = std::env::var("VERIF_MACRO_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1000 } else { 1u64 });
    let k = if thorough { 3 } else { 1 };
    let mut r = Rng(seed);
    let mut o = String::new();
    circuits(&mut r, &mut o, 40 * k);
    kernels(&mut r, &mut o, 50 * k);
    memorized(&mut r, &mut o, 40 * k);
    let to = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("gen.rs");
    std::fs::write(to, o).unwrap();
}
