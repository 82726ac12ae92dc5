//! S03: lookup and range-check gadgets.
use crate::common::*;
use crate::ev::{run, Ev, Lie, Lies};
use circuit_std_rs::logup::*;
use circuit_std_rs::{LogUpCircuit, LogUpParams, StdCircuit};
use arith::Field;
use ethnum::U256;
use expander_compiler::circuit::config::*;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::{compile, Define, HintRegistry, RootAPI, Variable};
use pbt::{ensure, guarded, Ctx, Gen};

fn reg<C: Config>() -> HintRegistry<Fe<C>> {
    let mut h = HintRegistry::new();
    h.register("myhint.querycounthint", query_count_hint);
    h.register("myhint.querycountbykeyhint", query_count_by_key_hint);
    h.register("myhint.rangeproofhint", rangeproof_hint);
    h
}

pub fn case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let k = g.weighted(&[3, 2, 1, 1]);
    ctx.tag(["M31", "BN254", "Goldilocks", "BabyBear"][k]);
    match k {
        0 => one::<M31Config>(g, ctx),
        1 => one::<BN254Config>(g, ctx),
        2 => one::<GoldilocksConfig>(g, ctx),
        _ => one::<BabyBearConfig>(g, ctx),
    }
}
fn one<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.weighted(&[8, 8, 12, 3, 2]) {
        0 => table::<C>(g, ctx),
        1 => keyed::<C>(g, ctx),
        2 => range::<C>(g, ctx),
        3 => set::<C>(g, ctx),
        _ => select::<C>(g, ctx),
    }
}

/// membership in a set of single values, with the counts given
fn set<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("set of values");
    let bits = 1 + g.below(4);
    // the table of a range, or values of one's own, or both
    let whole = g.chance(1, 3);
    let own = if whole { g.below(3) } else { 1 + g.below(6) };
    let mut t: Rows<Fe<C>> = if whole { (0..1u32 << bits).map(|i| vec![Fe::<C>::from(i)]).collect() } else { vec![] };
    let range = t.len();
    t.extend(rows::<C>(g, own, 1));
    let nq = 1 + g.below(8);
    let mut counts = vec![Fe::<C>::ZERO; t.len()];
    let mut q: Rows<Fe<C>> = (0..nq)
        .map(|_| {
            let i = g.below(t.len());
            counts[i] += Fe::<C>::ONE;
            t[i].clone()
        })
        .collect();
    match g.weighted(&[3, 2, 2]) {
        0 => {}
        1 => q[g.below(nq)][0] += felt::<C>(g),
        _ => {
            let i = g.below(counts.len());
            counts[i] += felt::<C>(g);
        }
    }
    let want = balanced(&t, &counts, &q);
    ctx.tag(if want { "true" } else { "false" });
    ctx.nontrivial(t.len() > 1 || !want);
    ctx.describe(|| format!("values {t:?} ({range} of them a range) counts {counts:?} queries {q:?}"));
    let style = g.below(2);
    let x: Vec<Fe<C>> = t[range..].iter().chain(&q).flatten().chain(&counts).cloned().collect();
    let code = move |b: &mut Ev<C>, v: &[Variable]| {
        let mut tab = LogUpRangeProofTable::new(bits);
        if whole {
            tab.initial(b);
        }
        for i in 0..own {
            tab.add_table_row(v[i]);
        }
        for i in 0..nq {
            if style == 0 {
                tab.add_query(v[own + i]);
            } else {
                tab.query_range(v[own + i]);
            }
        }
        tab.final_check_with_query_count(b, &v[own + nq..]);
        vec![]
    };
    let seed = g.u64();
    let go = |s| run::<C>(&x, None, Lies::new(), s, code.clone());
    decide(want, &go, seed)
}

#[derive(Clone)]
struct Select {
    four: bool,
}
impl<C: Config> Gadget<C> for Select {
    fn apply<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        use circuit_std_rs::utils::{simple_lookup2, simple_select};
        vec![if self.four { simple_lookup2(b, x[0], x[1], x[2], x[3], x[4], x[5]) } else { simple_select(b, x[0], x[2], x[3]) }]
    }
}
/// selection by one bit and by two
fn select<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("selection");
    let gad = Select { four: g.chance(2, 3) };
    let s = [g.bool(), g.bool()];
    let mut x: Vec<Fe<C>> = s.iter().map(|b| Fe::<C>::from(*b as u32)).collect();
    x.extend((0..4).map(|_| felt::<C>(g)));
    // one bit: the first if it is set; two bits: the first bit counts one, the second two
    let want = if gad.four { x[2 + s[0] as usize + 2 * s[1] as usize] } else if s[0] { x[2] } else { x[3] };
    ctx.describe(|| format!("selection among {} by {s:?} of {x:?}", if gad.four { 4 } else { 2 }));
    ctx.nontrivial(x[2] != x[3]);
    let o = eval::<C, _>(&gad, &x, None, Lies::new(), g.u64());
    ensure!(o.ok, "refused: {}", o.why);
    ensure!(o.outs == [want], "selects {:?}, expected {want:?}", o.outs);
    Ok(())
}

type Rows<F> = Vec<Vec<F>>;
fn rows<C: Config>(g: &mut Gen, n: usize, w: usize) -> Rows<Fe<C>> {
    (0..n).map(|_| (0..w).map(|_| felt::<C>(g)).collect()).collect()
}
/// what the multiplicities must satisfy: for every distinct row, counts and uses agree in the field
fn balanced<F: Field>(t: &Rows<F>, counts: &[F], q: &Rows<F>) -> bool {
    let mut all: Vec<&Vec<F>> = t.iter().chain(q.iter()).collect();
    all.sort_by(|a, b| a.iter().map(|x| x.to_u256()).cmp(b.iter().map(|x| x.to_u256())));
    all.dedup();
    all.iter().all(|r| {
        let mut s = F::ZERO;
        for (x, c) in t.iter().zip(counts) {
            if x == *r {
                s += *c;
            }
        }
        for x in q {
            if x == *r {
                s -= F::ONE;
            }
        }
        s == F::ZERO
    })
}

/// the table lookup circuit with the counts as inputs
fn table<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("LogUpCircuit");
    let p = LogUpParams { key_len: 1 + g.below(3), value_len: g.below(4), n_table_rows: 1 + g.below(6), n_queries: g.below(8) };
    let p = LogUpParams { value_len: p.value_len.max(if g.chance(1, 8) { 0 } else { 1 }), n_queries: p.n_queries.max(1), ..p };
    // now and then a large one
    let p = match g.below(60) {
        0 => LogUpParams { n_table_rows: 1 + g.below(60), n_queries: 1 + g.below(60), ..p },
        1 => LogUpParams { key_len: 1 + g.below(12), value_len: 1 + g.below(20), ..p },
        _ => p,
    };
    ctx.tag_if(p.n_table_rows > 6 || p.n_queries > 7 || p.key_len > 3 || p.value_len > 3, "large table");
    let w = p.key_len + p.value_len;
    let mut t = rows::<C>(g, p.n_table_rows, w);
    if g.chance(1, 4) && t.len() > 1 {
        let i = g.below(t.len());
        t[0] = t[i].clone(); // a repeated row
    }
    let mut counts = vec![Fe::<C>::ZERO; t.len()];
    let mut q: Rows<Fe<C>> = (0..p.n_queries).map(|_| {
        let i = g.below(t.len());
        counts[i] += Fe::<C>::ONE;
        t[i].clone()
    }).collect();
    // one corruption, or none
    let bad = g.weighted(&[3, 2, 2, 1, 2]);
    match bad {
        0 => {}
        1 => {
            let (i, j) = (g.below(q.len()), g.below(w));
            q[i][j] += felt::<C>(g);
        }
        2 => {
            let i = g.below(counts.len());
            counts[i] += felt::<C>(g);
        }
        3 => {
            let (i, j) = (g.below(t.len()), g.below(w));
            t[i][j] += felt::<C>(g);
        }
        _ => {
            // key of one row with the value of another
            let (a, b, i) = (g.below(t.len()), g.below(t.len()), g.below(q.len()));
            let mut r = t[a].clone();
            r[p.key_len..].copy_from_slice(&t[b][p.key_len..]);
            q[i] = r;
        }
    }
    let want = balanced(&t, &counts, &q);
    ctx.tag(if want { "true" } else { "false" });
    ctx.nontrivial(t.len() > 1 || !want);
    ctx.describe(|| format!("{p:?}: table {t:?} counts {counts:?} queries {q:?}"));
    let mut x: Vec<Fe<C>> = vec![];
    for r in &t {
        x.extend(&r[..p.key_len]);
    }
    for r in &t {
        x.extend(&r[p.key_len..]);
    }
    for r in &q {
        x.extend(&r[..p.key_len]);
    }
    for r in &q {
        x.extend(&r[p.key_len..]);
    }
    x.extend(&counts);
    let seed = g.u64();
    let go = |seed| run::<C>(&x, None, Lies::new(), seed, |b, v| {
        let mut c = <LogUpCircuit as StdCircuit<C>>::new_circuit(&p);
        c.load_from(&mut &v[..], &mut &[][..]);
        c.define(b);
        vec![]
    });
    decide(want, &go, seed)?;
    if g.chance(1, 25) {
        ctx.tag("compiled");
        let c = <LogUpCircuit as StdCircuit<C>>::new_circuit(&p);
        let r = guarded(|| compile::<C, _>(&c, Default::default())).map_err(|e| format!("compiling panicked: {e}"))?.map_err(|e| format!("compiling: {e:?}"))?;
        let mut a = <LogUpCircuit as StdCircuit<C>>::new_assignment(&p, rand::thread_rng());
        a.load_from(&mut &x[..], &mut &[][..]);
        let w = r.witness_solver.solve_witness(&a).map_err(|e| format!("solving: {e:?}"))?;
        let o = r.layered_circuit.run(&w);
        ensure!(o.iter().all(|b| *b == want), "the compiled lookup circuit decides {o:?}, should be {want}");
    }
    if g.chance(1, 6) {
        // the library's own example assignments are true
        ctx.tag("new_assignment");
        let a = guarded(|| <LogUpCircuit as StdCircuit<C>>::new_assignment(&p, rand::thread_rng())).map_err(|e| format!("new_assignment panicked: {e}"))?;
        let mut v = vec![];
        a.dump_into(&mut v, &mut vec![]);
        let o = run::<C>(&v, None, Lies::new(), seed, |b, v| {
            let mut c = <LogUpCircuit as StdCircuit<C>>::new_circuit(&p);
            c.load_from(&mut &v[..], &mut &[][..]);
            c.define(b);
            vec![]
        });
        ensure!(o.ok, "an assignment made by the library is refused: {}", o.why);
    }
    Ok(())
}
/// The random check errs with probability about (rows)/(field size): a false acceptance counts
/// only when it repeats under another challenge.
fn decide<C: Config>(want: bool, go: &dyn Fn(u64) -> crate::ev::Out<C>, seed: u64) -> Result<(), String> {
    let o = go(seed);
    if want {
        ensure!(o.ok, "a true statement is refused: {} {:?}", o.why, o.hint_errors);
    } else if o.ok {
        let o = go(seed ^ 0x5555);
        ensure!(!o.ok, "a false statement is accepted (under two challenges)");
    }
    Ok(())
}

fn keyed<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("LogUpSingleKeyTable");
    let large = g.chance(1, 40);
    let w = if large { g.below(16) } else { g.below(4) };
    let n = if large { 1 + g.below(60) } else { 1 + g.below(6) };
    let mut t: Rows<Fe<C>> = vec![];
    while t.len() < n {
        let r: Vec<Fe<C>> = (0..1 + w).map(|_| felt::<C>(g)).collect();
        // one value per key, as for a table of a function
        if t.iter().all(|x| x[0] != r[0]) {
            t.push(r);
        } else {
            let k = (1000 + t.len() as u32..).map(Fe::<C>::from).find(|k| t.iter().all(|x| x[0] != *k)).unwrap();
            let mut r = r;
            r[0] = k;
            t.push(r);
        }
    }
    // now and then one key is asked for more often than a byte can count
    let often = g.chance(1, 250);
    let nq = if often { 200 + g.below(500) } else { 1 + g.below(8) };
    let top = if often { 1 + g.below(2.min(n)) } else { n };
    let mut q: Rows<Fe<C>> = (0..nq).map(|_| t[g.below(top)].clone()).collect();
    // which row's key variable a query names: its own, or one which is in use already
    let named: Vec<usize> = (0..nq).map(|i| if g.chance(1, 6) { g.below(n + i) } else { n + i }).collect();
    for i in 0..nq {
        if named[i] == n + i {
            continue;
        }
        let key = if named[i] < n { t[named[i]][0] } else { q[named[i] - n][0] };
        match t.iter().find(|r| r[0] == key) {
            Some(r) => q[i] = r.clone(),
            None => q[i][0] = key,
        }
    }
    ctx.tag_if(named.iter().enumerate().any(|(i, j)| *j != n + i), "key variables shared");
    ctx.tag_if(often, "many queries");
    if g.chance(1, 2) {
        let (i, j) = (g.below(nq), g.below(w + 1));
        if g.bool() && w > 0 {
            let o = g.pick(&t).clone();
            q[i][1..].copy_from_slice(&o[1..]);
        } else {
            q[i][j] += felt::<C>(g);
        }
    }
    for i in 0..nq {
        // (changed keys are seen by all who name them)
        q[i][0] = if named[i] < n {
            t[named[i]][0]
        } else {
            q[named[i] - n][0]
        };
    }
    let want = q.iter().all(|r| t.contains(r));
    let with_counts = g.chance(1, 4);
    let mut counts: Vec<Fe<C>> = t.iter().map(|r| Fe::<C>::from(q.iter().filter(|x| *x == r).count() as u32)).collect();
    let mut want = want;
    if with_counts && g.bool() {
        let i = g.below(n);
        counts[i] += felt::<C>(g);
        want = balanced(&t, &counts, &q);
    }
    let style = g.below(2);
    let batch = g.bool();
    ctx.tag_if(with_counts, "counts given");
    ctx.tag(if want { "true" } else { "false" });
    ctx.nontrivial(t.len() > 1 || !want);
    ctx.describe(|| format!("table {t:?} queries {q:?} counts {counts:?} given {with_counts}"));
    let mut x: Vec<Fe<C>> = t.iter().chain(&q).flatten().cloned().collect();
    x.extend(&counts);
    let (n, nq) = (t.len(), q.len());
    let names = named.clone();
    let code = move |b: &mut Ev<C>, v: &[Variable]| {
        let named = &names;
        let mut tab = LogUpSingleKeyTable::new(8);
        let r = |i: usize| &v[i * (w + 1)..(i + 1) * (w + 1)];
        if style == 0 {
            tab.new_table((0..n).map(|i| r(i)[0]).collect(), (0..n).map(|i| r(i)[1..].to_vec()).collect());
        } else {
            for i in 0..n {
                tab.add_table_row(r(i)[0], r(i)[1..].to_vec());
            }
        }
        if batch {
            tab.batch_query((0..nq).map(|i| r(named[i])[0]).collect(), (0..nq).map(|i| r(n + i)[1..].to_vec()).collect());
        } else {
            for i in 0..nq {
                tab.query(r(named[i])[0], r(n + i)[1..].to_vec());
            }
        }
        if with_counts {
            tab.final_check_with_query_count(b, &v[(n + nq) * (w + 1)..]);
        } else {
            tab.final_check(b);
        }
        vec![]
    };
    let seed = g.u64();
    let go = |s| run::<C>(&x, Some(reg::<C>()), Lies::new(), s, code.clone());
    decide(want, &go, seed)?;
    if !with_counts {
        // false counts never help
        let o = go(seed);
        if !o.free.is_empty() {
            let i = g.below(o.free.len());
            let mut l = Lies::new();
            l.insert(i, Lie::Add(felt::<C>(g).to_u256()));
            if g.bool() {
                let j = g.below(o.free.len());
                l.insert(j, Lie::Sub(felt::<C>(g).to_u256()));
            }
            let o2 = run::<C>(&x, Some(reg::<C>()), l.clone(), seed, code.clone());
            let c2: Vec<Fe<C>> = o2.free.iter().map(|f| f.value).collect();
            let want = c2.len() == t.len() && balanced(&t, &c2, &q);
            ctx.tag("lying counts");
            let go2 = |s| run::<C>(&x, Some(reg::<C>()), l.clone(), s, code.clone());
            if !want {
                decide(false, &go2, seed)?;
            }
        }
    }
    Ok(())
}

#[derive(Clone)]
struct Range {
    bits: usize,
    ns: Vec<(usize, bool)>,
}
impl<C: Config> Gadget<C> for Range {
    fn apply<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut t = LogUpRangeProofTable::new(self.bits);
        t.initial(b);
        for ((n, one), v) in self.ns.iter().zip(x) {
            if *one {
                t.rangeproof_onechunk(b, *v, *n);
            } else {
                t.rangeproof(b, *v, *n);
            }
        }
        t.final_check(b);
        vec![]
    }
}

fn range<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    ctx.tag("LogUpRangeProofTable");
    let m: U256 = Fe::<C>::MODULUS;
    let fbits = 256 - m.leading_zeros() as usize;
    let bits = 1 + g.below(8);
    let often = g.chance(1, 250);
    let k = if often { 100 + g.below(400) } else { 1 + g.below(3) };
    ctx.tag_if(often, "many values");
    let good = g.bool();
    let mut ns = vec![];
    let mut x: Vec<Fe<C>> = vec![];
    let mut honest = vec![];
    for _ in 0..k {
        let one = g.chance(1, 4);
        let n = if one { 1 + g.below(bits) } else if g.chance(1, 3) { 1 + g.below(bits + 2) } else { 1 + g.below(if often { 2 * bits } else { 128 }.min(fbits - 1)) };
        let lim = U256::ONE << n;
        let r = |g: &mut Gen| {
            let mut b = [0u8; 32];
            b.copy_from_slice(&g.bytes(32));
            U256::from_le_bytes(b)
        };
        let v = match g.weighted(&[3, 2, 2, 2, 2, 2]) {
            k if often && good && k > 0 => if k > 3 { lim - 1 } else { U256::ZERO },
            0 => r(g) % lim,
            1 => lim - 1,
            2 => lim % m, // just outside, unless it wraps
            // below zero: by little, by what the rounding up to whole chunks leaves room for
            3 => (m - U256::new(1 + g.below(3) as u128)) % m,
            4 => {
                let up = n.div_ceil(bits) * bits;
                let room = (U256::ONE << up) - lim;
                if room == U256::ZERO { U256::ZERO } else { (m - (r(g) % room) % m) % m }
            }
            _ => lim.saturating_add(r(g) % (lim << 3u32)) % m,
        };
        ns.push((n, one));
        x.push(Fe::<C>::from_u256(v));
        honest.push(v < lim);
    }
    let want = honest.iter().all(|b| *b);
    ctx.tag(if want { "in range" } else { "out of range" });
    ctx.tag_if(ns.iter().any(|(n, _)| n % bits != 0), "width not a multiple of the table's");
    ctx.nontrivial(true);
    ctx.describe(|| format!("table of {bits} bits, values {x:?} of (bits, one chunk) {ns:?}"));
    let gad = Range { bits, ns };
    let seed = g.u64();
    let go = |s| eval::<C, _>(&gad, &x, Some(reg::<C>()), Lies::new(), s);
    let o = go(seed);
    if want {
        ensure!(o.ok && o.hint_errors.is_empty(), "values in range are refused: {} {:?}", o.why, o.hint_errors);
    } else {
        // the prover tells whatever chunks and counts suit it: the honest ones, then a
        // repaired set in which a chunk is moved into the next one
        decide(false, &go, seed)?;
    }
    // false chunks with counts computed for them by the library's own hint
    let chunks: Vec<usize> = o.free.iter().enumerate().filter(|(_, f)| f.kind == "myhint.rangeproofhint").map(|(i, _)| i).collect();
    if !chunks.is_empty() {
        let mut l = Lies::new();
        let j = g.below(chunks.len());
        let i = chunks[j];
        match g.below(4) {
            0 if j + 1 < chunks.len() && o.free[chunks[j + 1]].call == o.free[i].call => {
                // carry one unit of the next chunk into this one
                l.insert(i, Lie::Add(U256::ONE << bits));
                l.insert(chunks[j + 1], Lie::Sub(U256::ONE));
            }
            1 if j + 1 < chunks.len() && o.free[chunks[j + 1]].call == o.free[i].call => {
                l.insert(i, Lie::Sub(U256::ONE << bits));
                l.insert(chunks[j + 1], Lie::Add(U256::ONE));
            }
            2 => {
                // a multiple of the modulus more
                let pb = m >> (bits * o.free[i].at);
                l.insert(i, Lie::Add(pb % m));
            }
            _ => {
                l.insert(i, Lie::Add(felt::<C>(g).to_u256()));
            }
        }
        let o2 = eval::<C, _>(&gad, &x, Some(reg::<C>()), l.clone(), seed);
        if o2.free.iter().zip(&o.free).any(|(a, b)| a.kind == "myhint.rangeproofhint" && a.value != b.value) {
            ctx.tag("lying chunks");
            // (a different decomposition of the same value cannot exist below the field size)
            let go2 = |s| eval::<C, _>(&gad, &x, Some(reg::<C>()), l.clone(), s);
            decide(false, &go2, seed)?;
        }
    }
    if g.chance(1, 40) && bits <= 4 {
        ctx.tag("compiled");
        let r = e2e::<C, _>(&gad, &x, &[vec![]], reg::<C>)?;
        ensure!(r[0] == want, "the compiled range check decides {}, should be {want}", r[0]);
    }
    Ok(())
}

/// One key, or one value, asked for more often than sixteen bits can count.
pub fn directed(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    let n = [256usize, 65536, 66000].get(i / 2)?;
    ctx.tag("one key many times");
    ctx.nontrivial(true);
    Some(many(*n, i % 2 == 1))
}
fn many(n: usize, range: bool) -> Result<(), String> {
    type F = Fe<M31Config>;
    for wrong in [None, Some(0), Some(n - 1)] {
        // keys 3, 4 with values 7, 8 asked for key 4; or 1 asked to have one bit
        let mut x = if range { vec![] } else { [3u32, 4, 7, 8, 4].iter().map(|v| F::from(*v)).collect::<Vec<F>>() };
        let base = x.len();
        x.extend(vec![F::from(if range { 1 } else { 8 }); n]);
        if let Some(i) = wrong {
            x[base + i] = F::from(if range { 2 } else { 7 });
        }
        let code = move |b: &mut Ev<M31Config>, v: &[Variable]| {
            if range {
                let mut tab = LogUpRangeProofTable::new(2);
                tab.initial(b);
                for v in v {
                    tab.rangeproof_onechunk(b, *v, 1);
                }
                tab.final_check(b);
            } else {
                let mut tab = LogUpSingleKeyTable::new(8);
                tab.new_table(v[..2].to_vec(), v[2..4].iter().map(|v| vec![*v]).collect());
                for r in &v[base..] {
                    tab.query(v[4], vec![*r]);
                }
                tab.final_check(b);
            }
            vec![]
        };
        let go = |s| run::<M31Config>(&x, Some(reg::<M31Config>()), Lies::new(), s, code);
        decide(wrong.is_none(), &go, 7).map_err(|e| format!("{n} queries, range {range}, wrong {wrong:?}: {e}"))?;
    }
    Ok(())
}
