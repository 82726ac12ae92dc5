//! U01, U02, U03: the general-purpose containers of the compiler against naive models.
use expander_compiler::utils::{
    bucket_sort::bucket_sort,
    error::Error,
    function_id::get_function_id,
    heap,
    misc::{next_power_of_two, prev_power_of_two, topo_order, topo_order_and_is_dag},
    pool::Pool,
    static_hash_map::StaticHashMap,
    union_find::UnionFind,
};
use pbt::{ensure, ensure_eq, hash_of, Ctx, Gen, Prop};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet};

// ---------------------------------------------------------------- U01

fn heap_case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let n_vals = 1 + g.below(64);
    // the order compares ranks; equal ranks are ties
    let mode = g.below(4);
    let ranks: Vec<i64> = match mode {
        0 => (0..n_vals as i64).collect(),
        1 => (0..n_vals as i64).rev().collect(),
        2 => {
            let k = 1 + g.below(4);
            (0..n_vals).map(|_| g.below(k) as i64).collect()
        }
        _ => (0..n_vals).map(|_| g.below(n_vals) as i64).collect(),
    };
    // a history of some hundred operations needs some thousands of comparisons
    let compared = std::cell::Cell::new(0u64);
    let cmp = |a: usize, b: usize| -> Ordering {
        compared.set(compared.get() + 1);
        assert!(compared.get() < 3_000_000, "the heap compares without end");
        ranks[a].cmp(&ranks[b])
    };
    let n_ops = g.below(160);
    let bias = 1 + g.below(3);
    let mut h: Vec<usize> = vec![];
    let mut model: BTreeMap<usize, usize> = BTreeMap::new();
    let mut size = 0usize;
    let (mut max_size, mut pops) = (0, 0);
    let mut log = vec![];
    for step in 0..n_ops + n_vals.min(200) * 2 {
        let push = step < n_ops && g.below(4) < bias + 1;
        if step >= n_ops && size == 0 {
            break;
        }
        if push {
            let x = g.below(n_vals);
            log.push(x as i64);
            heap::push(&mut h, x, cmp);
            *model.entry(x).or_default() += 1;
            size += 1;
            max_size = max_size.max(size);
        } else {
            log.push(-1);
            let got = heap::pop(&mut h, cmp);
            let best = model.keys().map(|&x| ranks[x]).min();
            match (got, best) {
                (None, None) => {}
                (Some(x), Some(b)) => {
                    ensure!(model.get(&x).is_some(), "popped {x}, which the heap does not hold; ops {log:?}");
                    ensure_eq!(ranks[x], b, "popped an element that is not smallest; ops {log:?} ranks {ranks:?}");
                    let c = model.get_mut(&x).unwrap();
                    *c -= 1;
                    if *c == 0 {
                        model.remove(&x);
                    }
                    size -= 1;
                    pops += 1;
                }
                _ => return Err(format!("pop gave {got:?} with {size} elements held; ops {log:?}")),
            }
        }
        ensure_eq!(h.len(), size, "number of stored elements; ops {log:?}");
    }
    ctx.nontrivial(max_size >= 4 && pops >= 3);
    ctx.tag(format!("heap order {}", ["asc", "desc", "few ranks", "random"][mode]));
    ctx.tag_if(max_size >= 16, "heap of 16 or more");
    ctx.describe(|| format!("heap ranks {ranks:?} ops {log:?} (-1 = pop)"));
    Ok(())
}

fn bucket_case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let m = 1 + g.below(40);
    let n = g.below(80);
    let skip = g.below(3);
    let keys: Vec<usize> = (0..n)
        .map(|_| match skip {
            0 => g.below(m),
            1 => g.below(m) / 2 * 2 % m,
            _ => m - 1 - g.below(m.min(3)),
        })
        .collect();
    let arr: Vec<(usize, usize)> = keys.iter().enumerate().map(|(i, &k)| (g.below(5) * 1000 + i, k)).collect();
    let (res, starts) = bucket_sort(arr.clone(), |x| x.1, m);
    let mut want = arr.clone();
    want.sort_by_key(|x| x.1); // stable
    ensure_eq!(res, want, "bucket sort of {arr:?} into {m}");
    let want_starts: Vec<usize> = (0..m).map(|b| keys.iter().filter(|&&k| k < b).count()).collect();
    ensure_eq!(starts, want_starts, "bucket starts of keys {keys:?} into {m}");
    ctx.nontrivial(n >= 3 && keys.iter().collect::<HashSet<_>>().len() >= 2);
    ctx.tag("bucket sort");
    ctx.describe(|| format!("bucket sort of keys {keys:?} into {m}"));
    Ok(())
}

fn u01(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.chance(1, 3) {
        bucket_case(g, ctx)
    } else {
        heap_case(g, ctx)
    }
}

/// All arrangements of up to 8 elements with up to 3 equal ranks: heap sort must be right on each.
fn u01_directed(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    if i >= 9 {
        return None;
    }
    let n = i;
    let mut total = 0u64;
    let mut idx = vec![0usize; n];
    let base = if n <= 6 { n.max(1) } else { 3 };
    loop {
        let cmp = |a: usize, b: usize| idx[a].cmp(&idx[b]);
        let mut h = vec![];
        for x in 0..n {
            heap::push(&mut h, x, cmp);
        }
        let mut got = vec![];
        while let Some(x) = heap::pop(&mut h, cmp) {
            got.push(x);
            if got.len() > n {
                break;
            }
        }
        total += 1;
        let ordered = got.windows(2).all(|w| idx[w[0]] <= idx[w[1]]);
        let mut s = got.clone();
        s.sort();
        if !ordered || s != (0..n).collect::<Vec<_>>() {
            return Some(Err(format!("heap sort of ranks {idx:?} gives {got:?}")));
        }
        let mut k = 0;
        while k < n {
            idx[k] += 1;
            if idx[k] < base {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if k == n {
            break;
        }
    }
    ctx.units = total;
    ctx.tag("exhaustive small heaps");
    Some(Ok(()))
}

// ---------------------------------------------------------------- U02

const P: u64 = 1_000_000_007;

fn key_list(g: &mut Gen, max: usize, ctx: &mut Ctx) -> Vec<usize> {
    let n = g.small(max);
    let mode = g.below(8);
    let base = match g.below(4) {
        0 => 0,
        1 => g.below(1 << 20) as u64,
        2 => P - 20 + g.below(40) as u64,
        _ => g.u64() >> g.below(40),
    };
    let mut seen = HashSet::new();
    let mut v = vec![];
    for i in 0..n as u64 {
        let x = match mode {
            0 => base.wrapping_add(i),
            1 => base.wrapping_add(i << g.below(2).max(1)),
            2 => g.below(4 * n.max(1)) as u64,
            3 => g.u64() >> g.below(64),
            4 => 1u64 << g.below(64),
            5 => base.wrapping_add(P.wrapping_mul(g.below(30) as u64)).wrapping_add(g.below(2) as u64),
            6 => base.wrapping_add(i << 32),
            _ => u64::MAX - g.below(3 * n) as u64,
        };
        if seen.insert(x) {
            v.push(x as usize);
        }
    }
    let mut w = v.clone();
    if g.bool() {
        g.shuffle(&mut w);
    }
    ctx.tag(["contiguous", "stride", "dense random", "any", "powers of two", "congruent", "high bits", "top of range"][mode]);
    ctx.tag_if(w.iter().map(|&x| x as u64 % P).collect::<HashSet<_>>().len() < w.len(), "some keys congruent modulo the prime");
    w
}

fn u02(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let max = if g.chance(1, 30) { 700 } else { 60 };
    let keys = key_list(g, max, ctx);
    ctx.nontrivial(keys.len() >= 3);
    ctx.describe(|| format!("keys {keys:?}"));
    for _ in 0..3 {
        // a right construction of these sizes needs some hundreds of draws
        rand_counted::limit_draws(Some(100_000));
        let m = pbt::guarded(|| StaticHashMap::new(&keys));
        rand_counted::limit_draws(None);
        let m = m.map_err(|e| format!("the table of {keys:?} is not built: {e}"))?;
        for (i, &k) in keys.iter().enumerate() {
            ensure_eq!(m.get(k), i, "position of key {k} in {keys:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- U03

fn pool_case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let mut p: Pool<(usize, String)> = Pool::new();
    let mut order: Vec<(usize, String)> = vec![];
    let universe = 1 + g.small(30);
    let n = g.small(80);
    let mut repeats = 0;
    for _ in 0..n {
        let k = g.below(universe);
        let v = (k / 2, format!("v{}", k % 2));
        let known = order.iter().position(|x| *x == v);
        match g.below(5) {
            0 => ensure_eq!(p.try_get_idx(&v), known, "index of {v:?} in {order:?}"),
            _ => {
                repeats += known.is_some() as usize;
                let want = known.unwrap_or(order.len());
                ensure_eq!(p.add(&v), want, "add {v:?} to {order:?}");
                if known.is_none() {
                    order.push(v.clone());
                }
                ensure_eq!(p.get_idx(&v), want, "get_idx {v:?}");
            }
        }
        ensure_eq!(p.len(), order.len(), "length");
        ensure_eq!(p.is_empty(), order.is_empty(), "is_empty");
        if g.chance(1, 10) {
            p = p.clone();
        }
    }
    for (i, v) in order.iter().enumerate() {
        ensure_eq!(p.get(i), v, "value {i}");
        ensure_eq!(p.map().get(v), Some(&i), "map entry of {v:?}");
    }
    ensure_eq!(p.vec(), &order, "insertion order");
    ensure_eq!(p.map().len(), order.len(), "size of the map");
    ensure!(pbt::guarded(|| p.get(order.len()).clone()).is_err(), "reading past the end gives a value");
    ctx.nontrivial(order.len() >= 2 && repeats >= 1);
    ctx.tag("pool");
    ctx.describe(|| format!("pool {order:?}, {repeats} repeated adds"));
    Ok(())
}

fn uf_case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let n = 1 + g.small(40);
    let mut uf = UnionFind::new(n);
    let mut class: Vec<usize> = (0..n).collect();
    let ops = g.small(80);
    let mut merges = 0;
    let chain = g.chance(1, 4);
    for i in 0..ops {
        let (x, y) = if chain { (i % n, (i + 1) % n) } else { (g.below(n), g.below(n)) };
        if chain || g.chance(2, 3) {
            uf.union(x, y);
            let (a, b) = (class[x], class[y]);
            merges += (a != b) as usize;
            for c in class.iter_mut() {
                if *c == a {
                    *c = b;
                }
            }
        }
        ensure_eq!(uf.find(x) == uf.find(y), class[x] == class[y], "connectivity of {x} and {y}");
    }
    for x in 0..n {
        let r = uf.find(x);
        ensure_eq!(class[r], class[x], "representative {r} of {x} is in another class");
        ensure_eq!(uf.find(r), r, "representative of a representative");
        for y in 0..n {
            ensure_eq!(uf.find(x) == uf.find(y), class[x] == class[y], "final connectivity of {x} and {y}");
        }
    }
    ctx.nontrivial(merges >= 2 && n >= 4);
    ctx.tag("union-find");
    ctx.describe(|| format!("union-find over {n}, classes {class:?}"));
    Ok(())
}

fn topo_case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let n = g.small(24);
    let mut ids: Vec<usize> = (0..n).map(|i| i * 3 + g.below(3)).collect();
    g.shuffle(&mut ids);
    let cyclic = g.chance(1, 3);
    let m = g.small(60);
    let mut edges: HashMap<usize, HashSet<usize>> = HashMap::new();
    let mut list = vec![];
    if n > 0 {
        for _ in 0..m {
            let (mut a, mut b) = (g.below(n), g.below(n));
            if !cyclic {
                if a == b {
                    continue;
                }
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            edges.entry(ids[a]).or_default().insert(ids[b]);
            list.push((ids[a], ids[b]));
        }
        if g.chance(1, 5) {
            edges.entry(ids[0]).or_default();
        }
    }
    let vertices: HashSet<usize> = ids.iter().copied().collect();
    // reference: repeatedly remove vertices without predecessors
    let mut left = vertices.clone();
    loop {
        let free: Vec<usize> = left.iter().copied().filter(|v| !list.iter().any(|(a, b)| b == v && left.contains(a))).collect();
        if free.is_empty() {
            break;
        }
        free.iter().for_each(|v| {
            left.remove(v);
        });
    }
    let acyclic = left.is_empty();
    let (order, is_dag) = topo_order_and_is_dag(&vertices, &edges);
    ensure_eq!(is_dag, acyclic, "cycle decision for edges {list:?} over {ids:?}");
    if acyclic {
        for order in [order, topo_order(&vertices, &edges)] {
            let mut s = order.clone();
            s.sort();
            let mut w: Vec<usize> = ids.clone();
            w.sort();
            ensure_eq!(s, w, "the order lists every vertex once");
            let pos: HashMap<usize, usize> = order.iter().enumerate().map(|(i, &v)| (v, i)).collect();
            for (a, b) in &list {
                ensure!(pos[a] < pos[b], "{a} must come before {b} in {order:?}");
            }
        }
    }
    ctx.nontrivial(n >= 3 && list.len() >= 2);
    ctx.tag(if acyclic { "acyclic graph" } else { "cyclic graph" });
    ctx.describe(|| format!("graph over {ids:?} edges {list:?} acyclic {acyclic}"));
    Ok(())
}

fn pow_case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let x = match g.below(3) {
        0 => g.below(5000) as u64,
        1 => {
            let k = g.below(62);
            (1u64 << k).wrapping_add(g.below(5) as u64).saturating_sub(2)
        }
        _ => g.u64() >> (2 + g.below(60)),
    }
    .min((1 << 62) + 2);
    let up = next_power_of_two(x as usize) as u64;
    ensure!(up.is_power_of_two() && up >= x && (up == 1 || up / 2 < x), "next power of two of {x} is {up}");
    let down = prev_power_of_two(x as usize) as u64;
    if x == 0 {
        ensure_eq!(down, 0, "previous power of two of 0");
    } else {
        ensure!(down.is_power_of_two() && down <= x && down as u128 * 2 > x as u128, "previous power of two of {x} is {down}");
    }
    ctx.tag("power of two");
    ctx.nontrivial(x > 2);
    ctx.describe(|| format!("power of two around {x}"));
    Ok(())
}

fn err_case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let text: String = (0..g.small(10)).map(|_| *g.pick(&['a', ':', ' ', '{', '}', 'é'])).collect();
    let user = g.bool();
    let mut e = if user { Error::UserError(text.clone()) } else { Error::InternalError(text.clone()) };
    let mut want = text.clone();
    for i in 0..g.below(4) {
        e = e.prepend(&format!("p{i}"));
        want = format!("p{i}: {want}");
    }
    ensure_eq!(e.is_user(), user, "kind of error after prepending");
    ensure_eq!(e.is_internal(), !user, "kind of error after prepending");
    ensure_eq!(e.to_string(), want, "text of the error");
    struct A;
    struct B<T>(std::marker::PhantomData<T>);
    fn id_of_val<T: 'static>(_: T) -> u64 {
        get_function_id::<T>()
    }
    let (f, h) = (|x: u8| x, |x: u8| x);
    let ids = [
        get_function_id::<A>(),
        get_function_id::<B<A>>(),
        get_function_id::<B<u8>>(),
        get_function_id::<fn(u8) -> u8>(),
        id_of_val(f),
        id_of_val(h),
    ];
    ensure_eq!(ids.iter().collect::<HashSet<_>>().len(), ids.len(), "ids of different function types");
    ensure_eq!(id_of_val(f), ids[4], "id of the same function type");
    ctx.tag("error and function id");
    ctx.nontrivial(!text.is_empty());
    ctx.describe(|| format!("error {e}"));
    Ok(())
}

fn u03(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    match g.weighted(&[5, 5, 6, 2, 1]) {
        0 => pool_case(g, ctx),
        1 => uf_case(g, ctx),
        2 => topo_case(g, ctx),
        3 => pow_case(g, ctx),
        _ => err_case(g, ctx),
    }
}

/// Powers of two: every integer up to 2^16 and every boundary around 2^k.
fn u03_directed(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    if i > 0 {
        return None;
    }
    let mut xs: Vec<u64> = (0..=65536).collect();
    for k in 0..63 {
        for d in 0..3 {
            xs.push(((1u64 << k) + d).saturating_sub(1));
        }
    }
    for &x in &xs {
        if next_power_of_two(x as usize) as u64 != x.max(1).next_power_of_two() {
            return Some(Err(format!("next power of two of {x}")));
        }
        let want = if x == 0 { 0 } else { 1u64 << (63 - x.leading_zeros()) };
        if x < 1 << 63 && prev_power_of_two(x as usize) as u64 != want {
            return Some(Err(format!("previous power of two of {x}")));
        }
    }
    ctx.units = xs.len() as u64;
    ctx.tag(format!("powers of two, {} values", xs.len()));
    let _ = hash_of(&xs);
    Some(Ok(()))
}

const NONE: &[&str] = &[];
fn main() {
    pbt::main(&[
        Prop {
            id: "U01",
            rule: "a heap history that held at least 4 elements and removed at least 3, or a bucket sort of 3 or more elements into 2 or more used buckets",
            case: u01,
            directed: Some(u01_directed),
            quick: 3_000_000,
            thorough: 100_000_000,
            threads: 8,
            assumptions: NONE,
            min_nontrivial_pct: 30,
        },
        Prop {
            id: "U02",
            rule: "a list of at least 3 distinct keys, built three times with fresh internal randomness",
            case: u02,
            directed: None,
            quick: 1_500_000,
            thorough: 100_000_000,
            threads: 8,
            assumptions: &["lists of up to 700 keys; a build that never ends is reported as undecided, not as a violation"],
            min_nontrivial_pct: 30,
        },
        Prop {
            id: "U03",
            rule: "per structure: a pool with a repeated value, a union-find with 2 or more merges over 4 or more elements, a graph of 3 or more vertices and 2 or more edges, an integer above 2, a non-empty error text",
            case: u03,
            directed: Some(u03_directed),
            quick: 3_000_000,
            thorough: 100_000_000,
            threads: 8,
            assumptions: &["power-of-two rounding is claimed where the result fits the integer type"],
            min_nontrivial_pct: 30,
        },
    ]);
}
