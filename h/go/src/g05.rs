//! G05: the gadgets of circuit-std-go accept exactly what they promise.
use crate::g03::{elements, output_counts};
use crate::srv;
use arith::Field;
use ecgen::*;
use ethnum::U256;
use expander_compiler::circuit::config::{Config, M31Config};
use pbt::json::J;
use pbt::{Ctx, Gen};
use std::fmt::Write;
use tiny_keccak::{Hasher, Keccak};

const P: u64 = (1 << 31) - 1;
const MDS: [u64; 16] = [1, 1, 51, 1, 11, 17, 2, 1, 101, 63, 15, 2, 67, 22, 13, 3];

fn keccak(x: &[u8]) -> [u8; 32] {
    let mut k = Keccak::v256();
    let mut o = [0u8; 32];
    k.update(x);
    k.finalize(&mut o);
    o
}
fn constants() -> &'static Vec<[u64; 16]> {
    static C: std::sync::OnceLock<Vec<[u64; 16]>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut h = keccak(b"poseidon_seed_Mersenne 31_16");
        (0..22)
            .map(|_| {
                std::array::from_fn(|_| {
                    h = keccak(&h);
                    u32::from_le_bytes([h[0], h[1], h[2], h[3]]) as u64 % P
                })
            })
            .collect()
    })
}
/// Poseidon over the Mersenne prime, width 16, 4 + 14 + 4 rounds.
pub fn permute(s: &mut [u64; 16]) {
    for (r, c) in constants().iter().enumerate() {
        let t: [u64; 16] = std::array::from_fn(|i| (s[i] + c[i]) % P);
        for i in 0..16 {
            s[i] = (0..16).fold(0, |a, j| (a + t[j] * MDS[(i + j) % 16]) % P);
        }
        let n = if r < 4 || r >= 18 { 16 } else { 1 };
        for x in &mut s[..n] {
            let x2 = *x * *x % P;
            *x = x2 * x2 % P * *x % P;
        }
    }
}
pub fn hash(x: &[u64]) -> [u64; 16] {
    let mut s = [0; 16];
    for b in x.chunks(8) {
        for (i, v) in b.iter().enumerate() {
            s[8 + i] = (s[8 + i] + v) % P;
        }
        permute(&mut s);
    }
    s
}

/// One assignment and what is expected of it.
struct Asg {
    vals: Vec<U256>,
    sat: bool,
    /// some prover could have it accepted: the ids of `logup` only guide the
    /// honest one, and whoever lies about the counts may use others
    could: bool,
    /// what the honest witness generation cannot answer
    may_fail: bool,
    outs: Vec<U256>,
    lie: (usize, usize),
}
struct Gad {
    what: String,
    /// the operations of the circuit
    ops: Vec<String>,
    secret: usize,
    public: usize,
    asg: Vec<Asg>,
}
fn op(o: &str, a: &[String], rest: &str) -> String {
    let a: Vec<String> = a.iter().map(|x| format!("\"{x}\"")).collect();
    format!("{{\"o\":\"{o}\",\"a\":[{}]{rest}}}", a.join(","))
}
fn reg(i: usize) -> String {
    format!("r{i}")
}
fn konst(x: U256) -> String {
    if x < U256::new(1 << 31) {
        format!("i:{x}")
    } else {
        format!("B:{x}")
    }
}

fn run<C: Config>(q: &Gad, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = format!("{{\"cmd\":\"prog\",\"field\":{},\"kind\":0,\"dims\":[{},{}],\"prog\":{{\"root\":{{\"ops\":[{}],\"out\":[]}},\"simple\":[],\"mem\":[]}},\"runs\":[", C::CONFIG_ID, q.secret, q.public, q.ops.join(","));
    for (i, a) in q.asg.iter().enumerate() {
        let v: Vec<String> = a.vals.iter().map(|x| format!("\"B:{x}\"")).collect();
        let _ = write!(s, "{}{{\"vals\":[{}],\"lie\":{},\"at\":{}}}", if i > 0 { "," } else { "" }, v.join(","), a.lie.0, a.lie.1);
    }
    s += "]}";
    ctx.describe(|| format!("{}: {s}", q.what));
    ctx.tag(q.what.split(' ').next().unwrap().to_string());
    let r = srv::ask(&s)?;
    let e = format!("{}{}", srv::s(&r, "err"), srv::s(&r, "panic"));
    if !e.is_empty() {
        return Err(format!("{}: compiling fails: {e}", q.what));
    }
    let (actual, zeroes) = output_counts(&srv::unhex(srv::s(&r, "lc")));
    for (i, (a, j)) in q.asg.iter().zip(srv::arr(&r, "runs")).enumerate() {
        let who = format!("{}, assignment {i} {:?}{}", q.what, a.vals, if a.lie.0 > 0 { format!(" (lies {:?})", a.lie) } else { String::new() });
        let told = j.get("lied").and_then(|x| x.num()).unwrap_or(0) > 0;
        let e = format!("{}{}", srv::s(j, "err"), srv::s(j, "panic"));
        if !e.is_empty() {
            if a.may_fail {
                ctx.tag("unanswerable");
                continue;
            }
            return Err(format!("{who}: solving and checking fails: {e}"));
        }
        let ok = matches!(j.get("ok"), Some(J::Bool(true)));
        if ok && !(a.sat || told && a.could) {
            return Err(format!("{who}: accepted, and should not be"));
        }
        if !ok && a.sat && !told {
            return Err(format!("{who}: refused, and should be accepted"));
        }
        ctx.tag_if(told, "lied");
        ctx.tag(if a.sat { "true statement" } else { "false statement" });
        if ok {
            let o: Vec<U256> = elements::<C>(j, "outs")?.iter().map(|x| x.to_u256()).collect();
            if o.len() < actual || o[zeroes..actual] != a.outs[..] {
                return Err(format!("{who}: outputs {:?}, expected {:?}", &o[zeroes.min(o.len())..actual.min(o.len())], a.outs));
            }
        }
    }
    ctx.nontrivial(q.asg.len() >= 2);
    Ok(())
}

fn felt<C: Config>(g: &mut Gen) -> U256 {
    let m = modulus::<C>();
    match g.weighted(&[4, 3, 2]) {
        0 => U256::new(g.below(6) as u128),
        1 => {
            let mut b = [0u8; 32];
            b.copy_from_slice(&g.bytes(32));
            U256::from_le_bytes(b) % m
        }
        _ => m - U256::new(1 + g.below(4) as u128),
    }
}
fn lie(g: &mut Gen) -> (usize, usize) {
    if g.chance(1, 3) {
        (1 + g.below(5), g.below(12))
    } else {
        (0, 0)
    }
}
/// Replaced by one of a few slightly or entirely different values.
fn spoil<C: Config>(g: &mut Gen, x: U256) -> U256 {
    let m = modulus::<C>();
    let y = match g.below(4) {
        0 => x + U256::ONE,
        1 => x + m - U256::ONE,
        2 => felt::<C>(g),
        _ => m - x,
    };
    y % m
}

fn poseidon(g: &mut Gen) -> Gad {
    type C = M31Config;
    let perm = g.chance(1, 3);
    let n = if perm { 16 } else { 1 + g.weighted(&[8, 4, 2, 1]) * 8 + g.below(8) - g.below(2) }.max(1);
    let claim = g.bool();
    // some inputs are constants of the circuit
    let fixed: Vec<Option<U256>> = (0..n).map(|i| if i > 0 && g.chance(1, 6) { Some(felt::<C>(g)) } else { None }).collect();
    let mut secret = 0;
    let mut args: Vec<String> = fixed
        .iter()
        .map(|f| match f {
            Some(x) => konst(*x),
            None => {
                secret += 1;
                reg(secret - 1)
            }
        })
        .collect();
    let mut ops = vec![];
    let name = match (perm, claim) {
        (true, true) => "permc",
        (true, false) => "perm",
        (false, true) => "hashc",
        _ => "hash",
    };
    let mut public = 0;
    if claim {
        args.extend((0..16).map(|i| reg(secret + i)));
        public = 16;
    }
    ops.push(op(name, &args, ""));
    if !claim {
        for i in 0..16 {
            ops.push(op("out", &[reg(secret + i)], ""));
        }
    }
    let mut asg = vec![];
    for k in 0..2 + g.below(2) {
        let x: Vec<U256> = fixed.iter().map(|f| f.unwrap_or_else(|| felt::<C>(g))).collect();
        let w: Vec<u64> = x.iter().map(|x| x.as_u64()).collect();
        let mut o = if perm {
            let mut s: [u64; 16] = w.clone().try_into().unwrap();
            permute(&mut s);
            s
        } else {
            hash(&w)
        };
        let mut vals: Vec<U256> = x.iter().zip(&fixed).filter(|(_, f)| f.is_none()).map(|(x, _)| *x).collect();
        let honest = o;
        if claim {
            if k > 0 {
                match g.below(4) {
                    0 => o = std::array::from_fn(|i| w.get(i).map_or(0, |x| { let y = x * x % P; y * y % P * x % P })),
                    1 => o.swap(g.below(16), g.below(16)),
                    _ => {
                        let i = g.below(16);
                        o[i] = spoil::<C>(g, U256::new(o[i] as u128)).as_u64();
                    }
                }
            }
            vals.extend(o.iter().map(|x| U256::new(*x as u128)));
        }
        asg.push(Asg { vals, sat: o == honest, could: o == honest, may_fail: false, outs: if claim { vec![] } else { o.iter().map(|x| U256::new(*x as u128)).collect() }, lie: (0, 0) });
    }
    Gad { what: format!("{name} of {n}"), ops, secret, public, asg }
}

fn lookup<C: Config>(g: &mut Gen) -> Gad {
    let m = modulus::<C>();
    let rows = 1usize << g.below(4);
    let cols = 1usize << g.weighted(&[4, 8, 8, 4]);
    let rows = if cols == 8 { rows.min(4) } else { rows };
    let nq = 1 + g.below(9);
    let by_row = g.chance(1, 3);
    let nq = if by_row { 1usize << g.below(4) } else { nq };
    let opt = g.below(2);
    let fixed = g.bool();
    let table = |g: &mut Gen| -> Vec<Vec<U256>> {
        let mut t: Vec<Vec<U256>> = vec![];
        let small = g.bool();
        while t.len() < rows {
            let mut k = if small { U256::new(g.below(4 * rows) as u128) } else { felt::<C>(g) };
            if g.chance(1, 3) && m.leading_zeros() < 100 {
                // agrees with another key in its low bits
                if let Some(r) = t.last() {
                    k = (r[0] + (U256::ONE << 64) * U256::new(1 + g.below(3) as u128)) % m;
                }
            }
            if by_row || t.iter().all(|r| r[0] != k) {
                let v = g.bool();
                t.push((0..cols).map(|j| if j == 0 { k } else if v { felt::<C>(g) } else { U256::new(g.below(3) as u128) }).collect());
            }
        }
        t
    };
    let t0 = table(g);
    let mut ops = vec![];
    let mut regs = 0;
    let mut next = || {
        regs += 1;
        reg(regs - 1)
    };
    let targs: Vec<String> = t0.iter().flatten().map(|x| if fixed { konst(*x) } else { next() }).collect();
    if by_row {
        let mut a = targs;
        // ids, then results
        a.extend((0..nq * (1 + cols)).map(|_| next()));
        let k = if g.chance(1, 4) { -1 } else { opt as i64 };
        ops.push(op("logup", &a, &format!(",\"n\":{cols},\"k\":{k},\"l\":[{rows},{nq}]")));
    } else {
        ops.push(op("reset", &[], ""));
        ops.push(op("table", &targs, &format!(",\"n\":{cols}")));
        let mut i = 0;
        while i < nq {
            if g.bool() {
                let a: Vec<String> = (0..cols).map(|_| next()).collect();
                ops.push(op("query", &a, ""));
                i += 1;
            } else {
                let k = (1 + g.below(3)).min(nq - i);
                let a: Vec<String> = (0..cols * k).map(|_| next()).collect();
                ops.push(op("batch", &a, &format!(",\"n\":{cols}")));
                i += k;
            }
        }
        ops.push(op("check", &[], &format!(",\"k\":{opt}")));
    }
    let secret = regs;
    let mut asg = vec![];
    for k in 0..2 + g.below(3) {
        let t = if fixed { t0.clone() } else { table(g) };
        let mut ids: Vec<U256> = vec![];
        let mut qs: Vec<Vec<U256>> = vec![];
        for _ in 0..nq {
            let i = g.below(rows);
            ids.push(U256::new(i as u128));
            qs.push(t[i].clone());
        }
        if k > 0 {
            for _ in 0..1 + g.below(2) {
                let (i, j) = (g.below(nq), g.below(cols));
                match g.below(5) {
                    0 => qs[i][j] = spoil::<C>(g, qs[i][j]),
                    1 => qs[i].rotate_left(1),
                    2 => {
                        let l = g.below(cols);
                        qs[i].swap(j, l)
                    }
                    3 => {
                        // a value of another row
                        let o = g.below(rows);
                        qs[i][j] = t[o][j];
                    }
                    _ => {
                        if by_row {
                            ids[i] = U256::new(g.below(rows + 2) as u128);
                        } else {
                            // opposite errors in two queries, or two columns
                            let d = felt::<C>(g);
                            let o = if g.bool() { i } else { g.below(nq) };
                            let l = g.below(cols);
                            qs[i][j] = (qs[i][j] + d) % m;
                            qs[o][l] = (qs[o][l] + (m - d)) % m;
                        }
                    }
                }
            }
        }
        let out_of_table = ids.iter().any(|x| *x >= U256::new(rows as u128));
        let sat = if by_row {
            !out_of_table && {
                let mut a: Vec<_> = ids.iter().map(|i| t[i.as_usize()].clone()).collect();
                let mut b = qs.clone();
                a.sort();
                b.sort();
                a == b
            }
        } else {
            qs.iter().all(|q| t.contains(q))
        };
        let mut vals = if fixed { vec![] } else { t.concat() };
        if by_row {
            vals.extend(&ids);
        }
        vals.extend(qs.concat());
        let could = qs.iter().all(|q| t.contains(q));
        asg.push(Asg { vals, sat, could, may_fail: out_of_table, outs: vec![], lie: lie(g) });
    }
    Gad { what: format!("{} of {rows}x{cols}, {nq} queries, combination {opt}", if by_row { "rows" } else { "lookup" }), ops, secret, public: 0, asg }
}

fn range<C: Config>(g: &mut Gen) -> Gad {
    let m = modulus::<C>();
    let bits = 1 + g.below(6);
    let wide = 256 - (m - U256::ONE).leading_zeros() as usize;
    let most = if wide < 64 { wide - 1 - bits } else { 20 * bits };
    let mut proofs: Vec<usize> = vec![];
    let mut ops = vec![op("reset", &[], ""), op("rtable", &[], &format!(",\"n\":{bits}"))];
    let n = 1 + g.below(3);
    for i in 0..n {
        // 0: a direct query, of the table's own width
        let k = if g.chance(1, 6) { 0 } else if g.bool() { 1 + g.below(most.min(3 * bits)) } else { 1 + g.below(most) };
        ops.push(if k == 0 { op("qrange", &[reg(i)], "") } else { op("range", &[reg(i)], &format!(",\"n\":{k}")) });
        proofs.push(if k == 0 { bits } else { k });
    }
    let opt = g.below(2);
    ops.push(op("check", &[], &format!(",\"k\":{opt}")));
    let mut asg = vec![];
    for k in 0..2 + g.below(4) {
        let mut vals = vec![];
        let bad = g.below(n);
        for (i, &w) in proofs.iter().enumerate() {
            let lim = U256::ONE << w;
            let up = U256::ONE << (w.div_ceil(bits) * bits);
            let r = felt::<C>(g);
            let mut x = if g.bool() { r % lim } else { lim - U256::ONE - r % lim.min(U256::new(3)) };
            if k > 0 && i == bad {
                x = match g.below(8) {
                    0 => lim,
                    1 => lim + r % lim,
                    2 => up - U256::ONE,
                    3 => up,
                    4 => m - U256::ONE - r % lim,
                    5 => m - U256::ONE,
                    6 => m - r % up - U256::ONE,
                    _ => r,
                } % m;
            }
            vals.push(x);
        }
        let sat = vals.iter().zip(&proofs).all(|(x, w)| *x < U256::ONE << *w);
        asg.push(Asg { vals, sat, could: sat, may_fail: false, outs: vec![], lie: lie(g) });
    }
    Gad { what: format!("range table of {bits} bits, widths {proofs:?}, combination {opt}"), ops, secret: n, public: 0, asg }
}

pub fn case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    use expander_compiler::circuit::config::BN254Config;
    match g.weighted(&[1, 4, 4]) {
        0 => run::<M31Config>(&poseidon(g), ctx),
        1 => {
            if g.bool() {
                run::<M31Config>(&lookup::<M31Config>(g), ctx)
            } else {
                run::<BN254Config>(&lookup::<BN254Config>(g), ctx)
            }
        }
        _ => {
            if g.bool() {
                run::<M31Config>(&range::<M31Config>(g), ctx)
            } else {
                run::<BN254Config>(&range::<BN254Config>(g), ctx)
            }
        }
    }
}
