//! G02: containers, helpers and fields of the Go side.
use crate::g03::number;
use crate::model::{elem_bits, konst, value, X};
use crate::srv;
use ecgen::*;
use arith::Field;
use ethnum::U256;
use expander_compiler::circuit::config::Config;
use pbt::{Ctx, Gen};

fn ask(q: String, ctx: &mut Ctx) -> Result<(Vec<String>, String), String> {
    ctx.describe(|| q.clone());
    let r = srv::ask(&q)?;
    let p = srv::s(&r, "panic");
    if !p.is_empty() {
        return Err(format!("panics: {p}"));
    }
    Ok((srv::arr(&r, "out").iter().map(|x| x.str().unwrap_or("").to_string()).collect(), srv::s(&r, "lc").to_string()))
}
fn strs(xs: &[String]) -> String {
    format!("[{}]", xs.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(","))
}
fn same(what: &str, got: &[String], want: &[String]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} answers, expected {}", got.len(), want.len()));
    }
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        if a != b {
            return Err(format!("{what}: operation {i} gives {a:?}, expected {b:?}"));
        }
    }
    Ok(())
}

fn map(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let mut m: std::collections::BTreeMap<i64, i64> = Default::default();
    let n = 1 + g.small(25);
    let (mut ops, mut want) = (vec![], vec![]);
    let mut again = false;
    for _ in 0..n {
        let (k, v) = (g.below(8) as i64, g.below(50) as i64);
        let o = match g.weighted(&[5, 4, 6, 2, 1]) {
            0 => {
                again |= m.insert(k, v).is_some();
                want.push(String::new());
                "set"
            }
            1 => {
                want.push(m.entry(k).or_insert(v).to_string());
                "add"
            }
            2 => {
                want.push(match m.get(&k) {
                    Some(v) => format!("{v} true"),
                    None => "<nil> false".into(),
                });
                "find"
            }
            3 => {
                let k = k + 1;
                let ks: Vec<String> = m.iter().filter(|x| x.1 % k == 0).map(|x| x.0.to_string()).collect();
                want.push(format!("[{}]", ks.join(" ")));
                ops.push(format!("{{\"o\":\"filter\",\"k\":{k}}}"));
                continue;
            }
            _ => {
                m.clear();
                want.push(String::new());
                "clear"
            }
        };
        ops.push(format!("{{\"o\":\"{o}\",\"k\":{k},\"v\":{v}}}"));
    }
    ctx.tag("map");
    ctx.tag_if(again, "set over a stored key");
    ctx.nontrivial(n >= 4);
    let (got, _) = ask(format!("{{\"cmd\":\"map\",\"ops\":[{}]}}", ops.join(",")), ctx)?;
    same("map", &got, &want)
}
fn sort(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let n = g.small(60);
    let mut xs: Vec<i64> = (0..n).map(|_| if g.bool() { g.below(10) as i64 } else { g.u64() as i64 >> 2 }).collect();
    let kind = g.below(3);
    let q = format!("{{\"cmd\":\"sort\",\"kind\":{kind},\"strs\":{}}}", strs(&xs.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    match kind {
        0 => xs.sort(),
        1 => xs.sort_by(|a, b| b.cmp(a)),
        _ => xs.sort_by_key(|x| (x % 7, *x)),
    }
    ctx.tag("sort");
    ctx.nontrivial(n >= 8);
    let (got, _) = ask(q, ctx)?;
    same("sort", &got, &xs.iter().map(|x| x.to_string()).collect::<Vec<_>>())
}
fn pow(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let is4 = g.bool();
    let mut xs: Vec<u64> = (0..10)
        .map(|_| match g.below(3) {
            0 => g.below(20) as u64,
            1 => (1u64 << g.below(60)).wrapping_add(g.below(3) as u64).wrapping_sub(1),
            _ => g.u64() >> (5 + g.below(58)),
        })
        .collect();
    xs.sort();
    ctx.tag("power of two");
    ctx.nontrivial(true);
    let q = format!("{{\"cmd\":\"pow\",\"kind\":{},\"strs\":{}}}", is4 as u8, strs(&xs.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    let (got, _) = ask(q, ctx)?;
    let mut last = 0;
    if got.len() != xs.len() {
        return Err("some values are left out".into());
    }
    for (x, y) in xs.iter().zip(&got) {
        let y: u64 = y.parse().map_err(|_| format!("NextPowerOfTwo({x}) = {y}"))?;
        if !y.is_power_of_two() || is4 && y.trailing_zeros() % 2 != 0 {
            return Err(format!("NextPowerOfTwo({x}, {is4}) = {y} is no power"));
        }
        if y < *x || y < last {
            return Err(format!("NextPowerOfTwo({x}, {is4}) = {y}: too small, or less than for a smaller argument"));
        }
        if y as u128 > 2 * (1 + is4 as u128) * (*x as u128).max(1) {
            return Err(format!("NextPowerOfTwo({x}, {is4}) = {y}: too large"));
        }
        last = y;
    }
    Ok(())
}
fn from<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let xs: Vec<(String, model_k)> = (0..10)
        .map(|_| {
            let small = g.chance(1, 5);
            match konst::<C>(g, small) {
                X::K(s, k) => (s, k),
                _ => unreachable!(),
            }
        })
        .collect();
    ctx.tag("conversions");
    ctx.nontrivial(true);
    let q = format!("{{\"cmd\":\"from\",\"field\":{},\"strs\":{}}}", C::CONFIG_ID, strs(&xs.iter().map(|x| x.0.clone()).collect::<Vec<_>>()));
    let (got, _) = ask(q, ctx)?;
    let mut want = vec![];
    for (s, k) in &xs {
        if s.starts_with(['e', 'E']) {
            want.extend(["-".to_string(), "-".to_string()]);
        } else {
            want.push(format!("{}{}", if k.0 && k.1 != U256::ZERO { "-" } else { "" }, k.1));
            want.push(value::<C>(k).to_u256().to_string());
        }
    }
    same("conversion", &got, &want)
}
#[allow(non_camel_case_types)]
type model_k = crate::model::K;

fn field<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let len = match C::CONFIG_ID {
        1 => 4,
        2 => 32,
        _ => 1,
    };
    let mut want = vec![format!("{} {} {} {}", modulus::<C>(), elem_bits::<C>(), len, C::CONFIG_ID)];
    let mut ops = vec![];
    for _ in 0..16 {
        let (a, b) = (fe::<C>(g), fe::<C>(g));
        let o = *g.pick(&["add", "sub", "mul", "neg", "inv", "one", "isone", "u64", "str", "chain"]);
        ops.push(format!("{{\"o\":\"{o}\",\"a\":\"{}\",\"b\":\"{}\"}}", a.to_u256(), b.to_u256()));
        let n = |x: Fe<C>| x.to_u256().to_string();
        want.push(match o {
            "add" => n(a + b),
            "sub" => n(a - b),
            "mul" => n(a * b),
            "neg" => n(zero::<C>() - a),
            "inv" => match a.inv() {
                Some(v) => format!("{} true", n(v)),
                None => "0 false".into(),
            },
            "one" => "1".into(),
            "isone" => format!("{} {}", n(a), a == one::<C>()),
            "u64" => {
                let v = a.to_u256();
                if v >> 64u32 == U256::ZERO {
                    format!("{v} {v} true")
                } else {
                    format!("{v} 0 false")
                }
            }
            "str" => "str".into(),
            _ => format!("{} true", n(a)),
        });
    }
    ctx.tag(format!("field {}", elem_bits::<C>()));
    ctx.nontrivial(true);
    let (got, _) = ask(format!("{{\"cmd\":\"field\",\"field\":{},\"ops\":[{}]}}", C::CONFIG_ID, ops.join(",")), ctx)?;
    // how a number is shown is left open, within its value modulo the field
    let got: Vec<String> = got
        .iter()
        .zip(&want)
        .map(|(a, b)| {
            if b != "str" {
                return a.clone();
            }
            let (v, s) = a.split_once(' ').unwrap_or((a, ""));
            let (neg, d) = match s.strip_prefix('-') {
                Some(d) => (true, d),
                None => (false, s),
            };
            if !d.is_empty() && number(d) != U256::MAX && value::<C>(&(neg, number(d))).to_u256() == number(v) {
                "str".into()
            } else {
                a.clone()
            }
        })
        .collect();
    same("field", &got, &want)
}
/// Buffers of numbers: read back, and the bytes every other side expects.
pub fn buf<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let n = 1 + g.small(15);
    let (mut ops, mut want, mut bytes) = (vec![], vec![], vec![]);
    let le = |v: U256, n: usize| v.to_le_bytes()[..n].to_vec();
    let flen = match C::CONFIG_ID {
        1 => 4,
        2 => 32,
        _ => 1,
    };
    for _ in 0..n {
        let x = match g.below(3) {
            0 => g.below(4) as u64,
            1 => g.u64(),
            _ => u64::MAX >> g.below(64),
        };
        let mut k = 0;
        let mut v = 0;
        let mut a = x.to_string();
        let o = match g.below(6) {
            0 => {
                want.push((x as u8).to_string());
                bytes.push(x as u8);
                "u8"
            }
            1 => {
                want.push((x as u32).to_string());
                bytes.extend((x as u32).to_le_bytes());
                "u32"
            }
            2 => {
                want.push(x.to_string());
                bytes.extend(x.to_le_bytes());
                "u64"
            }
            3 => {
                k = 8 + g.below(25);
                let b = g.below((k - 8) * 8 + 1) as u32;
                let w = U256::from(x) << b.min(192);
                a = w.to_string();
                want.push(a.clone());
                bytes.extend(le(w, k));
                "big"
            }
            4 => {
                let w = rand_fe::<C>(g).to_u256();
                a = w.to_string();
                want.push(a.clone());
                bytes.extend(le(w, flen));
                "fe"
            }
            _ => {
                k = g.below(5);
                v = g.below(100);
                let s = x >> 2;
                a = s.to_string();
                bytes.extend((k as u64).to_le_bytes());
                let xs: Vec<u64> = (0..k).map(|i| s + (i * v) as u64).collect();
                want.push(format!("[{}]", xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
                bytes.extend(xs.iter().flat_map(|x| x.to_le_bytes()));
                "ints"
            }
        };
        ops.push(format!("{{\"o\":\"{o}\",\"a\":\"{a}\",\"k\":{k},\"v\":{v}}}"));
    }
    ctx.tag("buffers");
    ctx.nontrivial(n >= 4);
    let (got, lc) = ask(format!("{{\"cmd\":\"buf\",\"field\":{},\"ops\":[{}]}}", C::CONFIG_ID, ops.join(",")), ctx)?;
    same("buffer", &got, &want)?;
    if lc != srv::hex(&bytes) {
        return Err(format!("the buffer holds {lc}, expected {}", srv::hex(&bytes)));
    }
    Ok(())
}

pub fn case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    use crate::per_field;
    match g.weighted(&[4, 2, 2, 3, 5]) {
        0 => map(g, ctx),
        1 => sort(g, ctx),
        2 => pow(g, ctx),
        3 => per_field!(g, from, g, ctx),
        _ => per_field!(g, field, g, ctx),
    }
}
