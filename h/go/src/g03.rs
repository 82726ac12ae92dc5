//! G03: what the Go front end compiles means what was written.
use crate::model::{self, elem_bits, Case};
use crate::srv;
use ecgen::*;
use arith::Field;
use ethnum::U256;
use expander_compiler::circuit::config::Config;
use pbt::json::J;
use pbt::{Ctx, Gen};
use std::fmt::Write;

pub struct Run {
    pub of: usize,
    pub lie: usize,
    pub at: usize,
}
pub fn request<C: Config>(c: &Case<C>, runs: &[Run], multi: &[usize], reload: bool) -> String {
    let mut q = format!("{{\"cmd\":\"prog\",\"field\":{},\"kind\":{},\"dims\":{:?},\"multi\":{multi:?},\"prog\":{},\"runs\":[", C::CONFIG_ID, c.kind, c.dims, c.prog.json());
    for (i, r) in runs.iter().enumerate() {
        let v: Vec<String> = c.vals[r.of].iter().map(|x| format!("\"{}\"", x.0)).collect();
        let _ = write!(q, "{}{{\"vals\":[{}],\"lie\":{},\"at\":{}}}", if i > 0 { "," } else { "" }, v.join(","), r.lie, r.at);
    }
    q += "]";
    if reload {
        let f = srv::with(|s| s.dir.join("circuit.txt"));
        let _ = write!(q, ",\"data\":\"reload\",\"file\":\"{}\"", f.display());
    }
    q + "}"
}
/// Decimal numbers of the Go side.
pub fn number(s: &str) -> U256 {
    U256::from_str_radix(s, 10).unwrap_or(U256::MAX)
}
pub fn elements<C: Config>(j: &J, k: &str) -> Result<Vec<Fe<C>>, String> {
    srv::arr(j, k)
        .iter()
        .map(|x| {
            let v = number(x.str().unwrap_or(""));
            if v >= modulus::<C>() {
                return Err(format!("{v} is not reduced"));
            }
            Ok(Fe::<C>::from_u256(v))
        })
        .collect()
}
/// num_actual_outputs and expected_num_output_zeroes of a layered circuit's bytes.
pub fn output_counts(lc: &[u8]) -> (usize, usize) {
    let n = |i: usize| u64::from_le_bytes(lc[i..i + 8].try_into().unwrap()) as usize;
    (n(48), n(56))
}

/// Compiles; None where the refusal is justified.
pub fn compile<C: Config>(c: &Case<C>, runs: &[Run], multi: &[usize], reload: bool, ctx: &mut Ctx) -> Result<Option<J>, String> {
    let r = srv::ask(&request(c, runs, multi, reload))?;
    let none_sat = c.models.iter().all(|m| !m.sat);
    for (what, k) in [("panics", "panic"), ("is refused", "err")] {
        let e = srv::s(&r, k);
        if !e.is_empty() {
            // degenerate circuits are refused
            if e.contains("root circuit should have constraints or outputs") || e.contains("circuit has no inputs") {
                ctx.tag("degenerate");
                return Ok(None);
            }
            // a failing assertion about constants fails for every input
            let foreign = e.contains("runtime error") || e.contains("read back") || e.contains("DetectFieldId");
            if (none_sat || e.contains("division by zero") && c.models.iter().all(|m| m.free_div)) && !foreign {
                ctx.tag("refused");
                return Ok(None);
            }
            return Err(format!("the program {what}: {e}"));
        }
    }
    Ok(Some(r))
}

pub fn case<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let custom = g.chance(1, 4);
    let c = model::gen::<C>(g, 14, custom);
    let n = c.vals.len();
    let mut runs: Vec<Run> = (0..n).map(|of| Run { of, lie: 0, at: 0 }).collect();
    if c.models.iter().any(|m| m.bits > 0) {
        for _ in 0..3 {
            runs.push(Run { of: g.below(n), lie: 1 + g.below(5), at: g.below(40) });
        }
    }
    let multi: Vec<usize> = if g.bool() { (0..1 + g.below(4)).map(|_| g.below(n)).collect() } else { vec![] };
    let reload = g.bool();
    ctx.describe(|| request(&c, &runs, &multi, false));
    ctx.tag(format!("field {}", elem_bits::<C>()));
    ctx.tag_if(c.models[0].calls > 0, "sub circuits");
    ctx.tag_if(c.models[0].bits > 0, "decompositions");
    ctx.tag_if(c.models.iter().any(|m| m.sat), "satisfied");
    ctx.tag_if(c.models.iter().any(|m| !m.sat), "not satisfied");
    let Some(r) = compile(&c, &runs, &multi, reload, ctx)? else { return Ok(()) };
    let shapes: Vec<&str> = srv::arr(&r, "shapes").iter().map(|x| x.str().unwrap_or("")).collect();
    if shapes != c.models[0].shapes {
        return Err(format!("memorized calls return values of the shapes {shapes:?}, the functions {:?}", c.models[0].shapes));
    }
    for cv in srv::arr(&r, "cv") {
        let k = cv.get("k").unwrap().num().unwrap() as usize;
        let v = number(srv::s(cv, "v"));
        for m in &c.models {
            if let Some(x) = m.cv[&k].iter().find(|x| x.to_u256() != v) {
                return Err(format!("ConstantValue {k} claims {v} of a variable that is {}", show::<C>(x)));
            }
        }
    }
    let (actual, zeroes) = output_counts(&srv::unhex(srv::s(&r, "lc")));
    let rr = srv::arr(&r, "runs");
    let flag = |j: &J, k: &str| matches!(j.get(k), Some(J::Bool(true)));
    let mut lied = 0;
    for (run, j) in runs.iter().zip(rr) {
        let m = &c.models[run.of];
        let who = format!("assignment {}{}", run.of, if run.lie > 0 { format!(", decomposition lies {}/{}", run.lie, run.at) } else { String::new() });
        let e = format!("{}{}", srv::s(j, "err"), srv::s(j, "panic"));
        if !e.is_empty() {
            return Err(format!("{who}: solving and checking fails: {e}"));
        }
        let ok = flag(j, "ok");
        let told = j.get("lied").and_then(|x| x.num()).unwrap_or(0) > 0;
        lied += told as usize;
        if !told && ok != m.sat {
            return Err(format!("{who}: the check says {ok}, the program {}", m.sat));
        }
        if ok && !m.sat {
            return Err(format!("{who}: accepted, though the program says no"));
        }
        if ok {
            let o = elements::<C>(j, "outs")?;
            if o.len() < actual || o[zeroes..actual] != m.outs[..] {
                return Err(format!("{who}: outputs {}, expected {}", show_all::<C>(&o[zeroes.min(o.len())..actual.min(o.len())]), show_all::<C>(&m.outs)));
            }
        }
    }
    ctx.tag_if(lied > 0, "lied");
    if !multi.is_empty() {
        let e = srv::s(&r, "merr");
        if !e.is_empty() {
            return Err(format!("several assignments at once: {e}"));
        }
        let got: Vec<bool> = srv::arr(&r, "multi").iter().map(|x| matches!(x, J::Bool(true))).collect();
        let want: Vec<bool> = multi.iter().map(|&i| c.models[runs[i].of].sat).collect();
        if got != want {
            return Err(format!("several assignments at once {multi:?}: {got:?}, expected {want:?}"));
        }
        ctx.tag("several at once");
    }
    ctx.nontrivial(c.prog.root.ops.len() >= 5);
    Ok(())
}
