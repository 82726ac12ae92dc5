//! G04: proving and verifying from Go, through the library and through a server.
use crate::g03::{self, Run};
use crate::model;
use crate::srv;
use ecgen::*;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::layered::witness::Witness;
use expander_compiler::circuit::layered::{Circuit, Coef, NormalInputType};
use pbt::{Ctx, Gen};
use serdes::ExpSerde;

fn ask(kind: usize, lc: &str, file: &str, strs: [&str; 3]) -> Result<Vec<String>, String> {
    let q = format!("{{\"cmd\":\"prove\",\"kind\":{kind},\"data\":\"{lc}\",\"file\":\"{file}\",\"strs\":[\"{}\",\"{}\",{}]}}", strs[0], strs[1], pbt::json::quote(strs[2]));
    let r = srv::ask(&q)?;
    let p = srv::s(&r, "panic");
    if !p.is_empty() {
        return Err(format!("panics: {p}"));
    }
    Ok(srv::arr(&r, "out").iter().map(|x| x.str().unwrap_or("").to_string()).collect())
}
fn remote(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let n = g.small(200);
    let (wit, proof) = (srv::hex(&g.bytes(n)), g.small(300));
    let proof = srv::hex(&g.bytes(proof));
    let reply = g.pick(&["success", "failure", "", "Success", "success\n", "not success", "successful"]).to_string();
    ctx.describe(|| format!("witness {wit}, the server proves {proof} and answers {reply:?}"));
    ctx.tag("server");
    ctx.nontrivial(true);
    let out = ask(1, "", "", [&wit, &proof, &reply])?;
    let le = |s: &str| srv::hex(&((s.len() / 2) as u64).to_le_bytes());
    let want = [proof.clone(), (reply == "success").to_string(), format!("prove POST {wit}"), format!("verify POST {}{}{wit}{proof}", le(&wit), le(&proof))];
    if out != want {
        return Err(format!("proof, verdict and requests are {out:?}, expected {want:?}"));
    }
    Ok(())
}
pub fn case<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.chance(1, 5) {
        return remote(g, ctx);
    }
    let c = model::gen::<C>(g, 8, false);
    let runs: Vec<Run> = (0..c.vals.len()).map(|of| Run { of, lie: 0, at: 0 }).collect();
    let multi: Vec<usize> = if g.chance(1, 3) { (0..1 + g.below(4)).map(|_| g.below(c.vals.len())).collect() } else { vec![] };
    ctx.describe(|| g03::request(&c, &runs, &multi, false));
    ctx.tag(format!("field {}", model::elem_bits::<C>()));
    let Some(r) = g03::compile(&c, &runs, &multi, false, ctx)? else { return Ok(()) };
    let lc = srv::s(&r, "lc");
    let mut wits: Vec<String> = srv::arr(&r, "runs").iter().map(|j| srv::s(j, "wit").to_string()).filter(|w| !w.is_empty()).collect();
    let mwit = srv::s(&r, "mwit").to_string();
    if !mwit.is_empty() {
        wits.push(mwit);
        ctx.tag("several assignments");
    }
    if wits.is_empty() {
        return Ok(());
    }
    let dir = srv::with(|s| s.dir.clone());
    let file = dir.join("proved.txt").display().to_string();
    let wit = g.pick(&wits).clone();
    let out = ask(0, lc, &file, [&wit, "", ""])?;
    if out.len() != 2 || out[1] != "true" || out[0].is_empty() {
        return Err(format!("an honest proof of {wit} is not accepted: {out:?}"));
    }
    ctx.nontrivial(true);
    let proof = srv::unhex(&out[0]);
    // the length of the inputs, the inputs, the claimed value
    let head = 8 + u64::from_le_bytes(proof[..8].try_into().unwrap()) as usize;
    let (what, w, p) = match g.below(4) {
        0 => {
            let mut p = proof.clone();
            p[head] ^= 1;
            ("a proof with another claimed value", wit.clone(), p)
        }
        1 => {
            let n = g.below(proof.len());
            ("a proof cut short", wit.clone(), proof[..n].to_vec())
        }
        2 => {
            let n = g.small(100);
            ("noise", wit.clone(), g.bytes(n))
        }
        _ => {
            // the same proof for other public inputs
            let mut other = None;
            let mut all = wits.clone();
            // the last value is a public one, where there are any
            let mut b = srv::unhex(&wit);
            let n = b.len();
            b[n - if C::CONFIG_ID == 1 { 4 } else if C::CONFIG_ID == 2 { 32 } else { 1 }] ^= 1;
            all.push(srv::hex(&b));
            for x in &all {
                if matches!(differ::<C>(lc, &wit, x), Ok(true)) {
                    other = Some(x.clone());
                }
            }
            let Some(other) = other else { return Ok(()) };
            ("a proof of other public inputs", other, proof.clone())
        }
    };
    ctx.tag(what);
    let out = ask(2, lc, &file, [&w, &srv::hex(&p), ""])?;
    if out.get(1).map(|x| x.as_str()) != Some("false") {
        return Err(format!("{what} is accepted: witness {w}, proof {}", srv::hex(&p)));
    }
    Ok(())
}
fn witness<C: Config>(w: &str) -> Result<Option<(Vec<Fe<C>>, Vec<Fe<C>>)>, String> {
    let w = Witness::<C>::deserialize_from(&srv::unhex(w)[..]).map_err(|e| format!("the witness Go has written cannot be read: {e}"))?;
    Ok(if w.num_witnesses == 1 { w.iter_scalar().next() } else { None })
}
/// Whether the outputs for the inputs of one witness change with the public inputs of another.
fn differ<C: Config>(lc: &str, wit: &str, other: &str) -> Result<bool, String> {
    let lc = Circuit::<C, NormalInputType>::deserialize_from(&srv::unhex(lc)[..]).map_err(|e| format!("the circuit Go has written cannot be read: {e}"))?;
    let (Some((x, p)), Some((_, q))) = (witness::<C>(wit)?, witness::<C>(other)?) else { return Ok(false) };
    // nothing is known about circuits with challenges in them
    let run = |p: &[Fe<C>]| refeval::layer_values(&lc, &x, p, 1, &|_, _| zero::<C>()).pop().unwrap();
    Ok(refeval::flatten(&lc).iter().all(|g| g.coef != Coef::Random) && run(&p) != run(&q))
}
