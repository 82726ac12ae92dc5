//! C01-C14: the compiler against an independent evaluator.
#![feature(alloc_error_hook)]
mod art;
mod big;
mod common;
mod io;
mod lcopt;
mod opts;
mod passes;
mod stats;
mod view;
mod wit;
use common::*;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::layered::{CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::compile::CompileOptions;
use pbt::{Ctx, Gen, Prop};

/// Refuses single allocations above a bound while one is set for the thread.
struct Bounded;
thread_local! {
    static CAP: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
unsafe impl std::alloc::GlobalAlloc for Bounded {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > CAP.try_with(|c| c.get()).unwrap_or(usize::MAX) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > CAP.try_with(|c| c.get()).unwrap_or(usize::MAX) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > CAP.try_with(|c| c.get()).unwrap_or(usize::MAX) {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Bounded = Bounded;
pub struct CapGuard;
impl Drop for CapGuard {
    fn drop(&mut self) {
        CAP.with(|c| c.set(usize::MAX));
    }
}
pub fn alloc_cap(n: usize) -> CapGuard {
    CAP.with(|c| c.set(n));
    CapGuard
}

fn c01_in<C: Config, I: InputType>(c: &Case<C>, ctx: &mut Ctx) -> Result<(), String> {
    let Some(k) = compile::<C, I>(&c.src, &c.wants, CompileOptions::default())? else {
        ctx.tag("refused");
        return Ok(());
    };
    for ((x, p), w) in c.ins.iter().zip(&c.wants) {
        let Some(r) = run(&k, x, p, w)? else {
            ctx.tag("no witness");
            continue;
        };
        agree("compiled circuit", w, &r.outputs, r.sat, x)?;
        if w.sat == Some(true) {
            ctx.nontrivial(k.lc.layer_ids.len() >= 2);
        }
        ctx.units += 1;
    }
    ctx.tag("compiled");
    Ok(())
}
fn c01_f<C: Config>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let o = opts(g);
    let cross = g.chance(1, 3);
    let c = case::<C>(g, ctx, o, 3);
    if cross {
        c01_in::<C, CrossLayerInputType>(&c, ctx)
    } else {
        c01_in::<C, NormalInputType>(&c, ctx)
    }
}
fn c01(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, c01_f, g, ctx)
}
fn c01_big(i: usize, ctx: &mut Ctx) -> Option<Result<(), String>> {
    use expander_compiler::circuit::config::*;
    fn both<C: Config>(_: &mut Gen, c: &Case<C>, ctx: &mut Ctx) -> Result<(), String> {
        c01_in::<C, NormalInputType>(c, ctx)?;
        c01_in::<C, CrossLayerInputType>(c, ctx)
    }
    let k = big::KINDS;
    if i < k + 3 {
        return if i < k { big::m31(i, ctx, &both) } else { big::other::<BN254Config>(i, ctx, &both) };
    }
    big::other::<GF2Config>(i - 3, ctx, &both)
}

const NONE: &[&str] = &[];
fn main() {
    let p = |id: &'static str, rule: &'static str, case: fn(&mut Gen, &mut Ctx) -> Result<(), String>, quick: usize, pct: usize| Prop {
        id,
        rule,
        case,
        directed: None,
        quick,
        thorough: quick * 100,
        threads: 8,
        assumptions: NONE,
        min_nontrivial_pct: pct,
    };
    let d = |p: Prop, directed: fn(usize, &mut Ctx) -> Option<Result<(), String>>| Prop { directed: Some(directed), ..p };
    std::alloc::set_alloc_error_hook(|l| {
        CAP.with(|c| c.set(usize::MAX));
        panic!("an allocation of {} bytes", l.size())
    });
    pbt::main(&[
        d(p("C01", "a circuit that compiled to two or more layers and was satisfied by at least one of the inputs tried", c01, 200_000, 30), c01_big),
        d(p("C02", "a circuit that compiled to two or more layers under at least one of the option sets and was satisfied by one of the inputs", opts::c02, 80_000, 30), opts::c02_big),
        d(p("C03", "a circuit with sub-circuits that compiled", opts::c03, 40_000, 30), opts::c03_big),
        p("C04", "a batch of different witnesses, all solvable, for a circuit with hints", wit::c04, 80_000, 10),
        p("C05", "five or more passes over a circuit that one of the inputs satisfies", passes::c05, 150_000, 40),
        d(p("C06", "a compiled circuit of three or more layers", opts::c06, 100_000, 20), opts::c06_big),
        d(p("C07", "a circuit whose cross-layer form reads a layer other than the one before", opts::c07, 120_000, 10), opts::c07_big),
        p("C08", "a sequence of passes that changed the segments of the circuit", lcopt::c08, 200_000, 30),
        p("C09", "several witnesses for a circuit of two or more layers", art::c09, 250_000, 30),
        p("C10", "an artefact of more than 120 bytes", io::c10, 2_000_000, 30),
        p("C11", "a malformed circuit, or a changed artefact that could still be read and evaluated", io::c11, 3_000_000, 30),
        p("C12", "several witnesses that do not fill the last group", art::c12, 800_000, 30),
        p("C13", "a circuit of several segments, or a program of more than two instructions", stats::c13, 150_000, 30),
        p("C14", "a circuit with two or more defined evaluations, or a layered circuit of several segments", view::c14, 150_000, 40),
    ]);
}
