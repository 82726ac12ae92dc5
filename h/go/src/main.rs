//! G01-G05: the Go front end, its artefacts, its helpers.
mod g01;
mod g02;
mod g03;
mod g04;
mod g05;
mod g06;
mod model;
mod srv;
use pbt::{Ctx, Gen, Prop};

#[macro_export]
macro_rules! per_field {
    ($g:expr, $f:ident, $($a:expr),*) => {{
        use expander_compiler::circuit::config::*;
        match $g.weighted(&[5, 3, 3]) {
            0 => $f::<M31Config>($($a),*),
            1 => $f::<BN254Config>($($a),*),
            _ => $f::<GF2Config>($($a),*),
        }
    }};
}
fn g03_case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    use g03::case;
    per_field!(g, case, g, ctx)
}
fn g01_case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    use g01::case;
    per_field!(g, case, g, ctx)
}
fn g04_case(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    use g04::case;
    per_field!(g, case, g, ctx)
}

fn main() {
    const STD: &[&str] = &["gnark, gnark-crypto and golang.org/x/crypto are stand-ins of /verif/shims/go; the shared library of the Go front end is /repo's ec_go_lib linked with the stand-ins of Expander"];
    pbt::main(&[
        Prop {
            id: "G01",
            rule: "an artefact with at least 3 gates or instructions is carried from one language to the other and evaluated on both sides",
            case: g01_case,
            directed: None,
            quick: 1500,
            thorough: 100_000,
            threads: 8,
            assumptions: STD,
            min_nontrivial_pct: 60,
        },
        Prop {
            id: "G02",
            rule: "a history of at least 4 operations on a container, or at least 8 values put through a helper or a field",
            case: g02::case,
            directed: None,
            quick: 60_000,
            thorough: 4_000_000,
            threads: 8,
            assumptions: STD,
            min_nontrivial_pct: 60,
        },
        Prop {
            id: "G03",
            rule: "a program of the Go API that compiles, is solved and checked on at least one assignment, with at least 3 calls beyond the fixed two",
            case: g03_case,
            directed: None,
            quick: 1500,
            thorough: 100_000,
            threads: 8,
            assumptions: STD,
            min_nontrivial_pct: 60,
        },
        Prop {
            id: "G04",
            rule: "an honest proof is produced and verified, or a forged request is judged, or a server's traffic is observed",
            case: g04_case,
            directed: None,
            quick: 1200,
            thorough: 60_000,
            threads: 8,
            assumptions: STD,
            min_nontrivial_pct: 60,
        },
        Prop {
            id: "G05",
            rule: "a gadget of circuit-std-go is compiled in a circuit and judged on at least two assignments",
            case: g05::case,
            directed: None,
            quick: 1500,
            thorough: 60_000,
            threads: 8,
            assumptions: STD,
            min_nontrivial_pct: 60,
        },
        Prop {
            id: "G06",
            rule: "a layered circuit of at least three gates, printed or drawn",
            case: g06::case,
            directed: None,
            quick: 20_000,
            thorough: 600_000,
            threads: 8,
            assumptions: STD,
            min_nontrivial_pct: 60,
        },
    ])
}
