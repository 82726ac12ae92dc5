//! S01-S06: the gadget library.
mod common;
mod ev;
mod s01;
mod s02;
mod s03;
mod s04;
mod s05;
mod s06;
use pbt::Prop;

fn main() {
    pbt::main(&[
        Prop {
            id: "S01",
            rule: "a message that is not empty, or a word or limb operation",
            case: s01::case,
            directed: Some(s01::directed),
            quick: 3000,
            thorough: 60000,
            threads: 8,
            assumptions: &["the bit layout of the compressing variants is taken from the code: words little end first, the last byte big end first, one common 32-byte head in a batch"],
            min_nontrivial_pct: 60,
        },
        Prop {
            id: "S02",
            rule: "a permutation with at least one round of a state, or a message, that is not all zero",
            case: s02::case,
            directed: None,
            quick: 15000,
            thorough: 60000,
            threads: 8,
            assumptions: &["the stand-in for gkr_hashers supplies the MDS rows and the seed prefix; the gadget and the reference read the same ones"],
            min_nontrivial_pct: 60,
        },
        Prop {
            id: "S03",
            rule: "a table of several rows, a false statement, or a range check",
            case: s03::case,
            directed: Some(s03::directed),
            quick: 200000,
            thorough: 2000000,
            threads: 8,
            assumptions: &["tables have one value per key; a false acceptance counts when it repeats under a second challenge"],
            min_nontrivial_pct: 60,
        },
        Prop {
            id: "S04",
            rule: "more than one product term",
            case: s04::case,
            directed: None,
            quick: 60000,
            thorough: 2000000,
            threads: 8,
            assumptions: &["a false acceptance counts when it repeats under a second challenge"],
            min_nontrivial_pct: 60,
        },
        Prop {
            id: "S05",
            rule: "operands that are not zero, or numbers that differ",
            case: s05::case,
            directed: Some(s05::directed),
            quick: 60000,
            thorough: 300000,
            threads: 8,
            assumptions: &["operands have limbs of 120 bits and 2048 bits in all; what the prover answers is honest except where a constraint bounds it (range checks are documented as missing: known findings)"],
            min_nontrivial_pct: 60,
        },
            Prop {
            id: "S06",
            rule: "a statement about field, group or pairing elements that the reference settles",
            case: s06::case,
            directed: Some(s06::directed),
            quick: 1500,
            thorough: 20000,
            threads: 8,
            assumptions: &["inputs are points as the gadgets' formulas need them (no exceptional additions)"],
            min_nontrivial_pct: 60,
        },
    ])
}
