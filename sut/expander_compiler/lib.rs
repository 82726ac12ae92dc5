#![feature(min_specialization)]
#![allow(warnings)]
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
