//! C27: every other monitor's workload in one binary, run for the executions it causes rather than for the values:
//! natively with the standard library's unsafe-precondition checks, under AddressSanitizer and under Miri.
#![allow(dead_code, unused_imports, unused_macros)]
use fstmon::driver::*;

#[path = "c01.rs"]
mod c01;
#[path = "c02.rs"]
mod c02;
#[path = "c03.rs"]
mod c03;
#[path = "c04.rs"]
mod c04;
#[path = "c05.rs"]
mod c05;
#[path = "c06.rs"]
mod c06;
#[path = "c07.rs"]
mod c07;
#[path = "c08.rs"]
mod c08;
#[path = "c09.rs"]
mod c09;
#[path = "c10.rs"]
mod c10;
#[path = "c11.rs"]
mod c11;
#[path = "c12.rs"]
mod c12;
#[path = "c13.rs"]
mod c13;
#[path = "c14.rs"]
mod c14;
#[path = "c15.rs"]
mod c15;
#[path = "c16.rs"]
mod c16;
#[path = "c17.rs"]
mod c17;
#[path = "c18.rs"]
mod c18;
#[path = "c19.rs"]
mod c19;
#[path = "c20.rs"]
mod c20;
#[path = "c21.rs"]
mod c21;
#[path = "c22.rs"]
mod c22;
#[path = "c23.rs"]
mod c23;
#[path = "c24.rs"]
mod c24;
#[path = "c29.rs"]
mod c29;

const ALL: &[(&str, CaseFn)] = &[
    ("c01", c01::case),
    ("c02", c02::case),
    ("c03", c03::case),
    ("c04", c04::case),
    ("c05", c05::case),
    ("c06", c06::case),
    ("c07", c07::case),
    ("c08", c08::case),
    ("c09", c09::case),
    ("c10", c10::case),
    ("c11", c11::case),
    ("c12", c12::case),
    ("c13", c13::case),
    ("c14", c14::case),
    ("c15", c15::case),
    ("c16", c16::case),
    ("c17", c17::case),
    ("c18", c18::case),
    ("c19", c19::case),
    ("c20", c20::case),
    ("c21", c21::case),
    ("c22", c22::case),
    ("c23", c23::case),
    ("c24", c24::case),
    ("c29", c29::case),
];

pub fn case(ctx: &mut Ctx) {
    let k = match std::env::var("C27_ONLY").ok() {
        Some(n) => ALL.iter().position(|(m, _)| *m == n).unwrap_or(0),
        None => ctx.rng.below(ALL.len()),
    };
    let h = ctx.rng.fork().next();
    ctx.distinct(h);
    ctx.count(&format!("workload:{}", ALL[k].0));
    (ALL[k].1)(ctx);
}

fn main() {
    run(Prop {
        id: "C27",
        quick: 200_000,
        thorough: 1_500_000,
        rule: "the workloads of all other monitors (edit histories, every algorithm stored and on demand, matchers, look-ahead, caches, iterators, serialisation and damaged input, symbol tables, threads) run in a build with debug assertions, so that the standard library checks the preconditions of every unchecked access, again under AddressSanitizer, and a smaller share under Miri, which interprets the program and reports out-of-bounds or uninitialised access, use after free, invalid values, aliasing violations and data races. Only such reports and crashes are judged here. Non-trivial: distinct cases.",
        case,
        must: &[],
        crash_only: true,
        case_cpu: 60.0,
        ..DEFAULT
    })
}
