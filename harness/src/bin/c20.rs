//! C20: the sync pool hands out clean exclusive buffers and stays bounded.
use vharness::{synckit::*, *};

fn history(c: &mut Case) -> CaseResult {
    match c.rng.below(5) {
        0 => sequential::<1>(c),
        1 => sequential::<2>(c),
        2 => sequential::<3>(c),
        3 => sequential::<8>(c),
        _ => sequential::<64>(c),
    }
}

fn buffers(c: &mut Case) -> CaseResult {
    match c.rng.below(4) {
        0 => vectors::<1>(c),
        1 => vectors::<2>(c),
        2 => vectors::<5>(c),
        _ => vectors::<16>(c),
    }
}

fn stress(c: &mut Case) -> CaseResult {
    let n = 2 + c.rng.usize(7);
    let ops = if c.thorough { 20_000 } else { 3000 };
    let seed = c.rng.u64();
    let (size, (taken, made)) = match c.rng.below(4) {
        0 => (1, threads::<1>(seed, n, ops)?),
        1 => (2, threads::<2>(seed, n, ops)?),
        2 => (4, threads::<4>(seed, n, ops)?),
        _ => (16, threads::<16>(seed, n, ops)?),
    };
    c.feed(&(n, size, taken, made));
    c.sample(format!("{n} threads, pool of {size}: {taken} taken, {made} made"));
    c.count("threads: items taken", taken);
    c.count("threads: items created", made);
    Ok(())
}

pub fn main() {
    Check::new("C20", "histories that differ in their steps; thread runs that differ in what they observed")
        .scale(5)
        .group("history", 60_000, 2_000_000, history)
        .group("buffers", 40_000, 1_500_000, buffers)
        .group_on(2, "threads", 150, 5_000, stress)
        .require("items reused", 100_000)
        .require("contents dropped on return", 100_000)
        .require("returns with a panicking element", 1000)
        .require("states with more users than kept items", 10_000)
        .require("buffers grown past the cap", 10_000)
        .require("threads: items taken", 100_000)
        .main()
}
