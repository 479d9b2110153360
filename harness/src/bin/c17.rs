//! C17: the async pool never shares an item and never exceeds its size.
use vharness::{poolkit::*, *};

fn history(c: &mut Case) -> CaseResult {
    let steps = if c.thorough { 20 + c.rng.usize(400) } else { 10 + c.rng.usize(120) };
    match c.rng.below(6) {
        0 | 1 => sequential::<1>(c, Judge::Items, steps),
        2 | 3 => sequential::<2>(c, Judge::Items, steps),
        4 => sequential::<3>(c, Judge::Items, steps),
        _ => sequential::<8>(c, Judge::Items, steps),
    }
}

fn stress(c: &mut Case) -> CaseResult {
    let n = 2 + c.rng.usize(7);
    let ops = if c.thorough { 4000 } else { 600 };
    let seed = c.rng.u64();
    let (size, seen) = match c.rng.below(4) {
        0 => (1, threads::<1>(seed, n, ops, Judge::Items)?),
        1 => (2, threads::<2>(seed, n, ops, Judge::Items)?),
        2 => (3, threads::<3>(seed, n, ops, Judge::Items)?),
        _ => (4, threads::<4>(seed, n, ops, Judge::Items)?),
    };
    c.feed(&(n, size, seen.received, seen.waits, seen.created));
    c.sample(format!("{n} threads, pool of {size}: {seen:?}"));
    c.count("threads: items received", seen.received);
    c.count("threads: items reused", seen.reused);
    c.count("threads: items created", seen.created);
    c.count("threads: cancelled", seen.cancelled);
    c.count("threads: failed creations", seen.failed);
    c.count("threads: times a thread slept", seen.parks);
    Ok(())
}

pub fn main() {
    Check::new("C17", "histories that differ in their steps; thread runs that differ in what they observed")
        .group("history", 150_000, 2_000_000, history)
        .group_on(2, "threads", 500, 20_000, stress)
        .require("items received", 50_000)
        .require("items reused", 20_000)
        .require("unusable items returned", 2_000)
        .require("cancelled creations", 1_000)
        .require("items dropped with the pool", 5_000)
        .require("threads: items received", 20_000)
        .main()
}
