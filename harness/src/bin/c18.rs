//! C18: the async pool always makes progress for its waiters.
use vharness::{poolkit::*, *};

fn history(c: &mut Case) -> CaseResult {
    let steps = if c.thorough { 20 + c.rng.usize(400) } else { 10 + c.rng.usize(120) };
    match c.rng.below(6) {
        0 | 1 => sequential::<1>(c, Judge::Progress, steps),
        2 | 3 => sequential::<2>(c, Judge::Progress, steps),
        4 => sequential::<3>(c, Judge::Progress, steps),
        _ => sequential::<8>(c, Judge::Progress, steps),
    }
}

fn stress(c: &mut Case) -> CaseResult {
    let n = 2 + c.rng.usize(7);
    let ops = if c.thorough { 4000 } else { 600 };
    let seed = c.rng.u64();
    let (size, seen) = match c.rng.below(4) {
        0 => (1, threads::<1>(seed, n, ops, Judge::Progress)?),
        1 => (2, threads::<2>(seed, n, ops, Judge::Progress)?),
        2 => (3, threads::<3>(seed, n, ops, Judge::Progress)?),
        _ => (4, threads::<4>(seed, n, ops, Judge::Progress)?),
    };
    c.feed(&(n, size, seen.received, seen.waits, seen.created));
    c.sample(format!("{n} threads, pool of {size}: {seen:?}"));
    c.count("threads: items received", seen.received);
    c.count("threads: items reused", seen.reused);
    c.count("threads: items created", seen.created);
    c.count("threads: cancelled", seen.cancelled);
    c.count("threads: failed creations", seen.failed);
    c.count("threads: times a thread slept", seen.parks);
    Ok(())
}

/// Few operations per thread: a waiter that was forgotten is not rescued by later returns.
fn rounds(c: &mut Case) -> CaseResult {
    for _ in 0..20 {
        let n = 2 + c.rng.usize(3);
        let ops = 1 + c.rng.usize(3);
        let seed = c.rng.u64();
        let (size, seen) = match c.rng.below(3) {
            0 | 1 => (1, threads::<1>(seed, n, ops, Judge::Progress)?),
            _ => (2, threads::<2>(seed, n, ops, Judge::Progress)?),
        };
        c.feed(&(n, size, seen.received, seen.waits, seen.created));
        c.count("rounds", 1);
        c.count("rounds: times a thread slept", seen.parks);
    }
    Ok(())
}

/// Several waiters in one task.
fn joins(c: &mut Case) -> CaseResult {
    let steps = 10 + c.rng.usize(60);
    match c.rng.below(3) {
        0 => joined::<1>(c, steps),
        1 => joined::<2>(c, steps),
        _ => joined::<3>(c, steps),
    }
}

pub fn main() {
    Check::new("C18", "histories that differ in their steps; thread runs that differ in what they observed")
        .group("history", 150_000, 2_000_000, history)
        .group_on(2, "threads", 500, 20_000, stress)
        .group_on(3, "rounds", 700, 30_000, rounds)
        .group("joined", 20_000, 400_000, joins)
        .group("reentrant", 2_000, 20_000, reentrant)
        .require("joined: states with a waiter and something available", 5_000)
        .require("wakers that use the pool", 1_500)
        .require("states with a waiter and something available", 5_000)
        .require("cancelled after waking", 500)
        .require("cancelled creations", 1_000)
        .require("panicked creations", 500)
        .require("failed creations", 1_000)
        .require("quiet states checked", 20_000)
        .require("threads: times a thread slept", 2_000)
        .require("rounds: times a thread slept", 3_000)
        .main()
}
