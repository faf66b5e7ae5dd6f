//! Shared workload generation: swarm-style random operation mixes.
use crate::core::*;
use crate::rng::Rng;

pub fn steps(rng: &mut Rng, tier: Tier, nops: usize, weights: &[(usize, u64)], quick_max: u64, thorough_max: u64) -> Vec<Step> {
    let actors = rng.range(1, 4);
    let mut w = vec![0u64; nops];
    for &(op, x) in weights { w[op] = if rng.chance(1, 7) { 0 } else { x * *rng.pick(&[1, 2, 2, 4]) }; }
    if w.iter().all(|x| *x == 0) { for &(op, x) in weights { w[op] = x; } }
    let n = rng.range(6, if tier == Tier::Quick { quick_max } else { thorough_max });
    let mut steps = vec![];
    let mut last = 0;
    for _ in 0..n {
        let op = rng.weighted(&w);
        if rng.chance(1, 3) { last = rng.below(12); }
        steps.push(Step { actor: rng.below(actors) as u8, op: op as u8, a: last, b: rng.below(1000), c: rng.below(1000) });
    }
    steps
}

/// random subset of `n` flags, never empty
pub fn subset(rng: &mut Rng, n: u64, allowed: u64) -> u64 {
    let mut m = 0;
    for k in 0..n { if allowed & (1 << k) != 0 && rng.chance(1, 2) { m |= 1 << k; } }
    while m == 0 && allowed != 0 { let k = rng.below(n); m |= allowed & (1 << k); }
    m
}

/// size regimes: mostly small histories, sometimes long sections or deep trees, rarely huge ones
/// (burst factor, archives per burst, length limit)
pub fn sizes(rng: &mut Rng, small: u64) -> (u64, u64, u64) {
    if rng.chance(1, 400) { return if rng.chance(1, 2) { (rng.range(300, 1500), 1, 9000) } else { (1, rng.range(60, 200), 4000) }; }
    match rng.below(24) {
        0 => (*rng.pick(&[25, 60, 120]), 1, 900),
        1 if rng.chance(1, 2) => (1, rng.range(30, 90), 900),
        1 | 2 => (1, rng.range(8, 20), 400),
        _ => (1, 1, small),
    }
}
