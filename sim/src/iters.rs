//! An iterator is more than `next`: drive one through a seeded program of the
//! standard adaptors, and drive the same program over the plain sequence.
use crate::core::*;
use crate::rng::Rng;

/// What a consumer saw, item by item; `left` is only known for the reference.
fn program<T, I: Iterator<Item = T>>(mut it: I, val: &dyn Fn(T) -> u32, seed: u64, cap: usize, hints: &mut Vec<(usize, Option<usize>)>) -> Vec<(u8, Option<u64>)> {
    let mut rng = Rng::new(seed);
    let mut out = vec![];
    for _ in 0..rng.below(5) {
        hints.push(it.size_hint());
        match rng.below(5) {
            0 => { let x = it.next(); out.push((0, x.map(|x| val(x) as u64))); }
            1 | 2 => { let k = rng.below(6) as usize; let x = it.nth(k); out.push((1, x.map(|x| val(x) as u64))); }
            3 => { let k = rng.below(4) as usize; for x in it.by_ref().take(k) { out.push((2, Some(val(x) as u64))); } }
            _ => { let m = 1 + rng.below(3) as u32; let x = it.by_ref().map(|x| val(x)).find(|x| x % 4 < m); out.push((3, x.map(|x| x as u64))); }
        }
        // what comes after the end is not promised by every iterator
        if out.last().map_or(false, |x| x.0 != 2 && x.1.is_none()) { return out; }
    }
    hints.push(it.size_hint());
    match rng.below(8) {
        0 => out.push((10, Some(it.take(cap).count() as u64))),
        1 => out.push((11, Some(it.count() as u64))),
        2 => out.push((12, it.last().map(|x| val(x) as u64))),
        3 => out.push((13, Some(it.fold(7u64, |a, x| a.wrapping_mul(31).wrapping_add(val(x) as u64))))),
        4 => { let k = rng.below(5) as usize; for x in it.skip(k).take(cap) { out.push((14, Some(val(x) as u64))); } }
        5 => { let k = 1 + rng.below(3) as usize; for x in it.step_by(k).take(cap) { out.push((15, Some(val(x) as u64))); } }
        6 => { let mut v = vec![]; it.for_each(|x| v.push(val(x))); out.extend(v.iter().map(|x| (16, Some(*x as u64)))); }
        _ => { let v: Vec<u32> = it.take(cap).map(|x| val(x)).collect(); out.extend(v.iter().map(|x| (17, Some(*x as u64)))); }
    }
    out
}

/// `mk` makes the iterator under test; `want` is the sequence it stands for.
pub fn adaptors<T, I: Iterator<Item = T>>(ctx: &mut Ctx, class: &str, mk: impl FnOnce() -> I, val: impl Fn(T) -> u32, want: &[u32], seed: u64) -> R<()> {
    let cap = want.len() + 2;
    let (mut h, mut hw) = (vec![], vec![]);
    let w = program(want.to_vec().into_iter(), &|x| x, seed, cap, &mut hw);
    let got = must(ctx, class, || program(mk(), &val, seed, cap, &mut h))?;
    ctx.eq(class, &got, &w)?;
    let ok = h.len() == hw.len() && h.iter().zip(&hw).all(|(h, w)| h.0 <= w.0 && h.1.map_or(true, |u| u >= w.0));
    ctx.check(ok, class, || format!("size hints {:?} for what really has {:?} items left", h, hw))?;
    ctx.count("probe:iterator adaptors driven");
    Ok(())
}
