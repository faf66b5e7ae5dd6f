//! What a simulated world offers to whoever drives it.
use crate::core::*;
use adapton::engine::manage;
use std::cell::Cell;

pub trait Sub {
    fn start(&mut self);
    fn step(&mut self, ctx: &mut Ctx, s: &Step) -> R<()>;
    /// hash of the abstract state
    fn state(&self) -> u64;
    /// somebody who did not move looks at what they hold
    fn bystander(&mut self, ctx: &mut Ctx, s: &Step) -> R<()>;
    fn restart(&mut self, ctx: &mut Ctx) -> R<()>;
    fn finish(&mut self, ctx: &mut Ctx) -> R<()>;
}

thread_local!(static SHARED: Cell<bool> = Cell::new(false));

/// A fresh engine, unless several worlds share one and somebody else starts it.
pub fn start_engine(dcg: bool) {
    if SHARED.with(|s| s.get()) { return; }
    if dcg { manage::init_dcg(); } else { manage::init_naive(); }
}
pub fn share_engine(on: bool) { SHARED.with(|s| s.set(on)) }

/// One world on an engine of its own.
pub fn drive(w: &mut dyn Sub, ops: &[&str], plan: &Plan, ctx: &mut Ctx) -> R<()> {
    w.start();
    for (k, s) in plan.steps.iter().enumerate() {
        ctx.step = k;
        ctx.stats.steps += 1;
        ctx.ev(&format!("actor {} {} {} {} {}", s.actor, ops[s.op as usize % ops.len()], s.a, s.b, s.c));
        w.step(ctx, s)?;
        let h = w.state();
        ctx.state(h);
        ctx.evh("state", h);
        w.bystander(ctx, s)?;
    }
    ctx.step = plan.steps.len();
    w.finish(ctx)
}
