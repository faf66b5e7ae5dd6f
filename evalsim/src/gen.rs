//! What the harness draws from: a coordinator whose every draw is the simulator's,
//! and element types that record what was drawn.
use crate::core::*;
use crate::el::El;
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug)]
pub struct SimGen(pub crate::rng::Rng);
impl SimGen { pub fn new(seed: u64) -> SimGen { SimGen(crate::rng::Rng::new(seed)) } }
impl rand::Rng for SimGen {
    fn next_u32(&mut self) -> u32 { (self.0.next() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { self.0.next() }
}

thread_local! {
    static DRAWS: RefCell<Vec<u32>> = RefCell::new(vec![]);
    static RANGE: Cell<u32> = const { Cell::new(0) };
    static TICK: Cell<u64> = const { Cell::new(0) };
    static CTICK: Cell<u64> = const { Cell::new(0) };
    static CLONED: Cell<u64> = const { Cell::new(0) };
    static WORK: Cell<u64> = const { Cell::new(0) };
}
pub fn setup(range: u64, tick: u64, ctick: u64) { CTICK.with(|t| t.set(ctick)); CLONED.with(|t| t.set(0)); DRAWS.with(|d| d.borrow_mut().clear()); RANGE.with(|r| r.set(range as u32)); TICK.with(|t| t.set(tick)); WORK.with(|w| w.set(0)); }
pub fn drawn() -> usize { DRAWS.with(|d| d.borrow().len()) }
pub fn draws(from: usize, n: usize) -> Option<Vec<u32>> { DRAWS.with(|d| d.borrow().get(from..from + n).map(|s| s.to_vec())) }

/// elements are numbered as they are drawn, or taken from a small range so that equal ones occur
impl rand::Rand for El {
    fn rand<R: rand::Rng>(rng: &mut R) -> El {
        let r = RANGE.with(|r| r.get());
        let n = drawn() as u32;
        let v = if r == 0 { n } else { rng.next_u32() % r };
        DRAWS.with(|d| d.borrow_mut().push(v));
        El(v)
    }
}

/// every callback takes simulated time and may be interrupted
pub fn cb() {
    let t = TICK.with(|t| t.get());
    crate::clock::advance(t);
    WORK.with(|w| w.set(w.get() + t));
    fault_point(SITE_CALLBACK, "callback");
}
/// cloning an element takes simulated time too
pub fn cloned() {
    let t = CTICK.try_with(|t| t.get()).unwrap_or(0);
    if t > 0 && !is_quiet() { crate::clock::advance(t); CLONED.with(|w| w.set(w.get() + t)); }
}
pub fn clone_work() -> u64 { CLONED.with(|w| w.get()) }
pub fn clone_tick() -> u64 { CTICK.with(|w| w.get()) }
pub fn work() -> u64 { WORK.with(|w| w.get()) }
