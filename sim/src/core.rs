//! Simulation core: plans, the execution context, fault points and the
//! runner that turns one plan into one exactly repeatable execution.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use crate::rng::{mix, Rng};

/// One scheduling decision: which actor moves, what it does, with which arguments.
/// Arguments are resolved modulo the state at execution, so any subsequence of
/// a plan is again a plan; that is what makes minimisation by deletion sound.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Step { pub actor: u8, pub op: u8, pub a: u64, pub b: u64, pub c: u64 }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, u64>,
    pub steps: Vec<Step>,
}

impl Plan {
    pub fn cfg(&self, k: &str) -> u64 { *self.cfg.get(k).unwrap_or(&0) }
    pub fn to_text(&self, ops: &[&str], note: &str) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "# deterministic-simulation replay file");
        for l in note.lines() { let _ = writeln!(s, "# {}", l); }
        let _ = writeln!(s, "property {}", self.prop);
        let _ = writeln!(s, "seed {}", self.seed);
        for (k, v) in &self.cfg { let _ = writeln!(s, "cfg {} {}", k, v); }
        for st in &self.steps {
            let _ = writeln!(s, "step {} {} {} {} {}", st.actor, ops[st.op as usize % ops.len()], st.a, st.b, st.c);
        }
        s
    }
    pub fn from_text(t: &str, ops_of: &dyn Fn(&str) -> Option<&'static [&'static str]>) -> Result<Plan, String> {
        let mut p = Plan { prop: String::new(), seed: 0, cfg: BTreeMap::new(), steps: vec![] };
        for l in t.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') { continue; }
            let w: Vec<&str> = l.split_whitespace().collect();
            let num = |i: usize| -> Result<u64, String> {
                w.get(i).ok_or("short line".to_string())?.parse::<u64>().map_err(|e| format!("{}: {}", l, e))
            };
            match w[0] {
                "property" => p.prop = w[1].to_string(),
                "seed" => p.seed = num(1)?,
                "cfg" => { p.cfg.insert(w[1].to_string(), num(2)?); }
                "step" => {
                    let ops = ops_of(&p.prop).ok_or(format!("unknown property {}", p.prop))?;
                    let op = ops.iter().position(|o| *o == w[2]).ok_or(format!("unknown op {}", w[2]))?;
                    p.steps.push(Step { actor: num(1)? as u8, op: op as u8, a: num(3)?, b: num(4)?, c: num(5)? });
                }
                _ => return Err(format!("bad line {}", l)),
            }
        }
        Ok(p)
    }
}

/// A property violation found by an oracle. `class` identifies the kind of
/// failure (kept fixed while minimising), `msg` the details.
#[derive(Clone, Debug)]
pub struct Violation { pub class: String, pub msg: String, pub step: usize }

pub type R<T> = Result<T, Violation>;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub counts: BTreeMap<&'static str, u64>,  // faults fired, probes hit, oracle comparisons
    pub nontrivial: bool,
}

pub struct Ctx {
    pub step: usize,
    pub hash: u64,
    pub verbose: bool,
    pub log: Vec<String>,
    pub states: HashSet<u64>,
    pub stats: Stats,
}

impl Ctx {
    pub fn new(verbose: bool) -> Ctx {
        Ctx { step: 0, hash: 0x5eed, verbose, log: vec![], states: HashSet::new(), stats: Stats::default() }
    }
    pub fn ev(&mut self, s: &str) {
        self.hash = mix(self.hash, crate::rng::hash_str(s));
        if self.verbose { self.log.push(format!("[{}] {}", self.step, s)); }
    }
    pub fn evh(&mut self, tag: &str, h: u64) {
        self.hash = mix(self.hash, mix(crate::rng::hash_str(tag), h));
        if self.verbose { self.log.push(format!("[{}] {} #{:016x}", self.step, tag, h)); }
    }
    pub fn count(&mut self, k: &'static str) { *self.stats.counts.entry(k).or_insert(0) += 1; }
    pub fn state(&mut self, h: u64) { self.states.insert(h); }
    pub fn fail<T>(&self, class: &str, msg: String) -> R<T> {
        Err(Violation { class: class.to_string(), msg, step: self.step })
    }
    pub fn check(&mut self, ok: bool, class: &str, msg: impl FnOnce() -> String) -> R<()> {
        self.count("oracle:comparisons");
        if ok { Ok(()) } else { self.fail(class, msg()) }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, class: &str, got: &T, want: &T) -> R<()> {
        self.count("oracle:comparisons");
        if got == want { Ok(()) } else { self.fail(class, format!("got {:?}, reference says {:?}", got, want)) }
    }
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- fault points

/// Payload of a panic the simulator injected.
pub struct Injected(pub &'static str);

#[derive(Default)]
pub struct Faults {
    /// remaining user-code calls before the armed fault fires, per site mask
    pub armed: Option<(u32, u64)>,
    pub fired: Option<&'static str>,
    pub calls: u64,
    /// calls per site: callback, clone, hash, eq, meta
    pub sites: [u64; 5],
    pub elem_calls: u64,
    pub branch_calls: u64,
    pub degenerate_hash: bool,
    pub suspended: u32,
}

thread_local! {
    pub static FAULTS: RefCell<Faults> = RefCell::new(Faults::default());
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

pub const SITE_CALLBACK: u32 = 1;
pub const SITE_CLONE: u32 = 2;
pub const SITE_HASH: u32 = 4;
pub const SITE_EQ: u32 = 8;
pub const SITE_META: u32 = 16;

/// A place where the simulator may interrupt the system: every call the
/// library makes into user code goes through one.
pub fn fault_point(site: u32, name: &'static str) {
    let fire = FAULTS.with(|f| {
        let mut f = match f.try_borrow_mut() { Ok(f) => f, Err(_) => return false };
        f.calls += 1;
        f.sites[(site.trailing_zeros() as usize).min(4)] += 1;
        if f.suspended > 0 { return false; }
        match f.armed {
            Some((mask, n)) if mask & site != 0 => {
                if n == 0 { f.armed = None; f.fired = Some(name); true }
                else { f.armed = Some((mask, n - 1)); false }
            }
            _ => false,
        }
    });
    if fire && !std::thread::panicking() { std::panic::panic_any(Injected(name)); }
}

#[allow(dead_code)]
pub fn site_calls() -> [u64; 5] { FAULTS.with(|f| f.borrow().sites) }
/// whether faults are suspended (used by the evaluation simulator)
#[allow(dead_code)]
pub fn is_quiet() -> bool { FAULTS.with(|f| f.try_borrow().map(|f| f.suspended > 0).unwrap_or(true)) }
/// how many calls a fault lets pass: mostly a few, sometimes many
pub fn countdown(c: u64) -> u64 { match c % 4 { 0 => c / 4, 1 => c / 4 % 60, _ => c / 4 % 12 } }
pub fn arm(mask: u32, after: u64) { FAULTS.with(|f| { let mut f = f.borrow_mut(); f.armed = Some((mask, after)); f.fired = None; }) }
pub fn disarm() -> Option<&'static str> { FAULTS.with(|f| { let mut f = f.borrow_mut(); f.armed = None; f.fired.take() }) }
/// run oracle code with injection off
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    struct G; impl Drop for G { fn drop(&mut self) { FAULTS.with(|f| f.borrow_mut().suspended -= 1) } }
    FAULTS.with(|f| f.borrow_mut().suspended += 1);
    let _g = G;
    f()
}
pub fn set_degenerate(b: bool) { FAULTS.with(|f| f.borrow_mut().degenerate_hash = b) }
pub fn degenerate() -> bool { FAULTS.with(|f| f.try_borrow().map(|f| f.degenerate_hash).unwrap_or(false)) }

pub enum Caught<T> { Ok(T), Injected(&'static str), Panic(String) }

/// Run an operation of the system; separate injected interruptions from real panics.
pub fn guard<T>(f: impl FnOnce() -> T) -> Caught<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Caught::Ok(t),
        Err(p) => match p.downcast::<Injected>() {
            Ok(i) => Caught::Injected(i.0),
            Err(_) => Caught::Panic(PANIC_MSG.with(|m| m.borrow().clone())),
        },
    }
}

/// Run an operation that must not fail (no fault armed).
pub fn must<T>(ctx: &Ctx, what: &str, f: impl FnOnce() -> T) -> R<T> {
    match guard(f) {
        Caught::Ok(t) => Ok(t),
        Caught::Injected(s) => ctx.fail("stray-injection", format!("{}: injected {}", what, s)),
        Caught::Panic(m) => ctx.fail(&format!("panic:{}", what), format!("{} panicked: {}", what, m)),
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "<non-string panic>".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_MSG.try_with(|m| if let Ok(mut m) = m.try_borrow_mut() {
            *m = format!("{} at {}", s.chars().take(300).collect::<String>(), loc);
        });
    }));
}

// ---------------------------------------------------------------- scenarios

pub trait Scenario: Sync + Send {
    fn id(&self) -> &'static str;
    fn ops(&self) -> &'static [&'static str];
    fn gen(&self, rng: &mut Rng, tier: Tier) -> (BTreeMap<String, u64>, Vec<Step>);
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> R<()>;
    /// runs of a quick / thorough check
    fn runs(&self, tier: Tier) -> u64;
    fn real(&self) -> &'static str { "all of iodyn (unmodified, /repo working tree) and the adapton engine it runs on" }
    fn stub(&self) -> &'static str { "none" }
    fn time(&self) -> &'static str { "the code under test reads no clock; simulated time is the step counter, one unit per client operation or fault" }
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> { vec![] }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Outcome { pub violation: Option<Violation>, pub ctx: Ctx }

pub fn plan_for(sc: &dyn Scenario, master: u64, idx: u64, tier: Tier) -> Plan {
    let seed = mix(mix(master, crate::rng::hash_str(sc.id())), idx);
    let mut rng = Rng::new(seed);
    let (cfg, steps) = sc.gen(&mut rng, tier);
    Plan { prop: sc.id().to_string(), seed, cfg, steps }
}

thread_local! { static RUN_SEED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// the seed of the run this thread executes
#[allow(dead_code)]
pub fn run_seed() -> u64 { RUN_SEED.with(|s| s.get()) }

/// Execute one plan on a fresh thread: fresh engine, fresh fault state, and
/// process entropy derived from the plan's seed.
pub fn execute(sc: &'static dyn Scenario, plan: &Plan, verbose: bool) -> Outcome {
    let plan = plan.clone();
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        crate::entropy::seed_thread(plan.seed);
        RUN_SEED.with(|s| s.set(plan.seed));
        let mut ctx = Ctx::new(verbose);
        let r = catch_unwind(AssertUnwindSafe(|| sc.exec(&plan, &mut ctx)));
        let violation = match r {
            Ok(Ok(())) => None,
            Ok(Err(v)) => Some(v),
            Err(p) => {
                let inj = p.downcast_ref::<Injected>().is_some();
                let m = PANIC_MSG.with(|m| m.borrow().clone());
                Some(Violation {
                    class: if inj { "stray-injection".into() } else { "panic".into() },
                    msg: m, step: ctx.step })
            }
        };
        if let Some(v) = &violation { let s = format!("VIOLATION {} {}", v.class, v.msg); ctx.ev(&s); }
        Outcome { violation, ctx }
    }).expect("spawn");
    match h.join() { Ok(o) => o, Err(e) => resume_unwind(e) }
}
