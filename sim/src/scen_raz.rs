//! Scenarios over the zipper world. Each property gets its own workload mix,
//! configuration space and oracle selection.
use crate::core::*;
use crate::razworld::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

pub struct RazScenario {
    pub id: &'static str,
    pub weights: &'static [(usize, u64)],
    pub engines: &'static [u64],
    pub names: &'static [u64],
    pub metas: &'static [u64],
    pub folds: u64,
    pub canon: bool,
    pub bystanders: bool,
    pub docs: (u64, u64),
    pub maxdocs: u64,
    pub runs: (u64, u64),
    pub rule: &'static str,
}

impl Scenario for RazScenario {
    fn id(&self) -> &'static str { self.id }
    fn ops(&self) -> &'static [&'static str] { OPS }
    fn runs(&self, t: Tier) -> u64 { if t == Tier::Quick { self.runs.0 } else { self.runs.1 } }
    fn rule(&self) -> &'static str { self.rule }
    fn gen(&self, rng: &mut Rng, tier: Tier) -> (BTreeMap<String, u64>, Vec<Step>) {
        let mut c = BTreeMap::new();
        let mut set = |k: &str, v: u64| { c.insert(k.to_string(), v); };
        set("engine", *rng.pick(self.engines));
        set("names", *rng.pick(self.names));
        set("meta", *rng.pick(self.metas));
        set("levels", *rng.pick(LEVEL_MODES));
        set("docs", rng.range(self.docs.0, self.docs.1));
        set("maxdocs", self.maxdocs);
        let small = *rng.pick(&[12, 40, 40, 90]);
        let (mut burst, mut deep, mut maxlen) = crate::swarm::sizes(rng, small);
        let joins = self.weights.iter().any(|w| w.0 == JOIN) && self.names.contains(&0);
        if joins && rng.chance(1, 2000) {
            burst = 1; deep = 1; maxlen = 150_000;
            set("names", 0); set("double", rng.range(4, 12));
            if rng.chance(1, 2) { if let Some(m) = self.metas.iter().find(|m| **m == 0) { set("meta", *m); } }
        }
        set("burst", burst); set("deep", deep); set("maxlen", maxlen);
        // swarm: a random subset of the computations
        let mut folds = 0;
        if self.folds != 0 {
            for k in 0..NFOLDS { if self.folds & (1 << k) != 0 && rng.chance(1, 3) { folds |= 1 << k; } }
            if folds == 0 { loop { let k = rng.below(NFOLDS); if self.folds & (1 << k) != 0 { folds |= 1 << k; break; } } }
        }
        set("folds", folds);
        set("canon", self.canon as u64);
        set("share_ns", rng.below(2));
        set("degenerate", (rng.below(12) == 0) as u64);
        let big = burst > 1 || deep > 1 || maxlen > 100_000;
        if deep > 1 { set("levels", *rng.pick(DEEP_LEVEL_MODES)); }
        let mut weights = self.weights.to_vec();
        if maxlen > 100_000 { for w in &mut weights { if w.0 == JOIN { w.1 = 12; } } }
        let steps = crate::swarm::steps(rng, tier, OPS.len(), &weights, if big { 30 } else { 70 }, if big { 45 } else { 160 });
        (c, steps)
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> R<()> {
        let r = exec_by_meta(plan, ctx, self.bystanders);
        ctx.stats.nontrivial = plan.steps.len() >= 6 && ctx.stats.counts.get("oracle:comparisons").copied().unwrap_or(0) >= 10;
        r
    }
}
