//! Several independent worlds on one engine, each in a namespace of its own
//! (or at the root, or nested inside another world's namespace), all counting
//! their names from one: equal names everywhere, interleaved by the scheduler.
use crate::core::*;
use crate::rng::{mix, Rng};
use crate::subs::*;
use crate::{cursorworld, mapworld, razworld, stackworld};
use adapton::engine::{name_of_usize, name_pair, ns, Name};
use std::collections::BTreeMap;
use std::sync::OnceLock;

const FAMS: &[(&str, &[&str])] = &[("raz", razworld::OPS), ("stack", stackworld::OPS), ("cursor", cursorworld::OPS), ("map", mapworld::OPS)];
const ENGINE: u8 = 0; // op 0 restarts the engine under everybody

fn ops() -> &'static [&'static str] {
    static O: OnceLock<Vec<&'static str>> = OnceLock::new();
    O.get_or_init(|| {
        let mut v = vec!["engine_restart"];
        for (f, ops) in FAMS { for o in *ops { v.push(Box::leak(format!("{}:{}", f, o).into_boxed_str())); } }
        v
    })
}
fn offset(fam: usize) -> usize { 1 + FAMS[..fam].iter().map(|f| f.1.len()).sum::<usize>() }
fn fam_of(id: &str) -> usize { FAMS.iter().position(|f| id.contains(f.0)).expect("family") }

pub struct MultiScenario { pub id: &'static str, pub parts: &'static [&'static dyn Scenario], pub restarts: bool, pub runs: (u64, u64), pub rule: &'static str }

/// where a world lives: 0 the root, otherwise inside world `outer` or at top level
fn path(plan: &Plan, k: u64) -> Vec<Name> {
    let mut p = match plan.cfg(&format!("w{}.ns", k)) { 0 => return vec![], 1 => vec![], o => path(plan, (o - 2) % k.max(1)) };
    let n = plan.cfg(&format!("w{}.nsname", k));
    // either out of everybody's way, or one of the names the worlds use inside
    p.push(if n == 0 { name_pair(name_of_usize(7_000_000), name_of_usize(k as usize)) } else { crate::names::user_name(n * 100 + k) });
    p
}
fn within<T>(p: &[Name], f: &mut dyn FnMut() -> T) -> T {
    match p.split_first() { None => f(), Some((n, rest)) => ns(n.clone(), || within(rest, f)) }
}

impl Scenario for MultiScenario {
    fn id(&self) -> &'static str { self.id }
    fn ops(&self) -> &'static [&'static str] { ops() }
    fn runs(&self, t: Tier) -> u64 { if t == Tier::Quick { self.runs.0 } else { self.runs.1 } }
    fn rule(&self) -> &'static str { self.rule }
    fn gen(&self, rng: &mut Rng, tier: Tier) -> (BTreeMap<String, u64>, Vec<Step>) {
        let mut c: BTreeMap<String, u64> = BTreeMap::new();
        let k = *rng.pick(&[2u64, 2, 2, 3, 4]);
        c.insert("worlds".into(), k);
        let root = if rng.chance(1, 2) { rng.below(k) } else { k };
        let mut queues: Vec<Vec<Step>> = vec![];
        let mut subs: Vec<(usize, BTreeMap<String, u64>, Vec<Step>)> = vec![];
        for w in 0..k {
            let twin = w > 0 && rng.chance(3, 5);
            let (fam, mut cfg, mut steps) = if twin {
                // the same program as another world, differing in one thing
                let (f, mut cfg, mut steps) = subs[rng.below(w) as usize].clone();
                match rng.below(4) {
                    0 => { cfg.insert("levels".into(), *rng.pick(razworld::LEVEL_MODES)); }
                    1 => for s in steps.iter_mut() { if rng.chance(1, 4) { s.b = rng.below(1000); s.c = rng.below(1000); } },
                    2 => { let n = steps.len(); for _ in 0..1 + n / 8 { if steps.len() > 2 { let at = rng.below(steps.len() as u64) as usize; steps.remove(at); } } }
                    _ => { cfg.insert("meta".into(), rng.below(4)); }
                }
                (f, cfg, steps)
            } else {
                let part = *rng.pick(self.parts);
                let (cfg, steps) = part.gen(rng, tier);
                (fam_of(part.id()), cfg, steps)
            };
            let max = if tier == Tier::Quick { 90 } else { 200 } / k as usize;
            steps.truncate(max);
            cfg.remove("engine");
            subs.push((fam, cfg.clone(), steps.clone()));
            c.insert(format!("w{}.fam", w), fam as u64);
            c.insert(format!("w{}.ns", w), if w == root { 0 } else if w > 0 && rng.chance(1, 4) { 2 + rng.below(w) } else { 1 });
            c.insert(format!("w{}.nsname", w), rng.below(2));
            for (n, v) in cfg { c.insert(format!("w{}.{}", w, n), v); }
            for s in steps.iter_mut() { s.actor = s.actor % 8 + 8 * w as u8; s.op += offset(fam) as u8; }
            steps.reverse();
            queues.push(steps);
        }
        c.insert("engine".into(), *rng.pick(&[1, 1, 1, 0]));
        // the schedule: runs of one world between switches, short or long
        let stay = *rng.pick(&[0u64, 2, 6]);
        let mut out = vec![];
        let mut cur = 0usize;
        while queues.iter().any(|q| !q.is_empty()) {
            if stay == 0 || rng.chance(1, stay + 1) { cur = rng.below(k) as usize; }
            match queues[cur].pop() { Some(s) => out.push(s), None => { cur = rng.below(k) as usize; continue; } }
            if self.restarts && rng.chance(1, 25) { out.push(Step { actor: 0, op: ENGINE, a: 0, b: 0, c: 0 }); }
        }
        (c, out)
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> R<()> {
        share_engine(false);
        let dcg = plan.cfg("engine") == 1;
        set_degenerate(plan.cfg("w0.degenerate") == 1);
        start_engine(dcg);
        share_engine(true);
        let k = plan.cfg("worlds").max(1);
        let mut ws: Vec<(usize, Vec<Name>, Box<dyn Sub>)> = vec![];
        for w in 0..k {
            let fam = plan.cfg(&format!("w{}.fam", w)) as usize % FAMS.len();
            let pre = format!("w{}.", w);
            let mut cfg: BTreeMap<String, u64> = plan.cfg.iter().filter(|(n, _)| n.starts_with(&pre)).map(|(n, v)| (n[pre.len()..].to_string(), *v)).collect();
            cfg.insert("engine".into(), dcg as u64);
            let sp = Plan { prop: plan.prop.clone(), seed: mix(plan.seed, 0x77), cfg, steps: vec![] };
            let sub = match fam { 0 => razworld::sub(&sp, true), 1 => stackworld::sub(&sp), 2 => cursorworld::sub(&sp), _ => mapworld::sub(&sp) };
            let p = path(plan, w);
            ws.push((fam, p, sub));
        }
        for (_, p, w) in ws.iter_mut() { within(p, &mut || w.start()); }
        for (i, s) in plan.steps.iter().enumerate() {
            ctx.step = i;
            ctx.stats.steps += 1;
            ctx.ev(&format!("actor {} {} {} {} {}", s.actor, ops()[s.op as usize % ops().len()], s.a, s.b, s.c));
            if s.op == ENGINE {
                share_engine(false);
                start_engine(dcg);
                share_engine(true);
                for (_, p, w) in ws.iter_mut() { within(p, &mut || w.restart(ctx))?; }
                continue;
            }
            let at = (s.actor as u64 / 8 % k) as usize;
            let (fam, p, w) = &mut ws[at];
            let n = FAMS[*fam].1.len();
            let local = Step { actor: s.actor % 8, op: ((s.op as usize + n * 8 - offset(*fam)) % n) as u8, ..s.clone() };
            within(p, &mut || w.step(ctx, &local))?;
            within(p, &mut || w.bystander(ctx, &local))?;
            let h = hash_of(&ws.iter().map(|w| w.2.state()).collect::<Vec<_>>());
            ctx.state(h);
            ctx.evh("state", h);
            if mix(plan.seed, i as u64) % 4 == 0 {
                // nobody else moved
                let o = (mix(plan.seed, i as u64 ^ 0xabc) % k) as usize;
                let (_, p, w) = &mut ws[o];
                within(p, &mut || w.bystander(ctx, &local))?;
            }
        }
        ctx.step = plan.steps.len();
        for (_, p, w) in ws.iter_mut() { within(p, &mut || w.finish(ctx))?; }
        ctx.count("probe:worlds sharing an engine");
        ctx.stats.nontrivial = plan.steps.len() >= 6 && ctx.stats.counts.get("oracle:comparisons").copied().unwrap_or(0) >= 10;
        share_engine(false);
        set_degenerate(false);
        Ok(())
    }
}
