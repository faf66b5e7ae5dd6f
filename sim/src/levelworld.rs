//! Generated levels: sequences whose archive points take their level from the
//! library's generator, on a simulated source of randomness, edited without
//! looking at the levels. The trees have to stay shallow and the edits cheap.
use crate::core::*;
use crate::el::*;
use crate::rng::{mix, Rng};
use crate::subs::{drive, Sub};
use adapton::engine::*;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::level_tree::gen_branch_level;
use iodyn::memo::MemoFrom;
use iodyn::raz::{Raz, RazTree};
use iodyn::trees::NegBin;
use rand::Rng as _;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

pub const OPS: &[&str] = &["insert", "delete", "rewrite", "from_stack", "copy", "draw", "thread", "walk"];
const INSERT: usize = 0; const DELETE: usize = 1; const REWRITE: usize = 2; const FROM_STACK: usize = 3; const COPY: usize = 4; const DRAW: usize = 5; const THREAD: usize = 6; const WALK: usize = 7;

/// a fair source
struct Fair(Rng, Rng);
impl rand::Rng for Fair {
    fn next_u32(&mut self) -> u32 { (self.1.next() >> 11) as u32 }
    fn next_u64(&mut self) -> u64 { self.0.next() }
}

type RT = RazTree<El, UMeta>;
/// what a reader sees: (longest path, archive points, longest section, elements)
type Shape = (u64, u64, u64, u64);
#[derive(Clone)]
struct Doc { t: RT, n: u64, sh: Shape }
struct World {
    docs: Vec<Doc>, dcg: bool, named: u64, source: u64, fair: Fair, drawn: Drawn, seen: HashSet<Vec<u32>>,
    next_name: usize, next_el: u32, scratch: usize, section: u64, batch: u64, maxlen: u64, maxdocs: usize, seed: u64, threads: u64, entropy: u64,
}
fn lg(n: u64) -> u64 { 64 - (n + 1).leading_zeros() as u64 }
/// generous: the expected longest path is about 3 log2 n
fn deepest(branches: u64) -> u64 { 5 * lg(branches) + 25 }

/// what was drawn, counted
#[derive(Clone)]
struct Drawn { n: u64, hist: [u64; 41], last: [u32; 4], equal: [u64; 4], pair: [[[u32; 11]; 11]; 4],
    cur: u64, prev: u64, blocks: u64, agree: [u64; 64], ring: [u8; 48], windows: HashSet<u64>, again: Option<u64> }
impl Drawn {
    fn new() -> Drawn { Drawn { n: 0, hist: [0; 41], last: [0; 4], equal: [0; 4], pair: [[[0; 11]; 11]; 4], cur: 0, prev: 0, blocks: 0, agree: [0; 64], ring: [0; 48], windows: HashSet::new(), again: None } }
    fn push(&mut self, l: u32) {
        self.hist[if l <= 40 { l as usize } else { 0 }] += 1;
        for lag in 1..=4u64 {
            if self.n < lag { break; }
            let x = self.last[((self.n - lag) % 4) as usize];
            if x == l { self.equal[lag as usize - 1] += 1; }
            // 0 stands for every level above 10
            self.pair[lag as usize - 1][if x <= 10 { x as usize } else { 0 }][if l <= 10 { l as usize } else { 0 }] += 1;
        }
        self.last[(self.n % 4) as usize] = l;
        // is it level one? compared with the draws up to 64 before it
        self.cur |= ((l == 1) as u64) << (self.n % 64);
        if self.n % 64 == 63 {
            if self.n >= 64 {
                for lag in 1..=64 {
                    let before = if lag == 64 { self.prev } else { self.cur << lag | self.prev >> (64 - lag) };
                    self.agree[lag - 1] += (!(self.cur ^ before)).count_ones() as u64;
                }
                self.blocks += 1;
            }
            self.prev = self.cur; self.cur = 0;
        }
        // after a high level, the 48 draws up to here: no such window ever comes again
        self.ring[(self.n % 48) as usize] = l.min(255) as u8;
        self.n += 1;
        if l >= 6 && self.n >= 48 {
            let at = (self.n % 48) as usize;
            let h = self.ring[at..].iter().chain(&self.ring[..at]).fold(7u64, |a, x| mix(a, *x as u64));
            if !self.windows.insert(h) && self.again.is_none() { self.again = Some(self.n); }
        }
    }
    /// do these look like independent draws of 1 + (number of heads before the first tail)?
    fn plausible(&self) -> Result<(), String> {
        let n = self.n as f64;
        for k in 1..=40usize {
            let (got, want) = (self.hist[k] as f64, n / 2f64.powi(k as i32));
            if (got - want).abs() > 8.0 * want.sqrt() + 8.0 { return Err(format!("level {} was drawn {} times in {} draws, expected {:.1}", k, got, n, want)); }
        }
        if self.hist[0] > 3 { return Err("levels above 40 are drawn again and again".into()); }
        for lag in 1..=4usize {
            let m = n - lag as f64;
            // equal neighbours: sum of 4^-k = 1/3
            let (want, got) = (m / 3.0, self.equal[lag - 1] as f64);
            if m > 0.0 && (got - want).abs() > 12.0 * want.sqrt() + 10.0 { return Err(format!("draws {} apart are equal {} times in {}, expected {:.1}", lag, got, m, want)); }
            let p = |k: usize| if k == 0 { 1.0 / 1024.0 } else { 1.0 / 2f64.powi(k as i32) };
            for x in 0..11 { for l in 0..11 {
                let (want, got) = (m * p(x) * p(l), self.pair[lag - 1][x][l] as f64);
                if m > 0.0 && (got - want).abs() > 10.0 * want.sqrt() + 10.0 { return Err(format!("level {} follows level {} at distance {} {} times in {} (0: above 10), expected {:.1}", l, x, lag, got, m, want)); }
            } }
        }
        let m = (self.blocks * 64) as f64;
        for lag in 0..64 {
            let got = self.agree[lag] as f64;
            if m > 0.0 && (got - m / 2.0).abs() > 5.0 * m.sqrt() + 20.0 { return Err(format!("whether level 1 is drawn agrees {} times in {} with the draw {} before", got, m, lag + 1)); }
        }
        if let Some(at) = self.again { return Err(format!("the 48 levels up to draw {} had all been drawn before, in that order", at)); }
        Ok(())
    }
}

impl World {
    fn new(plan: &Plan) -> World {
        World { docs: vec![], dcg: plan.cfg("engine") == 1, named: plan.cfg("names"), source: plan.cfg("source"),
            fair: Fair(Rng::new(mix(plan.seed, 1)), Rng::new(mix(plan.seed, 2))), drawn: Drawn::new(), seen: HashSet::new(), next_name: 1, next_el: 1, scratch: 0,
            section: plan.cfg("section").max(1), batch: plan.cfg("batch").max(1), maxlen: plan.cfg("maxlen").max(50), maxdocs: plan.cfg("maxdocs").max(1) as usize,
            seed: plan.seed, threads: 0, entropy: plan.cfg("entropy") }
    }
    fn draw(&mut self) -> u32 {
        let l = match self.source { 0 => iodyn::inc_level(), 1 => gen_branch_level(&mut self.fair), _ => self.fair.gen::<NegBin>().0 as u32 };
        self.drawn.push(l);
        l
    }
    fn level(&mut self, ctx: &mut Ctx) -> R<u32> {
        let l = self.draw();
        ctx.check(l >= 1, "level-zero", || "the generator drew level 0, which leaves use".into())?;
        Ok(l)
    }
    fn name(&mut self) -> Option<Name> {
        self.next_name += 1;
        match self.named { 0 => None, 1 => Some(crate::names::user_name(self.next_name as u64)), _ => if self.next_name % 3 == 0 { None } else { Some(crate::names::user_name(self.next_name as u64)) } }
    }
    fn el(&mut self) -> El { self.next_el += 1; El(self.next_el) }
    fn pick(&self, a: u64) -> usize { (a % self.docs.len() as u64) as usize }
    fn space(&mut self) -> Name { self.scratch += 1; name_pair(name_of_str("shape"), name_of_usize(self.scratch)) }

    fn shape(&mut self, ctx: &mut Ctx, i: usize) -> R<Shape> {
        let t = self.docs[i].t.clone();
        let w = self.space();
        let s: Option<Shape> = must(ctx, "fold", || ns(w, || t.fold_up_gauged(
            Rc::new(|v: &Vec<El>| (0u64, 0u64, v.len() as u64, v.len() as u64)),
            Rc::new(|l: Shape, _: u32, _: Option<Name>, r: Shape| (1 + l.0.max(r.0), 1 + l.1 + r.1, l.2.max(r.2), l.3 + r.3)))))?;
        Ok(s.unwrap_or((0, 0, 0, 0)))
    }
    fn look(&mut self, ctx: &mut Ctx, i: usize) -> R<Shape> {
        let s = self.shape(ctx, i)?;
        ctx.eq("length", &s.3, &self.docs[i].n)?;
        ctx.check(s.0 <= deepest(s.1), "depth", || format!("a tree of {} archive points is {} deep", s.1, s.0))?;
        if s.1 >= 256 { ctx.count("probe:256 or more archive points"); }
        if s.1 >= 2048 { ctx.count("probe:2048 or more archive points"); }
        self.docs[i].sh = s;
        Ok(s)
    }
    fn cheap(ctx: &mut Ctx, what: &'static str, before: [u64; 5], meta: u64, clones: u64) -> R<()> {
        let now = site_calls();
        let (m, c) = (now[4] - before[4], now[1] - before[1]);
        ctx.check(m <= meta, "cost", || format!("{} computed metadata {} times, bound {}", what, m, meta))?;
        ctx.check(c <= clones, "cost", || format!("{} copied {} elements, bound {}", what, c, clones))
    }
    /// focus somewhere, change something there, close
    fn edit(&mut self, ctx: &mut Ctx, i: usize, s: &Step, op: usize) -> R<()> {
        let sh = self.docs[i].sh;
        let d = deepest(sh.1);
        let n = self.docs[i].n;
        let pos = match s.b % 8 { 0 => 0, 1 => n, _ => mix(mix(s.b, s.c), self.seed) % (n + 1) };
        let t = if self.persistent() { self.docs[i].t.clone() } else { std::mem::replace(&mut self.docs[i].t, RazTree::empty()) };
        let c0 = site_calls();
        let z = must(ctx, "focus", || t.focus(UIdx(pos as usize)))?;
        let mut z: Raz<El, UMeta> = match z { Some(z) => z, None => return ctx.fail("focus", format!("no focus at {} of {}", pos, n)) };
        World::cheap(ctx, "focus", c0, d + 10, 4 * sh.2 + 10)?;
        let mut len = n;
        let (mut sections, mut moved) = (0u64, 0u64);
        let left = s.c % 2 == 0;
        let c0 = site_calls();
        if op == DELETE || op == REWRITE {
            let k = 1 + mix(s.b, s.c ^ 5) % (self.batch * self.section).max(2);
            for _ in 0..k {
                let e = must(ctx, "pop", || if left { z.pop_left() } else { z.pop_right() })?;
                if e.is_some() { len -= 1; moved += 1; }
            }
        }
        if op == INSERT || op == REWRITE {
            let k = 1 + mix(s.c, s.b ^ 9) % self.batch;
            for _ in 0..k {
                if len >= self.maxlen { break; }
                for _ in 0..1 + mix(self.next_el as u64, s.b) % self.section {
                    let e = self.el();
                    must(ctx, "push", || { if left { z.push_left(e); } else { z.push_right(e); } })?;
                    len += 1; moved += 1;
                }
                let (l, nm) = (self.level(ctx)?, self.name());
                must(ctx, "archive", || if left { z.archive_left(l, nm) } else { z.archive_right(l, nm) })?;
                sections += 1;
            }
        }
        // a pop out of an exhausted section opens the next one of the tree
        World::cheap(ctx, "editing", c0, (moved + 4) * d, 4 * moved * (sh.2 + 1).min(64) + 12 * sh.2 + 20)?;
        let c0 = site_calls();
        let t = must(ctx, "unfocus", || z.unfocus())?;
        World::cheap(ctx, "unfocus", c0, (sections + 6) * d + 20, 10 * (moved + 4 * sh.2) + 50)?;
        self.docs[i].t = t;
        self.docs[i].n = len;
        self.look(ctx, i)?;
        Ok(())
    }
    fn persistent(&self) -> bool { self.named == 0 || !self.dcg }
}

impl Sub for World {
    fn start(&mut self) {
        crate::entropy::set_mode(self.entropy);
        crate::subs::start_engine(self.dcg);
        self.docs.push(Doc { t: RazTree::empty(), n: 0, sh: (0, 0, 0, 0) });
    }
    fn step(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        let i = self.pick(s.a);
        match s.op as usize % OPS.len() {
            op @ INSERT | op @ DELETE | op @ REWRITE => self.edit(ctx, i, s, op)?,
            FROM_STACK => {
                let mut st: AStack<El, u32> = AStack::new();
                let made = self.space();
                let (mut n, k) = (0u64, 1 + mix(s.b, s.c) % (4 * self.batch));
                for j in 0..k {
                    for _ in 0..1 + mix(s.c, j) % self.section { st.push(self.el()); n += 1; }
                    if j + 1 < k { let (l, nm) = (self.level(ctx)?, self.name()); ns(made.clone(), || st.archive(nm, l)); }
                }
                let w = self.space();
                let c0 = site_calls();
                let t: RT = must(ctx, "convert", || ns(w, || if s.a % 2 == 0 { RazTree::memo_from(&AtTail(st)) } else { RazTree::memo_from(&AtHead(st)) }))?;
                World::cheap(ctx, "conversion", c0, 8 * k + 20, 80 * n + 20)?;
                let d = Doc { t, n, sh: (0, 0, 0, 0) };
                if self.docs.len() < self.maxdocs { self.docs.push(d) } else { self.docs[i] = d }
                for j in [i, self.docs.len() - 1] { self.look(ctx, j)?; }
            }
            COPY => if self.persistent() {
                let d = self.docs[i].clone();
                if self.docs.len() < self.maxdocs { self.docs.push(d) } else { let j = self.pick(s.b); self.docs[j] = d }
            },
            DRAW => {
                // mostly a few, now and then a great many
                let k = match s.c % 500 { 0 if s.b % 2 == 0 => 12_000_000, 1..=10 => 600_000, _ => s.b * (1 + s.c % 6) / 4 };
                for _ in 0..k { let l = self.draw(); if l == 0 { return ctx.fail("level-zero", "the generator drew level 0, which leaves use".into()); } }
                if k >= 600_000 { ctx.count("probe:many levels drawn"); }
                let r = self.drawn.plausible();
                ctx.check(r.is_ok(), "distribution", || r.unwrap_err())?;
            }
            THREAD => {
                // another client of the process draws on its own thread, with whatever entropy the process hands out there
                if self.source != 0 { return Ok(()); }
                self.threads += 1;
                let (seed, mode) = (mix(self.seed, 1000 + self.threads), self.entropy);
                let got = std::thread::spawn(move || { crate::entropy::seed_thread(seed); crate::entropy::set_mode(mode); let v: Vec<u32> = (0..80).map(|_| iodyn::inc_level()).collect(); (v, crate::entropy::faulted()) }).join();
                let (v, f) = match got { Ok(v) => v, Err(_) => return ctx.fail("panic:inc_level", "inc_level panicked on another thread".into()) };
                for _ in 0..f.0 { ctx.count("fault:entropy call interrupted"); }
                for _ in 0..f.1 { ctx.count("fault:entropy short read"); }
                ctx.check(self.seen.insert(v.clone()), "thread-repeats", || "two threads drew the same 80 levels".into())?;
                ctx.count("probe:levels drawn on another thread");
                for l in v { self.drawn.push(l); }
            }
            _ => {
                // many positions are reached, each cheaply
                let sh = self.docs[i].sh;
                for j in 0..6 {
                    let pos = mix(mix(s.b, s.c), j) % (self.docs[i].n + 1);
                    let t = self.docs[i].t.clone();
                    let c0 = site_calls();
                    let ok = must(ctx, "focus", || t.focus(UIdx(pos as usize)).is_some())?;
                    ctx.check(ok, "focus", || format!("no focus at {}", pos))?;
                    World::cheap(ctx, "focus", c0, deepest(sh.1) + 10, 4 * sh.2 + 10)?;
                }
            }
        }
        Ok(())
    }
    fn state(&self) -> u64 { hash_of(&(self.docs.iter().map(|d| (d.n, d.t.meta().sum)).collect::<Vec<_>>(), self.drawn.n)) }
    fn bystander(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        if self.docs.len() > 1 && s.c % 4 == 0 { let j = self.pick(s.a + 1 + s.c); self.look(ctx, j)?; }
        Ok(())
    }
    fn restart(&mut self, _ctx: &mut Ctx) -> R<()> { Ok(()) }
    fn finish(&mut self, ctx: &mut Ctx) -> R<()> {
        for i in 0..self.docs.len() { self.look(ctx, i)?; }
        if self.source == 0 {
            let f = crate::entropy::faulted();
            for _ in 0..f.0 { ctx.count("fault:entropy call interrupted"); }
            for _ in 0..f.1 { ctx.count("fault:entropy short read"); }
        }
        let r = self.drawn.plausible();
        ctx.check(r.is_ok(), "distribution", || r.unwrap_err())
    }
}

pub struct LevelScenario { pub id: &'static str, pub engines: &'static [u64], pub runs: (u64, u64), pub rule: &'static str }
impl Scenario for LevelScenario {
    fn id(&self) -> &'static str { self.id }
    fn ops(&self) -> &'static [&'static str] { OPS }
    fn runs(&self, t: Tier) -> u64 { if t == Tier::Quick { self.runs.0 } else { self.runs.1 } }
    fn rule(&self) -> &'static str { self.rule }
    fn stub(&self) -> &'static str { "the kernel's entropy source (getrandom), replaced by a seeded one with interrupted calls and short reads" }
    fn gen(&self, rng: &mut Rng, tier: Tier) -> (BTreeMap<String, u64>, Vec<Step>) {
        let mut c = BTreeMap::new();
        let mut set = |k: &str, v: u64| { c.insert(k.to_string(), v); };
        set("engine", *rng.pick(self.engines));
        set("names", *rng.pick(&[0, 0, 1, 1, 2]));
        set("source", *rng.pick(&[0, 0, 1, 1, 2]));
        set("entropy", rng.below(4));
        set("section", *rng.pick(&[1, 1, 2, 5, 20]));
        let big = rng.below(16);
        set("batch", match big { 0 => 400, 1..=4 => 80, _ => *rng.pick(&[4, 12, 30]) });
        set("maxlen", match big { 0 => 6000, 1..=4 => 2500, _ => 1200 });
        set("maxdocs", rng.range(1, 3));
        let steps = crate::swarm::steps(rng, tier, OPS.len(), &[(INSERT, 12), (DELETE, 4), (REWRITE, 5), (FROM_STACK, 2), (COPY, 1), (DRAW, 2), (THREAD, 1), (WALK, 2)], 40, 90);
        (c, steps)
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> R<()> {
        drive(&mut World::new(plan), OPS, plan, ctx)?;
        ctx.stats.nontrivial = plan.steps.len() >= 6 && ctx.stats.counts.get("oracle:comparisons").copied().unwrap_or(0) >= 10;
        Ok(())
    }
}
