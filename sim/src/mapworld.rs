//! The map world: clients hold versions of skiplists that share one engine.
use crate::core::*;
use crate::subs::{drive, Sub};
use crate::el::El;
use crate::rng::{mix, Rng};
use crate::swarm;
use adapton::engine::*;
use adapton::macros::*;
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::stack::Stack;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

pub const OPS: &[&str] = &["put", "rem", "ext", "get", "read_all", "archive", "clone", "drop", "new", "burst", "look", "interrupt", "restart", "tpush", "tpull", "tally", "twin", "reset", "rebuild", "tedit"];
pub const PUT: usize = 0; pub const REM: usize = 1; pub const EXT: usize = 2; pub const GET: usize = 3; pub const ALL: usize = 4; pub const ARCH: usize = 5;
pub const CLONE: usize = 6; pub const DROP: usize = 7; pub const NEW: usize = 8; pub const BURST: usize = 9; pub const LOOK: usize = 10;
pub const INTERRUPT: usize = 11; pub const RESTART: usize = 12; pub const TPUSH: usize = 13; pub const TPULL: usize = 14; pub const TALLY: usize = 15;
pub const TWIN: usize = 16; pub const RESET: usize = 17; pub const REBUILD: usize = 18; pub const TEDIT: usize = 19;

/// A key whose hash the simulator chooses: keys with equal `h` collide completely.
#[derive(Debug)]
pub struct K { h: u64, id: u32 }
impl Clone for K { fn clone(&self) -> K { fault_point(SITE_CLONE, "element clone"); K { h: self.h, id: self.id } } }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { fault_point(SITE_EQ, "element eq"); self.h == o.h && self.id == o.id } }
impl Eq for K {}
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { fault_point(SITE_HASH, "element hash"); h.write_u64(self.h) } }

type SL = Skiplist<K, El>;
type M = BTreeMap<usize, u32>; // key index -> value
struct Doc { st: SL, mo: M, ns: u64, width: usize }
type List = Vec<(u64, u32)>; // (name, key index), bottom first

struct World {
    docs: Vec<Doc>, list: Stack<El>, lmo: List, keys: Vec<(u64, u32)>, next_name: u64, scratch: u64, dcg: bool, width: usize, maxdocs: usize, maxlen: usize, burst: u64, marathon: bool,
    pending: Option<(u32, u64)>, next_val: u32, spaces: u64, tally_mode: u64, group: usize, src: Vec<(usize, Option<u32>)>,
}
fn nm(k: u64) -> Name { if crate::core::run_seed() % 3 == 0 { crate::names::user_name(k) } else { name_pair(name_of_usize(9_000_000), name_of_usize(k as usize)) } }
fn space(k: u64) -> Name { name_pair(name_of_usize(9_100_000), name_of_usize(k as usize)) }
fn sip(h: u64) -> u64 { #[allow(deprecated)] let mut s = std::hash::SipHasher::new(); s.write_u64(h); s.finish() }

/// client computation: count how often each element occurs, with a skiplist as
/// accumulator, memoised at every name of the list
fn tally(l: Stack<El>, mut acc: Skiplist<El, El>) -> Skiplist<El, El> {
    match l.0 {
        None => acc,
        Some(h) => {
            fault_point(SITE_CALLBACK, "callback");
            let e = h.peek();
            let n = h.name().expect("named list");
            let rest = Stack(h.pull());
            let (n1, n2) = name_fork(n);
            acc.archive(n1);
            let c = acc.get(e.clone()).map(|c| c.0).unwrap_or(0);
            acc.put(e, El(c + 1));
            memo!(n2 =>> tally, l: rest, acc: acc)
        }
    }
}
/// the same, with several elements to a section
fn tally_in(l: Stack<El>, mut acc: Skiplist<El, El>, group: usize) -> Skiplist<El, El> {
    let mut l = l;
    let mut last = None;
    for j in 0..group {
        match l.0 {
            None => return acc,
            Some(h) => {
                fault_point(SITE_CALLBACK, "callback");
                let e = h.peek();
                let n = h.name().expect("named list");
                if j == 0 { acc.archive(name_fork(n.clone()).0); }
                let c = acc.get(e.clone()).map(|c| c.0).unwrap_or(0);
                acc.put(e, El(c + 1));
                last = Some(n);
                l = Stack(h.pull());
            }
        }
    }
    let n2 = name_fork(last.unwrap()).1;
    memo!(n2 =>> tally_in, l: l, acc: acc, group: group)
}
/// several keys looked up in one computation
fn lookup_all(m: SL, ks: Vec<K>) -> Vec<Option<El>> { fault_point(SITE_CALLBACK, "callback"); ks.into_iter().map(|k| m.get(k)).collect() }
fn lookup(m: SL, k: K) -> Option<El> { fault_point(SITE_CALLBACK, "callback"); m.get(k) }

impl World {
    fn new(plan: &Plan) -> World {
        let width = plan.cfg("width").max(1) as usize;
        let mut rng = Rng::new(mix(plan.seed, 77));
        let mut keys: Vec<(u64, u32)> = vec![];
        for id in 0..plan.cfg("keys").max(1) as u32 {
            let other = if keys.is_empty() { None } else { Some(*rng.pick(&keys)) };
            let h = match (other, rng.below(4)) {
                (Some(o), 0) => o.0,
                (Some(o), 1) | (Some(o), 2) => {
                    // share a prefix of the path, differ in the bit after it
                    let p = rng.below(width.min(12) as u64);
                    let want = (sip(o.0) ^ (1 << p)) & ((2u64 << p) - 1);
                    let start = rng.next();
                    (0..30_000u64).map(|k| start.wrapping_add(k)).find(|h| sip(*h) & ((2u64 << p) - 1) == want).unwrap_or(start)
                }
                _ => rng.next(),
            };
            keys.push((h, id));
        }
        World { docs: vec![], list: Stack::new(), lmo: vec![], keys, next_name: 1, scratch: 0, dcg: plan.cfg("engine") == 1, width, maxdocs: plan.cfg("maxdocs").max(1) as usize,
            maxlen: plan.cfg("maxlen").max(4) as usize, burst: plan.cfg("burst").max(1), marathon: plan.cfg("marathon") == 1, pending: None, next_val: 0, spaces: plan.cfg("spaces"), tally_mode: plan.cfg("tally"), group: plan.cfg("group") as usize, src: vec![] }
    }
    fn start(&self) { crate::subs::start_engine(self.dcg); }
    fn key(&self, k: usize) -> K { K { h: self.keys[k].0, id: self.keys[k].1 } }
    fn fresh(&mut self) -> Name { self.next_name += 1; nm(self.next_name) }
    fn val(&mut self, b: u64) -> u32 { if b % 4 == 0 { (b / 4 % 3) as u32 } else { self.next_val += 1; self.next_val } }
    fn put(d: &mut Doc, k: K, v: Option<u32>, how: u64) -> Option<Option<u32>> {
        let w = space(d.ns); let st = &mut d.st;
        match (v, how % 2) {
            (Some(v), 0) => { ns(w, || st.put(k, El(v))); None }
            (None, 0) => Some(ns(w, || st.rem(k)).map(|e| e.0)),
            (v, _) => Some(ns(w, || st.ext(k, v.map(El))).map(|e| e.0)),
        }
    }
    fn change(&mut self, ctx: &mut Ctx, i: usize, k: usize, v: Option<u32>, how: u64) -> R<()> {
        let key = self.key(k);
        let d = &mut self.docs[i];
        let old = d.mo.get(&k).copied();
        let got = must(ctx, "change", || World::put(d, key, v, how))?;
        if let Some(g) = got { ctx.eq("map-prior", &g, &old)?; }
        match v { Some(v) => { d.mo.insert(k, v); } None => { d.mo.remove(&k); ctx.count("probe:key removed"); } }
        if old.is_some() { ctx.count("probe:key overwritten"); }
        Ok(())
    }
    fn get(&mut self, ctx: &mut Ctx, i: usize, k: usize, why: &str) -> R<()> {
        let key = self.key(k);
        let d = &self.docs[i];
        let got = must(ctx, "get", || quiet(|| ns(space(d.ns), || d.st.get(key))))?.map(|e| e.0);
        let want = d.mo.get(&k).copied();
        ctx.check(got == want, &format!("map-get:{}", why), || format!("key {} of {:?}: got {:?}, reference says {:?}", k, self.docs[i].mo, got, want))
    }
    fn check(&mut self, ctx: &mut Ctx, i: usize, why: &str) -> R<()> {
        ctx.count("probe:map fully read");
        for k in 0..self.keys.len() { self.get(ctx, i, k, why)?; }
        Ok(())
    }
    fn check_all(&mut self, ctx: &mut Ctx, why: &str) -> R<()> { for i in 0..self.docs.len() { self.check(ctx, i, why)?; } Ok(()) }
    fn fill(&mut self, mo: &M, nsid: u64) -> Doc {
        let n = self.fresh();
        let mut d = Doc { st: ns(space(nsid), || FinMap::emp(self.width, n)), mo: mo.clone(), ns: nsid, width: self.width };
        let _ = d.width;
        for (k, v) in mo { let key = self.key(*k); World::put(&mut d, key, Some(*v), 0); }
        d
    }
    fn pick(&mut self, a: u64) -> usize {
        if self.docs.is_empty() { let d = self.fill(&M::new(), 0); self.docs.push(d); }
        (a % self.docs.len() as u64) as usize
    }
    fn restart(&mut self, ctx: &mut Ctx) -> R<()> {
        self.start();
        ctx.count("fault:engine restart");
        ctx.ev("engine restart");
        if self.dcg {
            for i in 0..self.docs.len() {
                let (m, n) = (self.docs[i].mo.clone(), self.docs[i].ns);
                match guard(|| self.fill(&m, n)) { Caught::Ok(d) => self.docs[i] = d, Caught::Panic(m) => return ctx.fail("panic:refill", m), Caught::Injected(m) => return ctx.fail("stray-injection", m.into()) }
            }
            let mut l = Stack::new();
            for (n, k) in &self.lmo { l = l.push(Some(nm(*n)), El(*k)); }
            self.list = l;
        }
        self.check_all(ctx, "after restart")
    }
    fn interrupted(&mut self, ctx: &mut Ctx, site: &'static str) -> R<()> {
        ctx.count("fault:interruption");
        ctx.count(match site { "callback" => "fault:interrupted in callback", "element clone" => "fault:interrupted in element clone", "element hash" => "fault:interrupted in element hash", _ => "fault:interrupted in element eq" });
        ctx.ev(&format!("interrupted in {}", site));
        if self.dcg { self.restart(ctx) } else { self.check_all(ctx, "after interruption") }
    }
    /// run `f` with a fault possibly armed; None when it was interrupted
    fn run<T>(&mut self, ctx: &mut Ctx, what: &str, f: &dyn Fn(&World) -> T) -> R<T> {
        if let Some((m, n)) = self.pending.take() {
            arm(m, n);
            let r = guard(|| f(self));
            disarm();
            match r {
                Caught::Ok(t) => return Ok(t),
                Caught::Panic(m) => return ctx.fail(&format!("panic:{}", what), m),
                Caught::Injected(site) => { self.interrupted(ctx, site)?; ctx.count("probe:retry after interruption"); }
            }
        }
        must(ctx, what, || f(self))
    }
    fn step(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        let op = s.op as usize % OPS.len();
        let i = self.pick(s.a);
        let k = (s.b % self.keys.len() as u64) as usize;
        if matches!(op, PUT | REM | EXT | GET) {
            if let Some((m, n)) = self.pending.take() {
                // an interrupted change leaves the old or the new map, nothing else
                let v = if op == REM { None } else { Some(self.val(s.c)) };
                let key = self.key(k);
                let d = &mut self.docs[i];
                arm(m, n);
                let r = guard(|| if op == GET { ns(space(d.ns), || d.st.get(key)); } else { World::put(d, key, v, s.c); });
                disarm();
                match r {
                    Caught::Ok(()) => { if op != GET { match v { Some(v) => { self.docs[i].mo.insert(k, v); } None => { self.docs[i].mo.remove(&k); } } } return self.check(ctx, i, "after armed change"); }
                    Caught::Panic(m) => return ctx.fail("panic:armed", m),
                    Caught::Injected(site) => {
                        if !self.dcg && op != GET {
                            let key = self.key(k);
                            let d = &mut self.docs[i];
                            let got = must(ctx, "get", || quiet(|| ns(space(d.ns), || d.st.get(key))))?.map(|e| e.0);
                            let old = d.mo.get(&k).copied();
                            ctx.check(got == old || got == v, "map-torn", || format!("key {} is {:?}, was {:?}, storing {:?}", k, got, old, v))?;
                            match got { Some(g) => { d.mo.insert(k, g); } None => { d.mo.remove(&k); } }
                        }
                        return self.interrupted(ctx, site);
                    }
                }
            }
        }
        match op {
            PUT => { let v = self.val(s.c / 2); self.change(ctx, i, k, Some(v), s.c)?; self.get(ctx, i, k, "after put")?; }
            REM => { self.change(ctx, i, k, None, s.c)?; self.get(ctx, i, k, "after rem")?; }
            EXT => { let v = if s.c % 3 == 0 { None } else { Some(self.val(s.c / 3)) }; self.change(ctx, i, k, v, 1)?; }
            GET => self.get(ctx, i, k, "get")?,
            ALL => self.check(ctx, i, "read")?,
            ARCH => { let n = self.fresh(); self.docs[i].st.archive(n); self.get(ctx, i, k, "after archive")?; }
            // more changes under one name than sixteen bits can count
            BURST if self.marathon => {
                self.marathon = false;
                ctx.count("probe:tens of thousands of changes under one name");
                for j in 0..66_500 {
                    let k = (mix(s.c, j) % self.keys.len() as u64) as usize;
                    let v = if j % 7 == 0 { None } else { Some(j as u32 % 50) };
                    self.change(ctx, i, k, v, j)?;
                }
                self.check(ctx, i, "after many changes")?;
            }
            BURST => for j in 0..(2 + s.b % 5) * self.burst {
                let k = (mix(s.c, j) % self.keys.len() as u64) as usize;
                let v = if mix(s.b, j) % 5 == 0 { None } else { Some(self.val(mix(s.b, j) / 5 % 1000)) };
                self.change(ctx, i, k, v, j)?;
            },
            CLONE => if self.docs.len() < self.maxdocs {
                let (n1, n2) = (self.fresh(), self.fresh());
                let d = &mut self.docs[i];
                let mut c = Doc { st: must(ctx, "clone", || quiet(|| d.st.clone()))?, mo: d.mo.clone(), ns: d.ns, width: d.width };
                // one of the two gets a fresh name before either changes
                match s.c % 3 { 0 => c.st.archive(n1), 1 => d.st.archive(n1), _ => { c.st.archive(n1); d.st.archive(n2) } }
                if !self.dcg && s.b % 2 == 0 { c.ns = 0 }
                self.docs.push(c);
                ctx.count("probe:map cloned");
            },
            DROP => if self.docs.len() > 1 { self.docs.remove(i); },
            NEW => if self.docs.len() < self.maxdocs { let sp = s.b % (self.spaces + 1); let d = self.fill(&M::new(), sp); self.docs.push(d); },
            // the same names in a namespace of its own: an independent map
            TWIN => if self.docs.len() < self.maxdocs {
                let a = self.next_name + 1; self.next_name += 40; self.scratch += 2;
                let w = self.width;
                let mut pair: Vec<Doc> = (0..2).map(|t| { let nsid = 1000 + self.scratch + t; Doc { st: ns(space(nsid), || FinMap::emp(w, nm(a))), mo: M::new(), ns: nsid, width: w } }).collect();
                for j in 0..4 + s.b % 12 {
                    let t = (mix(s.c, j) % 2) as usize;
                    let kk = (mix(s.b, j) % self.keys.len() as u64) as usize;
                    let v = self.val(mix(s.c, j + 50) % 400);
                    let key = self.key(kk);
                    if j % 5 == 4 { pair[t].st.archive(nm(a + 1 + j)); }
                    let d = &mut pair[t];
                    must(ctx, "twin put", || World::put(d, key, Some(v), j))?;
                    pair[t].mo.insert(kk, v);
                }
                ctx.count("probe:twin namespaces");
                for d in pair { if self.docs.len() < self.maxdocs + 1 { self.docs.push(d); } }
                for j in i..self.docs.len() { self.check(ctx, j, "twin")?; }
            },
            // start over under a fresh name
            RESET => { let sp = self.docs[i].ns; let d = self.fill(&M::new(), sp); self.docs[i] = d; }
            LOOK => {
                // a lookup as an incremental computation, repeated under one name per client and key
                let w = name_pair(space(10 + s.actor as u64), name_of_usize(self.docs[i].ns as usize));
                let run = move |me: &World| { let d = &me.docs[i]; let (m, kk) = (d.st.clone(), me.key(k)); ns(w.clone(), || { let n = name_pair(name_of_str("look"), name_of_usize(k)); memo!(n =>> lookup, m: m, k: kk) }).map(|e| e.0) };
                let want = self.docs[i].mo.get(&k).copied();
                let got = self.run(ctx, "memoised lookup", &run)?;
                ctx.eq("map-look", &got, &want)?;
            }
            INTERRUPT => { let masks = [SITE_CALLBACK, SITE_CLONE, SITE_HASH | SITE_EQ, SITE_CLONE | SITE_CALLBACK, SITE_EQ]; self.pending = Some((masks[(s.b % 5) as usize], countdown(s.c))); }
            RESTART => self.restart(ctx)?,
            TPUSH => for j in 0..1 + s.b % 4 { if self.lmo.len() < self.maxlen { self.next_name += 1; let e = (mix(s.c, j) % 9) as u32; let n = self.next_name; self.lmo.push((n, e)); self.list = self.list.push(Some(nm(n)), El(e)); } },
            TPULL => for _ in 0..1 + s.b % 2 { if self.lmo.pop().is_some() { self.list = self.list.pull().expect("list"); } },
            TALLY => {
                let (w, w0) = (space(50 + s.actor as u64), self.width);
                let (st, g) = (self.tally_mode, self.group);
                let run = move |me: &World| {
                    let l = me.list.clone();
                    ns(w.clone(), || {
                        let acc: Skiplist<El, El> = FinMap::emp(w0, nm(0));
                        let n = nm(1);
                        let r = match (st, g) { (0, 0) => memo!(n =>> tally, l: l, acc: acc), (_, 0) => tally(l, acc), (0, g) => memo!(n =>> tally_in, l: l, acc: acc, g: g), (_, g) => tally_in(l, acc, g) };
                        quiet(|| (0..9).map(|e| r.get(El(e)).map(|c| c.0)).collect::<Vec<_>>())
                    })
                };
                let mut want = vec![None; 9];
                for (_, e) in &self.lmo { *want[*e as usize].get_or_insert(0) += 1; }
                let got = self.run(ctx, "tally", &run)?;
                ctx.eq("map-tally", &got, &want)?;
                ctx.count("probe:tally computed");
            }
            // the list is changed in its middle: the top is taken off and put back under the same names
            TEDIT => if !self.lmo.is_empty() {
                let depth = 1 + (s.b % self.lmo.len() as u64) as usize;
                let mut top = self.lmo.split_off(self.lmo.len() - depth);
                for _ in 0..depth { self.list = self.list.pull().expect("list"); }
                match s.c % 3 {
                    0 => top[0].1 = (s.c / 3 % 9) as u32,
                    1 => { top.remove(0); }
                    _ => { self.next_name += 1; top.insert(0, (self.next_name, (s.c / 3 % 9) as u32)); }
                }
                for (n, e) in top { self.list = self.list.push(Some(nm(n)), El(e)); self.lmo.push((n, e)); }
                ctx.count("probe:list changed in the middle");
            },
            // a map is built again under the same names from changed input, and asked the same questions
            REBUILD => {
                if self.src.is_empty() { for j in 0..2 + s.b % 8 { let kk = (mix(s.c, j) % self.keys.len() as u64) as usize; let v = self.val(mix(s.b, j) % 400); self.src.push((kk, Some(v))); } }
                else { for j in 0..1 + s.b % 2 {
                    let at = (mix(s.b, j) % self.src.len() as u64) as usize;
                    let kk = (mix(s.c, j) % self.keys.len() as u64) as usize;
                    let v = if mix(s.c, j) / 7 % 5 == 0 { None } else { Some(self.val(mix(s.b, j + 9) % 400)) };
                    match mix(s.c, j + 3) % 5 { 0 if self.src.len() < 30 => self.src.insert(at, (kk, v)), 1 if self.src.len() > 1 => { self.src.remove(at); }, 2 if self.src.len() < 30 => self.src.push((kk, v)), _ => self.src[at] = (kk, v) }
                } }
                let (w, wid) = (space(90), self.width);
                let run = move |me: &World| {
                    let mut m: SL = ns(w.clone(), || FinMap::emp(wid, nm(0)));
                    for (kk, v) in &me.src { let key = me.key(*kk); ns(w.clone(), || { m.ext(key, v.map(El)); }); }
                    let ks: Vec<K> = (0..me.keys.len()).map(|k| me.key(k)).collect();
                    let n = name_pair(name_of_str("look"), nm(1));
                    ns(w.clone(), || memo!(n =>> lookup_all, m: m, ks: ks)).into_iter().map(|e| e.map(|e| e.0)).collect::<Vec<_>>()
                };
                let mut want: Vec<Option<u32>> = vec![None; self.keys.len()];
                for (kk, v) in &self.src { want[*kk] = *v; }
                let got = self.run(ctx, "rebuilt map", &run)?;
                ctx.eq("map-rebuilt", &got, &want)?;
                ctx.count("probe:map rebuilt under the same names");
            }
            _ => {}
        }
        Ok(())
    }
}

impl Sub for World {
    fn start(&mut self) { World::start(self) }
    fn step(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> { World::step(self, ctx, s) }
    fn state(&self) -> u64 { hash_of(&(self.docs.iter().map(|d| (&d.mo, d.ns)).collect::<Vec<_>>(), &self.lmo)) }
    fn bystander(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        if self.docs.len() > 1 { let j = ((s.a + 1 + s.c) % self.docs.len() as u64) as usize; self.check(ctx, j, "bystander")?; }
        Ok(())
    }
    fn restart(&mut self, ctx: &mut Ctx) -> R<()> { World::restart(self, ctx) }
    fn finish(&mut self, ctx: &mut Ctx) -> R<()> { self.check_all(ctx, "end") }
}
pub fn sub(plan: &Plan) -> Box<dyn Sub> { Box::new(World::new(plan)) }

pub struct MapScenario {
    pub id: &'static str,
    pub weights: &'static [(usize, u64)],
    pub engines: &'static [u64],
    pub runs: (u64, u64),
    pub rule: &'static str,
}

impl Scenario for MapScenario {
    fn id(&self) -> &'static str { self.id }
    fn ops(&self) -> &'static [&'static str] { OPS }
    fn runs(&self, t: Tier) -> u64 { if t == Tier::Quick { self.runs.0 } else { self.runs.1 } }
    fn rule(&self) -> &'static str { self.rule }
    fn gen(&self, rng: &mut Rng, tier: Tier) -> (BTreeMap<String, u64>, Vec<Step>) {
        let mut c = BTreeMap::new();
        let mut set = |k: &str, v: u64| { c.insert(k.to_string(), v); };
        set("engine", *rng.pick(self.engines));
        set("width", match rng.below(8) { 0 => 1, 1 => 2, 2 => *rng.pick(&[16, 24, 32, 63, 64]), _ => rng.range(2, 12) });
        set("keys", match rng.below(4) { 0 => rng.range(1, 4), 1 => rng.range(10, 40), _ => rng.range(4, 14) });
        set("maxdocs", rng.range(1, 6));
        set("maxlen", *rng.pick(&[6, 20, 40]));
        set("burst", *rng.pick(&[1, 1, 1, 1, 1, 6]));
        if rng.chance(1, 150) { set("keys", rng.range(60, 500)); set("burst", rng.range(20, 120)); set("maxlen", 300); }
        set("spaces", rng.below(3));
        if rng.chance(1, 4000) { set("marathon", 1); set("width", rng.range(2, 5)); set("keys", rng.range(4, 10)); }
        set("tally", rng.below(2));
        set("group", *rng.pick(&[0, 0, 2, 3, 5]));
        set("degenerate", (rng.below(10) == 0) as u64);
        let steps = swarm::steps(rng, tier, OPS.len(), self.weights, 70, 160);
        (c, steps)
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> R<()> {
        set_degenerate(plan.cfg("degenerate") == 1);
        drive(&mut World::new(plan), OPS, plan, ctx)?;
        ctx.stats.nontrivial = plan.steps.len() >= 6 && ctx.stats.counts.get("oracle:comparisons").copied().unwrap_or(0) >= 10;
        set_degenerate(false);
        Ok(())
    }
}
