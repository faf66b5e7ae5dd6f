//! The stack world: clients hold archive stacks and cons lists that share one
//! engine, fork them, convert them to trees and compute over them.
use crate::core::*;
use crate::subs::{drive, Sub};
use crate::el::*;
use crate::iters::adaptors;
use crate::razmodel::*;
use crate::razworld::{conv_toks, level, LEVEL_MODES, shape_of, toks_of};
use crate::rng::{mix, Rng};
use crate::swarm;
use adapton::engine::*;
use adapton::macros::*;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::memo::{MemoFrom, MemoInto};
use iodyn::raz::RazTree;
use iodyn::raz_meta::{Count, Names};
use iodyn::stack::{Head, Stack};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const OPS: &[&str] = &[
    "push", "pop", "pop_meta", "peek", "next_archive", "archive", "extend", "extend_rev", "clone", "drop",
    "new", "check", "drain", "to_tree_tail", "to_tree_head", "interrupt", "restart", "burst", "from_vec",
    "cons_push", "cons_pull", "cons_peek", "cons_iter", "cons_fold", "cons_new", "rerun", "twin", "section_fold",
];
pub const PUSH: usize = 0; pub const POP: usize = 1; pub const POP_META: usize = 2; pub const PEEK: usize = 3;
pub const NEXT: usize = 4; pub const ARCH: usize = 5; pub const EXT: usize = 6; pub const EXT_REV: usize = 7;
pub const CLONE: usize = 8; pub const DROP: usize = 9; pub const NEW: usize = 10; pub const CHECK: usize = 11;
pub const DRAIN: usize = 12; pub const TAIL: usize = 13; pub const HEAD: usize = 14; pub const INTERRUPT: usize = 15;
pub const RESTART: usize = 16; pub const BURST: usize = 17; pub const FROM_VEC: usize = 18; pub const CPUSH: usize = 19;
pub const CPULL: usize = 20; pub const CPEEK: usize = 21; pub const CITER: usize = 22; pub const CFOLD: usize = 23;
pub const CNEW: usize = 24; pub const RERUN: usize = 25; pub const TWIN: usize = 26; pub const SFOLD: usize = 27;

type AS = AStack<El, u32>;
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct SMo { pub cur: Vec<u32>, pub arch: Vec<(u32, Option<u64>, Vec<u32>)> }
impl SMo {
    fn is_empty(&self) -> bool { self.cur.is_empty() && self.arch.is_empty() }
    fn open(&mut self) -> Option<u32> {
        if self.cur.is_empty() { if let Some((m, _, v)) = self.arch.pop() { self.cur = v; return Some(m); } }
        None
    }
    fn all(&self) -> Vec<u32> { let mut v: Vec<u32> = self.arch.iter().flat_map(|a| a.2.clone()).collect(); v.extend(&self.cur); v }
    pub fn toks(&self) -> Vec<Tok> {
        let mut v = vec![];
        for (k, (l, n, e)) in self.arch.iter().enumerate() {
            v.extend(e.iter().map(|e| Tok::E(*e)));
            if !(self.cur.is_empty() && k + 1 == self.arch.len()) { v.push(Tok::M(*l, *n)); }
        }
        v.extend(self.cur.iter().map(|e| Tok::E(*e)));
        v
    }
    fn len(&self) -> usize { self.cur.len() + self.arch.iter().map(|a| a.2.len() + 1).sum::<usize>() }
}
struct Doc { id: u64, st: AS, mo: SMo }
type CMo = Vec<(Option<u64>, u32)>; // bottom first
struct CDoc { id: u64, st: Stack<El>, mo: CMo }

struct World {
    docs: Vec<Doc>, lists: Vec<CDoc>, nb: NameBook, next_name: u64, next_id: u64, next_el: u32, scratch: u64, nlev: u64, burst: u64, deep: u64, vast: u64,
    dcg: bool, names: u64, levels: u64, linear: bool, maxdocs: usize, maxlen: usize, pending: Option<(u32, u64)>, meta: u64, share_ns: bool, seed: u64,
    /// per warm namespace, what was converted there last
    conv: BTreeMap<(u8, u64, u64), SMo>,
}

fn ns_name(a: u64, b: u64) -> Name { name_pair(name_of_usize(3_000_000 + a as usize), name_of_usize(b as usize)) }

/// client computations over a cons list: memoised at every named element
fn cons_sum(l: Stack<El>, acc: u64) -> u64 {
    match l.0 {
        None => acc,
        Some(h) => {
            fault_point(SITE_CALLBACK, "callback");
            let acc = acc.wrapping_mul(31).wrapping_add(h.peek().0 as u64);
            let name = h.name();
            let rest = Stack(h.pull());
            match name {
                None => cons_sum(rest, acc),
                Some(n) => { let (n, _) = name_fork(n); memo!(n =>> cons_sum, l: rest, acc: acc) }
            }
        }
    }
}
fn cons_map(l: Stack<El>) -> Stack<El> {
    match l.0 {
        None => Stack::new(),
        Some(h) => {
            fault_point(SITE_CALLBACK, "callback");
            let e = El(h.peek().0 ^ 5);
            let name = h.name();
            let rest = Stack(h.pull());
            match name {
                None => cons_map(rest).push(None, e),
                Some(n) => { let (n1, n2) = name_fork(n); let r = memo!(n1 =>> cons_map, l: rest); r.push(Some(n2), e) }
            }
        }
    }
}
/// sum of an archive stack, memoised per archive
fn section_sum(mut s: AS, acc: u64) -> u64 {
    fault_point(SITE_CALLBACK, "callback");
    let name = s.name();
    match s.next_archive() {
        None => acc,
        Some((v, m)) => {
            let acc = v.iter().rev().fold(acc, |a, e| a.wrapping_mul(37).wrapping_add(e.0 as u64 + 1));
            match m {
                None => acc,
                Some(m) => {
                    let acc = acc.wrapping_mul(41).wrapping_add(m as u64);
                    match name { None => section_sum(s, acc), Some(n) => { let (n, _) = name_fork(n); memo!(n =>> section_sum, s: s, acc: acc) } }
                }
            }
        }
    }
}
/// the whole stack, popped by one computation
fn popped(mut s: AS) -> Vec<u32> {
    let mut v = vec![];
    loop {
        fault_point(SITE_CALLBACK, "callback");
        let top = s.peek().map(|e| e.0);
        match s.pop_meta() { None => return v, Some((e, m)) => { if top != Some(e.0) { v.push(u32::max_value()); } if let Some(m) = m { v.push(m); } v.push(e.0); } }
    }
}
/// stacks in cells which a computation observes
fn cell_popped(c: Art<AS>) -> Vec<u32> { popped(force(&c)) }
fn cell_sections(c: Art<AS>) -> u64 { section_sum(force(&c), 0) }
fn cell_list(c: Art<Stack<El>>) -> Vec<u32> {
    let mut l = force(&c);
    let mut v = vec![];
    while let Some(e) = l.peek() { fault_point(SITE_CALLBACK, "callback"); v.push(e.0); l = match l.pull() { None => break, Some(l) => l }; }
    v
}
fn list_read(l: Stack<El>) -> Vec<u32> { l.iter().map(|e| { fault_point(SITE_CALLBACK, "callback"); e.0 }).collect() }
fn cell_sum(c: Art<Stack<El>>) -> u64 { cons_sum(force(&c), 0) }

impl World {
    fn new(plan: &Plan) -> World {
        World { docs: vec![], lists: vec![], nb: NameBook::default(), next_name: 1, next_id: 0, next_el: 1, scratch: 0, nlev: 0, burst: plan.cfg("burst").max(1), deep: plan.cfg("deep").max(1), vast: plan.cfg("vast").max(1),
            dcg: plan.cfg("engine") == 1, names: plan.cfg("names"), levels: plan.cfg("levels"), linear: plan.cfg("linear") == 1,
            maxdocs: plan.cfg("maxdocs").max(1) as usize, maxlen: plan.cfg("maxlen").max(4) as usize, pending: None, meta: plan.cfg("meta"),
            share_ns: plan.cfg("share_ns") == 1, seed: plan.seed, conv: BTreeMap::new() }
    }
    fn start(&self) { crate::subs::start_engine(self.dcg); }
    fn value(&mut self, a: u64) -> u32 { if a % 5 == 0 { (a / 5 % 4) as u32 } else { self.next_el += 1; self.next_el } }
    fn alloc(&mut self, a: u64) -> (Option<u64>, Option<Name>) {
        let named = match self.names { 0 => false, 1 => true, _ => mix(a, 3) % 2 == 0 };
        if !named { return (None, None); }
        let id = self.next_name; self.next_name += 1;
        (Some(id), Some(self.nb.name(id)))
    }
    fn scratch_ns(&mut self) -> Name { self.scratch += 1; ns_name(0, self.scratch) }
    fn warm(&self, actor: u8, kind: u64, doc: u64) -> Name { name_pair(ns_name(10 + actor as u64 * 100 + kind, if self.share_ns { 0 } else { doc }), name_of_usize(6)) }
    fn id(&mut self) -> u64 { self.next_id += 1; self.next_id }

    fn build(&mut self, mo: &SMo) -> AS {
        let mut s: AS = AStack::new();
        for (m, n, v) in &mo.arch { for e in v { s.push(El(*e)); } s.archive(n.map(|n| self.nb.name(n)), *m); }
        for e in &mo.cur { s.push(El(*e)); }
        s
    }
    fn build_list(&mut self, mo: &CMo) -> Stack<El> {
        let mut s = Stack::new();
        for (n, e) in mo { s = s.push(n.map(|n| self.nb.name(n)), El(*e)); }
        s
    }
    fn restart(&mut self, ctx: &mut Ctx) -> R<()> {
        self.conv.clear();
        self.start();
        ctx.count("fault:engine restart");
        ctx.ev("engine restart");
        if self.dcg && self.names != 0 {
            for i in 0..self.docs.len() { let m = self.docs[i].mo.clone(); self.docs[i].st = self.build(&m); }
            for i in 0..self.lists.len() { let m = self.lists[i].mo.clone(); self.lists[i].st = self.build_list(&m); }
            // shared prefixes were rebuilt more than once under the same names with the same content
        }
        self.check_all(ctx, "after restart")
    }
    fn check_all(&mut self, ctx: &mut Ctx, why: &str) -> R<()> {
        for i in 0..self.docs.len() { self.check(ctx, i, why)?; }
        for i in 0..self.lists.len() { self.check_list(ctx, i, why)?; }
        Ok(())
    }
    fn check(&mut self, ctx: &mut Ctx, i: usize, why: &str) -> R<()> {
        ctx.count("probe:stack fully read");
        let mo = self.docs[i].mo.clone();
        let st = &self.docs[i].st;
        let (e, n, nm, p, d) = must(ctx, "stack observers", || quiet(|| (st.is_empty(), st.active_len(), st.name(), st.peek(), st.active_data().iter().map(|e| e.0).collect::<Vec<_>>())))?;
        ctx.eq(&format!("stack-empty:{}", why), &e, &mo.is_empty())?;
        ctx.eq(&format!("stack-active:{}", why), &n, &mo.cur.len())?;
        ctx.eq(&format!("stack-active-data:{}", why), &d, &mo.cur)?;
        ctx.eq(&format!("stack-peek:{}", why), &p.map(|e| e.0), &mo.all().last().cloned())?;
        let nm = self.nb.opt(&nm);
        ctx.eq(&format!("stack-name:{}", why), &nm, &mo.arch.last().and_then(|a| a.1))?;
        // section by section
        let mut c = self.docs[i].st.clone();
        let mut m = mo.clone();
        let cap = mo.arch.len() + 3;
        for _ in 0..cap {
            let got = must(ctx, "next_archive", || quiet(|| c.next_archive()))?.map(|(v, m)| (v.iter().map(|e| e.0).collect::<Vec<_>>(), m));
            let want = if m.is_empty() { None } else {
                let v = std::mem::take(&mut m.cur);
                match m.arch.pop() { None => Some((v, None)), Some((meta, _, nv)) => { m.cur = nv; Some((v, Some(meta))) } }
            };
            ctx.eq(&format!("stack-sections:{}", why), &got, &want)?;
            if want.is_none() { break; }
        }
        Ok(())
    }
    fn check_list(&mut self, ctx: &mut Ctx, i: usize, why: &str) -> R<()> {
        ctx.count("probe:list fully read");
        let mo = self.lists[i].mo.clone();
        let st = self.lists[i].st.clone();
        ctx.eq(&format!("cons-empty:{}", why), &st.is_empty(), &mo.is_empty())?;
        let cap = mo.len() + 2;
        let got = must(ctx, "cons iter", || quiet(|| {
            let mut it = match &st.0 { Some(h) if why == "iter" => h.iter(), _ => st.iter() }; let mut v = vec![];
            loop { let n = it.name(); match it.next() { None => { if n.is_some() || it.name().is_some() || it.next().is_some() { v.push((n, u32::MAX)); } break } Some(e) => { v.push((n, e.0)); if v.len() > cap { break; } } } }
            v
        }))?;
        let got: Vec<(Option<u64>, u32)> = got.into_iter().map(|(n, e)| (self.nb.opt(&n), e)).collect();
        let want: Vec<(Option<u64>, u32)> = mo.iter().rev().cloned().collect();
        ctx.eq(&format!("cons-content:{}", why), &got, &want)?;
        let vals: Vec<u32> = want.iter().map(|x| x.1).collect();
        let seed = mix(ctx.step as u64, i as u64);
        quiet(|| adaptors(ctx, "cons-iter-adaptors", || match &st.0 { Some(h) if seed % 3 == 0 => h.iter(), _ => st.iter() }, |e: El| e.0, &vals, seed))?;
        let (p, n) = must(ctx, "cons observers", || quiet(|| { let c: Stack<El> = st.memo_into(); (c.peek().map(|e| e.0), match &st.0 { Some(h) if why == "iter" => h.name(), _ => c.name() }) }))?;
        ctx.eq(&format!("cons-peek:{}", why), &p, &mo.last().map(|x| x.1))?;
        let n = self.nb.opt(&n);
        ctx.eq(&format!("cons-name:{}", why), &n, &mo.last().and_then(|x| x.0))
    }
    fn pick(&mut self, a: u64) -> usize {
        if self.docs.is_empty() { let id = self.id(); self.docs.push(Doc { id, st: AStack::new(), mo: SMo::default() }); }
        (a % self.docs.len() as u64) as usize
    }
    fn pickl(&mut self, a: u64) -> usize {
        if self.lists.is_empty() { let id = self.id(); self.lists.push(CDoc { id, st: Stack::new(), mo: vec![] }); }
        (a % self.lists.len() as u64) as usize
    }

    /// convert to a tree in a warm namespace, then read the tree completely
    fn convert<M: SimMeta>(&mut self, ctx: &mut Ctx, i: usize, s: &Step, tail: bool) -> R<()> where RazTree<El, M>: MemoFrom<AtTail<El, u32>> + MemoFrom<AtHead<El, u32>> {
        let mut toks = self.docs[i].mo.toks();
        if !tail { toks.reverse(); }
        let did = self.docs[i].id;
        let kind = if tail { 1 } else { 2 };
        let w = self.warm(s.actor, kind * 10 + self.meta, did);
        let st = self.docs[i].st.clone();
        if let Some((m, n)) = self.pending.take() { arm(m, n); }
        let into = s.c % 3 == 0;
        let calls = site_calls()[4];
        let run = |st: AS| -> RazTree<El, M> { ns(w.clone(), || match (tail, into) {
            (true, false) => RazTree::memo_from(&AtTail(st)), (true, true) => AtTail(st).memo_into(),
            (false, false) => RazTree::memo_from(&AtHead(st)), (false, true) => AtHead(st).memo_into() }) };
        let r = guard(|| run(st.clone()));
        let site = disarm();
        let what = if tail { "tail" } else { "head" };
        let t = match r {
            Caught::Ok(t) => t,
            Caught::Panic(m) => return ctx.fail(&format!("panic:convert-{}", what), format!("conversion of {:?} panicked: {}", self.docs[i].mo, m)),
            Caught::Injected(site) => {
                self.interrupted(ctx, site)?;
                let st = self.docs[i].st.clone();
                ctx.count("probe:retry after interruption");
                match guard(|| run(st)) { Caught::Ok(t) => t, Caught::Panic(m) => return ctx.fail(&format!("panic:convert-retry-{}", what), m), Caught::Injected(m) => return ctx.fail("stray-injection", m.to_string()) }
            }
        };
        let _ = site;
        let calls = site_calls()[4] - calls;
        self.convert_cost(ctx, (s.actor, kind, did), i, calls, what)?;
        if self.docs[i].mo.cur.is_empty() && !self.docs[i].mo.arch.is_empty() { ctx.count("probe:conversion with nothing after the last archive point"); }
        let n = self.scratch_ns();
        let (n1, n2) = name_fork(n);
        let (t1, t2) = (t.clone(), t.clone());
        let sh = must(ctx, "read converted tree", || quiet(|| ns(n1, || shape_of(t1))))?.map(|s| s.conv(&self.nb));
        let tk = must(ctx, "read converted tree", || quiet(|| ns(n2, || toks_of(t2))))?;
        let tk = conv_toks(&tk, &self.nb);
        ctx.eq(&format!("convert-content-{}", what), &elems(&tk), &elems(&toks))?;
        ctx.eq(&format!("convert-{}", what), &tk, &toks)?;
        ctx.eq(&format!("convert-empty-{}", what), &t.is_empty(), &toks.is_empty())?;
        let want = canonical(&toks);
        ctx.check(sh == want, &format!("convert-shape-{}", what), || format!("tree {} for {:?}", sh.as_ref().map(|s| s.to_string()).unwrap_or_default(), toks))?;
        if let Some(n) = t.meta().len() { ctx.eq(&format!("convert-meta-{}", what), &n, &elems(&toks).len())?; }
        let ok = t.meta().extra(&elems(&toks), marks(&toks).iter().map(|m| m.0 as u64).sum());
        ctx.check(ok, &format!("convert-meta-user-{}", what), || format!("{:?}", t.meta()))?;
        let any: &dyn std::any::Any = t.meta();
        if let Some(n) = any.downcast_ref::<Names>() {
            let mut got: Vec<u64> = n.0.keys().map(|k| self.nb.id(k)).collect(); got.sort();
            let mut want: Vec<u64> = marks(&toks).iter().filter_map(|m| m.1).collect(); want.sort();
            ctx.eq(&format!("convert-meta-names-{}", what), &got, &want)?;
        }
        // a computation over the freshly converted tree, in its own warm namespace
        let (w2, _) = name_fork(w.clone());
        let w2 = name_pair(w2, name_of_usize(8));
        let r = match guard(|| ns(w2, || t.clone().fold_up(Rc::new(|e: &El| vec![e.0]), Rc::new(|mut a: Vec<u32>, b: Vec<u32>| { a.extend(b); a })))) {
            Caught::Ok(r) => r, Caught::Panic(m) => return ctx.fail(&format!("panic:convert-compute-{}", what), format!("{} on {:?}", m, toks)), Caught::Injected(m) => return ctx.fail("stray-injection", m.to_string()) };
        let want = if toks.is_empty() { None } else { Some(elems(&toks)) };
        ctx.eq(&format!("convert-compute-{}", what), &r, &want)?;
        // focusing the converted tree
        if !(self.dcg && self.names != 0) && !toks.is_empty() {
            use iodyn::raz_meta::FirstLast;
            let es = elems(&toks);
            let mut r = match must(ctx, "focus converted", || quiet(|| t.clone().focus(M::Index::last())))? { Some(r) => r, None => return ctx.fail("convert-focus", "focus at the end failed".into()) };
            let got = must(ctx, "drain converted", || quiet(|| { let mut v = vec![]; while let Some(e) = r.pop_left() { v.push(e.0); if v.len() > es.len() + 2 { break; } } v.reverse(); v }))?;
            ctx.eq("convert-drain", &got, &es)?;
        }
        Ok(())
    }

    /// A repeated conversion computes metadata only for sections that are new since the last one and for the
    /// branches on the edge towards them: kept archive points that no kept one above outranks.
    fn convert_cost(&mut self, ctx: &mut Ctx, key: (u8, u64, u64), i: usize, calls: u64, what: &str) -> R<()> {
        if !self.dcg || self.names != 1 || self.meta != 2 || self.share_ns { return Ok(()); }
        let mo = self.docs[i].mo.clone();
        if let Some(last) = self.conv.get(&key) {
            // (an archive point with nothing above it is not part of the tree)
            let there = |m: &SMo| m.arch.len() - (m.cur.is_empty() && !m.arch.is_empty()) as usize;
            let kept = last.arch[..there(last)].iter().zip(&mo.arch[..there(&mo)]).take_while(|(a, b)| a == b).count();
            let new = there(&mo) - kept;
            let mut top = 0;
            let mut spine = 0;
            for a in mo.arch[..kept].iter().rev() { if a.0 >= top { spine += 1; top = a.0; } }
            let bound = if *last == mo { 4 } else { 8 + 4 * (new + spine) as u64 };
            if kept >= 8 && new < 4 { ctx.count("probe:reconversion with most sections kept"); }
            ctx.check(calls <= bound, &format!("convert-calls-{}", what), || format!("{} metadata calls, at most {} expected: {} sections kept, {} new, {} branches on the edge", calls, bound, kept, new, spine))?;
        }
        self.conv.insert(key, mo);
        Ok(())
    }

    fn interrupted(&mut self, ctx: &mut Ctx, site: &'static str) -> R<()> {
        ctx.count("fault:interruption");
        ctx.count(match site { "callback" => "fault:interrupted in callback", "element clone" => "fault:interrupted in element clone",
            "element hash" => "fault:interrupted in element hash", "element eq" => "fault:interrupted in element eq", _ => "fault:interrupted in metadata" });
        ctx.ev(&format!("interrupted in {}", site));
        // every handle still reads the same; the engine itself (adapton) does not unwind its
        // evaluation stack, so with named thunks it has to be restarted before computing again
        self.check_all(ctx, "after interruption")?;
        if self.dcg && (self.names != 0 || (self.seed ^ ctx.step as u64) % 2 == 0) { self.restart(ctx) } else { Ok(()) }
    }

    /// `own`: the client names the computation itself, so that it lives in the engine even over unnamed data
    fn compute(&mut self, ctx: &mut Ctx, what: &'static str, own: bool, want: u64, f: &dyn Fn() -> u64, refresh: &dyn Fn(&World) -> Box<dyn Fn() -> u64>) -> R<()> {
        if let Some((m, n)) = self.pending.take() { arm(m, n); }
        let r = guard(|| f());
        disarm();
        match r {
            Caught::Ok(g) => ctx.eq(&format!("compute:{}", what), &g, &want),
            Caught::Panic(m) => ctx.fail(&format!("panic:compute:{}", what), m),
            Caught::Injected(site) => {
                self.interrupted(ctx, site)?;
                if self.dcg && own { self.restart(ctx)?; }
                ctx.count("probe:retry after interruption");
                let f = refresh(self);
                match guard(|| f()) {
                    Caught::Ok(g) => ctx.eq(&format!("retry:{}", what), &g, &want),
                    Caught::Panic(m) => ctx.fail(&format!("panic:retry:{}", what), m),
                    Caught::Injected(s) => ctx.fail("stray-injection", s.to_string()),
                }
            }
        }
    }

    fn step(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        let op = s.op as usize % OPS.len();
        let i = self.pick(s.a);
        if !matches!(op, INTERRUPT | TAIL | HEAD | CFOLD | SFOLD) {
            if let Some((m, n)) = self.pending.take() { return self.armed(ctx, s, i, m, n); }
        }
        match op {
            PUSH => { if self.docs[i].mo.len() < self.maxlen { let v = self.value(s.b); self.docs[i].mo.cur.push(v); let st = &mut self.docs[i].st; must(ctx, "push", || st.push(El(v)))?; } }
            BURST => {
                for d in 0..self.deep - 1 {
                    for k in 0..1 + (s.b + d) % 3 { let v = self.value(s.b + k + d); self.docs[i].mo.cur.push(v); let st = &mut self.docs[i].st; must(ctx, "push", || st.push(El(v)))?; }
                    let mut s2 = s.clone(); s2.c += d * 7; self.archive(ctx, i, &s2)?;
                    if self.docs[i].mo.len() >= self.maxlen { break; }
                }
                let room = if self.vast > 1 { 160_000 } else { self.maxlen };
                if self.vast > 1 { ctx.count("probe:section of tens of thousands"); }
                for k in 0..(1 + s.b % 6) * self.burst * self.vast { if self.docs[i].mo.len() < room { let v = self.value(s.b + k); self.docs[i].mo.cur.push(v); let st = &mut self.docs[i].st; must(ctx, "push", || st.push(El(v)))?; } }
                if s.c % 3 != 0 { self.archive(ctx, i, s)?; }
            }
            POP => for _ in 0..1 + s.b % 3 {
                let d = &mut self.docs[i];
                let want = { d.mo.open(); d.mo.cur.pop() };
                let st = &mut d.st;
                let got = must(ctx, "pop", || st.pop())?;
                ctx.eq("stack-pop", &got.map(|e| e.0), &want)?;
            },
            POP_META => for _ in 0..1 + s.b % 3 {
                let d = &mut self.docs[i];
                let want = { let m = d.mo.open(); d.mo.cur.pop().map(|e| (e, m)) };
                let st = &mut d.st;
                let got = must(ctx, "pop_meta", || st.pop_meta())?;
                ctx.eq("stack-pop-meta", &got.map(|(e, m)| (e.0, m)), &want)?;
            },
            PEEK => { let st = &self.docs[i].st; let got = must(ctx, "peek", || st.peek())?; let w = self.docs[i].mo.all().last().cloned(); ctx.eq("stack-peek", &got.map(|e| e.0), &w)?; }
            NEXT => {
                let d = &mut self.docs[i];
                let want = if d.mo.is_empty() { None } else { let v = std::mem::take(&mut d.mo.cur); match d.mo.arch.pop() { None => Some((v, None)), Some((m, _, nv)) => { d.mo.cur = nv; Some((v, Some(m))) } } };
                let st = &mut d.st;
                let got = must(ctx, "next_archive", || st.next_archive())?.map(|(v, m)| (v.iter().map(|e| e.0).collect::<Vec<_>>(), m));
                ctx.eq("stack-next-archive", &got, &want)?;
            }
            ARCH => self.archive(ctx, i, s)?,
            EXT | EXT_REV => {
                if self.docs[i].mo.len() < self.maxlen {
                    let v: Vec<u32> = (0..s.b % 4).map(|k| self.value(s.b + k)).collect();
                    let d = &mut self.docs[i];
                    d.mo.cur.extend(&v);
                    if op == EXT_REV { d.mo.cur.reverse(); }
                    let st = &mut d.st;
                    let e: Vec<El> = v.iter().map(|e| El(*e)).collect();
                    must(ctx, "extend", || if op == EXT { st.extend(&e) } else { st.extend_rev(&e) })?;
                }
            }
            CLONE => {
                if self.docs.len() < self.maxdocs && !self.linear { let id = self.id(); let d = Doc { id, st: self.docs[i].st.clone(), mo: self.docs[i].mo.clone() }; self.docs.push(d); ctx.count("probe:fork"); }
            }
            DROP => { if self.docs.len() > 1 { self.docs.remove(i); } if self.lists.len() > 3 { let k = self.pickl(s.b); self.lists.remove(k); } }
            NEW => { if self.docs.len() < self.maxdocs { let id = self.id(); self.docs.push(Doc { id, st: if s.b % 2 == 0 { AStack::new() } else { AStack::with_capacity(3) }, mo: SMo::default() }); } }
            CHECK => self.check(ctx, i, "check")?,
            DRAIN => {
                let c = self.docs[i].st.clone();
                let mut w = self.docs[i].mo.all(); w.reverse();
                let cap = w.len() + 2;
                let got = must(ctx, "drain", || c.into_iter().take(cap).map(|e| e.0).collect::<Vec<_>>())?;
                ctx.eq("stack-iter", &got, &w)?;
                let c = self.docs[i].st.clone();
                adaptors(ctx, "stack-iter-adaptors", || c.into_iter(), |e: El| e.0, &w, mix(s.b, s.c))?;
            }
            FROM_VEC => {
                let v: Vec<u32> = (0..s.b % 7).map(|k| self.value(s.b + k)).collect();
                let e: Vec<El> = v.iter().map(|e| El(*e)).collect();
                let a: AStack<El, ()> = must(ctx, "from vec", || AStack::from(e))?;
                ctx.eq("from-vec", &a.active_data().iter().map(|e| e.0).collect::<Vec<_>>(), &v)?;
                let mut w = v.clone(); w.reverse();
                ctx.eq("from-vec-iter", &a.into_iter().map(|e| e.0).collect::<Vec<_>>(), &w)?;
            }
            TAIL | HEAD => match self.meta {
                0 => self.convert::<Count>(ctx, i, s, op == TAIL)?, 1 => self.convert::<Names>(ctx, i, s, op == TAIL)?,
                2 => self.convert::<UMeta>(ctx, i, s, op == TAIL)?, _ => self.convert::<()>(ctx, i, s, op == TAIL)?,
            },
            INTERRUPT => {
                let masks = [SITE_CALLBACK, SITE_CLONE, SITE_META, SITE_HASH | SITE_EQ, SITE_CALLBACK | SITE_CLONE | SITE_META];
                self.pending = Some((masks[(s.b % masks.len() as u64) as usize], countdown(s.c)));
            }
            RESTART => {
                // without names nothing lives in the engine's store, so data also survives a switch of engines
                if self.names == 0 && s.b % 3 == 0 { self.dcg = !self.dcg; ctx.count("fault:engine switch"); }
                self.restart(ctx)?
            }
            SFOLD => {
                let mo = self.docs[i].mo.clone();
                let mut want = 0u64; let mut m = mo;
                if !m.is_empty() { loop {
                    want = m.cur.iter().rev().fold(want, |a, e| a.wrapping_mul(37).wrapping_add(*e as u64 + 1));
                    match m.arch.pop() { None => break, Some((l, _, v)) => { want = want.wrapping_mul(41).wrapping_add(l as u64); m.cur = v; } }
                    if m.cur.is_empty() && m.arch.is_empty() { break; }
                } }
                let did = self.docs[i].id;
                let st = self.docs[i].st.clone();
                if s.b % 3 != 0 {
                    // computations the client names itself
                    let flat = { let mut m = self.docs[i].mo.clone(); let mut v = vec![]; loop { if let Some(l) = m.open() { v.push(l); } match m.cur.pop() { None => break hash_of(&v), Some(e) => v.push(e) } } };
                    let kind = (s.b / 3 % 3) as usize;
                    let w = self.warm(s.actor, 41 + kind as u64, did); let w2 = w.clone();
                    let f = move |st: AS, w: Name| {
                        let (n1, n2) = name_fork(w);
                        match kind {
                            0 => hash_of(&ns(n2, || memo!(name_of_str("popped") =>> popped, s: st))),
                            _ => {
                                let c = ns(n1, || cell(name_of_str("stack"), st));
                                if kind == 1 { hash_of(&ns(n2, || memo!(name_of_str("observer") =>> cell_popped, c: c))) } else { ns(n2, || memo!(name_of_str("observer") =>> cell_sections, c: c)) }
                            }
                        }
                    };
                    let want = if kind == 2 { want } else { flat };
                    return self.compute(ctx, ["popped", "cell_popped", "cell_sections"][kind], true, want, &|| f(st.clone(), w.clone()), &|world| { let st = world.docs[i].st.clone(); let w = w2.clone(); Box::new(move || f(st.clone(), w.clone())) });
                }
                let w = self.warm(s.actor, 3, did);
                let w2 = w.clone();
                self.compute(ctx, "section_sum", false, want, &|| ns(w.clone(), || section_sum(st.clone(), 0)), &|world| { let st = world.docs[i].st.clone(); let w = w2.clone(); Box::new(move || ns(w.clone(), || section_sum(st.clone(), 0))) })?;
            }
            CNEW => { if self.lists.len() < self.maxdocs + 3 { let id = self.id(); self.lists.push(CDoc { id, st: if s.b % 2 == 0 { Stack::new() } else { Stack(None) }, mo: vec![] }); } }
            CPUSH => {
                let k = self.pickl(s.a);
                let reps = 1 + s.b % self.burst.max(self.deep);
                let (mut st, mut mo) = (self.lists[k].st.clone(), self.lists[k].mo.clone());
                let mut pushed = false;
                for j in 0..reps {
                    if mo.len() >= self.maxlen { break; }
                    let v = self.value(s.b + j);
                    let (id, n) = self.alloc(s.c + j);
                    let viahead = (s.b + j) % 3;
                    st = must(ctx, "cons push", || match (viahead, &st.0) { (0, Some(h)) => Stack(Some(h.push(n, El(v)))), (1, None) => Stack(Some(Head::new(n, El(v)))), _ => st.push(n, El(v)) })?;
                    mo.push((id, v));
                    pushed = true;
                }
                if pushed { self.put_list(k, st, mo, s.c); }
            }
            CPULL => {
                let k = self.pickl(s.a);
                let st = self.lists[k].st.clone();
                let viahead = s.b % 2 == 0;
                let r = must(ctx, "cons pull", || match (viahead, &st.0) { (true, Some(h)) => Some(Stack(h.pull())), _ => st.pull() })?;
                let mut mo = self.lists[k].mo.clone();
                match r {
                    None => ctx.check(mo.is_empty(), "cons-pull-none", || format!("pull of {:?} gave nothing", mo))?,
                    Some(t) => {
                        ctx.check(!mo.is_empty(), "cons-pull-empty", || "pull of an empty list gave a list".into())?;
                        mo.pop();
                        self.put_list(k, t, mo, s.c);
                    }
                }
            }
            CPEEK => {
                let k = self.pickl(s.a);
                let st = self.lists[k].st.clone();
                let got = must(ctx, "cons peek", || match (s.b % 2, &st.0) { (0, Some(h)) => Some(h.peek()), _ => st.peek() })?;
                let w = self.lists[k].mo.last().map(|x| x.1);
                ctx.eq("cons-peek", &got.map(|e| e.0), &w)?;
            }
            CITER => { let k = self.pickl(s.a); self.check_list(ctx, k, "iter")?; }
            CFOLD => {
                let k = self.pickl(s.a);
                let mo = self.lists[k].mo.clone();
                let did = self.lists[k].id;
                let st = self.lists[k].st.clone();
                if s.b % 5 > 2 {
                    let kind = (s.b / 5 % 3) as usize;
                    let want = if kind == 2 { mo.iter().rev().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(x.1 as u64)) } else { hash_of(&mo.iter().rev().map(|x| x.1).collect::<Vec<u32>>()) };
                    let w = self.warm(s.actor, 44 + kind as u64, did); let w2 = w.clone();
                    let f = move |st: Stack<El>, w: Name| {
                        let (n1, n2) = name_fork(w);
                        match kind {
                            0 => hash_of(&ns(n2, || memo!(name_of_str("read") =>> list_read, l: st))),
                            _ => {
                                let c = ns(n1, || cell(name_of_str("list"), st));
                                if kind == 1 { hash_of(&ns(n2, || memo!(name_of_str("observer") =>> cell_list, c: c))) } else { ns(n2, || memo!(name_of_str("observer") =>> cell_sum, c: c)) }
                            }
                        }
                    };
                    return self.compute(ctx, ["list_read", "cell_list", "cell_sum"][kind], true, want, &|| f(st.clone(), w.clone()), &|world| { let st = world.lists[k].st.clone(); let w = w2.clone(); Box::new(move || f(st.clone(), w.clone())) });
                }
                if s.b % 2 == 0 {
                    let want = mo.iter().rev().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(x.1 as u64));
                    let w = self.warm(s.actor, 4, did); let w2 = w.clone();
                    self.compute(ctx, "cons_sum", false, want, &|| ns(w.clone(), || cons_sum(st.clone(), 0)), &|world| { let st = world.lists[k].st.clone(); let w = w2.clone(); Box::new(move || ns(w.clone(), || cons_sum(st.clone(), 0))) })?;
                } else {
                    let want = hash_of(&mo.iter().rev().map(|x| x.1 ^ 5).collect::<Vec<u32>>());
                    let w = self.warm(s.actor, 5, did); let w2 = w.clone();
                    let f = |st: Stack<El>, w: Name| hash_of(&ns(w, || cons_map(st)).iter().map(|e| e.0).collect::<Vec<u32>>());
                    self.compute(ctx, "cons_map", false, want, &|| f(st.clone(), w.clone()), &|world| { let st = world.lists[k].st.clone(); let w = w2.clone(); Box::new(move || f(st.clone(), w.clone())) })?;
                }
            }
            RERUN => {
                self.conv.clear();
                // the input program runs again with the same names and edited content
                if !self.linear || self.names == 0 { return Ok(()); }
                let mut rng = Rng::new(mix(s.b, s.c));
                let mut mo = self.docs[i].mo.clone();
                for (m, _, v) in mo.arch.iter_mut() {
                    if rng.chance(1, 3) { let k = rng.below(v.len() as u64) as usize; v[k] = self.next_el + 7; self.next_el += 9; }
                    if rng.chance(1, 6) { v.push(rng.below(5) as u32); }
                    if rng.chance(1, 6) && v.len() > 1 { v.remove(0); }
                    if rng.chance(1, 6) { *m = level(self.levels, rng.below(1000)); }
                }
                if rng.chance(1, 4) && mo.arch.len() > 1 { let k = rng.below(mo.arch.len() as u64) as usize; mo.arch.remove(k); }
                if rng.chance(1, 4) { let (id, _) = self.alloc(rng.below(1000)); let v = self.value(1); let k = rng.below(mo.arch.len() as u64 + 1) as usize; mo.arch.insert(k, (level(self.levels, rng.below(999)), id, vec![v])); }
                let st = match guard(|| self.build(&mo)) { Caught::Ok(s) => s, Caught::Panic(m) => return ctx.fail("panic:rerun", m), Caught::Injected(m) => return ctx.fail("stray-injection", m.to_string()) };
                self.docs[i].st = st; self.docs[i].mo = mo;
                self.check(ctx, i, "after re-run")?;
                let k = self.pickl(s.a);
                let mut cm = self.lists[k].mo.clone();
                for x in cm.iter_mut() { if rng.chance(1, 4) { x.1 = self.next_el + 3; self.next_el += 5; } }
                if rng.chance(1, 3) && cm.len() > 1 { let k = rng.below(cm.len() as u64) as usize; cm.remove(k); }
                let st = match guard(|| self.build_list(&cm)) { Caught::Ok(s) => s, Caught::Panic(m) => return ctx.fail("panic:rerun", m), Caught::Injected(m) => return ctx.fail("stray-injection", m.to_string()) };
                self.lists[k].st = st; self.lists[k].mo = cm;
                self.check_list(ctx, k, "after re-run")?;
                ctx.count("probe:input re-run under the same names");
            }
            TWIN => {
                // the same names in two namespaces are two different stacks
                let id = self.next_name; self.next_name += 3;
                let nm: Vec<Name> = (0..3).map(|k| self.nb.name(id + k)).collect();
                let (a, b) = (ns_name(5, s.b), ns_name(6, s.b));
                // below the first sections the two may hold the same
                let same = if s.c % 3 == 0 { 0 } else { 1 + (s.c / 3 % 2) as u32 };
                let first = self.next_el;
                let at = |base: u32, k: u32| if k >= 3 - same { first + k } else { base + k };
                let mk = |base: u32, nm: &Vec<Name>| { let mut st = AS::new(); let mut l = Stack::new(); for k in 0..3u32 { st.push(El(at(base, k))); st.push(El(at(base, k) + 10)); st.archive(Some(nm[k as usize].clone()), k + 1); l = l.push(Some(name_pair(nm[k as usize].clone(), name_of_usize(2))), El(at(base, k))); } (st, l) };
                let base = self.next_el; self.next_el += 100;
                let (x, y) = (must(ctx, "twin", || ns(a, || mk(base, &nm)))?, must(ctx, "twin", || ns(b, || mk(base + 50, &nm)))?);
                let read = |t: (AS, Stack<El>)| -> (Vec<u32>, Vec<u32>) { (t.0.into_iter().map(|e| e.0).collect(), t.1.iter().map(|e| e.0).collect()) };
                let w = |base: u32| -> (Vec<u32>, Vec<u32>) { let v = [at(base, 0), at(base, 1), at(base, 2)]; (vec![v[2] + 10, v[2], v[1] + 10, v[1], v[0] + 10, v[0]], vec![v[2], v[1], v[0]]) };
                let (px, py) = (x.clone(), y.clone());
                let gx = must(ctx, "twin read", || read(x))?; let gy = must(ctx, "twin read", || read(y))?;
                ctx.eq("namespace-twin", &gx, &w(base))?;
                ctx.eq("namespace-twin", &gy, &w(base + 50))?;
                // one computation, one memo table, both twins in turn
                let shared = ns_name(7, if s.c % 2 == 0 { s.b } else { self.scratch });
                for turn in 0..3u64 {
                    let (p, want) = if (turn + s.c) % 2 == 0 { (&px, w(base)) } else { (&py, w(base + 50)) };
                    self.twin_compute(ctx, shared.clone(), p, &want)?;
                }
                ctx.count("probe:namespace twins share a memo table");
            }
            _ => {}
        }
        Ok(())
    }

    /// computations over one of two stacks that share their names
    fn twin_compute(&mut self, ctx: &mut Ctx, w: Name, p: &(AS, Stack<El>), want: &(Vec<u32>, Vec<u32>)) -> R<()> {
        let sum = want.1.iter().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64));
        let l = p.1.clone();
        let got = must(ctx, "twin sum", || quiet(|| ns(name_pair(w.clone(), name_of_usize(1)), || cons_sum(l, 0))))?;
        ctx.eq("namespace-twin-sum", &got, &sum)?;
        let l = p.1.clone();
        let got = must(ctx, "twin map", || quiet(|| ns(name_pair(w.clone(), name_of_usize(2)), || cons_map(l)).iter().map(|e| e.0).collect::<Vec<u32>>()))?;
        ctx.eq("namespace-twin-map", &got, &want.1.iter().map(|x| x ^ 5).collect::<Vec<u32>>())?;
        let mut acc = 0u64;
        for (k, v) in want.0.chunks(2).enumerate() {
            acc = acc.wrapping_mul(41).wrapping_add(3 - k as u64);
            acc = v.iter().fold(acc, |a, e| a.wrapping_mul(37).wrapping_add(*e as u64 + 1));
        }
        let st = p.0.clone();
        let got = must(ctx, "twin sections", || quiet(|| ns(name_pair(w.clone(), name_of_usize(3)), || section_sum(st, 0))))?;
        ctx.eq("namespace-twin-sections", &got, &acc)?;
        for tail in [true, false] {
            let st = p.0.clone();
            let (w1, w2) = (name_pair(w.clone(), name_of_usize(4 + tail as usize)), name_pair(w.clone(), name_of_usize(6 + tail as usize)));
            let got = must(ctx, "twin convert", || quiet(|| {
                let t: RazTree<El, Count> = ns(w1, || if tail { RazTree::memo_from(&AtTail(st)) } else { RazTree::memo_from(&AtHead(st)) });
                ns(w2, || toks_of(t))
            }))?;
            let got = conv_toks(&got, &self.nb);
            let mut e = want.0.clone(); if tail { e.reverse(); }
            ctx.eq("namespace-twin-convert", &elems(&got), &e)?;
        }
        Ok(())
    }

    fn put_list(&mut self, k: usize, st: Stack<El>, mo: CMo, c: u64) {
        if self.lists.len() < self.maxdocs + 3 && c % 3 == 0 && !self.linear { let id = self.id(); self.lists.push(CDoc { id, st, mo }); }
        else { self.lists[k].st = st; self.lists[k].mo = mo; }
    }

    fn archive(&mut self, ctx: &mut Ctx, i: usize, s: &Step) -> R<()> {
        self.nlev += 1;
        let lev = level(self.levels, if crate::razworld::counted(self.levels) { self.nlev } else { s.c });
        let (id, n) = self.alloc(s.c);
        let d = &mut self.docs[i];
        let want = !d.mo.cur.is_empty();
        if want { let v = std::mem::take(&mut d.mo.cur); d.mo.arch.push((lev, id, v)); }
        let st = &mut d.st;
        let got = must(ctx, "archive", || if s.b % 2 == 0 { st.archive(n, lev) } else { st.archive_with_capacity(n, lev, (s.b % 9) as usize) })?;
        if want { ctx.count("probe:archive point"); } else { ctx.count("probe:archive refused on an empty section"); }
        ctx.eq("stack-archive", &got, &want)
    }

    /// one operation on a fork, interrupted somewhere inside; every other handle must be untouched
    fn armed(&mut self, ctx: &mut Ctx, s: &Step, i: usize, mask: u32, n: u64) -> R<()> {
        let op = s.op as usize % OPS.len();
        let mut fork = self.docs[i].st.clone();
        let k = self.pickl(s.a);
        let l = self.lists[k].st.clone();
        arm(mask, n);
        let r = guard(move || { match op % 5 {
            0 => { fork.push(El(1)); fork.pop(); fork.pop(); fork.pop(); }
            1 => { while fork.pop_meta().is_some() {} }
            2 => { while fork.next_archive().is_some() {} }
            3 => { fork.peek(); let mut l = l; while let Some(t) = l.pull() { l = t; } }
            _ => { let _ = l.iter().count(); let _ = fork.clone().into_iter().count(); }
        } });
        disarm();
        match r {
            Caught::Ok(()) => { ctx.count("probe:armed op completed"); self.check(ctx, i, "after fork edit")?; self.check_list(ctx, k, "after fork edit") }
            Caught::Injected(site) => self.interrupted(ctx, site),
            Caught::Panic(m) => ctx.fail("panic:armed", m),
        }
    }
}

impl Sub for World {
    fn start(&mut self) { World::start(self) }
    fn step(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> { World::step(self, ctx, s) }
    fn state(&self) -> u64 { hash_of(&(self.docs.iter().map(|d| &d.mo).collect::<Vec<_>>(), self.lists.iter().map(|d| &d.mo).collect::<Vec<_>>())) }
    fn bystander(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        if self.docs.len() > 1 { let j = ((s.a + 1 + s.c) % self.docs.len() as u64) as usize; self.check(ctx, j, "bystander")?; }
        if self.lists.len() > 1 { let j = ((s.a + 1 + s.b) % self.lists.len() as u64) as usize; self.check_list(ctx, j, "bystander")?; }
        Ok(())
    }
    fn restart(&mut self, ctx: &mut Ctx) -> R<()> { World::restart(self, ctx) }
    fn finish(&mut self, ctx: &mut Ctx) -> R<()> { self.check_all(ctx, "end") }
}
pub fn sub(plan: &Plan) -> Box<dyn Sub> { Box::new(World::new(plan)) }

pub struct StackScenario {
    pub id: &'static str,
    pub weights: &'static [(usize, u64)],
    pub engines: &'static [u64],
    pub names: &'static [u64],
    pub runs: (u64, u64),
    pub rule: &'static str,
}

impl Scenario for StackScenario {
    fn id(&self) -> &'static str { self.id }
    fn ops(&self) -> &'static [&'static str] { OPS }
    fn runs(&self, t: Tier) -> u64 { if t == Tier::Quick { self.runs.0 } else { self.runs.1 } }
    fn rule(&self) -> &'static str { self.rule }
    fn gen(&self, rng: &mut Rng, tier: Tier) -> (BTreeMap<String, u64>, Vec<Step>) {
        let mut c = BTreeMap::new();
        let mut set = |k: &str, v: u64| { c.insert(k.to_string(), v); };
        set("engine", *rng.pick(self.engines));
        set("names", *rng.pick(self.names));
        set("levels", *rng.pick(LEVEL_MODES));
        set("linear", rng.below(3) % 2);
        set("meta", rng.below(4));
        set("maxdocs", rng.range(1, 5));
        let (burst, deep, maxlen) = { let small = *rng.pick(&[8, 30, 30, 80]); swarm::sizes(rng, small) };
        set("burst", burst); set("deep", deep); set("maxlen", maxlen);
        set("share_ns", rng.below(2));
        if self.id == "C15/stack" { set("meta", 2); set("share_ns", 0); }
        set("degenerate", (rng.below(12) == 0) as u64);
        let vast = burst == 1 && deep == 1 && rng.chance(1, 4000);
        if vast { set("vast", 30_000); set("maxdocs", 2); }
        let big = vast || burst > 1 || deep > 1;
        if deep > 1 { set("levels", *rng.pick(crate::razworld::DEEP_LEVEL_MODES)); }
        let steps = swarm::steps(rng, tier, OPS.len(), self.weights, if big { 30 } else { 70 }, if big { 45 } else { 160 });
        (c, steps)
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> R<()> {
        set_degenerate(plan.cfg("degenerate") == 1);
        drive(&mut World::new(plan), OPS, plan, ctx)?;
        ctx.stats.nontrivial = plan.steps.len() >= 6 && ctx.stats.counts.get("oracle:comparisons").copied().unwrap_or(0) >= 10;
        set_degenerate(false);
        Ok(())
    }
}
