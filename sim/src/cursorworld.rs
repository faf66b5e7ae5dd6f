//! The level-tree world: clients hold cursors into level trees, move, cut,
//! split and join them, and run incremental computations over whole trees.
use crate::core::*;
use crate::subs::{drive, Sub};
use crate::el::El;
use crate::iters::adaptors;
use crate::razmodel::{NameBook, UNKNOWN};
use crate::razworld::{level, LEVEL_MODES};
use crate::rng::mix;
use crate::swarm;
use adapton::engine::*;
use adapton::macros::*;
use iodyn::level_tree::{gen_branch_level, good_levels, Tree};
use iodyn::tree_cursor::{Cursor, DeriveTreeUpdate, Force, TreeUpdate, UpResult};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const OPS: &[&str] = &[
    "down_left", "down_right", "down_left_force", "down_right_force", "discard_left", "discard_right", "up", "up_discard",
    "split", "join", "split_join", "cut", "insert", "iters", "observe", "check", "clone", "drop", "new", "build",
    "compute", "reuse", "interrupt", "restart", "to_root", "walk", "good_levels",
];
pub const DL: usize = 0; pub const DR: usize = 1; pub const FL: usize = 2; pub const FR: usize = 3; pub const XL: usize = 4;
pub const XR: usize = 5; pub const UP: usize = 6; pub const UPD: usize = 7; pub const SPLIT: usize = 8; pub const JOIN: usize = 9;
pub const SJ: usize = 10; pub const CUT: usize = 11; pub const INS: usize = 12; pub const ITERS: usize = 13; pub const OBS: usize = 14;
pub const CHECK: usize = 15; pub const CLONE: usize = 16; pub const DROP: usize = 17; pub const NEW: usize = 18; pub const BUILD: usize = 19;
pub const COMPUTE: usize = 20; pub const REUSE: usize = 21; pub const INTERRUPT: usize = 22; pub const RESTART: usize = 23;
pub const ROOT: usize = 24; pub const WALK: usize = 25; pub const GOOD: usize = 26;

/// Node data: a value, and a summary the tree must keep rebuilt.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct D { v: El, size: u64, sum: u64, lev: u32, name: Option<Name> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct K(El);
pub trait Data: TreeUpdate + Clone + std::fmt::Debug + Eq + std::hash::Hash + 'static {
    fn leaf(v: u32, lev: u32, name: Option<Name>) -> Self;
    /// the data of the root of a tree built by hand
    fn made(t: &T, n: &N, name: Option<Name>) -> Self;
    fn v(&self) -> u32;
    /// the summaries kept by rebuild
    fn agrees(&self, ctx: &mut Ctx, class: &str, want: &T, lev: u32, name: &Option<Name>) -> R<()>;
}
/// data that stays as it is when its node is rebuilt
impl DeriveTreeUpdate for K {}
impl Data for K {
    fn leaf(v: u32, _lev: u32, _name: Option<Name>) -> K { K(El(v)) }
    fn made(_t: &T, n: &N, _name: Option<Name>) -> K { K(El(n.it.0)) }
    fn v(&self) -> u32 { (self.0).0 }
    fn agrees(&self, _ctx: &mut Ctx, _class: &str, _want: &T, _lev: u32, _name: &Option<Name>) -> R<()> { Ok(()) }
}
impl Data for D {
    fn leaf(v: u32, lev: u32, name: Option<Name>) -> D { D { v: El(v), size: 1, sum: v as u64 + 1, lev, name } }
    fn made(t: &T, n: &N, name: Option<Name>) -> D { let mut d = D::leaf(n.it.0, n.it.1, name); d.size = size(t); d.sum = sum(t); d }
    fn v(&self) -> u32 { self.v.0 }
    fn agrees(&self, ctx: &mut Ctx, class: &str, want: &T, lev: u32, name: &Option<Name>) -> R<()> {
        ctx.check((self.size, self.sum) == (size(want), sum(want)), class, || format!("data {:?} at the root of {}", self, text(want)))?;
        ctx.check(self.lev == lev && self.name == *name, class, || format!("data rebuilt for level {} name {:?} sits at level {} name {:?}", self.lev, self.name, lev, name))
    }
}
/// fingerprint of the values below a node, in order
const BASE: u64 = 1_000_003;
fn pow(n: u64) -> u64 { BASE.wrapping_pow(n as u32) }
impl TreeUpdate for D {
    fn rebuild(l: Option<&Self>, old: &Self, level: u32, name: Option<Name>, r: Option<&Self>) -> Self {
        REBUILDS.with(|r| r.set(r.get() + 1));
        fault_point(SITE_META, "tree rebuild");
        D { v: old.v.clone(), size: 1 + l.map_or(0, |d| d.size) + r.map_or(0, |d| d.size),
            sum: (l.map_or(0, |d| d.sum).wrapping_mul(BASE).wrapping_add(old.v.0 as u64 + 1)).wrapping_mul(pow(r.map_or(0, |d| d.size))).wrapping_add(r.map_or(0, |d| d.sum)), lev: level, name }
    }
}

thread_local! { static REBUILDS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
pub type Item = (u32, u32, Option<u64>); // value, level, name
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct N { it: Item, l: T, r: T }
pub type T = Option<Rc<N>>;

fn seq(t: &T, out: &mut Vec<Item>) { if let Some(n) = t { seq(&n.l, out); out.push(n.it); seq(&n.r, out); } }
fn items(t: &T) -> Vec<Item> { let mut v = vec![]; seq(t, &mut v); v }
/// the tree a sequence of levels determines
fn canon(s: &[Item]) -> T {
    let mut best: Option<usize> = None;
    for i in 0..s.len() { if best.map_or(true, |b| s[i].1 > s[b].1) { best = Some(i); } }
    best.map(|b| Rc::new(N { it: s[b], l: canon(&s[..b]), r: canon(&s[b + 1..]) }))
}
fn size(t: &T) -> u64 { t.as_ref().map_or(0, |n| 1 + size(&n.l) + size(&n.r)) }
fn sum(t: &T) -> u64 { let mut v = vec![]; seq(t, &mut v); v.iter().fold(0u64, |a, i| a.wrapping_mul(BASE).wrapping_add(i.0 as u64 + 1)) }
fn text(t: &T) -> String { match t { None => "-".into(), Some(n) => format!("({} {}^{}{} {})", text(&n.l), n.it.0, n.it.1, n.it.2.map(|n| format!("n{}", n)).unwrap_or_default(), text(&n.r)) } }

/// `left`: the cursor went into the left branch of `node`
#[derive(Clone)]
struct Frame { left: bool, node: Rc<N>, orig: T }
impl Frame {
    /// nothing below changed since the cursor went down
    fn clean(&self, focus: &T) -> bool {
        match (focus, if self.left { &self.node.l } else { &self.node.r }) { (None, None) => true, (Some(a), Some(b)) => Rc::ptr_eq(a, b), _ => false }
    }
}
#[derive(Clone)]
struct Mo { frames: Vec<Frame>, focus: T }
impl Mo {
    fn new(t: T) -> Mo { Mo { frames: vec![], focus: t } }
    fn up(&mut self) -> Option<bool> {
        let f = self.frames.pop()?;
        let clean = f.clean(&self.focus);
        let c = self.focus.take();
        self.focus = Some(if clean { f.node.clone() } else { Rc::new(if f.left { N { it: f.node.it, l: c, r: f.node.r.clone() } } else { N { it: f.node.it, l: f.node.l.clone(), r: c } }) });
        Some(f.left)
    }
    fn whole(&self) -> T { let mut m = self.clone(); while m.up().is_some() {} m.focus }
    fn down(&mut self, left: bool, force: u8) -> bool {
        let n = match &self.focus { None => return false, Some(n) => n.clone() };
        let c = if left { n.l.clone() } else { n.r.clone() };
        if c.is_none() && force == 0 { return false; }
        if force < 2 { self.frames.push(Frame { left, node: n, orig: self.focus.clone() }); }
        self.focus = c;
        true
    }
    fn side(&self, left: bool) -> Mo {
        Mo { frames: self.frames.iter().filter(|f| f.left != left).map(|f| Frame { left: f.left, node: f.node.clone(), orig: None }).collect(),
             focus: self.focus.as_ref().and_then(|n| if left { n.l.clone() } else { n.r.clone() }) }
    }
    /// items strictly to the left / right of the focused node
    fn beside(&self, left: bool) -> Vec<Item> { items(&self.side(left).whole()) }
    /// where a new node between two trees ends up
    fn join(l: &Mo, it: Item, r: &Mo) -> Mo {
        let mut s = items(&l.whole());
        let k = s.len();
        s.push(it);
        s.extend(items(&r.whole()));
        Mo::at(&s, k)
    }
    fn at(s: &[Item], k: usize) -> Mo {
        let mut m = Mo::new(canon(s));
        let (mut lo, mut hi) = (0, s.len());
        loop {
            let mut b = lo;
            for i in lo..hi { if s[i].1 > s[b].1 { b = i; } }
            if b == k { break; }
            m.down(k < b, 1);
            if k < b { hi = b } else { lo = b + 1 }
        }
        for f in m.frames.iter_mut() { f.orig = None; }
        m
    }
}

struct Doc<D: Data> { cur: Cursor<D>, mo: Mo, touched: bool }

struct ScriptRng { script: Vec<u64>, i: usize }
impl rand::Rng for ScriptRng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let x = self.script[self.i % self.script.len()]; self.i += 1; x }
}

struct World<D: Data> {
    docs: Vec<Doc<D>>, nb: NameBook, next_name: u64, next_el: u32, nlev: u64, scratch: u64, dcg: bool, names: u64, levels: u64,
    persist: bool, maxdocs: usize, maxlen: usize, pending: Option<(u32, u64)>, seed: u64, lr: ScriptRng, kinds: u64,
    memo: BTreeMap<(u8, u64), BTreeMap<(u64, bool), T>>,
}
fn ns_name(a: u64, b: u64) -> Name { name_pair(name_of_usize(5_000_000 + a as usize), name_of_usize(b as usize)) }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Sh { v: u32, lev: u32, name: Option<Name>, l: Option<Box<Sh>>, r: Option<Box<Sh>> }
fn work() { FAULTS.with(|f| f.borrow_mut().elem_calls += 1); fault_point(SITE_CALLBACK, "callback"); }
pub const NCOMP: u64 = 10;
const COMP: [&str; NCOMP as usize] = ["fold_up", "fold_up_meta", "fold_lr", "fold_lr_meta", "map", "fold_out", "memo_walk", "memo_nodes", "cell_up", "cell_lr"];
/// client computations of its own naming, which the engine keeps even where the tree is unnamed
fn memoised(kind: u64) -> bool { kind >= 6 }
type Seen = Vec<(u32, u32, Option<Name>)>;
/// every node from left to right, with a cursor
fn memo_walk<D: Data>(t: Tree<D>) -> Seen {
    let mut c = Cursor::from(t);
    let mut v = vec![];
    let mut came: Option<UpResult> = None;
    loop {
        match came {
            None => if c.down_left() { continue },
            Some(UpResult::Right) => {}
            Some(UpResult::Left) => { came = Some(c.up()); continue }
            Some(UpResult::Fail) => break,
        }
        work();
        if let Some(d) = c.peek() { v.push((d.v(), c.peek_level().unwrap_or(0), c.peek_name())); }
        came = if c.down_right() { None } else { Some(c.up()) };
    }
    v
}
/// one client thunk for every named node
fn memo_nodes<D: Data>(t: Tree<D>) -> Box<Sh> {
    work();
    let side = |t: Option<Tree<D>>| t.map(|t| match t.name() { None => memo_nodes(t), Some(n) => memo!(n =>> memo_nodes, t: t) });
    Box::new(Sh { v: t.peek().v(), lev: t.level(), name: t.name(), l: side(t.l_tree()), r: side(t.r_tree()) })
}
/// the tree sits in a cell which the computation observes
fn cell_up<D: Data>(c: Art<Tree<D>>) -> Sh {
    force(&c).fold_up_meta(Rc::new(|l: Option<Sh>, d: D, lev: u32, name: Option<Name>, r: Option<Sh>| { work(); Sh { v: d.v(), lev, name, l: l.map(Box::new), r: r.map(Box::new) } }))
}
fn cell_lr<D: Data>(c: Art<Tree<D>>) -> Vec<u32> { force(&c).fold_lr(vec![], Rc::new(|mut a: Vec<u32>, d: D| { work(); a.push(d.v()); a })) }

impl<D: Data> World<D> {
    fn new(plan: &Plan) -> World<D> {
        let dcg = plan.cfg("engine") == 1; let names = plan.cfg("names");
        let script: Vec<u64> = match plan.cfg("rand") { 0 => vec![0], 1 => vec![u64::MAX], 2 => vec![1 << 63], 3 => (0..64).map(|k| 1u64 << k).collect(), _ => (0..97).map(|k| mix(plan.seed, k)).collect() };
        World { docs: vec![], nb: NameBook::default(), next_name: 1, next_el: 1, nlev: 0, scratch: 0, dcg, names, levels: plan.cfg("levels"), persist: !dcg || names == 0,
            maxdocs: plan.cfg("maxdocs").max(2) as usize, maxlen: plan.cfg("maxlen").max(4) as usize, pending: None, seed: plan.seed,
            lr: ScriptRng { script, i: 0 }, kinds: plan.cfg("kinds"), memo: BTreeMap::new() }
    }
    fn start(&self) { crate::subs::start_engine(self.dcg); }
    fn lev(&mut self, ctx: &mut Ctx, a: u64) -> R<u32> {
        self.nlev += 1;
        if self.levels == 9 {
            let l = gen_branch_level(&mut self.lr);
            ctx.check(l >= 1 && l <= 64, "generated-level", || format!("generated branch level {}", l))?;
            return Ok(l);
        }
        Ok(level(self.levels, if crate::razworld::counted(self.levels) { self.nlev } else { a }))
    }
    fn item(&mut self, ctx: &mut Ctx, a: u64) -> R<(Item, Option<Name>)> {
        let lev = self.lev(ctx, a)?;
        let v = if a % 5 == 0 { (a / 5 % 4) as u32 } else { self.next_el += 1; self.next_el };
        let named = match self.names { 0 => false, 1 => true, _ => mix(a, 3) % 2 == 0 };
        if !named { return Ok(((v, lev, None), None)); }
        let id = self.next_name; self.next_name += 1;
        Ok(((v, lev, Some(id)), Some(self.nb.name(id))))
    }
    fn make(&mut self, t: &T) -> Option<Tree<D>> {
        t.as_ref().and_then(|n| {
            let (l, r) = (self.make(&n.l), self.make(&n.r));
            let name = n.it.2.map(|i| self.nb.name(i));
            let d = D::made(t, n, name.clone());
            Tree::new(n.it.1, name, d, l, r)
        })
    }
    fn rebuild(&mut self, mo: &Mo) -> (Cursor<D>, Mo) {
        let w = mo.whole();
        let mut c = match self.make(&w) { None => Cursor::new(), Some(t) => Cursor::from(t) };
        let mut m = Mo::new(w);
        for f in &mo.frames {
            m.down(f.left, 1);
            if f.left { c.down_left_force(Force::Yes); } else { c.down_right_force(Force::Yes); }
        }
        (c, m)
    }
    fn restart(&mut self, ctx: &mut Ctx) -> R<()> {
        self.start();
        ctx.count("fault:engine restart");
        ctx.ev("engine restart");
        self.memo.clear();
        if !self.persist {
            for i in 0..self.docs.len() {
                let m = self.docs[i].mo.clone();
                match guard(|| self.rebuild(&m)) {
                    Caught::Ok((c, m)) => { self.docs[i] = Doc { cur: c, mo: m, touched: false }; }
                    Caught::Panic(m) => return ctx.fail("panic:rebuild", m),
                    Caught::Injected(m) => return ctx.fail("stray-injection", m.to_string()),
                }
            }
        }
        for i in 0..self.docs.len() { self.check(ctx, i, "after restart")?; }
        Ok(())
    }
    fn read(&self, t: &Option<Tree<D>>) -> Option<Box<Sh>> {
        t.as_ref().map(|t| { let d = t.peek(); Box::new(Sh { v: d.v(), lev: t.level(), name: t.name(), l: self.read(&t.l_tree()), r: self.read(&t.r_tree()) }) })
    }
    fn conv(&self, s: &Option<Box<Sh>>) -> T { s.as_ref().map(|s| Rc::new(N { it: (s.v, s.lev, self.nb.opt(&s.name)), l: self.conv(&s.l), r: self.conv(&s.r) })) }
    fn compare(&self, ctx: &mut Ctx, class: &str, t: &Option<Tree<D>>, want: &T) -> R<()> {
        let got = must(ctx, "read tree", || quiet(|| self.read(t)))?;
        let got = self.conv(&got);
        ctx.check(got == *want, class, || format!("tree {} but the reference says {}", text(&got), text(want)))
    }
    /// the summaries kept by rebuild
    fn data(&self, ctx: &mut Ctx, class: &str, t: &Option<Tree<D>>, want: &T) -> R<()> {
        if let (Some(t), Some(w)) = (t, want) {
            let (d, l, r, lev, name) = must(ctx, "read tree", || quiet(|| (t.peek(), t.l_tree(), t.r_tree(), t.level(), t.name())))?;
            d.agrees(ctx, class, want, lev, &name)?;
            self.data(ctx, class, &l, &w.l)?;
            self.data(ctx, class, &r, &w.r)?;
        }
        Ok(())
    }
    fn lib_whole(&self, ctx: &mut Ctx, c: &Cursor<D>, want: &Mo) -> R<Option<Tree<D>>> {
        let mut c = c.clone();
        let mut dirs = vec![];
        let cap = want.frames.len() + 2;
        must(ctx, "up", || quiet(|| while dirs.len() < cap { match c.up() { UpResult::Fail => break, UpResult::Left => dirs.push(false), UpResult::Right => dirs.push(true) } }))?;
        let w: Vec<bool> = want.frames.iter().rev().map(|f| f.left).collect();
        ctx.eq("climb", &dirs, &w)?;
        Ok(c.at_tree())
    }
    fn check(&mut self, ctx: &mut Ctx, i: usize, why: &str) -> R<()> {
        ctx.count("probe:cursor fully checked");
        let mo = self.docs[i].mo.clone();
        let at = self.docs[i].cur.at_tree();
        self.compare(ctx, &format!("focus:{}", why), &at, &mo.focus)?;
        self.data(ctx, &format!("focus-data:{}", why), &at, &mo.focus)?;
        let c = self.docs[i].cur.clone();
        let t = self.lib_whole(ctx, &c, &mo)?;
        let want = mo.whole();
        self.compare(ctx, &format!("whole:{}", why), &t, &want)?;
        self.data(ctx, &format!("whole-data:{}", why), &t, &want)?;
        let cn = canon(&items(&want));
        ctx.check(cn == want, "model", || "reference tree is not canonical".into())?;
        if let Some(t) = &t { let g = must(ctx, "good_levels", || quiet(|| good_levels(t)))?; ctx.check(g, "good-levels-rejects", || format!("good_levels rejects {}", text(&want)))?; }
        Ok(())
    }
    fn pick(&mut self, a: u64) -> usize {
        if self.docs.is_empty() { self.docs.push(Doc { cur: Cursor::new(), mo: Mo::new(None), touched: false }); }
        (a % self.docs.len() as u64) as usize
    }
    fn observe(&mut self, ctx: &mut Ctx, i: usize) -> R<()> {
        let mo = self.docs[i].mo.clone();
        let c = &self.docs[i].cur;
        let (p, l, n, lt, rt) = must(ctx, "observe", || (c.peek(), c.peek_level(), c.peek_name(), c.left_tree(), c.right_tree()))?;
        let f = mo.focus.clone();
        ctx.eq("peek", &p.map(|d| d.v()), &f.as_ref().map(|n| n.it.0))?;
        ctx.eq("peek-level", &l, &f.as_ref().map(|n| n.it.1))?;
        ctx.eq("peek-name", &self.nb.opt(&n), &f.as_ref().and_then(|n| n.it.2))?;
        self.compare(ctx, "left-tree", &lt, &f.as_ref().and_then(|n| n.l.clone()))?;
        self.compare(ctx, "right-tree", &rt, &f.as_ref().and_then(|n| n.r.clone()))
    }
    fn interrupted(&mut self, ctx: &mut Ctx, site: &'static str) -> R<()> {
        ctx.count("fault:interruption");
        ctx.count(match site { "callback" => "fault:interrupted in callback", "tree rebuild" => "fault:interrupted in tree rebuild", "element clone" => "fault:interrupted in element clone",
            "element hash" => "fault:interrupted in element hash", _ => "fault:interrupted in element eq" });
        ctx.ev(&format!("interrupted in {}", site));
        if !self.persist { self.restart(ctx) } else {
            for i in 0..self.docs.len() { self.check(ctx, i, "after interruption")?; }
            if self.dcg && (self.seed ^ ctx.step as u64) % 2 == 0 { self.restart(ctx)?; }
            Ok(())
        }
    }

    fn compute(&self, kind: u64, t: Option<Tree<D>>, nsn: Name) -> String {
        let t = match t { None => return "empty".into(), Some(t) => t };
        match kind {
            0 => { let r = ns(nsn, || t.fold_up(Rc::new(|l: Option<Sh>, d: D, r: Option<Sh>| { work(); Sh { v: d.v(), lev: 0, name: None, l: l.map(Box::new), r: r.map(Box::new) } }))); text(&self.conv(&Some(Box::new(r)))) }
            1 => { let r = ns(nsn, || t.fold_up_meta(Rc::new(|l: Option<Sh>, d: D, lev: u32, name: Option<Name>, r: Option<Sh>| { work(); Sh { v: d.v(), lev, name, l: l.map(Box::new), r: r.map(Box::new) } }))); text(&self.conv(&Some(Box::new(r)))) }
            2 => format!("{:?}", ns(nsn, || t.fold_lr(vec![], Rc::new(|mut a: Vec<u32>, d: D| { work(); a.push(d.v()); a })))),
            3 => {
                let start = name_of_string("begin".to_string());
                let v = ns(nsn, || t.fold_lr_meta(Some(start), vec![], Rc::new(|mut a: Vec<(u32, u32, Option<Name>)>, d: D, l: u32, n: Option<Name>| { work(); a.push((d.v(), l, n)); a })));
                format!("{:?}", v.into_iter().map(|(v, l, n)| (v, l, self.nb.opt(&n))).collect::<Vec<_>>())
            }
            4 => {
                let m: Tree<(u32, u64)> = ns(nsn, || t.map(Rc::new(|d: D, lev: u32, _n: Option<Name>, l: Option<&Tree<(u32, u64)>>, r: Option<&Tree<(u32, u64)>>| {
                    work(); (d.v() ^ 9, (lev as u64 + 10 * l.map_or(0, |t| t.peek().1) + 100 * r.map_or(0, |t| t.peek().1)) % 1_000_003) })));
                fn rd<D: Data>(w: &World<D>, t: &Option<Tree<(u32, u64)>>) -> String { match t { None => "-".into(), Some(t) => { let d = t.peek(); format!("({} {}:{}^{}{:?} {})", rd(w, &t.l_tree()), d.0, d.1, t.level(), w.nb.opt(&t.name()), rd(w, &t.r_tree())) } } }
                rd(self, &Some(m))
            }
            6 => {
                let v = ns(nsn, || memo!(name_of_str("walk") =>> memo_walk, t: t));
                format!("{:?}", v.into_iter().map(|(v, l, n)| (v, l, self.nb.opt(&n))).collect::<Vec<_>>())
            }
            7 => { let r = ns(nsn, || memo!(name_of_str("nodes") =>> memo_nodes, t: t)); text(&self.conv(&Some(r))) }
            8 | 9 => {
                let (n1, n2) = name_fork(nsn);
                let c = ns(n1, || cell(name_of_str("document"), t));
                if kind == 8 { let r = ns(n2, || memo!(name_of_str("observer") =>> cell_up, c: c)); text(&self.conv(&Some(Box::new(r)))) }
                else { format!("{:?}", ns(n2, || memo!(name_of_str("observer") =>> cell_lr, c: c))) }
            }
            _ => {
                let mut c = Cursor::from(t);
                // iterate everything to the right of a position before the first node
                c.down_left_force(Force::Yes);
                while c.at_tree().is_some() { c.down_left_force(Force::Yes); }
                let (_, _, r) = c.into_iters();
                format!("{:?}", ns(nsn, || r.fold_out(vec![], Rc::new(|mut a: Vec<u32>, d: D| { work(); a.push(d.v()); a }))))
            }
        }
    }
    fn reference(&self, kind: u64, t: &T) -> String {
        if t.is_none() { return "empty".into(); }
        match kind {
            0 => { fn f(t: &T) -> T { t.as_ref().map(|n| Rc::new(N { it: (n.it.0, 0, None), l: f(&n.l), r: f(&n.r) })) } text(&f(t)) }
            1 | 7 | 8 => text(t),
            6 => format!("{:?}", items(t)),
            2 | 5 | 9 => format!("{:?}", items(t).iter().map(|i| i.0).collect::<Vec<_>>()),
            3 => {
                // a node without branches is handed the name carried from its predecessor
                fn f(t: &T, carry: &mut Option<u64>, out: &mut Vec<(u32, u32, Option<u64>)>) {
                    if let Some(n) = t {
                        if n.l.is_none() && n.r.is_none() { out.push((n.it.0, n.it.1, *carry)); return; }
                        f(&n.l, carry, out);
                        out.push(n.it);
                        *carry = n.it.2;
                        f(&n.r, carry, out);
                    }
                }
                let mut v = vec![]; f(t, &mut Some(UNKNOWN), &mut v);
                format!("{:?}", v)
            }
            _ => {
                fn g(t: &T) -> u64 { t.as_ref().map_or(0, |n| (n.it.1 as u64 + 10 * g(&n.l) + 100 * g(&n.r)) % 1_000_003) }
                fn f(t: &T) -> String { match t { None => "-".into(), Some(n) => format!("({} {}:{}^{}{:?} {})", f(&n.l), n.it.0 ^ 9, g(t), n.it.1, n.it.2, f(&n.r)) } }
                f(t)
            }
        }
    }
    fn whole_tree(&mut self, ctx: &mut Ctx, i: usize) -> R<(Option<Tree<D>>, T)> {
        // computing on the whole tree is done from the root
        let mo = self.docs[i].mo.clone();
        let c = self.docs[i].cur.clone();
        Ok((self.lib_whole(ctx, &c, &mo)?, mo.whole()))
    }
    fn run_compute(&mut self, ctx: &mut Ctx, i: usize, s: &Step) -> R<()> {
        let ks: Vec<u64> = (0..NCOMP).filter(|k| self.kinds & (1 << k) != 0).collect();
        if ks.is_empty() { return Ok(()); }
        let kind = ks[(s.b % ks.len() as u64) as usize];
        let (t, m) = self.whole_tree(ctx, i)?;
        // map's products overflow on deep trees; keep its numbers small
        if kind == 4 && size(&m) > 12 { return Ok(()); }
        if kind == 4 && items(&m).iter().any(|i| i.1 > 10_000) { return Ok(()); }
        let want = self.reference(kind, &m);
        let nsn = ns_name(10 + s.actor as u64, kind);
        if let Some((m, n)) = self.pending.take() { arm(m, n); }
        let r = guard(|| self.compute(kind, t, nsn.clone()));
        disarm();
        match r {
            Caught::Ok(g) => { ctx.evh(COMP[kind as usize], hash_of(&g)); ctx.eq(&format!("compute:{}", COMP[kind as usize]), &g, &want) }
            Caught::Panic(e) => ctx.fail(&format!("panic:compute:{}", COMP[kind as usize]), format!("{} on {}", e, text(&m))),
            Caught::Injected(site) => {
                self.interrupted(ctx, site)?;
                if self.dcg && memoised(kind) { self.restart(ctx)?; }
                let (t, _) = self.whole_tree(ctx, i)?;
                ctx.count("probe:retry after interruption");
                match guard(|| self.compute(kind, t, nsn)) {
                    Caught::Ok(g) => ctx.eq(&format!("retry:{}", COMP[kind as usize]), &g, &want),
                    Caught::Panic(e) => ctx.fail(&format!("panic:retry:{}", COMP[kind as usize]), e),
                    Caught::Injected(e) => ctx.fail("stray-injection", e.to_string()),
                }
            }
        }
    }
    /// how much work a demand repeats
    fn reuse(&mut self, ctx: &mut Ctx, i: usize, s: &Step) -> R<()> {
        if !self.dcg || self.names != 1 { return Ok(()); }
        let kind = [0u64, 1, 2, 3, 4][(s.b % 5) as usize];
        let (t, m) = self.whole_tree(ctx, i)?;
        if m.is_none() { return Ok(()); }
        let lr = matches!(kind, 2 | 3);
        let memo = self.memo.entry((s.actor, kind)).or_default();
        // keys not met this time are forgotten: what they stored may have been overwritten since
        fn f(t: &T, key: Option<(u64, bool)>, old: &BTreeMap<(u64, bool), T>, new: &mut BTreeMap<(u64, bool), T>) -> u64 {
            let n = match t { None => return 0, Some(n) => n };
            let nm = n.it.2.unwrap_or(0);
            let hit = match key { Some(k) => { let h = old.get(&k) == Some(t); new.insert(k, t.clone()); h } None => false };
            let below = f(&n.l, Some((nm, false)), old, new) + f(&n.r, Some((nm, true)), old, new);
            if hit { 0 } else { 1 + below }
        }
        let mut new = BTreeMap::new();
        let bound = f(&m, None, memo, &mut new);
        *memo = new;
        let nsn = ns_name(500 + s.actor as u64, kind);
        let run = |w: &World<D>, t: Option<Tree<D>>| { FAULTS.with(|f| f.borrow_mut().elem_calls = 0); let r = guard(|| w.compute(kind, t, nsn.clone())); (r, FAULTS.with(|f| f.borrow().elem_calls)) };
        let (r1, c1) = run(self, t.clone());
        let (r2, c2) = run(self, t);
        for (r, n) in [(r1, "first"), (r2, "again")] {
            match r { Caught::Ok(g) => { let w = self.reference(kind, &m); ctx.eq(&format!("compute:{}:{}", COMP[kind as usize], n), &g, &w)?; }
                Caught::Panic(e) => return ctx.fail("panic:reuse", e), Caught::Injected(e) => return ctx.fail("stray-injection", e.to_string()) }
        }
        ctx.count("probe:work counted");
        if bound <= 1 { ctx.count("probe:work counted with nothing changed"); }
        ctx.check(c2 <= 1, "reuse-unchanged", || format!("re-demanding {} on an unchanged tree of {} nodes ran the callback {} times", COMP[kind as usize], size(&m), c2))?;
        if !lr { ctx.check(c1 <= bound, "reuse-changed", || format!("{} ran the callback {} times; {} of {} nodes changed", COMP[kind as usize], c1, bound, size(&m)))?; }
        Ok(())
    }

    fn step(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        let op = s.op as usize % OPS.len();
        let i = self.pick(s.a);
        if !matches!(op, INTERRUPT | COMPUTE) { if let Some((m, n)) = self.pending.take() { return self.armed(ctx, s, i, m, n); } }
        match op {
            DL | DR | FL | FR | XL | XR => {
                let left = matches!(op, DL | FL | XL);
                let force = match op { DL | DR => 0, FL | FR => 1, _ => 2 };
                // cutting is rare in large trees
                if force == 2 && s.b % 3 != 0 && size(&self.docs[i].mo.whole()) > 6 { return Ok(()); }
                let d = &mut self.docs[i];
                let want = d.mo.down(left, force);
                let c = &mut d.cur;
                let got = must(ctx, "down", || match (force, left, s.c % 2) {
                    (0, true, 0) => c.down_left(), (0, false, 0) => c.down_right(),
                    (0, true, _) => c.down_left_force(Force::No), (0, false, _) => c.down_right_force(Force::No),
                    (1, true, _) => c.down_left_force(Force::Yes), (1, false, _) => c.down_right_force(Force::Yes),
                    (_, true, _) => c.down_left_force(Force::Discard), (_, false, _) => c.down_right_force(Force::Discard) })?;
                if force == 2 && want { self.docs[i].touched = true; ctx.count("probe:branch discarded"); }
                ctx.eq("down", &got, &want)?;
                self.observe(ctx, i)?;
            }
            UP | ROOT => {
                for _ in 0..if op == UP { 1 } else { 1000 } {
                    let d = &mut self.docs[i];
                    let clean = d.mo.frames.last().map_or(true, |f| f.orig.is_some() && f.clean(&d.mo.focus));
                    let want = d.mo.up();
                    let c = &mut d.cur;
                    let before = REBUILDS.with(|r| r.get());
                    let got = must(ctx, "up", || match c.up() { UpResult::Fail => None, UpResult::Left => Some(false), UpResult::Right => Some(true) })?;
                    ctx.eq("up", &got, &want)?;
                    if clean && got.is_some() {
                        ctx.count("probe:left an unchanged branch");
                        let n = REBUILDS.with(|r| r.get()) - before;
                        ctx.check(n == 0, "rebuilt-unchanged", || format!("moving up from an unchanged branch rebuilt {} nodes", n))?;
                    }
                    if got.is_none() { break; }
                }
                self.observe(ctx, i)?;
            }
            UPD => {
                let named = !self.persist;
                let d = &mut self.docs[i];
                if named && d.touched { return Ok(()); }
                match d.mo.frames.last() { Some(f) if f.orig.is_none() => return Ok(()), _ => {} }
                let want = d.mo.frames.pop().map(|f| { d.mo.focus = f.orig.clone(); f.left });
                let c = &mut d.cur;
                let got = must(ctx, "up_discard", || match c.up_discard() { UpResult::Fail => None, UpResult::Left => Some(false), UpResult::Right => Some(true) })?;
                ctx.eq("up-discard", &got, &want)?;
                self.observe(ctx, i)?;
            }
            WALK => {
                let mut rng = crate::rng::Rng::new(mix(s.b, s.c));
                for _ in 0..1 + s.b % 12 {
                    let d = &mut self.docs[i];
                    let left = rng.chance(1, 2);
                    let want = d.mo.down(left, 0);
                    let c = &mut d.cur;
                    let got = must(ctx, "down", || if left { c.down_left() } else { c.down_right() })?;
                    ctx.eq("down", &got, &want)?;
                }
                self.observe(ctx, i)?;
            }
            SPLIT => {
                if self.docs.len() >= self.maxdocs { return Ok(()); }
                let c = self.take(i);
                let mo = self.docs[i].mo.clone();
                let (l, t, r) = must(ctx, "split", || c.split())?;
                self.compare(ctx, "split-node", &t, &mo.focus)?;
                self.docs[i] = Doc { cur: l, mo: mo.side(true), touched: true };
                self.docs.push(Doc { cur: r, mo: mo.side(false), touched: true });
                let k = self.docs.len() - 1;
                ctx.count("probe:split");
                self.check(ctx, i, "split-left")?;
                self.check(ctx, k, "split-right")?;
            }
            JOIN => {
                let j = self.pick(s.b);
                if i == j || size(&self.docs[i].mo.whole()) + size(&self.docs[j].mo.whole()) > self.maxlen as u64 { return Ok(()); }
                if self.persist && !self.disjoint(i, j) { /* shared versions may be joined with themselves */ }
                if self.names != 0 && !self.disjoint(i, j) { return Ok(()); }
                let (it, n) = self.item(ctx, s.c)?;
                let (l, r) = (self.take(i), self.take(j));
                let mo = Mo::join(&self.docs[i].mo, it, &self.docs[j].mo);
                self.join(ctx, l, it, n, r, mo, i)?;
                if !self.persist { self.docs.remove(j); }
            }
            SJ | CUT | INS => {
                // take the tree apart at the cursor and put it back together
                let mo = self.docs[i].mo.clone();
                let f = match &mo.focus { Some(f) => f.clone(), None => { if op != INS { return Ok(()); } return self.insert_at_gap(ctx, i, s); } };
                if op == INS && size(&mo.whole()) > self.maxlen as u64 { return Ok(()); }
                let c = self.take(i);
                let (l, t, r) = must(ctx, "split", || c.split())?;
                self.compare(ctx, "split-node", &t, &mo.focus)?;
                let (lm, rm) = (mo.side(true), mo.side(false));
                match op {
                    SJ => {
                        // same node, possibly with a new level
                        let lev = if s.b % 2 == 0 { f.it.1 } else { self.lev(ctx, s.c)? };
                        let it = (f.it.0, lev, f.it.2);
                        let n = f.it.2.map(|x| self.nb.name(x));
                        ctx.count("probe:split and rejoined");
                        let m = Mo::join(&lm, it, &rm);
                        self.join(ctx, l, it, n, r, m, i)?;
                    }
                    CUT => {
                        // drop the focused node, joining through a neighbour
                        let (it, n) = self.item(ctx, s.c)?;
                        let m = Mo::join(&lm, it, &rm);
                        ctx.count("probe:node replaced");
                        self.join(ctx, l, it, n, r, m, i)?;
                    }
                    _ => {
                        // a new node just before or after the focused one
                        let (it, n) = self.item(ctx, s.c)?;
                        let keep = f.it;
                        let kn = keep.2.map(|x| self.nb.name(x));
                        ctx.count("probe:node inserted");
                        if s.b % 2 == 0 {
                            let m1 = Mo::join(&lm, it, &Mo::new(None));
                            let d = D::leaf(it.0, it.1, n.clone());
                            let c1 = must(ctx, "join", || Cursor::join(l, it.1, n, d, Cursor::new()))?;
                            let m2 = Mo::join(&m1, keep, &rm);
                            self.join(ctx, c1, keep, kn, r, m2, i)?;
                        } else {
                            let m1 = Mo::join(&Mo::new(None), it, &rm);
                            let d = D::leaf(it.0, it.1, n.clone());
                            let c1 = must(ctx, "join", || Cursor::join(Cursor::with_depth(3), it.1, n, d, r))?;
                            let m2 = Mo::join(&lm, keep, &m1);
                            self.join(ctx, l, keep, kn, c1, m2, i)?;
                        }
                    }
                }
                self.check(ctx, i, "after edit")?;
            }
            ITERS => {
                let mo = self.docs[i].mo.clone();
                let c = self.docs[i].cur.clone();
                let want: Vec<u32> = mo.beside(false).iter().map(|i| i.0).collect();
                let cap = want.len() + 2;
                let (_l, t, r) = must(ctx, "into_iters", || c.into_iters())?;
                self.compare(ctx, "iter-node", &t, &mo.focus)?;
                let r2 = r.clone();
                let r3 = r.clone();
                let got: Vec<u32> = must(ctx, "iterate", || r.take(cap).map(|d| d.v()).collect())?;
                ctx.eq("iter-right", &got, &want)?;
                adaptors(ctx, "iter-adaptors", || r3, |d: D| d.v(), &want, mix(s.b, s.c))?;
                self.scratch += 1;
                let nsn = ns_name(3, self.scratch);
                let got = must(ctx, "fold_out", || ns(nsn, || r2.fold_out(vec![], Rc::new(|mut a: Vec<u32>, d: D| { a.push(d.v()); a }))))?;
                ctx.eq("fold-out", &got, &want)?;
                ctx.count("probe:iterated");
            }
            OBS => self.observe(ctx, i)?,
            CHECK => self.check(ctx, i, "check")?,
            CLONE => if self.persist && self.docs.len() < self.maxdocs {
                let d = Doc { cur: self.docs[i].cur.clone(), mo: self.docs[i].mo.clone(), touched: self.docs[i].touched };
                self.docs.push(d); ctx.count("probe:fork");
            },
            DROP => if self.docs.len() > 1 { self.docs.remove(i); },
            NEW => if self.docs.len() < self.maxdocs { self.docs.push(Doc { cur: if s.b % 2 == 0 { Cursor::new() } else { Cursor::with_depth(7) }, mo: Mo::new(None), touched: false }); },
            BUILD => if self.docs.len() < self.maxdocs {
                let n = if self.maxlen > 100 { 1 + (s.b * 7 + s.c) % self.maxlen as u64 } else { 1 + s.b % (self.maxlen as u64).min(if s.b % 11 == 0 { 60 } else { 14 }) };
                let mut v = vec![];
                for k in 0..n { v.push(self.item(ctx, s.c + k)?.0); }
                let m = canon(&v);
                let t = match guard(|| self.make(&m)) { Caught::Ok(t) => t.unwrap(), Caught::Panic(m) => return ctx.fail("panic:build", m), Caught::Injected(m) => return ctx.fail("stray-injection", m.to_string()) };
                self.docs.push(Doc { cur: Cursor::from(t), mo: Mo::new(m), touched: false });
            },
            COMPUTE => self.run_compute(ctx, i, s)?,
            REUSE => self.reuse(ctx, i, s)?,
            INTERRUPT => {
                let masks = [SITE_CALLBACK, SITE_CLONE, SITE_META, SITE_HASH | SITE_EQ, SITE_CALLBACK | SITE_CLONE | SITE_META];
                self.pending = Some((masks[(s.b % masks.len() as u64) as usize], countdown(s.c)));
            }
            RESTART => {
                // without names nothing lives in the engine's store, so data also survives a switch of engines
                if self.names == 0 && s.b % 3 == 0 { self.dcg = !self.dcg; ctx.count("fault:engine switch"); }
                self.restart(ctx)?
            }
            GOOD => {
                // trees with one misplaced level are rejected, with the convention's ties accepted
                let (a, b) = (1 + (s.b % 5) as u32, 1 + (s.c % 5) as u32);
                let mk = |lv: u32, l: Option<Tree<u32>>, r: Option<Tree<u32>>| Tree::new(lv, None, 7u32, l, r);
                let l = must(ctx, "good_levels", || good_levels(&mk(a, mk(b, None, None), None).unwrap()))?;
                ctx.eq("good-levels-left", &l, &(b < a))?;
                let r = must(ctx, "good_levels", || good_levels(&mk(a, None, mk(b, None, None)).unwrap()))?;
                ctx.eq("good-levels-right", &r, &(b <= a))?;
                let deep = must(ctx, "good_levels", || good_levels(&mk(9, mk(8, None, mk(a, None, mk(b, None, None))), mk(9, None, None)).unwrap()))?;
                ctx.eq("good-levels-deep", &deep, &(b <= a))?;
                let deep = must(ctx, "good_levels", || good_levels(&mk(9, None, mk(8, mk(a, mk(b, None, None), None), None)).unwrap()))?;
                ctx.eq("good-levels-deep", &deep, &(b < a))?;
                // a tree of any size and shape, one level of it possibly out of order, however deep
                let mut rng = crate::rng::Rng::new(mix(s.b, s.c));
                let n = 2 + if rng.chance(1, 3) { rng.below(200) } else { rng.below(20) };
                let spine = rng.below(4); // mostly left, mostly right, zigzag, anything
                let off = if rng.chance(1, 3) { None } else { Some(rng.below(n)) };
                let (mut lev, mut want) = (1 + rng.below(3) as u32, true);
                let mut t: Option<Tree<u32>> = None;
                let mut below: Option<(u32, bool)> = None;
                for k in 0..n {
                    let left = match spine { 0 => !rng.chance(1, 10), 1 => rng.chance(1, 10), 2 => k % 2 == 0, _ => rng.chance(1, 2) };
                    let up = if let Some((l, _)) = below { lev = l.max(lev); if left || rng.chance(1, 2) { lev + 1 + rng.below(2) as u32 } else { lev } } else { lev };
                    let this = if off == Some(k) && below.is_some() { below.unwrap().0.saturating_sub(rng.below(2) as u32).max(1) } else { up };
                    if let Some((l, _)) = below { if if left { l >= this } else { l > this } { want = false; } }
                    let side = if rng.chance(1, 5) { mk(1, None, None) } else { None };
                    let side_ok = side.is_none() || this > 1 || left;
                    let side = if side_ok { side } else { None };
                    t = if t.is_none() { mk(this, None, None) } else if left { mk(this, t.take(), side) } else { mk(this, side, t.take()) };
                    below = Some((this, left)); lev = this.max(up);
                }
                let t = t.unwrap();
                let got = must(ctx, "good_levels", || good_levels(&t))?;
                ctx.eq("good-levels-any", &got, &want)?;
                ctx.count(if want { "probe:good_levels accepts" } else { "probe:good_levels rejects one misplaced level" });
            }
            _ => {}
        }
        Ok(())
    }
    fn disjoint(&self, i: usize, j: usize) -> bool {
        let a = items(&self.docs[i].mo.whole()); let b = items(&self.docs[j].mo.whole());
        !a.iter().any(|x| x.2.is_some() && b.iter().any(|y| y.2 == x.2))
    }
    fn take(&mut self, i: usize) -> Cursor<D> { self.docs[i].cur.clone() }
    fn join(&mut self, ctx: &mut Ctx, l: Cursor<D>, it: Item, n: Option<Name>, r: Cursor<D>, mo: Mo, i: usize) -> R<()> {
        let d = D::leaf(it.0, it.1, n.clone());
        let c = must(ctx, "join", || Cursor::join(l, it.1, n, d, r))?;
        ctx.count("probe:join");
        self.docs[i] = Doc { cur: c, mo, touched: true };
        self.observe(ctx, i)?;
        self.check(ctx, i, "join")
    }
    /// a new node at an empty position
    fn insert_at_gap(&mut self, ctx: &mut Ctx, i: usize, s: &Step) -> R<()> {
        let mo = self.docs[i].mo.clone();
        if size(&mo.whole()) > self.maxlen as u64 { return Ok(()); }
        let (it, n) = self.item(ctx, s.c)?;
        let c = self.take(i);
        let (l, t, r) = must(ctx, "split", || c.split())?;
        ctx.check(t.is_none(), "split-empty", || "split at an empty position returned a node".into())?;
        let m = Mo::join(&mo.side(true), it, &mo.side(false));
        ctx.count("probe:node inserted in a gap");
        self.join(ctx, l, it, n, r, m, i)
    }
    fn armed(&mut self, ctx: &mut Ctx, s: &Step, i: usize, mask: u32, n: u64) -> R<()> {
        let mut c = self.docs[i].cur.clone();
        let other = self.docs[(s.b % self.docs.len() as u64) as usize].cur.clone();
        let persist = self.persist;
        arm(mask, n);
        let r = guard(move || match s.op % 4 {
            0 => { while c.up() != UpResult::Fail {} }
            1 => { let (_, _, r) = c.into_iters(); let _ = r.count(); }
            2 if persist => { let (l, _, r) = c.split(); let d = D::leaf(3, 4, None); let _ = Cursor::join(l, 4, None, d, r); }
            3 if persist => { let d = D::leaf(5, 2, None); let _ = Cursor::join(c, 2, None, d, other); }
            _ => { while c.down_left() {} while c.up() != UpResult::Fail {} }
        });
        disarm();
        match r {
            Caught::Ok(()) => { ctx.count("probe:armed op completed"); self.check(ctx, i, "after fork edit") }
            Caught::Injected(site) => self.interrupted(ctx, site),
            Caught::Panic(m) => ctx.fail("panic:armed", m),
        }
    }
}

impl<D: Data> Sub for World<D> {
    fn start(&mut self) { World::start(self) }
    fn step(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> { World::step(self, ctx, s) }
    fn state(&self) -> u64 { hash_of(&self.docs.iter().map(|d| (d.mo.frames.iter().map(|f| (f.left, f.node.it)).collect::<Vec<_>>(), &d.mo.focus)).collect::<Vec<_>>()) }
    fn bystander(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        if self.docs.len() > 1 { let j = ((s.a + 1 + s.c) % self.docs.len() as u64) as usize; self.check(ctx, j, "bystander")?; }
        Ok(())
    }
    fn restart(&mut self, ctx: &mut Ctx) -> R<()> { World::restart(self, ctx) }
    fn finish(&mut self, ctx: &mut Ctx) -> R<()> {
        for i in 0..self.docs.len() { self.check(ctx, i, "end")?; }
        for i in 0..self.docs.len() { for k in 0..NCOMP { if self.kinds & (1 << k) != 0 {
            let b = (0..k).filter(|j| self.kinds & (1 << j) != 0).count() as u64;
            self.run_compute(ctx, i, &Step { actor: 0, op: COMPUTE as u8, a: i as u64, b, c: 0 })?;
        } } }
        Ok(())
    }
}
pub fn sub(plan: &Plan) -> Box<dyn Sub> { if plan.cfg("plain") == 1 { Box::new(World::<K>::new(plan)) } else { Box::new(World::<D>::new(plan)) } }

pub struct CursorScenario {
    pub id: &'static str,
    pub weights: &'static [(usize, u64)],
    pub engines: &'static [u64],
    pub names: &'static [u64],
    pub runs: (u64, u64),
    pub rule: &'static str,
}

impl Scenario for CursorScenario {
    fn id(&self) -> &'static str { self.id }
    fn ops(&self) -> &'static [&'static str] { OPS }
    fn runs(&self, t: Tier) -> u64 { if t == Tier::Quick { self.runs.0 } else { self.runs.1 } }
    fn rule(&self) -> &'static str { self.rule }
    fn gen(&self, rng: &mut crate::rng::Rng, tier: Tier) -> (BTreeMap<String, u64>, Vec<Step>) {
        let mut c = BTreeMap::new();
        let mut set = |k: &str, v: u64| { c.insert(k.to_string(), v); };
        set("engine", *rng.pick(self.engines));
        set("names", *rng.pick(self.names));
        set("levels", if rng.chance(1, 6) { 9 } else { *rng.pick(LEVEL_MODES) });
        set("rand", rng.below(6));
        set("maxdocs", rng.range(2, 6));
        let large = rng.chance(1, 300);
        if large { set("levels", *rng.pick(crate::razworld::DEEP_LEVEL_MODES)); }
        set("maxlen", if large { rng.range(200, 1500) } else { *rng.pick(&[6, 14, 14, 40]) });
        set("kinds", swarm::subset(rng, NCOMP, (1 << NCOMP) - 1));
        set("degenerate", (rng.below(12) == 0) as u64);
        set("plain", (rng.below(8) == 0) as u64);
        let steps = swarm::steps(rng, tier, OPS.len(), self.weights, 70, 160);
        (c, steps)
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> R<()> {
        set_degenerate(plan.cfg("degenerate") == 1);
        drive(&mut *sub(plan), OPS, plan, ctx)?;
        ctx.stats.nontrivial = plan.steps.len() >= 6 && ctx.stats.counts.get("oracle:comparisons").copied().unwrap_or(0) >= 10;
        set_degenerate(false);
        Ok(())
    }
}
