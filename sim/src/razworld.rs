//! The zipper world: several clients hold, fork, edit and compute over RAZ
//! documents that share one engine. The plan decides who moves when.
use crate::core::*;
use crate::subs::{drive, Sub};
use crate::el::*;
use crate::razmodel::*;
use adapton::engine::*;
use adapton::macros::*;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::memo::MemoFrom;
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, FirstLast, Names, RazMeta};
use iodyn::skiplist::{FinMap, Skiplist};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const OPS: &[&str] = &[
    "push_left", "push_right", "pop_left", "pop_right", "peek", "archive_left", "archive_right",
    "unfocus", "focus_at", "focus_end", "focus_oob", "focus_name", "clone", "drop", "new",
    "verify", "fold", "join", "from_vec", "interrupt", "restart", "burst", "focus_left", "fold_scratch", "check_meta", "ns_fork", "reuse", "relevel",
];
pub const PUSH_L: usize = 0; pub const PUSH_R: usize = 1; pub const POP_L: usize = 2; pub const POP_R: usize = 3;
pub const PEEK: usize = 4; pub const ARCH_L: usize = 5; pub const ARCH_R: usize = 6; pub const UNFOCUS: usize = 7;
pub const FOCUS_AT: usize = 8; pub const FOCUS_END: usize = 9; pub const FOCUS_OOB: usize = 10; pub const FOCUS_NAME: usize = 11;
pub const CLONE: usize = 12; pub const DROP: usize = 13; pub const NEW: usize = 14; pub const VERIFY: usize = 15;
pub const FOLD: usize = 16; pub const JOIN: usize = 17; pub const FROM_VEC: usize = 18; pub const INTERRUPT: usize = 19;
pub const RESTART: usize = 20; pub const BURST: usize = 21; pub const FOCUS_LEFT: usize = 22; pub const FOLD_SCRATCH: usize = 23;
pub const CHECK_META: usize = 24; pub const NS_FORK: usize = 25; pub const REUSE: usize = 26; pub const RELEVEL: usize = 27;

pub enum St<M: SimMeta> { Z(Raz<El, M>), T(RazTree<El, M>) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Mo { Z(Zip), T(Vec<Tok>) }
pub struct Doc<M: SimMeta> { pub id: u64, pub st: St<M>, pub mo: Mo, pub canon: bool }

pub const NFOLDS: u64 = 27;
pub const FOLD_NAMES: [&str; NFOLDS as usize] = ["sum", "max", "concat", "shape", "gauged", "lr_poly", "lr_meta", "lr_archive",
    "map", "to_stack_tail", "filter", "pipeline", "map_names", "lr_fold_vec", "tally_map", "index_map", "nested_zipper", "nested_stack", "nested_up", "nested_nl", "nested_map", "walk_right", "walk_left", "staged", "cell_up", "cell_lr", "cell_map"];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sh { L(Vec<u32>), B(Box<Sh>, u32, Option<Name>, Box<Sh>) }
impl Sh {
    pub fn conv(&self, nb: &NameBook) -> Shape {
        match self {
            Sh::L(v) => Shape::Leaf(v.clone()),
            Sh::B(l, lv, n, r) => Shape::Bin(Box::new(l.conv(nb)), *lv, nb.opt(n), Box::new(r.conv(nb))),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TokN { E(u32), M(u32, Option<Name>), F(Option<Name>) }

/// What an incremental computation delivered, in plain data.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res { Num(Option<u64>), Vec(Option<Vec<u32>>), Shape(Option<Shape>), Toks(Vec<Tok>), Arch(Vec<(u32, Option<u64>)>), Pair(Option<u64>, Option<Shape>) }

/// callbacks: every one is a fault point and a counted piece of user work
fn cb() { fault_point(SITE_CALLBACK, "callback"); }
fn branch_cb() { FAULTS.with(|f| f.borrow_mut().branch_calls += 1); cb(); }
pub fn elem_cb() { FAULTS.with(|f| f.borrow_mut().elem_calls += 1); cb(); }

pub fn poly(a: u64, x: u64) -> u64 { a.wrapping_mul(0x100000001b3).wrapping_add(x ^ 0x9E37) }

pub fn shape_of<M: SimMeta>(t: RazTree<El, M>) -> Option<Sh> {
    t.fold_up_nl(
        Rc::new(|e: &El| { elem_cb(); Sh::L(vec![e.0]) }),
        Rc::new(|a: Sh, b: Sh| { cb(); match (a, b) { (Sh::L(mut x), Sh::L(y)) => { x.extend(y); Sh::L(x) }, (a, b) => Sh::B(Box::new(a), 0, None, Box::new(b)) } }),
        Rc::new(|l: Sh, lv: u32, n: Option<Name>, r: Sh| { branch_cb(); Sh::B(Box::new(l), lv, n, Box::new(r)) }),
    )
}

pub fn toks_of<M: SimMeta>(t: RazTree<El, M>) -> Vec<TokN> {
    t.fold_lr_meta(Vec::<TokN>::new(),
        Rc::new(|mut a: Vec<TokN>, e: &El| { elem_cb(); a.push(TokN::E(e.0)); a }),
        Rc::new(|mut a: Vec<TokN>, (l, n): (u32, Option<Name>)| { branch_cb(); a.push(TokN::M(l, n)); a }))
}

pub fn conv_toks(v: &[TokN], nb: &NameBook) -> Vec<Tok> {
    v.iter().map(|t| match t { TokN::E(e) => Tok::E(*e), TokN::M(l, n) => Tok::M(*l, nb.opt(n)), TokN::F(n) => Tok::M(u32::MAX, nb.opt(n)) }).collect()
}

fn keep(e: u32) -> bool { e % 3 != 0 }

/// One of the client computations, run in namespace `nsn`.
pub fn compute<M: SimMeta>(kind: u64, t: RazTree<El, M>, nsn: Name, nb: &NameBook) -> Res {
    match kind {
        0 => Res::Num(ns(nsn, || t.fold_up(Rc::new(|e: &El| { elem_cb(); e.0 as u64 }), Rc::new(|a: u64, b: u64| { cb(); a + b })))),
        1 => Res::Num(ns(nsn, || t.fold_up(Rc::new(|e: &El| { elem_cb(); e.clone() }), Rc::new(|a: El, b: El| { cb(); ::std::cmp::max(a, b) }))).map(|e| e.0 as u64)),
        2 => Res::Vec(ns(nsn, || t.fold_up(Rc::new(|e: &El| { elem_cb(); vec![e.0] }), Rc::new(|mut a: Vec<u32>, b: Vec<u32>| { cb(); a.extend(b); a })))),
        3 => Res::Shape(ns(nsn, || shape_of(t)).map(|s| s.conv(nb))),
        4 => Res::Shape(ns(nsn, || t.fold_up_gauged(
            Rc::new(|v: &Vec<El>| { for _ in v { elem_cb(); } Sh::L(v.iter().map(|e| e.0).collect()) }),
            Rc::new(|l: Sh, lv: u32, n: Option<Name>, r: Sh| { branch_cb(); Sh::B(Box::new(l), lv, n, Box::new(r)) }))).map(|s| s.conv(nb))),
        5 => Res::Num(Some(ns(nsn, || t.fold_lr(7u64, Rc::new(|a: u64, e: &El| { elem_cb(); poly(a, e.0 as u64) }))))),
        6 => Res::Toks(conv_toks(&ns(nsn, || toks_of(t)), nb)),
        7 => {
            let v = ns(nsn, || t.fold_lr_archive(Vec::<TokN>::new(),
                Rc::new(|mut a: Vec<TokN>, e: &El| { elem_cb(); a.push(TokN::E(e.0)); a }),
                Rc::new(|mut a: Vec<TokN>, n: Option<Name>| { cb(); a.push(TokN::F(n)); a }),
                Rc::new(|mut a: Vec<TokN>, l: u32| { branch_cb(); a.push(TokN::M(l, None)); a })));
            Res::Toks(conv_toks(&v, nb))
        }
        8 => {
            let (inner, outer) = name_fork(nsn);
            let m: RazTree<u64, Count> = ns(inner, || t.map(Rc::new(|e: &El| { elem_cb(); e.0 as u64 + 1 })));
            let n = m.meta().0 as u64;
            let s = ns(outer, || m.fold_up_nl(Rc::new(|e: &u64| Sh::L(vec![*e as u32 - 1])),
                Rc::new(|a: Sh, b: Sh| match (a, b) { (Sh::L(mut x), Sh::L(y)) => { x.extend(y); Sh::L(x) }, (a, b) => Sh::B(Box::new(a), 0, None, Box::new(b)) }),
                Rc::new(|l: Sh, lv: u32, n: Option<Name>, r: Sh| Sh::B(Box::new(l), lv, n, Box::new(r)))));
            Res::Pair(Some(n), s.map(|s| s.conv(nb)))
        }
        9 => {
            let (n1, n2) = name_fork(nsn);
            let (n2, n3) = name_fork(n2);
            let st: AStack<El, u32> = ns(n1, || t.fold_lr_meta(AStack::new(),
                Rc::new(|mut a: AStack<El, u32>, e: &El| { elem_cb(); a.push(e.clone()); a }),
                Rc::new(|mut a: AStack<El, u32>, (l, n)| { cb(); a.archive(n, l); a })));
            let t2: RazTree<El, M> = ns(n2, || RazTree::memo_from(&AtTail(st)));
            Res::Shape(ns(n3, || shape_of(t2)).map(|s| s.conv(nb)))
        }
        10 => {
            let (n1, n2) = name_fork(nsn);
            let (n2, n3) = name_fork(n2);
            let f: Option<RazTree<El, M>> = ns(n1, || t.fold_up_gauged(
                Rc::new(|v: &Vec<El>| {
                    for _ in v { elem_cb(); }
                    RazTree::from_vec(v.iter().filter(|e| keep(e.0)).cloned().collect()).unwrap_or_else(RazTree::empty)
                }),
                Rc::new(move |a: RazTree<El, M>, l: u32, n: Option<Name>, b: RazTree<El, M>| { cb();
                    match (a.is_empty(), b.is_empty()) {
                        (true, true) => RazTree::empty(),
                        (false, true) => a,
                        (true, false) => b,
                        (false, false) => ns(n2.clone(), || RazTree::join(a, l, n, b).expect("join of two non-empty trees")),
                    } })));
            Res::Shape(f.and_then(|f| ns(n3, || shape_of(f)).map(|s| s.conv(nb))))
        }
        11 => {
            // pipeline: pairwise sums into a stack, stack to tree, tree to running maxima
            let (n1, n2) = name_fork(nsn);
            let (n2, n3) = name_fork(n2);
            let (st, part): (AStack<u64, u32>, Option<u64>) = ns(n1, || t.fold_lr_meta((AStack::new(), None),
                Rc::new(|(mut a, p): (AStack<u64, u32>, Option<u64>), e: &El| { elem_cb(); match p {
                    None => (a, Some(e.0 as u64)),
                    Some(x) => { a.push(x * 1000 + e.0 as u64); (a, None) } } }),
                Rc::new(|(mut a, p): (AStack<u64, u32>, Option<u64>), (l, n)| { cb(); a.archive(n, l); (a, p) })));
            let mut st = st;
            st.push(part.unwrap_or(0));
            let t2: RazTree<u64, Count> = ns(n2, || RazTree::memo_from(&AtTail(st)));
            let n = t2.meta().0 as u64;
            let v = ns(n3, || t2.fold_lr((Vec::new(), 0u64), Rc::new(|(mut v, m): (Vec<u32>, u64), e: &u64| { let m = m.max(*e); v.push((m ^ *e) as u32); v.push(*e as u32); (v, m) })));
            Res::Pair(Some(n), Some(Shape::Leaf(v.0)))
        }
        12 => {
            let (inner, outer) = name_fork(nsn);
            let m: RazTree<El, Names> = ns(inner, || t.map(Rc::new(|e: &El| { elem_cb(); El(e.0 ^ 1) })));
            let mut ids: Vec<u64> = m.meta().0.keys().map(|k| nb.id(k)).collect();
            ids.sort();
            let mut toks = conv_toks(&ns(outer, || toks_of(m)), nb);
            toks.extend(ids.into_iter().map(|i| Tok::M(u32::MAX - 1, Some(i))));
            Res::Toks(toks)
        }
        13 => Res::Vec(Some(ns(nsn, || t.fold_lr(Vec::new(), Rc::new(|mut a: Vec<u32>, e: &El| { elem_cb(); a.push(e.0); a }))))),
        14 => {
            // occurrence counts in a finite map that takes each section's name once the section is done
            let (n1, n2) = name_fork(nsn);
            let el = elems_of(&t, n2.clone());
            let init: Skiplist<El, El> = ns(n1.clone(), || { let mut m: Skiplist<El, El> = FinMap::emp(5, name_unit()); m.archive(name_unit()); m });
            let m = ns(n1, || t.fold_lr_archive(init,
                Rc::new(|mut m: Skiplist<El, El>, e: &El| { elem_cb(); let c = m.get(e.clone()).map_or(0, |c| c.0); m.put(e.clone(), El(c + 1)); m }),
                Rc::new(|mut m: Skiplist<El, El>, n: Option<Name>| { cb(); if let Some(n) = n { m.archive(n) } m }),
                Rc::new(|m: Skiplist<El, El>, _l: u32| { branch_cb(); m })));
            Res::Arch(quiet(|| ns(n2, || el.iter().map(|e| (*e, m.get(El(*e)).map(|c| c.0 as u64))).chain(Some((u32::MAX, m.get(El(u32::MAX)).map(|c| c.0 as u64)))).collect())))
        }
        15 => {
            // last position of each element; even elements are taken out again when they come back at an odd position
            let (n1, n2) = name_fork(nsn);
            let el = elems_of(&t, n2.clone());
            let init: (Skiplist<El, El>, u32) = ns(n1.clone(), || (FinMap::emp(3, name_unit()), 0));
            let (m, _) = ns(n1, || t.fold_lr_meta(init,
                Rc::new(|(mut m, i): (Skiplist<El, El>, u32), e: &El| { elem_cb(); if e.0 % 2 == 0 && i % 2 == 1 { m.rem(e.clone()); } else { m.put(e.clone(), El(i)); } (m, i + 1) }),
                Rc::new(|(mut m, i): (Skiplist<El, El>, u32), (_l, n): (u32, Option<Name>)| { branch_cb(); if let Some(n) = n { m.archive(n) } (m, i) })));
            Res::Arch(quiet(|| ns(n2, || el.iter().map(|e| (*e, m.get(El(*e)).map(|c| c.0 as u64))).collect())))
        }
        16 => Res::Num(ns(nsn, || t.fold_up(Rc::new(|e: &El| { elem_cb(); nested_raz(e.0) }),
            Rc::new(|a: u64, b: u64| { cb(); let x = (a ^ b) as u32 % 64; if nested_stack(x) != plain_stack(x) { 0xbad } else { a.wrapping_add(b) } })))),
        17 => Res::Num(Some(ns(nsn, || t.fold_lr_meta(3u64, Rc::new(|a: u64, e: &El| { elem_cb(); poly(a, nested_stack(e.0)) }),
            Rc::new(|a: u64, (l, _n): (u32, Option<Name>)| { branch_cb(); poly(a, nested_raz(l)) }))))),
        18 => Res::Num(ns(nsn, || t.fold_up_gauged(
            Rc::new(|v: &Vec<El>| { for _ in v { elem_cb(); } v.iter().fold(0u64, |a, e| a.wrapping_add(nested_raz(e.0))) }),
            Rc::new(|a: u64, l: u32, _n: Option<Name>, b: u64| { branch_cb(); if nested_stack(l) != plain_stack(l) { 0xbad } else { a.wrapping_add(b) } })))),
        19 => Res::Num(ns(nsn, || t.fold_up_nl(Rc::new(|e: &El| { elem_cb(); nested_raz(e.0) }),
            Rc::new(|a: u64, b: u64| { cb(); a.wrapping_add(b) }),
            Rc::new(|a: u64, l: u32, _n: Option<Name>, b: u64| { branch_cb(); if nested_stack(l) != plain_stack(l) { 0xbad } else { a.wrapping_add(b) } })))),
        20 => {
            let (inner, outer) = name_fork(nsn);
            let m: RazTree<u64, Count> = ns(inner, || t.map(Rc::new(|e: &El| { elem_cb(); nested_raz(e.0) })));
            Res::Num(ns(outer, || quiet(|| m.fold_up(Rc::new(|e: &u64| *e), Rc::new(|a: u64, b: u64| a.wrapping_add(b))))))
        }
        21 => Res::Vec(Some(ns(nsn, || memo!(name_of_str("walk-right") =>> walk_right, t: t)))),
        22 => Res::Vec(Some(ns(nsn, || memo!(name_of_str("walk-left") =>> walk_left, t: t)))),
        23 => {
            // stages memoised one by one, each reading what the one before it made
            let (n1, n2) = name_fork(nsn);
            let (n2, n3) = name_fork(n2);
            let s = ns(n1, || memo!(name_of_str("stage-1") =>> stage_stack, t: t));
            let t: RazTree<El, M> = ns(n2, || memo!(name_of_str("stage-2") =>> stage_tree, s: s));
            Res::Toks(conv_toks(&ns(n3, || memo!(name_of_str("stage-3") =>> toks_of, t: t)), nb))
        }
        24 | 25 | 26 => {
            // the document sits in a cell that the computation observes
            let (n1, n2) = name_fork(nsn);
            let c = ns(n1, || cell(name_of_str("document"), t));
            match kind {
                24 => Res::Shape(ns(n2, || memo!(name_of_str("observer") =>> cell_up, c: c)).map(|s| s.conv(nb))),
                25 => Res::Toks(conv_toks(&ns(n2, || memo!(name_of_str("observer") =>> cell_lr, c: c)), nb)),
                _ => Res::Vec(Some(ns(n2, || memo!(name_of_str("observer") =>> cell_map, c: c)))),
            }
        }
        _ => unreachable!(),
    }
}

fn stage_stack<M: SimMeta>(t: RazTree<El, M>) -> AStack<El, u32> {
    t.fold_lr_meta(AStack::new(),
        Rc::new(|mut a: AStack<El, u32>, e: &El| { elem_cb(); a.push(e.clone()); a }),
        Rc::new(|mut a: AStack<El, u32>, (l, n)| { cb(); a.archive(n, l); a }))
}
fn stage_tree<M: SimMeta>(s: AStack<El, u32>) -> RazTree<El, M> { RazTree::memo_from(&AtTail(s)) }
fn cell_up<M: SimMeta>(c: Art<RazTree<El, M>>) -> Option<Sh> { shape_of(force(&c)) }
fn cell_lr<M: SimMeta>(c: Art<RazTree<El, M>>) -> Vec<TokN> { toks_of(force(&c)) }
fn cell_map<M: SimMeta>(c: Art<RazTree<El, M>>) -> Vec<u32> {
    let m: RazTree<u64, Count> = force(&c).map(Rc::new(|e: &El| { elem_cb(); e.0 as u64 }));
    ns(name_of_str("mapped"), || m.fold_lr(vec![], Rc::new(|mut v: Vec<u32>, e: &u64| { cb(); v.push(*e as u32); v })))
}
/// client computations that are named even when their document is not
fn memoised(kind: u64) -> bool { kind >= 21 }
/// Memoised client computations that read a document through a zipper of their own.
fn walk_right<M: SimMeta>(t: RazTree<El, M>) -> Vec<u32> {
    let mut z = t.focus_left();
    let mut v = vec![];
    loop {
        let p = z.peek_right();
        let e = z.pop_right();
        if p != e { v.push(u32::MAX); }
        match e { Some(e) => { elem_cb(); v.push(e.0) }, None => return v }
    }
}
fn walk_left<M: SimMeta>(t: RazTree<El, M>) -> Vec<u32> {
    let mut z = match t.focus(<M as RazMeta<El>>::Index::last()) { Some(z) => z, None => return vec![u32::MAX - 1] };
    let mut v = vec![];
    loop {
        let p = z.peek_left();
        let e = z.pop_left();
        if p != e { v.push(u32::MAX); }
        match e { Some(e) => { elem_cb(); v.push(e.0) }, None => { v.reverse(); return v } }
    }
}

thread_local! { static FUSE: std::cell::Cell<i64> = const { std::cell::Cell::new(-1) }; }
fn fuse() { FUSE.with(|f| { let n = f.get(); if n >= 0 { f.set(n - 1); if n == 0 { std::panic::resume_unwind(Box::new("fuse")); } } }) }
/// an element of a callback's own documents, whose clone may fail
#[derive(Debug, PartialEq, Eq, Hash)]
struct Fe(u32);
impl Clone for Fe { fn clone(&self) -> Fe { fuse(); Fe(self.0) } }
/// Client code that fails and that the client code around it handles, all inside an
/// outer computation: the documents involved have no names, so neither engine is concerned.
fn nested_fail(x: u32) -> bool {
    let mut z: Raz<Fe, Count> = Raz::new();
    for i in 0..5 { z.push_left(Fe(x.wrapping_add(i))); if (x >> i) & 1 == 1 { z.archive_left(1 + (x >> i) % 3, None); } }
    let keep = z.clone();
    let t = z.unfocus();
    let ops: [fn(RazTree<Fe, Count>) -> u64; 6] = [
        |t| t.fold_up(Rc::new(|e: &Fe| { fuse(); e.0 as u64 }), Rc::new(|a: u64, b: u64| { fuse(); a.wrapping_add(b) })).unwrap_or(0),
        |t| t.fold_up_nl(Rc::new(|e: &Fe| { fuse(); e.0 as u64 }), Rc::new(|a: u64, b: u64| { fuse(); a.wrapping_add(b) }), Rc::new(|a: u64, _l: u32, _n: Option<Name>, b: u64| { fuse(); a.wrapping_add(b) })).unwrap_or(0),
        |t| t.fold_up_gauged(Rc::new(|v: &Vec<Fe>| { fuse(); v.iter().fold(0u64, |a, e| a.wrapping_add(e.0 as u64)) }), Rc::new(|a: u64, _l: u32, _n: Option<Name>, b: u64| { fuse(); a.wrapping_add(b) })).unwrap_or(0),
        |t| t.fold_lr_meta(0u64, Rc::new(|a: u64, e: &Fe| { fuse(); a.wrapping_add(e.0 as u64) }), Rc::new(|a: u64, _m: (u32, Option<Name>)| { fuse(); a })),
        |t| { let m: RazTree<u64, Count> = t.map(Rc::new(|e: &Fe| { fuse(); e.0 as u64 })); m.fold_up(Rc::new(|e: &u64| *e), Rc::new(|a: u64, b: u64| a.wrapping_add(b))).unwrap_or(0) },
        |t| { let n = t.meta().0; let mut z = match t.focus(n / 2) { Some(z) => z, None => return 1 }; let mut a = 0u64; while let Some(e) = z.pop_left() { a = a.wrapping_add(e.0 as u64); } while let Some(e) = z.pop_right() { a = a.wrapping_add(e.0 as u64); } a },
    ];
    let op = ops[(x / 4) as usize % ops.len()];
    let want = (0..5).fold(0u64, |a, i| a.wrapping_add(x.wrapping_add(i) as u64));
    let t2 = t.clone();
    FUSE.with(|f| f.set((x / 3) as i64 % 8));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || op(t2)));
    FUSE.with(|f| f.set(-1));
    if let Ok(r) = r { if r != want { return false; } }
    op(t) == want && op(keep.unfocus()) == want
}

/// A callback that uses the library itself: it edits, rebuilds and computes over
/// a small anonymous document of its own while the outer computation is under way.
fn nested_raz(x: u32) -> u64 { ns(name_pair(name_of_str("nested-zipper"), name_of_usize(x as usize)), || nested_raz_in(x)) }
fn nested_raz_in(x: u32) -> u64 {
    if x % 4 == 1 && !nested_fail(x) { return 0xbad; }
    let mut z: Raz<u32, Count> = Raz::new();
    for i in 0..3 + x % 3 { z.push_left(x.wrapping_add(i)); if (x >> i) & 1 == 1 { z.archive_left(1 + (x >> (i + 1)) % 5, None); } else if (x >> i) & 2 == 2 { z.archive_right(1 + (x >> (i + 1)) % 5, None); } z.push_right(i); }
    let t = z.unfocus();
    let n = t.meta().0;
    let mut z = match t.focus(n / 2) { Some(z) => z, None => return 0 };
    let popped = z.pop_left().unwrap_or(0) as u64;
    z.push_right(x ^ 9);
    let t = z.unfocus();
    let up = t.clone().fold_up(Rc::new(|e: &u32| { vec![*e] }), Rc::new(|mut a: Vec<u32>, b: Vec<u32>| { a.extend(b); a })).unwrap_or_default();
    let lr = t.clone().fold_lr_meta(0u64, Rc::new(|a: u64, e: &u32| poly(a, *e as u64)), Rc::new(|a: u64, (_, _): (u32, Option<Name>)| a));
    let m: RazTree<u64, Count> = t.map(Rc::new(|e: &u32| *e as u64 * 2));
    let g = m.fold_up_gauged(Rc::new(|v: &Vec<u64>| v.iter().sum::<u64>()), Rc::new(|a: u64, _l: u32, _n: Option<Name>, b: u64| a + b)).unwrap_or(0);
    up.iter().fold(poly(popped, lr), |a, e| poly(a, *e as u64)).wrapping_add(g)
}
fn plain_raz(x: u32) -> u64 {
    let mut l: Vec<u32> = vec![]; let mut r: Vec<u32> = vec![];
    for i in 0..3 + x % 3 { l.push(x.wrapping_add(i)); r.insert(0, i); }
    l.extend(r);
    let k = l.len() / 2;
    let popped = l.remove(k - 1) as u64;
    l.insert(k - 1, x ^ 9);
    let lr = l.iter().fold(0u64, |a, e| poly(a, *e as u64));
    let g: u64 = l.iter().map(|e| *e as u64 * 2).sum();
    l.iter().fold(poly(popped, lr), |a, e| poly(a, *e as u64)).wrapping_add(g)
}
/// the same with an anonymous archive stack and the tree made from it
fn nested_stack(x: u32) -> u64 { ns(name_pair(name_of_str("nested-stack"), name_of_usize(x as usize)), || nested_stack_in(x)) }
fn nested_stack_in(x: u32) -> u64 {
    let mut s: AStack<u32, u32> = AStack::new();
    for i in 0..4 + x % 3 { s.push(x.wrapping_mul(3).wrapping_add(i)); if (x >> i) & 1 == 1 { s.archive(None, 1 + (x >> i) % 4); } }
    let t: RazTree<u32, Count> = RazTree::memo_from(&AtTail(s.clone()));
    let a = t.fold_lr(0u64, Rc::new(|a: u64, e: &u32| poly(a, *e as u64)));
    let u: RazTree<u32, Count> = RazTree::memo_from(&AtHead(s.clone()));
    let b = ns(name_of_str("head"), || u.fold_lr(0u64, Rc::new(|a: u64, e: &u32| poly(a, *e as u64))));
    s.into_iter().fold(a ^ b.wrapping_mul(5), |a, e| poly(a, e as u64))
}
fn plain_stack(x: u32) -> u64 {
    let v: Vec<u32> = (0..4 + x % 3).map(|i| x.wrapping_mul(3).wrapping_add(i)).collect();
    let a = v.iter().fold(0u64, |a, e| poly(a, *e as u64));
    let b = v.iter().rev().fold(0u64, |a, e| poly(a, *e as u64));
    v.iter().rev().fold(a ^ b.wrapping_mul(5), |a, e| poly(a, *e as u64))
}

fn elems_of<M: SimMeta>(t: &RazTree<El, M>, nsn: Name) -> Vec<u32> {
    quiet(|| ns(nsn, || t.clone().fold_lr(Vec::new(), Rc::new(|mut a: Vec<u32>, e: &El| { a.push(e.0); a }))))
}

/// The same computation on the reference sequence, from scratch.
/// `None`: the result is not determined by the sequence for this document.
pub fn reference(kind: u64, t: &[Tok], canon: bool, start: Option<u64>) -> Option<Res> {
    let es = elems(t);
    let shape = || if canon { canonical(t) } else { None };
    Some(match kind {
        0 => Res::Num(if es.is_empty() { None } else { Some(es.iter().map(|e| *e as u64).sum()) }),
        1 => Res::Num(es.iter().max().map(|e| *e as u64)),
        2 => Res::Vec(if es.is_empty() { None } else { Some(es) }),
        3 | 4 | 9 => { if !canon { return None; } Res::Shape(shape()) }
        5 => Res::Num(Some(es.iter().fold(7u64, |a, e| poly(a, *e as u64)))),
        6 => Res::Toks(t.to_vec()),
        7 => {
            let mut v = vec![];
            // the first leaf carries the traversal's own start name
            let mut carried = start;
            let mut open = false;
            for x in t {
                match x {
                    Tok::E(e) => { v.push(Tok::E(*e)); open = true; }
                    Tok::M(l, n) => {
                        if open { v.push(Tok::M(u32::MAX, carried)); }
                        v.push(Tok::M(*l, None));
                        carried = *n; open = false;
                    }
                }
            }
            if open { v.push(Tok::M(u32::MAX, carried)); }
            Res::Toks(v)
        }
        8 => { if !canon { return None; } Res::Pair(Some(es.len() as u64), shape()) }
        10 => {
            if !canon { return None; }
            fn go(s: &Shape) -> Option<Shape> {
                match s {
                    Shape::Leaf(v) => { let w: Vec<u32> = v.iter().cloned().filter(|e| keep(*e)).collect(); if w.is_empty() { None } else { Some(Shape::Leaf(w)) } }
                    Shape::Bin(l, lv, n, r) => match (go(l), go(r)) {
                        (None, None) => None, (Some(a), None) => Some(a), (None, Some(b)) => Some(b),
                        (Some(a), Some(b)) => Some(Shape::Bin(Box::new(a), *lv, *n, Box::new(b))),
                    }
                }
            }
            Res::Shape(shape().and_then(|s| go(&s)))
        }
        11 => {
            let mut p = None;
            let mut out: Vec<u64> = vec![];
            for e in es { match p { None => p = Some(e as u64), Some(x) => { out.push(x * 1000 + e as u64); p = None } } }
            out.push(p.unwrap_or(0));
            let mut v = vec![]; let mut m = 0;
            for e in &out { m = m.max(*e); v.push((m ^ *e) as u32); v.push(*e as u32); }
            Res::Pair(Some(out.len() as u64), Some(Shape::Leaf(v)))
        }
        12 => {
            let mut v: Vec<Tok> = t.iter().map(|x| match x { Tok::E(e) => Tok::E(*e ^ 1), m => m.clone() }).collect();
            let mut ids: Vec<u64> = marks(t).iter().filter_map(|m| m.1).collect();
            ids.sort();
            v.extend(ids.into_iter().map(|i| Tok::M(u32::MAX - 1, Some(i))));
            Res::Toks(v)
        }
        13 => Res::Vec(Some(es)),
        14 => {
            let mut m: BTreeMap<u32, u64> = BTreeMap::new();
            for e in &es { *m.entry(*e).or_insert(0) += 1; }
            Res::Arch(es.iter().map(|e| (*e, m.get(e).copied())).chain(Some((u32::MAX, None))).collect())
        }
        15 => {
            let mut m: BTreeMap<u32, u64> = BTreeMap::new();
            for (i, e) in es.iter().enumerate() { if e % 2 == 0 && i % 2 == 1 { m.remove(e); } else { m.insert(*e, i as u64); } }
            Res::Arch(es.iter().map(|e| (*e, m.get(e).copied())).collect())
        }
        21 | 22 | 26 => Res::Vec(Some(es)),
        23 | 25 => Res::Toks(t.to_vec()),
        24 => { if !canon { return None; } Res::Shape(shape()) }
        16 | 18 | 19 | 20 => Res::Num(if es.is_empty() { None } else { Some(es.iter().fold(0u64, |a, e| a.wrapping_add(plain_raz(*e)))) }),
        17 => Res::Num(Some(t.iter().fold(3u64, |a, x| match x { Tok::E(e) => poly(a, plain_stack(*e)), Tok::M(l, _) => poly(a, plain_raz(*l)) }))),
        _ => unreachable!(),
    })
}

pub struct World<M: SimMeta> {
    pub docs: Vec<Doc<M>>,
    pub nb: NameBook,
    pub next_name: u64,
    pub next_doc: u64,
    pub next_el: u32,
    pub nlev: u64,
    pub burst: u64,
    pub deep: u64,
    pub double: u64,
    pub scratch: u64,
    pub dcg: bool,
    pub names: u64,
    pub levels: u64,
    pub persist: bool,
    pub maxdocs: usize,
    pub maxlen: usize,
    pub folds: Vec<u64>,
    pub pending: Option<(u32, u64)>,
    pub canon_check: bool,
    pub share_ns: bool,
    pub seed: u64,
    pub ndocs: u64,
    pub bystanders: bool, joined: std::collections::BTreeSet<u64>,
    /// the name every left-to-right traversal starts with, as first observed
    pub start: Option<u64>,
    /// per warm computation: leaf content last evaluated under each memo key
    pub memo: BTreeMap<(u8, u64, u64), BTreeMap<(u64, bool), (Vec<Tok>, u64)>>,
}

pub const LEVEL_MODES: &[u64] = &[0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 10, 11];
/// for large structures: mostly spines and mixtures of spines
pub const DEEP_LEVEL_MODES: &[u64] = &[0, 1, 4, 5, 6, 7, 10, 11, 11, 11];
pub fn counted(mode: u64) -> bool { matches!(mode, 6 | 7 | 11) }
pub fn level(mode: u64, a: u64) -> u32 {
    let x = crate::rng::mix(a, 77);
    match mode {
        0 => (x.trailing_zeros() + 1).min(40),
        1 => 1 + (x % 3) as u32,
        2 => 1,
        3 => 1 + (x % 64) as u32,
        4 => 1 + (a % 200) as u32,            // increasing with the argument
        5 => 200 - (a % 199) as u32,
        6 => 1 + a as u32,                    // called with a counter: a left spine
        7 => 1_000_000 - (a as u32 % 999_999), // and a right spine
        10 => (((x >> 8) as u32) >> (x % 32)).clamp(1, u32::MAX - 1000), // every order of magnitude
        11 => match (a % 80 == 0 || x % 64 == 0, a / 80 % 3) { // peaks, and between them left spines, right spines and balanced stretches
            (true, _) => 3_000_000_000 + x as u32 % 1000,
            (_, 0) => 1000 + a as u32 % 1_000_000,
            (_, 1) => 3_000_000 - a as u32 % 1_000_000,
            _ => (x.trailing_zeros() + 1).min(40),
        },
        _ => u32::MAX - 1000 + (x % 900) as u32,
    }
}

/// a position to focus at: next to an archive point as often as anywhere
fn position(toks: &[Tok], b: u64) -> usize {
    let n = elems(toks).len();
    if b % 2 == 1 {
        let k = marks(toks).len();
        if k > 0 {
            let mut nth = (b / 2).wrapping_mul(7919) as usize % k;
            // sometimes one near the root, where both neighbours may lie deep
            if b / 2 % 3 == 0 {
                let ms = marks(toks); let top = max_mark(toks) / 2;
                nth = (0..k).map(|i| (nth + i) % k).find(|i| ms[*i].0 >= top).unwrap_or(nth);
            }
            let (mut seen, mut es) = (0, 0);
            for t in toks { match t { Tok::E(_) => es += 1, Tok::M(..) => { if seen == nth { break; } seen += 1; } } }
            return (es + (b / 2 % 5) as usize / 4).min(n);
        }
    }
    (if n < 1000 { b } else { crate::rng::mix(b, 5) } % (n as u64 + 1)) as usize
}

fn ns_name(a: u64, b: u64) -> Name { name_pair(name_of_usize(1_000_000 + a as usize), name_of_usize(b as usize)) }

impl<M: SimMeta> World<M> {
    pub fn new(plan: &Plan, bystanders: bool) -> World<M> {
        let dcg = plan.cfg("engine") == 1;
        let names = plan.cfg("names");
        let mask = plan.cfg("folds");
        World {
            docs: vec![], nb: NameBook::default(), next_name: 1, next_doc: 0, next_el: 1, nlev: 0, burst: plan.cfg("burst").max(1), deep: plan.cfg("deep").max(1), double: plan.cfg("double"), scratch: 0,
            dcg, names, levels: plan.cfg("levels"), persist: !dcg || names == 0,
            maxdocs: plan.cfg("maxdocs").max(1) as usize, maxlen: plan.cfg("maxlen").max(4) as usize,
            folds: (0..NFOLDS).filter(|k| mask & (1 << k) != 0).collect(),
            pending: None, canon_check: plan.cfg("canon") == 1, share_ns: plan.cfg("share_ns") == 1,
            seed: plan.seed, ndocs: plan.cfg("docs").max(1), bystanders, joined: Default::default(), start: None, memo: BTreeMap::new(),
        }
    }
    pub fn start_engine(&self) {
        crate::subs::start_engine(self.dcg);
    }
    /// What the traversal calls the section before the first archive point: any name
    /// will do, as long as it is always the same.
    fn learn_start(&mut self) {
        if let Some(t) = RazTree::<El, M>::from_vec(vec![El(1)]) {
            let v = quiet(|| t.fold_lr_archive(vec![], Rc::new(|a: Vec<Option<Name>>, _e: &El| a),
                Rc::new(|mut a: Vec<Option<Name>>, n: Option<Name>| { a.push(n); a }), Rc::new(|a: Vec<Option<Name>>, _l: u32| a)));
            if let Some(Some(n)) = v.into_iter().next() { self.nb.start(n); self.start = Some(START); }
        }
    }
    pub fn new_doc(&mut self) {
        let id = self.next_doc; self.next_doc += 1;
        self.docs.push(Doc { id, st: St::Z(Raz::new()), mo: Mo::Z(Zip::new()), canon: true });
    }
    fn value(&mut self, a: u64) -> u32 {
        // mostly unique values, sometimes repeated ones
        if a % 5 == 0 { (a / 5 % 4) as u32 } else { self.next_el += 1; self.next_el }
    }
    fn lev(&mut self, a: u64) -> u32 {
        self.nlev += 1;
        level(self.levels, if counted(self.levels) { self.nlev } else { a })
    }
    fn alloc_name(&mut self, a: u64) -> (Option<u64>, Option<Name>) {
        let named = match self.names { 0 => false, 1 => true, _ => crate::rng::mix(a, 3) % 2 == 0 };
        if !named { return (None, None); }
        let id = self.next_name; self.next_name += 1;
        (Some(id), Some(self.nb.name(id)))
    }

    /// rebuild a document from its durable log (its reference sequence)
    fn rebuild(&mut self, i: usize) {
        let lv = self.docs[i].mo.clone();
        let mut raz: Raz<El, M> = Raz::new();
        let (l, r, tree) = match &lv { Mo::Z(z) => (z.l.clone(), z.r.clone(), false), Mo::T(t) => (t.clone(), vec![], true) };
        for t in &l { match t { Tok::E(e) => { raz.push_left(El(*e)); }, Tok::M(l, n) => raz.archive_left(*l, n.map(|n| self.nb.name(n))) } }
        for t in &r { match t { Tok::E(e) => { raz.push_right(El(*e)); }, Tok::M(l, n) => raz.archive_right(*l, n.map(|n| self.nb.name(n))) } }
        self.docs[i].st = if tree { St::T(raz.unfocus()) } else { St::Z(raz) };
        if tree { self.docs[i].canon = true; }
    }

    /// crash of the incremental engine: all memoized state is gone
    pub fn restart(&mut self, ctx: &mut Ctx) -> R<()> {
        self.start_engine();
        ctx.count("fault:engine restart");
        ctx.ev("engine restart");
        self.memo.clear();
        if !self.persist {
            for i in 0..self.docs.len() {
                let c = guard(|| self.rebuild(i));
                if let Caught::Panic(m) = c { return ctx.fail("panic:rebuild", format!("rebuilding after restart panicked: {}", m)); }
            }
        }
        for i in 0..self.docs.len() { self.verify(ctx, i, "after restart")?; }
        Ok(())
    }

    pub fn abstract_state(&self) -> u64 {
        hash_of(&self.docs.iter().map(|d| (&d.mo, d.canon)).collect::<Vec<_>>())
    }

    fn scratch_ns(&mut self) -> Name { self.scratch += 1; ns_name(1_000_000, self.scratch) }

    /// Compare a tree document with its reference, from scratch, in a fresh namespace.
    pub fn verify_tree(&mut self, ctx: &mut Ctx, t: &RazTree<El, M>, toks: &[Tok], canon: bool, why: &str) -> R<()> {
        let n = self.scratch_ns();
        let (n1, n2) = name_fork(n);
        let t = t.clone();
        let t1 = t.clone();
        let sh = must(ctx, "read tree", || quiet(|| ns(n1, || shape_of(t1))))?.map(|s| s.conv(&self.nb));
        let t2 = t.clone();
        let tk = must(ctx, "read tree", || quiet(|| ns(n2, || toks_of(t2))))?;
        let tk = conv_toks(&tk, &self.nb);
        ctx.eq(&format!("content:{}", why), &elems(&tk), &elems(toks))?;
        ctx.eq(&format!("archive-points:{}", why), &marks(&tk), &marks(toks))?;
        ctx.eq(&format!("order:{}", why), &tk, &toks.to_vec())?;
        ctx.eq(&format!("empty:{}", why), &t.is_empty(), &toks.is_empty())?;
        self.check_meta(ctx, &t, toks, why)?;
        let mut flat = vec![];
        if let Some(s) = &sh { s.flat(&mut flat); }
        ctx.eq(&format!("shape-content:{}", why), &flat, &toks.to_vec())?;
        if self.canon_check && canon {
            let want = canonical(toks);
            ctx.check(sh == want, &format!("shape:{}", why), || format!("tree shape {} but the archive points determine {}",
                sh.as_ref().map(|s| s.to_string()).unwrap_or_default(), want.as_ref().map(|s| s.to_string()).unwrap_or_default()))?;
            if let Some(s) = &sh { let ok = s.well_levelled(); ctx.check(ok, &format!("levels:{}", why), || s.to_string())?; }
        }
        Ok(())
    }

    pub fn check_meta(&mut self, ctx: &mut Ctx, t: &RazTree<El, M>, toks: &[Tok], why: &str) -> R<()> {
        let es = elems(toks);
        if let Some(n) = t.meta().len() { ctx.eq(&format!("meta-count:{}", why), &n, &es.len())?; }
        let ok = t.meta().extra(&es, marks(toks).iter().map(|m| m.0 as u64).sum());
        ctx.check(ok, &format!("meta-user:{}", why), || format!("{:?} for {:?}", t.meta(), es))?;
        if let Some(s) = t.meta().name_set() {
            let ids: Vec<u64> = { let mut v: Vec<u64> = marks(toks).iter().filter_map(|m| m.1).collect(); v.sort(); v };
            let mut got: Vec<u64> = vec![];
            let _ = s;
            if let Some(names) = name_keys(t.meta()) { got = names.iter().map(|n| self.nb.id(n)).collect(); }
            got.sort();
            ctx.eq(&format!("meta-names:{}", why), &got, &ids)?;
        }
        Ok(())
    }

    /// Full check of one document against its reference.
    pub fn verify(&mut self, ctx: &mut Ctx, i: usize, why: &str) -> R<()> {
        let mo = self.docs[i].mo.clone();
        let canon = self.docs[i].canon;
        ctx.count("probe:full verify");
        match &mo {
            Mo::T(toks) => {
                let t = match &self.docs[i].st { St::T(t) => t.clone(), _ => unreachable!() };
                self.verify_tree(ctx, &t, toks, canon, why)?;
                if self.persist { self.readout_tree(ctx, &t, toks, why)?; }
            }
            Mo::Z(z) => {
                let raz = match &self.docs[i].st { St::Z(r) => r, _ => unreachable!() };
                let (pl, pr) = must(ctx, "peek", || quiet(|| (raz.peek_left(), raz.peek_right())))?;
                ctx.eq(&format!("peek-left:{}", why), &pl.map(|e| e.0), &z.peek(true))?;
                ctx.eq(&format!("peek-right:{}", why), &pr.map(|e| e.0), &z.peek(false))?;
                if self.persist {
                    let raz = raz.clone();
                    self.readout_raz(ctx, raz, z, why)?;
                }
            }
        }
        Ok(())
    }

    fn readout_raz(&mut self, ctx: &mut Ctx, raz: Raz<El, M>, z: &Zip, why: &str) -> R<()> {
        for left in [true, false] {
            let mut c = raz.clone();
            let want: Vec<u32> = { let mut w = z.clone(); let mut v = vec![]; while let Some(e) = w.pop(left) { v.push(e); } v };
            let cap = want.len() + 3;
            let got = must(ctx, "drain", || quiet(|| {
                let mut v = vec![];
                while let Some(e) = if left { c.pop_left() } else { c.pop_right() } { v.push(e.0); if v.len() > cap { break; } }
                v
            }))?;
            ctx.eq(&format!("drain-{}:{}", if left { "left" } else { "right" }, why), &got, &want)?;
        }
        Ok(())
    }

    fn readout_tree(&mut self, ctx: &mut Ctx, t: &RazTree<El, M>, toks: &[Tok], why: &str) -> R<()> {
        let first = must(ctx, "focus first", || quiet(|| t.clone().focus(M::Index::first())))?;
        match first {
            None => return ctx.fail(&format!("focus-first-none:{}", why), format!("focus at the first position of {:?} failed", toks)),
            Some(r) => self.readout_raz(ctx, r, &Zip { l: vec![], r: toks.iter().rev().cloned().collect() }, why)?,
        }
        let last = must(ctx, "focus last", || quiet(|| t.clone().focus(M::Index::last())))?;
        match last {
            None => return ctx.fail(&format!("focus-last-none:{}", why), format!("focus at the last position of {:?} failed", toks)),
            Some(r) => self.readout_raz(ctx, r, &Zip { l: toks.to_vec(), r: vec![] }, why)?,
        }
        Ok(())
    }

    /// Make document `i` a tree (unfocus) if it is focused.
    pub fn to_tree(&mut self, ctx: &mut Ctx, i: usize) -> R<()> {
        if let Mo::T(_) = self.docs[i].mo { return Ok(()); }
        let z = match &self.docs[i].mo { Mo::Z(z) => z.clone(), _ => unreachable!() };
        let st = std::mem::replace(&mut self.docs[i].st, St::T(RazTree::empty()));
        let raz = match st { St::Z(r) => r, _ => unreachable!() };
        let t = must(ctx, "unfocus", || raz.unfocus())?;
        let cands = z.unfocus();
        let toks = if cands.len() == 1 { cands[0].clone() } else {
            ctx.count("probe:unfocus with empty centre");
            let n = self.scratch_ns();
            let t2 = t.clone();
            let got = conv_toks(&must(ctx, "read tree", || quiet(|| ns(n, || toks_of(t2))))?, &self.nb);
            match cands.iter().find(|c| **c == got) {
                Some(c) => c.clone(),
                None => return ctx.fail("unfocus", format!("unfocus of {:?} gave {:?}, expected one of {:?}", z, got, cands)),
            }
        };
        if z.l.is_empty() != z.r.is_empty() { ctx.count("probe:unfocus at an end"); }
        self.docs[i].st = St::T(t);
        self.docs[i].mo = Mo::T(toks);
        Ok(())
    }

    /// Make document `i` a zipper at a position chosen by `b`.
    pub fn to_raz(&mut self, ctx: &mut Ctx, i: usize, b: u64, end_only: bool) -> R<()> {
        if let Mo::Z(_) = self.docs[i].mo { return Ok(()); }
        let toks = match &self.docs[i].mo { Mo::T(t) => t.clone(), _ => unreachable!() };
        let t = match std::mem::replace(&mut self.docs[i].st, St::Z(Raz::new())) { St::T(t) => t, _ => unreachable!() };
        let at = position(&toks, b);
        let pos = if end_only { None } else { M::at(at) };
        let (idx, z) = match pos {
            Some(ix) => (ix, Zip::focus(&toks, at)),
            None => if b % 2 == 0 { (M::Index::first(), Zip { l: vec![], r: toks.iter().rev().cloned().collect() }) }
                    else { (M::Index::last(), Zip { l: toks.clone(), r: vec![] }) },
        };
        match must(ctx, "focus", || t.focus(idx))? {
            None => return ctx.fail("focus-none", format!("focus at a position inside {:?} failed", toks)),
            Some(r) => { self.docs[i].st = St::Z(r); self.docs[i].mo = Mo::Z(z); }
        }
        Ok(())
    }

    fn pick(&mut self, a: u64) -> usize {
        if self.docs.is_empty() { self.new_doc(); }
        (a % self.docs.len() as u64) as usize
    }

    /// what happens to the world when user code interrupted the library mid-operation
    fn interrupted(&mut self, ctx: &mut Ctx, site: &'static str, victim: Option<usize>) -> R<()> { self.interrupted_in(ctx, site, victim, false) }
    fn interrupted_in(&mut self, ctx: &mut Ctx, site: &'static str, victim: Option<usize>, named: bool) -> R<()> {
        ctx.count("fault:interruption");
        ctx.count(match site {
            "callback" => "fault:interrupted in callback", "element clone" => "fault:interrupted in element clone",
            "element hash" => "fault:interrupted in element hash", "element eq" => "fault:interrupted in element eq",
            _ => "fault:interrupted in metadata",
        });
        ctx.ev(&format!("interrupted in {}", site));
        disarm();
        if let Some(v) = victim { self.docs.remove(v); }
        if self.dcg && (!self.persist || named || (self.seed ^ ctx.step as u64) % 2 == 0) { self.restart(ctx)?; } else {
            for i in 0..self.docs.len() { self.verify(ctx, i, "after interruption")?; }
        }
        Ok(())
    }

    pub fn warm_ns(&self, actor: u8, kind: u64, doc: u64) -> Name {
        name_pair(ns_name(actor as u64 * 100 + kind, if self.share_ns { 0 } else { doc }), name_of_usize(5))
    }

    pub fn fold(&mut self, ctx: &mut Ctx, i: usize, actor: u8, kind: u64, scratch: bool) -> R<()> {
        self.to_tree(ctx, i)?;
        let toks = match &self.docs[i].mo { Mo::T(t) => t.clone(), _ => unreachable!() };
        let want = match reference(kind, &toks, self.docs[i].canon, self.start) { Some(w) => w, None => return Ok(()) };
        let nsn = if scratch { self.scratch_ns() } else { self.warm_ns(actor, kind, self.docs[i].id) };
        let t = match &self.docs[i].st { St::T(t) => t.clone(), _ => unreachable!() };
        if let Some((m, n)) = self.pending.take() { arm(m, n); }
        let nb = std::mem::take(&mut self.nb);
        let r = guard(|| compute(kind, t.clone(), nsn.clone(), &nb));
        self.nb = nb;
        let name = FOLD_NAMES[kind as usize];
        disarm();
        match r {
            Caught::Ok(got) => { ctx.evh(name, hash_of(&format!("{:?}", got))); ctx.eq(&format!("compute:{}", name), &got, &want)?; }
            Caught::Panic(m) => return ctx.fail(&format!("panic:compute:{}", name), format!("computation {} on {:?} panicked: {}", name, toks, m)),
            Caught::Injected(s) => {
                // the computation was cancelled; nothing it read may have changed, and a retry delivers the answer
                self.interrupted_in(ctx, s, None, memoised(kind))?;
                let t = match &self.docs[i].st { St::T(t) => t.clone(), _ => unreachable!() };
                let nb = std::mem::take(&mut self.nb);
                let r = guard(|| compute(kind, t, nsn, &nb));
                self.nb = nb;
                match r {
                    Caught::Ok(got) => ctx.eq(&format!("retry:{}", name), &got, &want)?,
                    Caught::Panic(m) => return ctx.fail(&format!("panic:retry:{}", name), m),
                    Caught::Injected(s) => return ctx.fail("stray-injection", s.to_string()),
                }
                ctx.count("probe:retry after interruption");
            }
        }
        Ok(())
    }

    pub fn step(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        let op = s.op as usize % OPS.len();
        let i = self.pick(s.a);
        if op != INTERRUPT && op != FOLD && op != FOLD_SCRATCH {
            if let Some((m, n)) = self.pending.take() { return self.armed_step(ctx, s, m, n); }
        }
        match op {
            PUSH_L | PUSH_R => {
                self.to_raz(ctx, i, s.c, false)?;
                let left = op == PUSH_L;
                let z = self.zip(i);
                if z.l.len() + z.r.len() > self.maxlen { return Ok(()); }
                let v = self.value(s.b);
                let want = self.zip_mut(i).push(left, v);
                let raz = self.raz_mut(i);
                let got = must(ctx, "push", || if left { raz.push_left(El(v)) } else { raz.push_right(El(v)) })?;
                ctx.eq("push-active-len", &got, &want)?;
            }
            BURST => {
                self.to_raz(ctx, i, s.c, false)?;
                let z = self.zip(i);
                if z.l.len() + z.r.len() > self.maxlen { return Ok(()); }
                let left = s.b % 2 == 0;
                let n = (s.b / 2 % 6) * self.burst;
                for d in 0..self.deep {
                    for k in 0..if self.deep > 1 { 1 + (s.b + d) % 3 } else { n } {
                        let v = self.value(s.b + k + d + 1);
                        let want = self.zip_mut(i).push(left, v);
                        let raz = self.raz_mut(i);
                        let got = must(ctx, "push", || if left { raz.push_left(El(v)) } else { raz.push_right(El(v)) })?;
                        ctx.eq("push-active-len", &got, &want)?;
                    }
                    if s.c % 3 == 0 || d + 1 < self.deep { self.archive(ctx, i, left, s.c + d * 7)?; }
                }
            }
            POP_L | POP_R => {
                self.to_raz(ctx, i, s.c, false)?;
                let left = op == POP_L;
                for _ in 0..1 + s.b % 3 {
                    let want = self.zip_mut(i).pop(left);
                    let raz = self.raz_mut(i);
                    let got = must(ctx, "pop", || if left { raz.pop_left() } else { raz.pop_right() })?;
                    ctx.eq(if left { "pop-left" } else { "pop-right" }, &got.map(|e| e.0), &want)?;
                }
            }
            PEEK => {
                if let Mo::Z(z) = self.docs[i].mo.clone() {
                    let raz = self.raz_mut(i);
                    let (l, r) = must(ctx, "peek", || (raz.peek_left(), raz.peek_right()))?;
                    ctx.eq("peek-left", &l.map(|e| e.0), &z.peek(true))?;
                    ctx.eq("peek-right", &r.map(|e| e.0), &z.peek(false))?;
                }
            }
            ARCH_L | ARCH_R => {
                self.to_raz(ctx, i, s.c, false)?;
                self.archive(ctx, i, op == ARCH_L, s.b)?;
            }
            UNFOCUS => self.to_tree(ctx, i)?,
            FOCUS_AT => { self.to_tree(ctx, i)?; self.to_raz(ctx, i, s.b, false)?; }
            FOCUS_END => { self.to_tree(ctx, i)?; self.to_raz(ctx, i, s.b, true)?; }
            FOCUS_LEFT => {
                self.to_tree(ctx, i)?;
                let toks = self.toks(i);
                let t = match std::mem::replace(&mut self.docs[i].st, St::Z(Raz::new())) { St::T(t) => t, _ => unreachable!() };
                let r = must(ctx, "focus_left", || t.focus_left())?;
                self.docs[i].st = St::Z(r);
                self.docs[i].mo = Mo::Z(Zip { l: vec![], r: toks.into_iter().rev().collect() });
            }
            FOCUS_OOB => {
                // out of range: must refuse, and must leave the tree it was asked about alone
                self.to_tree(ctx, i)?;
                let toks = self.toks(i);
                let n = elems(&toks).len();
                if n > 0 {
                    if let Some(ix) = M::at(n + 1 + (s.b % 50) as usize) {
                        let t = self.tree(i);
                        match guard(|| t.focus(ix)) {
                            Caught::Ok(None) => { ctx.count("probe:out of range refused"); }
                            Caught::Ok(Some(_)) if M::KIND == "user" && marks(&toks).is_empty() => {}
                            Caught::Ok(Some(_)) => return ctx.fail("focus-oob", format!("focus beyond the end of {:?} succeeded", toks)),
                            Caught::Panic(_) => { ctx.count("probe:out of range panic"); }
                            Caught::Injected(_) => {}
                        }
                        self.verify(ctx, i, "after refused focus")?;
                    }
                }
            }
            FOCUS_NAME => {
                self.to_tree(ctx, i)?;
                let toks = self.toks(i);
                let named: Vec<u64> = marks(&toks).iter().filter_map(|m| m.1).collect();
                if let (true, Some(_)) = (!toks.is_empty(), M::by_name(name_of_usize(0))) {
                    // the name a reader sees at the archive point
                    let n = self.scratch_ns();
                    let t = self.tree(i);
                    let obs: Vec<Name> = must(ctx, "read tree", || quiet(|| ns(n, || toks_of(t))))?.into_iter()
                        .filter_map(|t| if let TokN::M(_, n) = t { n } else { None }).collect();
                    if s.b % 4 == 3 && !marks(&toks).is_empty() {
                        // absent name
                        let absent = name_pair(name_of_usize(77_000_000), name_of_string("tree".to_string()));
                        let ix = M::by_name(absent).unwrap();
                        let t = self.tree(i);
                        match must(ctx, "focus by absent name", || t.focus(ix))? {
                            None => ctx.count("probe:absent name refused"),
                            Some(_) => return ctx.fail("focus-name-absent", format!("focus on a name not in {:?} succeeded", toks)),
                        }
                    } else if !named.is_empty() {
                        let k = (s.b % named.len() as u64) as usize;
                        if obs.len() != named.len() { return ctx.fail("names-lost", format!("{} names visible, {} expected in {:?}", obs.len(), named.len(), toks)); }
                        let ix = M::by_name(obs[k].clone()).unwrap();
                        let t = match std::mem::replace(&mut self.docs[i].st, St::Z(Raz::new())) { St::T(t) => t, _ => unreachable!() };
                        match must(ctx, "focus by name", || t.focus(ix))? {
                            None => return ctx.fail("focus-name-none", format!("focus on name n{} of {:?} failed", named[k], toks)),
                            Some(r) => {
                                ctx.count("probe:focus by name");
                                self.docs[i].st = St::Z(r);
                                self.docs[i].mo = Mo::Z(Zip::focus_mark(&toks, named[k]).unwrap());
                                self.verify(ctx, i, "after focus by name")?;
                            }
                        }
                    }
                }
            }
            CLONE => {
                if self.persist && self.docs.len() < self.maxdocs {
                    let d = &self.docs[i];
                    let st = match &d.st { St::Z(r) => St::Z(r.clone()), St::T(t) => St::T(t.clone()) };
                    let (mo, canon) = (d.mo.clone(), d.canon);
                    let id = self.next_doc; self.next_doc += 1;
                    self.docs.push(Doc { id, st, mo, canon });
                    ctx.count("probe:fork");
                } else if self.docs.len() < self.maxdocs { self.new_doc(); }
            }
            DROP => { if self.docs.len() > 1 { self.docs.remove(i); } }
            NEW => { if self.docs.len() < self.maxdocs { self.new_doc(); } }
            VERIFY => self.verify(ctx, i, "check")?,
            CHECK_META => { self.to_tree(ctx, i)?; let t = self.tree(i); let toks = self.toks(i); self.check_meta(ctx, &t, &toks, "check")?; }
            FOLD | FOLD_SCRATCH => {
                if self.folds.is_empty() { return Ok(()); }
                let kind = self.folds[(s.b % self.folds.len() as u64) as usize];
                self.fold(ctx, i, s.actor, kind, op == FOLD_SCRATCH)?;
            }
            // a document joined with itself, over and over: shared subtrees, very many elements
            JOIN if self.double > 0 && self.names == 0 => {
                self.to_tree(ctx, i)?;
                for k in 0..1 + s.b % self.double {
                    let toks = self.toks(i);
                    if toks.is_empty() || 2 * toks.len() >= self.maxlen { break; }
                    let t = self.tree(i);
                    let canon = self.docs[i].canon && max_mark(&toks) < u32::MAX - 10;
                    let lev = if canon { max_mark(&toks) + 1 } else { self.lev(s.c + k) };
                    let r = must(ctx, "join", || RazTree::join(t.clone(), lev, None, t))?;
                    let t = match r { Some(t) => t, None => return ctx.fail("join-none", "join of two non-empty trees returned none".into()) };
                    ctx.count("probe:join");
                    let mut both = toks.clone(); both.push(Tok::M(lev, None)); both.extend(toks);
                    self.docs[i].st = St::T(t); self.docs[i].mo = Mo::T(both); self.docs[i].canon = canon;
                }
            }
            JOIN => {
                let j = self.pick(s.b);
                if i != j {
                    self.to_tree(ctx, i)?; self.to_tree(ctx, j)?;
                    let (a, b) = (self.toks(i), self.toks(j));
                    if a.len() + b.len() > self.maxlen { return Ok(()); }
                    if self.names != 0 && !marks(&a).iter().all(|m| m.1.is_none() || !marks(&b).iter().any(|x| x.1 == m.1)) { return Ok(()); }
                    let (ta, tb) = (self.tree(i), self.tree(j));
                    let good = s.c % 4 != 0 && max_mark(&a).max(max_mark(&b)) < u32::MAX - 10;
                    let lev = if good { max_mark(&a).max(max_mark(&b)) + 1 + (s.c % 3) as u32 } else { self.lev(s.c) };
                    let (id, n) = self.alloc_name(s.c);
                    self.joined.extend(id);
                    let r = must(ctx, "join", || RazTree::join(ta, lev, n, tb))?;
                    let canon = good && self.docs[i].canon && self.docs[j].canon;
                    let keep_inputs = self.persist;
                    match (r, a.is_empty() || b.is_empty()) {
                        (None, true) => {}
                        (Some(_), true) => return ctx.fail("join-empty", "join with an empty tree returned a tree".into()),
                        (None, false) => return ctx.fail("join-none", "join of two non-empty trees returned none".into()),
                        (Some(t), false) => {
                            ctx.count("probe:join");
                            let mut toks = a.clone(); toks.push(Tok::M(lev, id)); toks.extend(b.clone());
                            if keep_inputs && self.docs.len() < self.maxdocs && s.c % 2 == 0 {
                                let did = self.next_doc; self.next_doc += 1;
                                self.docs.push(Doc { id: did, st: St::T(t), mo: Mo::T(toks), canon });
                            } else {
                                self.docs[i].st = St::T(t); self.docs[i].mo = Mo::T(toks); self.docs[i].canon = canon;
                                if !keep_inputs { self.docs.remove(j); }
                            }
                        }
                    }
                }
            }
            FROM_VEC => {
                if self.docs.len() < self.maxdocs {
                    let v: Vec<u32> = (0..s.b % 7).map(|k| self.value(s.b + k)).collect();
                    let els: Vec<El> = v.iter().map(|e| El(*e)).collect();
                    let t = must(ctx, "from_vec", || RazTree::<El, M>::from_vec(els))?;
                    match t {
                        None => ctx.check(v.is_empty(), "from-vec-none", || format!("from_vec({:?}) gave none", v))?,
                        Some(t) => {
                            ctx.check(!v.is_empty(), "from-vec-some", || "from_vec of nothing gave a tree".into())?;
                            let id = self.next_doc; self.next_doc += 1;
                            self.docs.push(Doc { id, st: St::T(t), mo: Mo::T(v.into_iter().map(Tok::E).collect()), canon: true });
                        }
                    }
                }
            }
            INTERRUPT => {
                let masks = [SITE_CALLBACK, SITE_CLONE, SITE_META, SITE_HASH | SITE_EQ, SITE_CALLBACK | SITE_CLONE | SITE_META];
                self.pending = Some((masks[(s.b % masks.len() as u64) as usize], countdown(s.c)));
            }
            RESTART => {
                // without names nothing lives in the engine's store, so data also survives a switch of engines
                if self.names == 0 && s.b % 3 == 0 { self.dcg = !self.dcg; ctx.count("fault:engine switch"); }
                self.restart(ctx)?
            }
            NS_FORK => self.ns_fork(ctx, i, s)?,
            REUSE => self.reuse(ctx, i, s)?,
            RELEVEL => self.relevel(ctx, i, s)?,
            _ => {}
        }
        Ok(())
    }

    /// run one step with a fault armed inside it
    fn armed_step(&mut self, ctx: &mut Ctx, s: &Step, mask: u32, n: u64) -> R<()> {
        let op = s.op as usize % OPS.len();
        if !matches!(op, PUSH_L | PUSH_R | POP_L | POP_R | UNFOCUS | FOCUS_AT | FOCUS_END | ARCH_L | ARCH_R | PEEK) { return self.step(ctx, s); }
        let i = self.pick(s.a);
        // work on a fork when handles are persistent: the fork may tear, the original must not
        let keep = self.docs[i].mo.clone();
        let st = std::mem::replace(&mut self.docs[i].st, St::T(RazTree::empty()));
        let orig = if self.persist { Some(match &st { St::Z(r) => St::Z(r.clone()), St::T(t) => St::T(t.clone()) }) } else { None };
        arm(mask, n);
        let r = guard(move || -> () {
            match (st, op) {
                (St::Z(mut r), PUSH_L) => { r.push_left(El(9)); }
                (St::Z(mut r), PUSH_R) => { r.push_right(El(9)); }
                (St::Z(mut r), POP_L) => { for _ in 0..4 { r.pop_left(); } }
                (St::Z(mut r), POP_R) => { for _ in 0..4 { r.pop_right(); } }
                (St::Z(mut r), ARCH_L) => { r.archive_left(3, None); r.unfocus(); }
                (St::Z(mut r), ARCH_R) => { r.archive_right(3, None); r.unfocus(); }
                (St::Z(r), PEEK) => { r.peek_left(); r.peek_right(); }
                (St::Z(r), _) => { r.unfocus(); }
                (St::T(t), FOCUS_END) => { let mut r = t.focus(M::Index::last()).unwrap(); r.pop_left(); r.pop_left(); r.unfocus(); }
                (St::T(t), _) => { let mut r = t.focus(M::Index::first()).unwrap(); r.push_left(El(8)); r.pop_right(); r.unfocus(); }
            }
        });
        disarm();
        match r {
            Caught::Panic(m) => return ctx.fail("panic:armed", m),
            Caught::Ok(()) => {
                // completed before the fault came due; in a mutable world the document moved on, so restore it from its log
                ctx.count("probe:armed op completed");
                match orig {
                    Some(st) => { self.docs[i].st = st; self.docs[i].mo = keep; self.verify(ctx, i, "after fork edit")?; }
                    None => { self.docs[i].mo = keep; self.restart(ctx)?; }
                }
            }
            Caught::Injected(site) => {
                self.docs[i].mo = keep;
                if let Some(st) = orig { self.docs[i].st = st; }
                self.interrupted(ctx, site, None)?;
            }
        }
        Ok(())
    }

    /// Edit a copy of a document inside its own namespace; the original must not notice.
    fn ns_fork(&mut self, ctx: &mut Ctx, i: usize, s: &Step) -> R<()> {
        self.to_tree(ctx, i)?;
        let toks = self.toks(i);
        let canon = self.docs[i].canon;
        self.scratch += 1;
        let nsn = ns_name(2_000_000, self.scratch);
        let orig = self.tree(i);
        let mut rng = crate::rng::Rng::new(crate::rng::mix(s.b, s.c));
        let mut cur = toks.clone();
        let mut t = orig.clone();
        for _ in 0..1 + s.c % 3 {
            let n = elems(&cur).len();
            let pos = rng.below(n as u64 + 1) as usize;
            let (ix, mut z) = match M::at(pos) {
                Some(ix) => (ix, Zip::focus(&cur, pos)),
                None => (M::Index::last(), Zip { l: cur.clone(), r: vec![] }),
            };
            let mut plan: Vec<(u64, u32, u32, Option<u64>, Option<Name>)> = vec![];
            for _ in 0..rng.range(1, 6) {
                let k = rng.below(6);
                let v = self.value(rng.below(1000));
                let (id, nm) = if k >= 4 { self.alloc_name(rng.below(1000)) } else { (None, None) };
                plan.push((k, v, self.lev(rng.below(1000)), id, nm));
            }
            let p2 = plan.clone();
            let t0 = t.clone();
            let (got, t2) = must(ctx, "edit in namespace", || ns(nsn.clone(), || {
                let mut got = vec![];
                let mut r = t0.focus(ix).expect("focus inside the sequence");
                for (k, v, lv, _, nm) in p2 {
                    match k {
                        0 => { r.push_left(El(v)); } 1 => { r.push_right(El(v)); }
                        2 => got.push(r.pop_left().map(|e| e.0)), 3 => got.push(r.pop_right().map(|e| e.0)),
                        4 => r.archive_left(lv, nm), _ => r.archive_right(lv, nm),
                    }
                }
                // an element at the cursor keeps the result unambiguous
                r.push_left(El(4242));
                (got, r.unfocus())
            }))?;
            let mut want = vec![];
            for (k, v, lv, id, _) in plan {
                match k { 0 => { z.push(true, v); } 1 => { z.push(false, v); } 2 => want.push(z.pop(true)), 3 => want.push(z.pop(false)),
                    4 => { z.archive(true, lv, id); } _ => { z.archive(false, lv, id); } }
            }
            z.push(true, 4242);
            ctx.eq("ns-fork-pops", &got, &want)?;
            cur = z.unfocus()[0].clone();
            t = t2;
            self.verify_tree(ctx, &t, &cur, canon, "ns fork")?;
            self.verify_tree(ctx, &orig, &toks, canon, "ns original")?;
            ctx.count("probe:namespace fork edit");
        }
        // both versions through the same warm computation
        if !self.folds.is_empty() {
            let kind = self.folds[(s.b % self.folds.len() as u64) as usize];
            if let (Some(w1), Some(w2)) = (reference(kind, &cur, canon, self.start), reference(kind, &toks, canon, self.start)) {
                let nb = std::mem::take(&mut self.nb);
                let wn = self.warm_ns(s.actor, kind, self.docs[i].id);
                let r1 = guard(|| compute(kind, t.clone(), wn.clone(), &nb));
                let r2 = guard(|| compute(kind, orig.clone(), wn.clone(), &nb));
                self.nb = nb;
                for (r, w, what) in [(r1, w1, "fork"), (r2, w2, "original")] {
                    match r {
                        Caught::Ok(g) => ctx.eq(&format!("ns-compute-{}:{}", what, FOLD_NAMES[kind as usize]), &g, &w)?,
                        Caught::Panic(m) => return ctx.fail(&format!("panic:ns-compute-{}", what), m),
                        Caught::Injected(m) => return ctx.fail("stray-injection", m.to_string()),
                    }
                }
            }
        }
        Ok(())
    }

    /// Work done by a repeated demand.
    /// sections next to the cursor taken off and put back, their archive points under the same names at other levels
    fn relevel(&mut self, ctx: &mut Ctx, i: usize, s: &Step) -> R<()> {
        // reusing a name needs that nobody else holds what it named
        if self.persist && self.names != 0 { return Ok(()); }
        let mut rng = crate::rng::Rng::new(crate::rng::mix(s.b, s.c));
        // sometimes all that changes is one element, between two runs of a computation
        let patch = rng.chance(1, 2);
        let kind = if patch && !self.folds.is_empty() && rng.chance(2, 3) { Some(self.folds[rng.below(self.folds.len() as u64) as usize]) } else { None };
        if let Some(k) = kind { self.fold(ctx, i, s.actor, k, false)?; }
        self.to_raz(ctx, i, s.c, false)?;
        let z = self.zip(i);
        let left = if marks(&z.l).is_empty() { false } else if marks(&z.r).is_empty() { true } else { rng.chance(1, 2) };
        let before = if left { z.l } else { z.r };
        let goal = marks(&before).len().saturating_sub(1 + rng.below(3) as usize);
        if marks(&before).is_empty() { return Ok(()); }
        while marks(self.zip_mut(i).side(left)).len() > goal {
            let want = self.zip_mut(i).pop(left);
            let raz = self.raz_mut(i);
            let got = must(ctx, "pop", || if left { raz.pop_left() } else { raz.pop_right() })?;
            ctx.eq(if left { "pop-left" } else { "pop-right" }, &got.map(|e| e.0), &want)?;
        }
        let kept = self.zip_mut(i).side(left).len();
        let one = if patch { kept + rng.below((before.len() - kept) as u64) as usize } else { usize::MAX };
        for (at, t) in before[kept..].iter().enumerate() {
            match t {
                Tok::E(e) => {
                    let e = if if patch { at + kept == one } else { rng.chance(1, 12) } { self.value(rng.below(1000)) } else { *e };
                    let want = self.zip_mut(i).push(left, e);
                    let raz = self.raz_mut(i);
                    let got = must(ctx, "push", || if left { raz.push_left(El(e)) } else { raz.push_right(El(e)) })?;
                    ctx.eq("push-active-len", &got, &want)?;
                }
                Tok::M(l, n) => {
                    let l = match if patch { 0 } else { rng.below(4) } { 0 => *l, 1 => (*l).saturating_add(1 + rng.below(3) as u32).min(u32::MAX - 20), 2 => l.saturating_sub(1 + rng.below(3) as u32).max(1), _ => self.lev(rng.below(1000)) };
                    // (a name given to a join names a tree, not an archived section)
                    let (n, nm) = match *n { Some(k) if self.joined.contains(&k) => self.alloc_name(rng.below(1000)), n => (n, n.map(|n| self.nb.name(n))) };
                    self.zip_mut(i).archive(left, l, n);
                    let raz = self.raz_mut(i);
                    must(ctx, "archive", || if left { raz.archive_left(l, nm) } else { raz.archive_right(l, nm) })?;
                    ctx.count(if patch { "probe:archive point put back" } else { "probe:archive point put back at another level" });
                }
            }
        }
        if let Some(k) = kind { self.fold(ctx, i, s.actor, k, false)?; }
        Ok(())
    }
    fn reuse(&mut self, ctx: &mut Ctx, i: usize, s: &Step) -> R<()> {
        if !self.dcg || self.names != 1 { return Ok(()); }
        self.to_tree(ctx, i)?;
        let toks = self.toks(i);
        if !self.docs[i].canon { return Ok(()); }
        let kinds = [0u64, 2, 3, 4, 5, 6, 13, 7, 8, 11];
        let kind = kinds[(s.b % kinds.len() as u64) as usize];
        let did = self.docs[i].id;
        let nsn = name_pair(self.warm_ns(s.actor, kind, did), name_of_usize(9));
        let shape = match canonical(&toks) { Some(s) => s, None => return Ok(()) };
        // nodes: memo key, tokens below, tokens before, is a leaf
        struct Node { key: Option<(u64, bool)>, toks: Vec<Tok>, off: usize, leaf: bool }
        fn go(s: &Shape, key: Option<(u64, bool)>, off: usize, out: &mut Vec<Node>) -> usize {
            let mut toks = vec![];
            s.flat(&mut toks);
            let n = toks.len();
            match s {
                Shape::Leaf(_) => out.push(Node { key, toks, off, leaf: true }),
                Shape::Bin(l, _, nm, r) => {
                    out.push(Node { key, toks, off, leaf: false });
                    let nm = nm.unwrap_or(0);
                    let k = go(l, Some((nm, false)), off, out);
                    go(r, Some((nm, true)), off + k + 1, out);
                }
            }
            n
        }
        let mut nodes = vec![];
        go(&shape, None, 0, &mut nodes);
        let old = self.memo.entry((s.actor, kind, did)).or_default();
        // keys not met this time are forgotten: what they stored may have been overwritten since
        let mut m: BTreeMap<(u64, bool), (Vec<Tok>, u64)> = BTreeMap::new();
        // left-to-right folds carry an accumulator: everything before a node is part of its key
        let lr = matches!(kind, 5 | 6 | 7 | 11 | 13);
        let branches_counted = matches!(kind, 3 | 4 | 6 | 7);
        let (mut bound, mut bbound) = (0u64, 0u64);
        for n in &nodes {
            let prefix = if lr { hash_of(&toks[..n.off].to_vec()) } else { 0 };
            let changed = match n.key { Some(k) => old.get(&k).map_or(true, |x| x.0 != n.toks || x.1 != prefix), None => true };
            if changed { if n.leaf { bound += n.toks.len() as u64 } else { bbound += 1 } }
            if let Some(k) = n.key { m.insert(k, (n.toks.clone(), prefix)); }
        }
        *old = m;
        let nb = std::mem::take(&mut self.nb);
        let t = self.tree(i);
        let run = || {
            FAULTS.with(|f| { let mut f = f.borrow_mut(); f.elem_calls = 0; f.branch_calls = 0; });
            let r = guard(|| compute(kind, t.clone(), nsn.clone(), &nb));
            (r, FAULTS.with(|f| f.borrow().elem_calls), FAULTS.with(|f| f.borrow().branch_calls))
        };
        let (_r1, c1, b1) = run();
        let (_r2, c2, b2) = run();
        self.nb = nb;
        let single = nodes.len() == 1;
        let name = FOLD_NAMES[kind as usize];
        let (again, bagain) = (if single { nodes[0].toks.len() as u64 } else { 0 }, if single { 0 } else { 1 });
        ctx.count("probe:work counted");
        ctx.check(c2 <= again, "reuse-unchanged", || format!("re-demanding {} on an unchanged tree ran the element callback {} times", name, c2))?;
        ctx.check(c1 <= bound, if lr {"reuse-changed-lr"} else {"reuse-changed"}, || format!("{} ran the element callback {} times; predicted {} of {} {:?}", name, c1, bound, elems(&toks).len(), toks))?;
        if branches_counted {
            ctx.check(b2 <= bagain, "reuse-unchanged-branch", || format!("re-demanding {} on an unchanged tree ran the branch callback {} times", name, b2))?;
            ctx.check(b1 <= bbound, if lr {"reuse-changed-branch-lr"} else {"reuse-changed-branch"}, || format!("{} ran the branch callback {} times; predicted {} {:?}", name, b1, bbound, toks))?;
        }
        Ok(())
    }

    fn archive(&mut self, ctx: &mut Ctx, i: usize, left: bool, b: u64) -> R<()> {
        let lev = self.lev(b);
        let (id, n) = self.alloc_name(b);
        let did = self.zip_mut(i).archive(left, lev, id);
        let raz = self.raz_mut(i);
        must(ctx, "archive", || if left { raz.archive_left(lev, n) } else { raz.archive_right(lev, n) })?;
        if did { ctx.count("probe:archive point"); }
        Ok(())
    }

    pub fn zip(&self, i: usize) -> Zip { match &self.docs[i].mo { Mo::Z(z) => z.clone(), _ => unreachable!() } }
    pub fn zip_mut(&mut self, i: usize) -> &mut Zip { match &mut self.docs[i].mo { Mo::Z(z) => z, _ => unreachable!() } }
    pub fn toks(&self, i: usize) -> Vec<Tok> { match &self.docs[i].mo { Mo::T(t) => t.clone(), _ => unreachable!() } }
    pub fn tree(&self, i: usize) -> RazTree<El, M> { match &self.docs[i].st { St::T(t) => t.clone(), _ => unreachable!() } }
    pub fn raz_mut(&mut self, i: usize) -> &mut Raz<El, M> { match &mut self.docs[i].st { St::Z(r) => r, _ => unreachable!() } }
}

fn name_keys<M: SimMeta>(m: &M) -> Option<Vec<Name>> {
    let a: &dyn std::any::Any = m;
    a.downcast_ref::<Names>().map(|n| n.0.keys().cloned().collect())
}

impl<M: SimMeta> Sub for World<M> {
    fn start(&mut self) {
        self.start_engine();
        self.learn_start();
        for _ in 0..self.ndocs { self.new_doc(); }
    }
    fn step(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> { World::step(self, ctx, s) }
    fn state(&self) -> u64 { self.abstract_state() }
    fn bystander(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        // in half of the runs the mover looks around after each step, in a quarter now and then at everything
        if self.seed % 2 == 0 && !self.docs.is_empty() {
            let i = (s.a % self.docs.len() as u64) as usize;
            if let (Mo::Z(z), St::Z(raz)) = (&self.docs[i].mo, &self.docs[i].st) {
                let (pl, pr) = must(ctx, "peek", || quiet(|| (raz.peek_left(), raz.peek_right())))?;
                ctx.eq("peek-left:mover", &pl.map(|e| e.0), &z.peek(true))?;
                ctx.eq("peek-right:mover", &pr.map(|e| e.0), &z.peek(false))?;
            }
            if self.seed % 4 == 0 && (s.b ^ s.c) % 4 == 0 { self.verify(ctx, i, "mover")?; }
        }
        if self.bystanders && self.docs.len() > 1 {
            // somebody who did not move looks at what they hold
            let j = ((s.a + 1 + s.c) % self.docs.len() as u64) as usize;
            self.verify(ctx, j, "bystander")?;
        }
        Ok(())
    }
    fn restart(&mut self, ctx: &mut Ctx) -> R<()> { World::restart(self, ctx) }
    fn finish(&mut self, ctx: &mut Ctx) -> R<()> {
        for i in 0..self.docs.len() { self.verify(ctx, i, "end")?; self.to_tree(ctx, i)?; self.verify(ctx, i, "end")?; }
        let kinds: Vec<u64> = self.folds.clone();
        for i in 0..self.docs.len() { for k in &kinds { self.fold(ctx, i, 0, *k, false)?; } }
        Ok(())
    }
}
pub fn sub(plan: &Plan, bystanders: bool) -> Box<dyn Sub> {
    match plan.cfg("meta") {
        0 => Box::new(World::<Count>::new(plan, bystanders)),
        1 => Box::new(World::<Names>::new(plan, bystanders)),
        2 => Box::new(World::<UMeta>::new(plan, bystanders)),
        _ => Box::new(World::<()>::new(plan, bystanders)),
    }
}

/// Run a zipper-world plan.
pub fn exec_by_meta(plan: &Plan, ctx: &mut Ctx, bystanders: bool) -> R<()> {
    set_degenerate(plan.cfg("degenerate") == 1);
    let r = drive(&mut *sub(plan, bystanders), OPS, plan, ctx);
    set_degenerate(false);
    r
}
