//! Histories over the evaluation harness: documents (IRaz, name-indexed RAZ, Vec)
//! created, edited and computed over through the harness's own traits and actions,
//! and the sequence accumulators its folds build.
use crate::clock;
use crate::core::*;
use crate::el::El;
use crate::gen::{self, cb, SimGen};
use crate::rng::{mix, Rng};
use crate::swarm;
use adapton::engine::*;
use eval::accum_lists::{List, RcList, RcVecList, VecList};
use eval::actions::*;
use eval::eval_iastack::EvalIAStack;
use eval::eval_iraz::EvalIRaz;
use eval::eval_raz_name_index::EvalRazNameIndex;
use eval::eval_vec::EvalVec;
use eval::examples::iraztree_depth_4;
use eval::interface::*;
use eval::primitives::*;
use eval::test_build::{BuildTest, TestResult as BuildResult};
use eval::test_seq::{EditComputeSequence, TestMResult, TestResult};
use iodyn::archive_stack::{AStack, AtTail};
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::memo::MemoFrom;
use iodyn::raz::RazTree;
use iodyn::raz_meta::{Names, RazMeta};
use iodyn::{IRaz, IRazTree};
use rand::{SeedableRng, StdRng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;
use time::Duration;

pub const OPS: &[&str] = &["new", "from", "insert", "append", "extend", "compute", "read", "clone", "drop", "edit_compute_sequence", "build_test", "clock_jump", "restart", "interrupt",
    "acc_new", "acc_push", "acc_pop", "acc_archive", "acc_clone", "acc_drain"];
pub const NEW: usize = 0; pub const FROM: usize = 1; pub const INSERT: usize = 2; pub const APPEND: usize = 3; pub const EXTEND: usize = 4;
pub const COMPUTE: usize = 5; pub const READ: usize = 6; pub const CLONE: usize = 7; pub const DROP: usize = 8; pub const SEQ: usize = 9;
pub const BUILD: usize = 10; pub const JUMP: usize = 11; pub const RESTART: usize = 12; pub const INTERRUPT: usize = 13;
pub const ANEW: usize = 14; pub const APUSH: usize = 15; pub const APOP: usize = 16; pub const AARCH: usize = 17; pub const ACLONE: usize = 18; pub const ADRAIN: usize = 19;

/// what a traversal of a document meets
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tok { E(u32), M(u32, Option<Name>), F(Option<Name>) }
fn elems(t: &[Tok]) -> Vec<u32> { t.iter().filter_map(|t| if let Tok::E(e) = t { Some(*e) } else { None }).collect() }
fn names(t: &[Tok]) -> Vec<Name> { t.iter().filter_map(|t| if let Tok::M(_, Some(n)) = t { Some(n.clone()) } else { None }).collect() }

type DI = EvalIRaz<El, SimGen>;
type DN = EvalRazNameIndex<El, SimGen>;
type DV = EvalVec<El, SimGen>;
#[derive(Clone)]
enum Data { I(DI), N(DN), V(DV) }
struct Doc { d: Data, mo: Vec<Tok>, ns: u64, dg: u64, ng: u64, counter: u64 }

macro_rules! each { ($d:expr, $x:ident => $e:expr) => { match $d { Data::I($x) => $e, Data::N($x) => $e, Data::V($x) => $e } } }
macro_rules! wrap { ($d:expr, $x:ident => $e:expr) => { match $d {
    Data::I($x) => { let (t, d) = $e; (t, Data::I(d)) } Data::N($x) => { let (t, d) = $e; (t, Data::N(d)) } Data::V($x) => { let (t, d) = $e; (t, Data::V(d)) } } } }

/// an expected sequence: what was there, what was drawn, and archive points the edit adds
#[derive(Clone, Debug)]
enum P { Old(Tok), E(u32), New(bool), Lev(u32, bool) }
fn matches(p: &[P], got: &[Tok]) -> bool {
    p.len() == got.len() && p.iter().zip(got).all(|(p, g)| match (p, g) {
        (P::Old(t), g) => t == g,
        (P::E(e), Tok::E(g)) => e == g,
        (P::New(named), Tok::M(_, n)) => *named == n.is_some(),
        (P::Lev(l, named), Tok::M(g, n)) => l == g && *named == n.is_some(),
        _ => false,
    })
}
fn is_mark(p: Option<&P>) -> bool { matches!(p, Some(P::Old(Tok::M(..))) | Some(P::New(_))) }
/// the sequences an insertion of `block` somewhere in `at` may give. Two archive
/// points with nothing between them are one too many: either may go.
fn splices(old: &[Tok], block: &[P], at: std::ops::RangeInclusive<usize>) -> Vec<Vec<P>> {
    let mut out = vec![];
    for i in at {
        let mut l: Vec<P> = old[..i].iter().cloned().map(P::Old).collect();
        l.extend(block.iter().cloned());
        let r: Vec<P> = old[i..].iter().cloned().map(P::Old).collect();
        if is_mark(l.last()) && is_mark(r.first()) && !block.is_empty() {
            let mut a = l.clone(); a.pop(); a.extend(r.iter().cloned()); out.push(a);
            l.extend(r[1..].iter().cloned()); out.push(l);
        } else { l.extend(r); out.push(l); }
    }
    for p in out.iter_mut() { while is_mark(p.last()) { p.pop(); } }
    out
}

#[derive(Clone, Debug, PartialEq)]
enum Res { Toks(Vec<Tok>), Vec(Vec<u32>), OVec(Option<Vec<u32>>), Num(Option<u64>), Txt(Vec<String>), Bits(Vec<bool>), Words(Vec<Word>), Done }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Word { Num(u64), Op(u32) }
fn poly(a: u64, e: u64) -> u64 { a.wrapping_mul(1_000_003).wrapping_add(e + 1) }
fn keep(e: u32) -> bool { e % 3 != 0 }
fn digit(e: u32) -> bool { e % 4 != 3 }

const KINDS: u64 = 40;
fn kind_ns(k: u64) -> Name { name_of_string(format!("kind-{}", k)) }
fn ns_of(d: Duration) -> i64 { d.num_nanoseconds().unwrap_or(i64::max_value()) }
fn sum_ns(v: Vec<Duration>) -> i64 { v.into_iter().map(ns_of).sum() }

thread_local! { static SCRATCH: Cell<u64> = const { Cell::new(0) }; }
fn scratch<T>(f: impl FnOnce() -> T) -> T {
    let n = SCRATCH.with(|s| { s.set(s.get() + 1); s.get() });
    quiet(|| ns(name_pair(name_of_string("scratch".to_string()), name_of_usize(n as usize)), f))
}
/// the tokens of a tree, by a traversal of its own that shares nothing with earlier ones
fn read_tree<M: RazMeta<El>>(t: &RazTree<El, M>) -> Vec<Tok> {
    let t = t.clone();
    scratch(|| t.fold_lr_meta(Vec::new(), Rc::new(|mut a: Vec<Tok>, e: &El| { a.push(Tok::E(e.0)); a }), Rc::new(|mut a: Vec<Tok>, (l, n)| { a.push(Tok::M(l, n)); a })))
}
fn read(d: &Data, rng: &mut StdRng) -> Vec<Tok> {
    let f = Rc::new(|mut a: Vec<Tok>, e: &El| { a.push(Tok::E(e.0)); a });
    let m = Rc::new(|mut a: Vec<Tok>, (l, n): (u32, Option<Name>)| { a.push(Tok::M(l, n)); a });
    scratch(|| each!(d, x => x.comp_fold_meta(Vec::new(), f, m, rng).1))
}
fn drain<A: IFaceSeq<El>>(mut a: A) -> Vec<u32> {
    let mut v = vec![];
    quiet(|| loop { let (e, b) = a.seq_pop(); a = b; match e { Some(e) => v.push(e.0), None => break } });
    v
}
/// fold into an accumulator the way the harness's own examples do
macro_rules! collect { ($a:ty, $d:expr, $rng:expr) => {{
    let mut c = MFolder::new(name_of_string("collect".to_string()), <$a>::new(), |a: $a, e: &El| { cb(); a.seq_push(e.clone()) },
        |a: $a, m: (u32, Option<Name>)| { a.archive(m) }, |a: $a| a);
    let (t, r): (Vec<Duration>, $a) = each!($d, x => c.compute(x, $rng));
    (Res::Vec(drain(r)), sum_ns(t))
}} }
macro_rules! concat_archive { () => { |mut a: Vec<Tok>, b: Vec<Tok>| { a.extend(b); a } } }

type Lexed = (AStack<Word, u32>, Option<u64>);
fn lex_step((mut a, n): Lexed, e: &El) -> Lexed {
    cb();
    if digit(e.0) { (a, Some(poly(n.unwrap_or(0), e.0 as u64))) }
    else { if let Some(n) = n { a.push(Word::Num(n)); } a.push(Word::Op(e.0)); (a, None) }
}
fn lex_end((mut a, n): Lexed) -> AStack<Word, u32> { if let Some(n) = n { a.push(Word::Num(n)); } a }
fn lex(es: &[u32]) -> Vec<Word> {
    let mut v = vec![]; let mut n: Option<u64> = None;
    for e in es { if digit(*e) { n = Some(poly(n.unwrap_or(0), *e as u64)); } else { if let Some(n) = n.take() { v.push(Word::Num(n)); } v.push(Word::Op(*e)); } }
    if let Some(n) = n { v.push(Word::Num(n)); }
    v
}

/// a stage of a composed computation: reports a made-up duration for some of the elements
struct Stage(u32);
impl Stage { fn times(&self, es: &[u32]) -> Vec<Duration> { es.iter().filter(|e| **e % 3 == self.0).map(|e| Duration::nanoseconds(*e as i64 + 1)).collect() } }
macro_rules! stage { ($t:ident, $d:ty) => { impl Computor<(Vec<Duration>, Vec<u32>), $d> for Stage {
    fn compute(&mut self, d: &$d, rng: &mut StdRng) -> (Vec<Duration>, Vec<u32>) { let es = elems(&read(&Data::$t(d.clone()), rng)); (self.times(&es), es) } } } }
stage!(I, DI); stage!(N, DN); stage!(V, DV);
impl Computor<(Vec<Duration>, Vec<u32>), Vec<u32>> for Stage { fn compute(&mut self, d: &Vec<u32>, _: &mut StdRng) -> (Vec<Duration>, Vec<u32>) { (self.times(d), d.clone()) } }

/// Run one computation; None when this kind of document has no such computation.
fn comp(d: &Data, kind: u64, rng: &mut StdRng, seed: u64) -> Option<(Res, i64)> {
    macro_rules! tree { ($x:ident => $e:expr) => { match d { Data::I($x) => $e, Data::N($x) => $e, Data::V(_) => return None } } }
    macro_rules! iraz { ($x:ident => $e:expr) => { match d { Data::I($x) => $e, _ => return None } } }
    macro_rules! vec { ($x:ident => $e:expr) => { match d { Data::V($x) => $e, _ => return None } } }
    Some(match kind {
        0 => { let (t, r): (Duration, Option<El>) = each!(d, x => FindMax.compute(x, rng)); (Res::Num(r.map(|e| e.0 as u64)), ns_of(t)) }
        1 => { let (t, r) = tree!(x => x.comp_tfold(Rc::new(|e: &El| { cb(); e.0 as u64 }), Rc::new(|a: u64, b: u64| a + b), rng)); (Res::Num(r), ns_of(t)) }
        2 => { let (t, r) = tree!(x => x.comp_tfold(Rc::new(|e: &El| { cb(); std::vec![e.0] }), Rc::new(|mut a: Vec<u32>, b: Vec<u32>| { a.extend(b); a }), rng)); (Res::OVec(r), ns_of(t)) }
        3 => { let (t, r) = iraz!(x => x.comp_tfoldnl(Rc::new(|e: &El| { cb(); std::vec![Tok::E(e.0)] }), Rc::new(concat_archive!()),
                Rc::new(|mut a: Vec<Tok>, l: u32, n: Option<Name>, b: Vec<Tok>| { cb(); a.push(Tok::M(l, n)); a.extend(b); a }), rng)); (Res::Toks(r.unwrap_or_default()), ns_of(t)) }
        4 => { let (t, r) = iraz!(x => x.comp_tfoldg(Rc::new(|v: &Vec<El>| { cb(); v.iter().map(|e| Tok::E(e.0)).collect() }),
                Rc::new(|mut a: Vec<Tok>, l: u32, n: Option<Name>, b: Vec<Tok>| { cb(); a.push(Tok::M(l, n)); a.extend(b); a }), rng)); (Res::Toks(r.unwrap_or_default()), ns_of(t)) }
        5 | 6 => {
            let rev = kind == 6;
            let (t, r) = iraz!(x => x.comp_tfoldg(
                Rc::new(move |v: &Vec<El>| { cb(); let mut c = v.clone(); if rev { c.reverse() } else { c.retain(|e| keep(e.0)) } IRazTree::from_vec(c).unwrap_or_else(IRazTree::empty) }),
                Rc::new(move |a: IRazTree<El>, l: u32, n: Option<Name>, b: IRazTree<El>| match (a.is_empty(), b.is_empty()) {
                    (true, true) => IRazTree::empty(), (false, true) => a, (true, false) => b,
                    (false, false) => ns(name_of_string("joined".to_string()), || if rev { IRazTree::join(b, l, n, a) } else { IRazTree::join(a, l, n, b) }.unwrap()) }), rng));
            (Res::Vec(r.map(|r: IRazTree<El>| elems(&read_tree(&r))).unwrap_or_default()), ns_of(t))
        }
        7 => {
            let f = Rc::new(|e: &El| { cb(); El(e.0 + 1) });
            match d {
                Data::I(x) => { let (t, r) = x.comp_map(f, rng); let (_, w): (Duration, DI) = CreateFrom::inc_from(r, 1, 1, &SimGen::new(seed), rng); (Res::Toks(read(&Data::I(w), rng)), ns_of(t)) }
                Data::N(x) => { let (t, r) = x.comp_map(f, rng); let (_, w): (Duration, DN) = CreateFrom::inc_from(r, 1, 1, &SimGen::new(seed), rng); (Res::Toks(read(&Data::N(w), rng)), ns_of(t)) }
                Data::V(x) => { let (t, r) = x.comp_map(f, rng); let (_, w): (Duration, DV) = CreateFrom::inc_from(r, 1, 1, &SimGen::new(seed), rng); (Res::Toks(read(&Data::V(w), rng)), ns_of(t)) }
            }
        }
        8 => { let mut m = Mapper::new(name_of_string("to_string".to_string()), |e: &El| { cb(); format!("<{}>", e.0) }); (Res::Done, ns_of(each!(d, x => m.compute(x, rng)))) }
        9 => { let mut c = Folder::new(7u64, |a: u64, e: &El| { cb(); poly(a, e.0 as u64) }); let (t, r): (Duration, u64) = each!(d, x => c.compute(x, rng)); (Res::Num(Some(r)), ns_of(t)) }
        10 => { let mut c = FFolder::new(Vec::new(), |mut a: Vec<u32>, e: &El| { cb(); a.push(e.0); a }, |a: Vec<u32>| a.iter().map(|e| e.to_string()).collect::<Vec<_>>());
            let (t, r): (Vec<Duration>, Vec<String>) = each!(d, x => c.compute(x, rng)); (Res::Txt(r), sum_ns(t)) }
        11 => {
            macro_rules! go { ($t:ty, $x:expr) => {{ let mut c = Compute2::<_, _, $t, (Vec<u32>, u64), _>::new(FFolder::new(Vec::new(), |mut a: Vec<u32>, e: &El| { cb(); a.push(e.0); a }, |a: Vec<u32>| { let n = a.len() as u64; (a, n) }), Proj0);
                let r: (Vec<Duration>, Vec<u32>) = c.compute($x, rng); r }} }
            let (t, r) = match d { Data::I(x) => go!(DI, x), Data::N(x) => go!(DN, x), Data::V(x) => go!(DV, x) };
            (Res::Vec(r), sum_ns(t))
        }
        12 => collect!(List<El>, d, rng),
        13 => collect!(RcList<El>, d, rng),
        14 => collect!(VecList<El>, d, rng),
        15 => collect!(RcVecList<El>, d, rng),
        16 => collect!(IRaz<El>, d, rng),
        17 => collect!(AStack<El, u32>, d, rng),
        18 => collect!(AStack<El, ()>, d, rng),
        19 => collect!(Vec<El>, d, rng),
        20 => {
            let mut c = HFolder::new(name_of_string("archive".to_string()), Vec::new(), |mut a: Vec<Tok>, e: &El| { cb(); a.push(Tok::E(e.0)); a },
                |mut a: Vec<Tok>, n: Option<Name>| { a.push(Tok::F(n)); a }, |mut a: Vec<Tok>, l: u32| { a.push(Tok::M(l, None)); a }, |a: Vec<Tok>| a);
            let (t, mut r): (Vec<Duration>, Vec<Tok>) = tree!(x => c.compute(x, rng));
            if let Some(k) = r.iter().position(|t| matches!(t, Tok::F(_))) { r[k] = Tok::F(None); } // the traversal's own start name
            (Res::Toks(r), sum_ns(t))
        }
        21 => {
            let width = 2 + (seed % 5) as usize;
            let init = { let mut t: Skiplist<El, ()> = Skiplist::emp(width, name_unit()); t.archive(name_unit()); t };
            let mut c = HFolder::new(name_of_string("fillskiplist".to_string()), init, |mut a: Skiplist<El, ()>, e: &El| { cb(); a.put(e.clone(), ()); a },
                |mut a: Skiplist<El, ()>, n: Option<Name>| { if let Some(n) = n { a.archive(n) } a }, |a: Skiplist<El, ()>, _l: u32| a, |a: Skiplist<El, ()>| a);
            let (t, r): (Vec<Duration>, Skiplist<El, ()>) = tree!(x => c.compute(x, rng));
            (Res::Bits(quiet(|| (0..gen::drawn().min(60) as u32).map(|e| r.get(El(e)).is_some()).collect())), sum_ns(t))
        }
        22 => {
            let lexer = || name_of_string("lex".to_string());
            let coord = SimGen::new(seed);
            match d {
                Data::V(x) => {
                    let mut c = Compute2::<_, _, DV, EvalVec<Word, SimGen>, _>::new(
                        MFolder::new(lexer(), (AStack::new(), None), lex_step, |a: Lexed, _m: (u32, Option<Name>)| a, move |a: Lexed| {
                            let mut v: Vec<Word> = lex_end(a).into_iter().collect(); v.reverse();
                            IncrementalFrom { data: v, datagauge: 1, namegauge: 1, coord: coord.clone() }.create(&mut StdRng::from_seed(&[1])).1 }),
                        FFolder::new(Vec::new(), |mut a: Vec<Word>, w: &Word| { a.push(w.clone()); a }, |a: Vec<Word>| a));
                    let (t, r): (Vec<Duration>, Vec<Word>) = c.compute(x, rng);
                    (Res::Words(r), sum_ns(t))
                }
                Data::I(x) => {
                    let mut c = Compute2::<_, _, DI, EvalIRaz<Word, SimGen>, _>::new(
                        MFolder::new(lexer(), (AStack::new(), None), lex_step, |(a, k): Lexed, m: (u32, Option<Name>)| (IFaceArchive::archive(a, m), k), move |a: Lexed| {
                            let a = lex_end(a);
                            ns(name_of_string("to_tree".to_string()), || IncrementalFrom { data: AtTail(a), datagauge: 1, namegauge: 1, coord: coord.clone() }.create(&mut StdRng::from_seed(&[1])).1) }),
                        MFolder::new(name_of_string("parse".to_string()), AStack::new(), |a: AStack<Word, u32>, w: &Word| a.seq_push(w.clone()),
                            |a: AStack<Word, u32>, m: (u32, Option<Name>)| IFaceArchive::archive(a, m), |a: AStack<Word, u32>| { let mut v: Vec<Word> = a.into_iter().collect(); v.reverse(); v }));
                    let (t, r): (Vec<Duration>, Vec<Word>) = c.compute(x, rng);
                    (Res::Words(r), sum_ns(t))
                }
                Data::N(x) => {
                    let mut c = Compute2::<_, _, DN, EvalRazNameIndex<Word, SimGen>, _>::new(
                        MFolder::new(lexer(), (AStack::new(), None), lex_step, |(a, k): Lexed, m: (u32, Option<Name>)| (IFaceArchive::archive(a, m), k), move |a: Lexed| {
                            let a = lex_end(a);
                            ns(name_of_string("to_tree".to_string()), || IncrementalFrom { data: AtTail(a), datagauge: 1, namegauge: 1, coord: coord.clone() }.create(&mut StdRng::from_seed(&[1])).1) }),
                        FFolder::new(Vec::new(), |mut a: Vec<Word>, w: &Word| { a.push(w.clone()); a }, |a: Vec<Word>| a));
                    let (t, r): (Vec<Duration>, Vec<Word>) = c.compute(x, rng);
                    (Res::Words(r), sum_ns(t))
                }
            }
        }
        34 | 35 => {
            // the last stage names its work after the archive points of what the traversal built
            let end = |a: AStack<El, u32>| -> Vec<Tok> { let t: IRazTree<El> = IRazTree::memo_from(&AtTail(a)); read_tree(&t) };
            let end2 = |a: AStack<El, u32>| -> Vec<Tok> { let t: RazTree<El, Names> = RazTree::memo_from(&AtTail(a)); read_tree(&t) };
            fn el(a: AStack<El, u32>, e: &El) -> AStack<El, u32> { cb(); a.seq_push(e.clone()) }
            fn meta(a: AStack<El, u32>, m: (u32, Option<Name>)) -> AStack<El, u32> { IFaceArchive::archive(a, m) }
            let name = || name_of_string("finish".to_string());
            let (t, r): (Vec<Duration>, Vec<Tok>) = if kind == 34 { tree!(x => MFolder::new(name(), AStack::new(), el, meta, end).compute(x, rng)) }
                else { tree!(x => MFolder::new(name(), AStack::new(), el, meta, end2).compute(x, rng)) };
            (Res::Toks(r), sum_ns(t))
        }
        36 => {
            // the same, with the points' names arriving late
            type S = (AStack<El, u32>, Option<Option<Name>>);
            let end = |(a, _): S| -> Vec<Tok> { let t: IRazTree<El> = IRazTree::memo_from(&AtTail(a)); read_tree(&t) };
            fn el((a, n): S, e: &El) -> S { cb(); (a.seq_push(e.clone()), n) }
            let (t, r): (Vec<Duration>, Vec<Tok>) = tree!(x => HFolder::new(name_of_string("finish".to_string()), (AStack::new(), None), el,
                |(a, _): S, n: Option<Name>| (a, Some(n)), |(mut a, n): S, l: u32| { AStack::archive(&mut a, n.clone().unwrap_or(None), l); (a, n) }, end).compute(x, rng));
            (Res::Vec(elems(&r)), sum_ns(t))
        }
        23 => { let (t, r) = vec!(x => x.comp_rev(rng)); (Res::Vec(r.iter().map(|e| e.0).collect()), ns_of(t)) }
        24 => { let (t, r) = vec!(x => x.comp_native(Rc::new(|v: &Vec<El>| { cb(); v.iter().filter(|e| keep(e.0)).map(|e| e.0).collect::<Vec<u32>>() }), rng)); (Res::Vec(r), ns_of(t)) }
        25 => { let mut c = Native::new(|v: &Vec<El>| { for _ in v { cb() } }); let t: Duration = vec!(x => c.compute(x, rng)); (Res::Done, ns_of(t)) }
        26 => { let t: Duration = vec!(x => Reverse.compute(x, rng)); (Res::Done, ns_of(t)) }
        27 => { let mut c = TreeFold::new(|e: &El| { cb(); e.0 as u64 }, |a: u64, b: u64| a ^ b); (Res::Done, ns_of(tree!(x => c.compute(x, rng)))) }
        28 => { let mut c = TreeFoldNL::new(|e: &El| { cb(); e.0 as u64 }, |a: u64, b: u64| a ^ b, |a: u64, _l: u32, _n: Option<Name>, b: u64| { cb(); a ^ b }); (Res::Done, ns_of(iraz!(x => c.compute(x, rng)))) }
        29 => { let mut c = TreeFoldG::new(|v: &Vec<El>| { for _ in v { cb() } v.len() }, |a: usize, _l: u32, _n: Option<Name>, b: usize| { cb(); a + b }); (Res::Done, ns_of(iraz!(x => c.compute(x, rng)))) }
        30 => { let mut c = Folder::new(0u64, |a: u64, e: &El| { cb(); a ^ e.0 as u64 }); let t: Duration = each!(d, x => c.compute(x, rng)); (Res::Done, ns_of(t)) }
        31 => { let mut c = FFolder::new(0u64, |a: u64, e: &El| { cb(); a ^ e.0 as u64 }, |a: u64| a); let t: Duration = each!(d, x => c.compute(x, rng)); (Res::Done, ns_of(t)) }
        32 => { let mut c = MFolder::new(name_of_string("m".to_string()), 0u64, |a: u64, e: &El| { cb(); a ^ e.0 as u64 }, |a: u64, _m: (u32, Option<Name>)| { cb(); a }, |a: u64| a); let t: Duration = each!(d, x => c.compute(x, rng)); (Res::Done, ns_of(t)) }
        38 | 39 => {
            // what the harness archives into is divided where the document is
            macro_rules! go { ($a:ty) => {{
                let mut c = MFolder::new(name_of_string("divide".to_string()), <$a>::new(), |a: $a, e: &El| { cb(); a.seq_push(e.clone()) }, |a: $a, m: (u32, Option<Name>)| IFaceArchive::archive(a, m), |a: $a| a);
                let (t, r): (Vec<Duration>, $a) = each!(d, x => c.compute(x, rng)); (t, r)
            }} }
            if kind == 38 { let (t, r) = go!(IRaz<El>); let tree = scratch(|| r.unfocus()); (Res::Toks(read_tree(&tree)), sum_ns(t)) }
            else {
                let (t, mut r) = go!(AStack<El, ()>);
                let toks = quiet(|| { let mut v = Vec::new(); loop {
                    let n = r.name();
                    match r.next_archive() { None => break, Some((es, m)) => { v.extend(es.iter().rev().map(|e| Tok::E(e.0))); if m.is_some() { v.push(Tok::M(0, n)); } } }
                } v.reverse(); v });
                (Res::Toks(toks), sum_ns(t))
            }
        }
        37 => {
            // two stages of the client's own, each reporting as many durations as it likes
            let w0 = gen::work();
            macro_rules! go { ($t:ty, $x:expr) => { Compute2::<_, _, $t, Vec<u32>, Vec<u32>>::new(Stage(0), Stage(1)).compute($x, rng) } }
            let (t, r): (Vec<Duration>, Vec<u32>) = match d { Data::I(x) => go!(DI, x), Data::N(x) => go!(DN, x), Data::V(x) => go!(DV, x) };
            let mut t: Vec<u32> = t.into_iter().map(|t| ns_of(t) as u32).collect();
            t.sort(); t.extend(r);
            (Res::Vec(t), (gen::work() - w0) as i64)
        }
        _ => { let mut c = HFolder::new(name_of_string("h".to_string()), 0u64, |a: u64, e: &El| { cb(); a ^ e.0 as u64 }, |a: u64, _n: Option<Name>| a, |a: u64, _l: u32| { cb(); a }, |a: u64| a); let t: Duration = tree!(x => c.compute(x, rng)); (Res::Done, ns_of(t)) }
    })
}

/// what the same computation gives over a plain sequence
fn expect(kind: u64, t: &[Tok]) -> Res {
    let es = elems(t);
    match kind {
        0 => Res::Num(es.iter().max().map(|e| *e as u64)),
        1 => Res::Num(if es.is_empty() { None } else { Some(es.iter().map(|e| *e as u64).sum()) }),
        2 => Res::OVec(if es.is_empty() { None } else { Some(es) }),
        3 | 4 | 34 | 35 => Res::Toks(t.to_vec()),
        36 => Res::Vec(es),
        5 | 24 => Res::Vec(es.into_iter().filter(|e| keep(*e)).collect()),
        6 | 23 => Res::Vec(es.into_iter().rev().collect()),
        7 => Res::Toks(t.iter().map(|t| match t { Tok::E(e) => Tok::E(e + 1), t => t.clone() }).collect()),
        9 => Res::Num(Some(es.iter().fold(7, |a, e| poly(a, *e as u64)))),
        10 => Res::Txt(es.iter().map(|e| e.to_string()).collect()),
        11 => Res::Vec(es),
        12..=19 => Res::Vec(es.into_iter().rev().collect()),
        20 => {
            let mut v = vec![]; let mut carried = None; let mut open = false;
            for x in t { match x {
                Tok::E(e) => { v.push(Tok::E(*e)); open = true; }
                Tok::M(l, n) => { if open { v.push(Tok::F(carried)); } v.push(Tok::M(*l, None)); carried = n.clone(); open = false; }
                _ => {}
            } }
            if open { v.push(Tok::F(carried)); }
            Res::Toks(v)
        }
        21 => Res::Bits((0..gen::drawn().min(60) as u32).map(|e| es.contains(&e)).collect()),
        22 => Res::Words(lex(&es)),
        38 => Res::Toks(t.iter().map(|t| match t { Tok::M(l, Some(n)) => Tok::M(*l, Some(name_pair(n.clone(), name_of_string("tree".to_string())))), t => t.clone() }).collect()),
        39 => Res::Toks(t.iter().map(|t| match t { Tok::M(_, n) => Tok::M(0, n.clone()), t => t.clone() }).collect()),
        37 => { let mut v: Vec<u32> = es.iter().filter(|e| **e % 3 < 2).map(|e| e + 1).collect(); v.sort(); v.extend(es); Res::Vec(v) }
        _ => Res::Done,
    }
}

// ------------------------------------------------------------ accumulators

#[derive(Clone)]
enum Acc { L(List<El>), RL(RcList<El>), VL(VecList<El>), RVL(RcVecList<El>), Z(IRaz<El>), S(AStack<El, u32>), S0(AStack<El, ()>), V(Vec<El>) }
macro_rules! amap { ($a:expr, $x:ident => $e:expr) => { match $a {
    Acc::L($x) => Acc::L($e), Acc::RL($x) => Acc::RL($e), Acc::VL($x) => Acc::VL($e), Acc::RVL($x) => Acc::RVL($e),
    Acc::Z($x) => Acc::Z($e), Acc::S($x) => Acc::S($e), Acc::S0($x) => Acc::S0($e), Acc::V($x) => Acc::V($e) } } }
impl Acc {
    fn new(k: u64) -> Acc { match k % 8 {
        0 => Acc::L(IFaceNew::new()), 1 => Acc::RL(IFaceNew::new()), 2 => Acc::VL(IFaceNew::new()), 3 => Acc::RVL(IFaceNew::new()),
        4 => Acc::Z(IFaceNew::new()), 5 => Acc::S(IFaceNew::new()), 6 => Acc::S0(IFaceNew::new()), _ => Acc::V(IFaceNew::new()) } }
    fn push(self, e: El) -> Acc { amap!(self, x => x.seq_push(e)) }
    fn pop(self) -> (Option<u32>, Acc) {
        let mut got = None;
        let a = amap!(self, x => { let (e, x) = x.seq_pop(); got = e.map(|e| e.0); x });
        (got, a)
    }
    fn archive(self, l: u32, n: Option<Name>) -> Acc { amap!(self, x => IFaceArchive::archive(x, (l, n))) }
}
struct ADoc { a: Acc, mo: Vec<u32> }

// ------------------------------------------------------------------- world

pub struct World { docs: Vec<Doc>, accs: Vec<ADoc>, rng: StdRng, dcg: bool, seed: u64, next: u64, maxdocs: usize, maxlen: usize, batch: u64, push: u64, dg: u64, ng: u64, pending: Option<(u32, u64)>, start_rng: usize, next_val: u32 }

fn space(n: u64) -> Name { name_pair(name_of_string("doc".to_string()), name_of_usize(n as usize)) }

impl World {
    fn start(&self) { if self.dcg { manage::init_dcg(); } else { manage::init_naive(); } }
    fn fresh(&mut self) -> u64 { self.next += 1; self.next }
    /// run an operation with the fault that is pending, if any; None when it was interrupted
    fn attempt<T>(&mut self, ctx: &mut Ctx, what: &str, f: impl FnOnce(&mut World) -> T) -> R<Option<T>> {
        let p = self.pending.take();
        if let Some((m, n)) = p { arm(m, n); }
        let r = guard(|| f(self));
        disarm();
        match r {
            Caught::Ok(t) => Ok(Some(t)),
            Caught::Panic(m) => ctx.fail(&format!("panic:{}", what), m),
            Caught::Injected(site) => {
                if p.is_none() { return ctx.fail("stray-injection", site.into()); }
                ctx.count("fault:interruption");
                ctx.ev(&format!("interrupted in {}", site));
                if self.dcg { self.restart(ctx)?; } else { self.check_all(ctx, "after interruption")?; }
                Ok(None)
            }
        }
    }
    fn restart(&mut self, ctx: &mut Ctx) -> R<()> {
        self.start();
        ctx.count("fault:engine restart");
        ctx.ev("engine restart");
        if self.dcg { self.docs.clear(); self.accs.clear(); }
        self.check_all(ctx, "after restart")
    }
    fn check(&mut self, ctx: &mut Ctx, i: usize, why: &str) -> R<()> {
        let World { docs, rng, .. } = self;
        let d = &docs[i];
        let got = must(ctx, "read", || ns(space(d.ns), || read(&d.d, rng)))?;
        ctx.check(got == d.mo, &format!("eval-content:{}", why), || format!("got {:?}, reference says {:?}", got, d.mo))
    }
    fn check_acc(&mut self, ctx: &mut Ctx, i: usize, why: &str) -> R<()> {
        let a = &self.accs[i];
        let b = must(ctx, "clone", || quiet(|| a.a.clone()))?;
        let mut got = vec![];
        let mut b = Some(b);
        must(ctx, "drain", || quiet(|| loop { let (e, x) = b.take().unwrap().pop(); b = Some(x); match e { Some(e) => got.push(e), None => break } }))?;
        got.reverse();
        ctx.check(got == self.accs[i].mo, &format!("accum:{}", why), || format!("drained {:?}, reference says {:?}", got, self.accs[i].mo))
    }
    fn check_all(&mut self, ctx: &mut Ctx, why: &str) -> R<()> {
        for i in 0..self.docs.len() { self.check(ctx, i, why)?; }
        for i in 0..self.accs.len() { self.check_acc(ctx, i, why)?; }
        Ok(())
    }
    /// the reported time lies between the work done by callbacks and the time that passed
    fn timing(&self, ctx: &mut Ctx, what: &str, t: i64, work: u64, total: u64) -> R<()> {
        ctx.check(t >= work as i64 && t <= total as i64, "eval-duration", || format!("{} reported {} ns; its client code alone took {} ns, {} ns passed in all", what, t, work, total))
    }
    fn block(batch: &[u32], counter: u64, dg: u64, ng: u64) -> Vec<P> {
        let mut v = vec![];
        for (k, e) in batch.iter().enumerate() {
            v.push(P::E(*e));
            let c = counter + k as u64 + 1;
            if c % dg == 0 { v.push(P::New(c % (dg * ng) == 0)); }
        }
        v
    }
    /// learn the new content, having checked it is one of the expected ones
    fn accept(ctx: &mut Ctx, class: &str, old: &[Tok], got: Vec<Tok>, want: &[Vec<P>]) -> R<Vec<Tok>> {
        ctx.check(want.iter().any(|w| matches(w, &got)), class, || format!("from {:?} got {:?}; expected e.g. {:?}", old, got, want.first()))?;
        let n = names(&got);
        let set: HashSet<&Name> = n.iter().collect();
        ctx.check(set.len() == n.len(), "eval-names", || format!("a name occurs twice in {:?}", got))?;
        Ok(got)
    }
    fn create(&mut self, ctx: &mut Ctx, kind: u64, size: u64, dg: u64, ng: u64) -> R<()> {
        if self.docs.len() >= self.maxdocs { return Ok(()); }
        let id = self.fresh();
        let coord = SimGen::new(mix(self.seed, id));
        let (d0, t0) = (gen::drawn(), clock::now());
        let size = size as usize;
        let made = self.attempt(ctx, "create", |w| {
            let rng = &mut w.rng;
            ns(space(id), || match kind % 6 {
                0 => { let (t, d) = IncrementalInit { size, datagauge: dg as usize, namegauge: ng as usize, coord }.create(rng); (t, Data::I(d)) }
                1 => { let (t, d) = IncrementalInit { size, datagauge: dg as usize, namegauge: ng as usize, coord }.create(rng); (t, Data::N(d)) }
                2 => { let (t, d) = IncrementalInit { size, datagauge: dg as usize, namegauge: ng as usize, coord }.create(rng); (t, Data::V(d)) }
                3 => { let (t, d) = IncrementalEmpty { datagauge: dg as usize, namegauge: ng as usize, coord }.create(rng); (t, Data::I(d)) }
                4 => { let (t, d) = IncrementalEmpty { datagauge: dg as usize, namegauge: ng as usize, coord }.create(rng); (t, Data::N(d)) }
                _ => { let (t, d) = IncrementalEmpty { datagauge: dg as usize, namegauge: ng as usize, coord }.create(rng); (t, Data::V(d)) }
            })
        })?;
        let (t, d) = match made { Some(x) => x, None => return Ok(()) };
        self.timing(ctx, "creation", ns_of(t), 0, clock::now() - t0)?;
        let size = if kind % 6 < 3 { size } else { 0 };
        let batch = match gen::draws(d0, size) { Some(b) => b, None => return ctx.fail("eval-draws", format!("a collection of {} elements drew only {}", size, gen::drawn() - d0)) };
        let want = if kind % 3 == 2 { vec![batch.iter().map(|e| P::E(*e)).collect()] } else { splices(&[], &World::block(&batch, 0, dg, ng), 0..=0) };
        let got = must(ctx, "read", || ns(space(id), || read(&d, &mut self.rng)))?;
        let mo = World::accept(ctx, "eval-create", &[], got, &want)?;
        ctx.count("probe:document created");
        if kind % 6 == 5 {
            // the stack harness can only be created and shown
            let coord = SimGen::new(id);
            let rng = &mut self.rng;
            let shown = must(ctx, "create stack", || { let (t, s): (Duration, EvalIAStack<El, SimGen>) = IncrementalEmpty { datagauge: dg as usize, namegauge: ng as usize, coord }.create(rng); (ns_of(t) >= 0, format!("{:?}", s)) })?;
            ctx.eq("eval-create-stack", &shown, &(true, "[]".to_string()))?;
        }
        self.docs.push(Doc { d, mo, ns: id, dg, ng, counter: 0 });
        Ok(())
    }
    fn from(&mut self, ctx: &mut Ctx, kind: u64, size: u64, dg: u64, ng: u64) -> R<()> {
        if self.docs.len() >= self.maxdocs { return Ok(()); }
        let id = self.fresh();
        let coord = SimGen::new(mix(self.seed, id));
        let mut mo = vec![];
        let every = 1 + self.seed % 4;
        for k in 0..size {
            self.next_val += 1;
            mo.push(Tok::E(self.next_val));
            if (k + 1) % every == 0 && k + 1 < size { mo.push(Tok::M(1 + (mix(self.seed, k) % 5) as u32, if k % 2 == 0 { Some(name_of_string(format!("src-{}", k))) } else { None })); }
        }
        if kind % 8 == 6 { mo = vec![]; let lv = [(1, "ll"), (4, "l"), (2, "lr"), (6, "rl"), (3, "r"), (5, "rr"), (4, "g")];
            for k in 0..16u32 { mo.push(Tok::E(k + 1)); if k % 2 == 1 && k < 15 { let (l, n) = lv[k as usize / 2]; mo.push(Tok::M(l, Some(name_of_string(n.to_string())))); } } }
        let src = mo.clone();
        let made = self.attempt(ctx, "create from", |w| {
            let rng = &mut w.rng;
            let (dg, ng) = (dg as usize, ng as usize);
            macro_rules! raz { () => {{ let mut z = iodyn::raz::Raz::new(); for t in &src { match t { Tok::E(e) => { z.push_left(El(*e)); } Tok::M(l, n) => { z.archive_left(*l, n.clone()); } _ => {} } } z }} }
            macro_rules! stack { () => {{ let mut z: AStack<El, u32> = AStack::new(); for t in &src { match t { Tok::E(e) => { z.push(El(*e)); } Tok::M(l, n) => { AStack::archive(&mut z, n.clone(), *l); } _ => {} } } AtTail(z) }} }
            // data comes from elsewhere: made in a namespace of its own
            let stack = || ns(name_of_string(format!("src-{}", id)), || stack!());
            ns(space(id), || match kind % 8 {
                0 => { let data: IRaz<El> = raz!(); Data::I(IncrementalFrom { data, datagauge: dg, namegauge: ng, coord }.create(rng).1) }
                1 => { let data: IRazTree<El> = raz!().unfocus(); Data::I(IncrementalFrom { data, datagauge: dg, namegauge: ng, coord }.create(rng).1) }
                2 => Data::I(IncrementalFrom { data: stack(), datagauge: dg, namegauge: ng, coord }.create(rng).1),
                3 => { let data = raz!(); Data::N(DN::inc_from(data, dg, ng, &coord, rng).1) }
                4 => { let data = raz!().unfocus(); Data::N(DN::inc_from(data, dg, ng, &coord, rng).1) }
                5 => Data::N(DN::inc_from(stack(), dg, ng, &coord, rng).1),
                6 => Data::I(DI::inc_from(iraztree_depth_4::<El>(), dg, ng, &coord, rng).1),
                _ => Data::V(DV::inc_from(elems(&src).into_iter().map(El).collect::<Vec<_>>(), dg, ng, &coord, rng).1),
            })
        })?;
        let d = match made { Some(x) => x, None => return Ok(()) };
        if kind % 8 == 7 { mo.retain(|t| matches!(t, Tok::E(_))); }
        ctx.count("probe:document made from data");
        // content as given, but an archive point may carry a name derived from the one given
        let want: Vec<P> = mo.iter().map(|t| match t { Tok::M(l, n) => P::Lev(*l, n.is_some()), t => P::Old(t.clone()) }).collect();
        let got = must(ctx, "read", || ns(space(id), || read(&d, &mut self.rng)))?;
        let mo = World::accept(ctx, "eval-from", &[], got, &[want])?;
        self.docs.push(Doc { d, mo, ns: id, dg, ng, counter: 0 });
        Ok(())
    }
    fn edit(&mut self, ctx: &mut Ctx, i: usize, op: usize, n: u64, single: bool) -> R<()> {
        let es = elems(&self.docs[i].mo).len();
        if es + n as usize > self.maxlen { return Ok(()); }
        if op == INSERT && (es == 0 || matches!(self.docs[i].d, Data::N(_)) && names(&self.docs[i].mo).is_empty()) { return Ok(()); }
        if op == EXTEND && !matches!(self.docs[i].d, Data::V(_)) { return Ok(()); }
        let n = if op == APPEND && single { 1 } else { n } as usize;
        let Doc { d, mo, ns: id, dg, ng, counter } = self.docs.remove(i);
        let (d0, t0, c0) = (gen::drawn(), clock::now(), gen::clone_work());
        let made = self.attempt(ctx, OPS[op], |w| {
            let rng = &mut w.rng;
            ns(space(id), || match op {
                INSERT => wrap!(d, x => BatchInsert(n).edit(x, rng)),
                APPEND if single => wrap!(d, x => SingleAppend.edit(x, rng)),
                APPEND => wrap!(d, x => BatchAppend(n).edit(x, rng)),
                _ => match d { Data::V(x) => { let (t, x) = BatchExtend(n).edit(x, rng); (t, Data::V(x)) } d => (Duration::zero(), d) },
            })
        })?;
        let (t, d) = match made { Some(x) => x, None => return Ok(()) };
        // preparing the batch is not timed, and may copy it once
        let work = (gen::clone_work() - c0).saturating_sub((n as u64 + 2) * gen::clone_tick());
        if work > 0 { ctx.count("probe:edit that copied elements"); }
        self.timing(ctx, OPS[op], ns_of(t), work, clock::now() - t0)?;
        let batch = match gen::draws(d0, n) { Some(b) => b, None => return ctx.fail("eval-draws", format!("{} of {} elements drew only {}", OPS[op], n, gen::drawn() - d0)) };
        let got = must(ctx, "read", || ns(space(id), || read(&d, &mut self.rng)))?;
        let at = if op == INSERT { 0..=mo.len() } else { mo.len()..=mo.len() };
        let want = match d {
            Data::V(_) => {
                let f: Vec<P> = batch.iter().map(|e| P::E(*e)).collect();
                let mut w = vec![];
                if op == INSERT { let mut r = f.clone(); r.reverse(); w.extend(splices(&mo, &r, at.clone())); }
                w.extend(splices(&mo, &f, at)); w
            }
            _ => splices(&mo, &World::block(&batch, counter, dg, ng), at),
        };
        let mo = World::accept(ctx, &format!("eval-{}", OPS[op]), &mo, got, &want)?;
        ctx.count("probe:document edited");
        if mo.iter().any(|t| matches!(t, Tok::M(_, Some(_)))) { ctx.count("probe:edited document has named points"); }
        self.docs.insert(i.min(self.docs.len()), Doc { d, mo, ns: id, dg, ng, counter: counter + n as u64 });
        Ok(())
    }
    fn compute(&mut self, ctx: &mut Ctx, i: usize, kind: u64) -> R<()> {
        for round in 0..2 {
            if i >= self.docs.len() { return Ok(()); }
            let (t0, w0) = (clock::now(), gen::work());
            let r = self.attempt(ctx, &format!("compute {}", kind), |w| {
                let World { docs, rng, seed, .. } = w;
                let d = &docs[i];
                ns(space(d.ns), || ns(kind_ns(kind), || comp(&d.d, kind, rng, *seed)))
            })?;
            match r {
                None => { ctx.count("probe:computation retried"); if round == 1 { return Ok(()); } }
                Some(None) => return Ok(()),
                Some(Some((res, t))) => {
                    self.timing(ctx, "computation", t, gen::work() - w0, clock::now() - t0)?;
                    let want = expect(kind, &self.docs[i].mo);
                    ctx.check(res == want, &format!("eval-compute:{}", kind), || format!("over {:?}: got {:?}, reference says {:?}", self.docs[i].mo, res, want))?;
                    ctx.count("probe:computation");
                    return Ok(());
                }
            }
        }
        Ok(())
    }
}

/// a computation that keeps what it saw: the whole content, and the accumulator the fold built
#[derive(Clone)]
struct Rec { log: Rc<RefCell<Vec<(Vec<Tok>, Vec<u32>, usize)>>>, seed: u64 }
impl Rec {
    fn see(&self, d: &DI, rng: &mut StdRng) -> Duration {
        let d = Data::I(d.clone());
        let toks = read(&d, rng);
        let (r, t) = comp(&d, 12 + self.seed % 8, rng, self.seed).unwrap();
        if let Res::Vec(v) = r { self.log.borrow_mut().push((toks, v, gen::drawn())); }
        Duration::nanoseconds(t)
    }
}
impl Computor<Duration, DI> for Rec { fn compute(&mut self, d: &DI, rng: &mut StdRng) -> Duration { self.see(d, rng) } }
impl Computor<(Vec<Duration>, usize), DI> for Rec { fn compute(&mut self, d: &DI, rng: &mut StdRng) -> (Vec<Duration>, usize) { let t = self.see(d, rng); (vec![t], 0) } }

impl World {
    fn sequence(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        let id = self.fresh();
        let coord = SimGen::new(mix(self.seed, id));
        let (size, dg, ng) = (1 + s.b % 12, 1 + s.c % self.dg, 1 + (s.c / 7) % self.ng);
        let (batch, changes) = (1 + s.a % 4, (s.b / 12 % 4) as usize);
        let append = s.c % 2 == 0;
        let multi = s.b % 2 == 0;
        let log = Rc::new(RefCell::new(vec![]));
        let rec = Rec { log: log.clone(), seed: mix(self.seed, s.c) };
        let d0 = gen::drawn();
        let init = IncrementalInit { size: size as usize, datagauge: dg as usize, namegauge: ng as usize, coord };
        let r = self.attempt(ctx, "edit-compute sequence", |w| {
            let rng = &mut w.rng;
            ns(space(id), || {
                macro_rules! run { ($edit:expr) => {{
                    let mut t = EditComputeSequence { init, edit: $edit, comp: rec, changes };
                    if multi { let r: TestMResult<DI, usize> = t.test(rng); (r.edits, r.full_edits, r.computes.into_iter().map(|v| v[0]).collect::<Vec<_>>(), r.full_computes) }
                    else { let r: TestResult<DI> = t.test(rng); (r.edits, r.full_edits, r.computes, r.full_computes) }
                }} }
                if append { run!(BatchAppend(batch as usize)) } else { run!(BatchInsert(batch as usize)) }
            })
        })?;
        let (e, fe, c, fc) = match r { Some(r) => r, None => return Ok(()) };
        let log = log.borrow();
        ctx.check(log.len() == changes + 1 && e.len() == changes + 1 && fe.len() == changes + 1 && c.len() == changes + 1 && fc.len() == changes + 1, "eval-sequence-length",
            || format!("{} changes: {} computations, {} edits, {} computes reported", changes, log.len(), e.len(), c.len()))?;
        for (p, f) in e.iter().zip(&fe).chain(c.iter().zip(&fc)) { self.timing(ctx, "step of a sequence", ns_of(*p), 0, ns_of(*f) as u64)?; }
        let mut old: Vec<Tok> = vec![]; let mut from = d0; let mut counter = 0;
        for (k, (toks, acc, drawn)) in log.iter().enumerate() {
            let n = if k == 0 { size } else { batch } as usize;
            let b = match gen::draws(from, n) { Some(b) => b, None => return ctx.fail("eval-draws", "too few elements drawn".into()) };
            from = *drawn;
            let at = if k == 0 || append { old.len()..=old.len() } else { 0..=old.len() };
            let want = splices(&old, &World::block(&b, counter, dg, ng), at);
            if k > 0 { counter += n as u64; }
            old = World::accept(ctx, "eval-sequence", &old, toks.clone(), &want)?;
            let mut back = elems(&old); back.reverse();
            ctx.eq("eval-sequence-accumulator", acc, &back)?;
        }
        ctx.count("probe:edit-compute sequence");
        Ok(())
    }
    fn build(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        let id = self.fresh();
        let coord = SimGen::new(mix(self.seed, id));
        let (count, batch, multiplier) = ((1 + s.b % 4) as usize, (s.c % 4) as usize, 1.0 + (s.a % 5) as f32 / 2.0);
        let d0 = gen::drawn();
        let (dg, ng) = ((1 + s.c % self.dg) as usize, (1 + s.b / 5 % self.ng) as usize);
        let vec = s.c % 3 == 0;
        let r = self.attempt(ctx, "build test", |w| {
            let rng = &mut w.rng;
            let mut t = BuildTest { init: IncrementalInit { size: 0, datagauge: dg, namegauge: ng, coord }, edit: BatchInsert(batch), multiplier, count };
            ns(space(id), || if vec { let r: BuildResult<DV> = t.test(rng); (r.build, r.build_full, r.edit, r.edit_full) } else { let r: BuildResult<DI> = t.test(rng); (r.build, r.build_full, r.edit, r.edit_full) })
        })?;
        let (b, bf, e, ef) = match r { Some(r) => r, None => return Ok(()) };
        ctx.check(b.len() == count && bf.len() == count && e.len() == count && ef.len() == count, "eval-build-length", || format!("{} builds, {} edits reported of {}", b.len(), e.len(), count))?;
        for (p, f) in b.iter().zip(&bf).chain(e.iter().zip(&ef)) { self.timing(ctx, "step of a build test", ns_of(*p), 0, ns_of(*f) as u64)?; }
        let want: usize = (0..count).map(|i| multiplier.powi(i as i32) as usize + batch).sum();
        ctx.check(gen::drawn() - d0 == want, "eval-build-size", || format!("drew {} elements, the sizes asked for come to {}", gen::drawn() - d0, want))?;
        ctx.count("probe:build test");
        Ok(())
    }
    fn step(&mut self, ctx: &mut Ctx, s: &Step) -> R<()> {
        let op = s.op as usize % OPS.len();
        let (dg, ng) = (1 + s.c % self.dg, 1 + s.c / 10 % self.ng);
        if op < ANEW && op != RESTART && op != INTERRUPT && op != JUMP && self.docs.is_empty() && op != NEW && op != FROM && op != SEQ && op != BUILD { self.create(ctx, s.b % 3, 3 + s.a, dg, ng)?; }
        if op > ANEW && self.accs.is_empty() { self.accs.push(ADoc { a: Acc::new(s.c), mo: vec![] }); }
        if op < ANEW && self.docs.is_empty() && !matches!(op, NEW | FROM | SEQ | BUILD | RESTART | INTERRUPT | JUMP) { return Ok(()); }
        let i = (s.a % self.docs.len().max(1) as u64) as usize;
        let j = (s.a % self.accs.len().max(1) as u64) as usize;
        match op {
            NEW => self.create(ctx, if s.b % 4 == 0 { s.a % 6 } else { s.a % 3 }, s.b % self.batch.max(20), dg, ng)?,
            FROM => self.from(ctx, s.a, s.b % 14, dg, ng)?,
            INSERT | APPEND | EXTEND => self.edit(ctx, i, op, s.b % self.batch, s.c % 3 == 0)?,
            COMPUTE => { let k = if s.b % 3 == 0 { (s.actor as u64 * 7 + self.seed) % KINDS } else { s.c % KINDS }; self.compute(ctx, i, k)? }
            READ => self.check(ctx, i, "read")?,
            CLONE => if !self.dcg && self.docs.len() < self.maxdocs {
                let d = &self.docs[i];
                let c = must(ctx, "clone", || quiet(|| d.d.clone()))?;
                let c = Doc { d: c, mo: d.mo.clone(), ns: d.ns, dg: d.dg, ng: d.ng, counter: d.counter };
                self.docs.push(c);
                ctx.count("probe:document cloned");
            },
            DROP => if self.docs.len() > 1 { self.docs.remove(i); },
            SEQ => self.sequence(ctx, s)?,
            BUILD => self.build(ctx, s)?,
            JUMP => { ctx.count("fault:clock jump"); clock::jump(s.b % 6, [1, 1_000, 1_000_000_000, 3_600_000_000_000][(s.c % 4) as usize]); }
            RESTART => self.restart(ctx)?,
            INTERRUPT => { let masks = [SITE_CALLBACK, SITE_CLONE, SITE_HASH | SITE_EQ, SITE_CLONE | SITE_CALLBACK, SITE_EQ]; self.pending = Some((masks[(s.b % 5) as usize], s.c % 12)); }
            ANEW => if self.accs.len() < self.maxdocs { self.accs.push(ADoc { a: Acc::new(s.c), mo: vec![] }); },
            APUSH => for _ in 0..1 + s.b % self.push {
                if j >= self.accs.len() || self.accs[j].mo.len() >= self.maxlen { break; }
                self.next_val += 1;
                let e = if s.c % 3 == 0 { self.next_val % 3 } else { self.next_val };
                self.acc_op(ctx, j, "push", move |a| (None, a.push(El(e))), |m| { m.push(e); None })?;
            },
            APOP => for _ in 0..1 + s.b % 3 { if j < self.accs.len() { self.acc_op(ctx, j, "pop", |a| { let (e, a) = a.pop(); (Some(e), a) }, |m| Some(m.pop()))?; } },
            AARCH => { let n = if s.b % 4 == 0 { None } else { Some(name_of_usize(self.fresh() as usize)) }; let l = (s.c % 6) as u32; self.acc_op(ctx, j, "archive", move |a| (None, a.archive(l, n)), |_| None)? }
            ACLONE => if self.accs.len() < self.maxdocs { let a = &self.accs[j]; let c = ADoc { a: must(ctx, "clone", || quiet(|| a.a.clone()))?, mo: a.mo.clone() }; self.accs.push(c); },
            ADRAIN => self.check_acc(ctx, j, "drain")?,
            _ => {}
        }
        Ok(())
    }
    fn acc_op(&mut self, ctx: &mut Ctx, j: usize, what: &str, f: impl FnOnce(Acc) -> (Option<Option<u32>>, Acc), m: impl FnOnce(&mut Vec<u32>) -> Option<Option<u32>>) -> R<()> {
        let ADoc { a, mut mo } = self.accs.remove(j);
        let r = self.attempt(ctx, what, |_| f(a))?;
        if let Some((got, a)) = r {
            let want = m(&mut mo);
            ctx.check(got == want, &format!("accum-{}", what), || format!("got {:?}, reference says {:?}", got, want))?;
            let j = j.min(self.accs.len());
            self.accs.insert(j, ADoc { a, mo });
        }
        Ok(())
    }
}

impl From<usize> for El { fn from(n: usize) -> El { El(n as u32) } }

pub struct EvalScenario {
    pub id: &'static str,
    pub weights: &'static [(usize, u64)],
    pub engines: &'static [u64],
    pub runs: (u64, u64),
    pub rule: &'static str,
}

impl Scenario for EvalScenario {
    fn id(&self) -> &'static str { self.id }
    fn ops(&self) -> &'static [&'static str] { OPS }
    fn runs(&self, t: Tier) -> u64 { if t == Tier::Quick { self.runs.0 } else { self.runs.1 } }
    fn rule(&self) -> &'static str { self.rule }
    fn real(&self) -> &'static str { "the evaluation harness in /repo/eval, all of iodyn, and the adapton 0.3.19 engine they run on" }
    fn stub(&self) -> &'static str { "the clock (clock_gettime) and the random source of elements and positions" }
    fn time(&self) -> &'static str { "the harness reads a simulated clock that moves only inside callbacks (0 ns to 1 ms each) and by injected jumps of up to an hour" }
    fn gen(&self, rng: &mut Rng, tier: Tier) -> (BTreeMap<String, u64>, Vec<Step>) {
        let mut c = BTreeMap::new();
        let mut set = |k: &str, v: u64| { c.insert(k.to_string(), v); };
        set("engine", *rng.pick(self.engines));
        set("maxdocs", rng.range(1, 4));
        let batch = *rng.pick(&[7, 7, 7, 7, 7, 20, 20, 60]);
        let push = *rng.pick(&[4, 4, 4, 4, 4, 4, 40, 160]);
        set("batch", batch); set("push", push);
        let base = *rng.pick(&[12, 30, 30, 80]);
        set("maxlen", if batch > 20 || push > 40 { 500 } else if batch > 7 || push > 4 { base.max(120) } else { base });
        // coarse gauges where there are enough elements for them
        set("dg", if batch > 20 { *rng.pick(&[1, 5, 20, 100]) } else { *rng.pick(&[1, 2, 3, 5]) });
        set("ng", if batch > 20 { *rng.pick(&[1, 2, 5, 12]) } else { *rng.pick(&[1, 1, 2, 3]) });
        set("range", *rng.pick(&[0, 0, 0, 2, 5]));
        set("tick", *rng.pick(&[0, 1, 1_000, 1_000_000]));
        set("ctick", *rng.pick(&[0, 1, 1_000, 1_000]));
        set("degenerate", (rng.below(10) == 0) as u64);
        let steps = swarm::steps(rng, tier, OPS.len(), self.weights, 50, 120);
        (c, steps)
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> R<()> {
        set_degenerate(plan.cfg("degenerate") == 1);
        gen::setup(plan.cfg("range"), plan.cfg("tick"), plan.cfg("ctick"));
        SCRATCH.with(|s| s.set(0));
        let seed: &[usize] = &[plan.seed as usize];
        let mut w = World { docs: vec![], accs: vec![], rng: StdRng::from_seed(seed), dcg: plan.cfg("engine") == 1, seed: plan.seed, next: 0, maxdocs: plan.cfg("maxdocs").max(1) as usize,
            maxlen: plan.cfg("maxlen").max(4) as usize, batch: plan.cfg("batch").max(7), push: plan.cfg("push").max(4), dg: plan.cfg("dg").max(1), ng: plan.cfg("ng").max(1), pending: None, start_rng: 0, next_val: 0 };
        clock::start(plan.seed % 1_000_000_000_000);
        w.start();
        let r = self.go(plan, ctx, &mut w);
        clock::stop();
        set_degenerate(false);
        r
    }
}
impl EvalScenario {
    fn go(&self, plan: &Plan, ctx: &mut Ctx, w: &mut World) -> R<()> {
        for (k, s) in plan.steps.iter().enumerate() {
            ctx.step = k;
            ctx.stats.steps += 1;
            ctx.ev(&format!("actor {} {} {} {} {}", s.actor, OPS[s.op as usize % OPS.len()], s.a, s.b, s.c));
            w.step(ctx, s)?;
            let h = hash_of(&(w.docs.iter().map(|d| (elems(&d.mo), d.mo.len())).collect::<Vec<_>>(), w.accs.iter().map(|a| &a.mo).collect::<Vec<_>>()));
            ctx.state(h); ctx.evh("state", h); ctx.evh("clock", clock::now());
            if w.docs.len() > 1 { let j = ((s.a + 1 + s.c) % w.docs.len() as u64) as usize; w.check(ctx, j, "bystander")?; }
            if !w.accs.is_empty() { let j = ((s.a + s.c) % w.accs.len() as u64) as usize; w.check_acc(ctx, j, "bystander")?; }
        }
        ctx.step = plan.steps.len();
        w.check_all(ctx, "end")?;
        ctx.stats.nontrivial = plan.steps.len() >= 6 && ctx.stats.counts.get("oracle:comparisons").copied().unwrap_or(0) >= 10;
        Ok(())
    }
}
