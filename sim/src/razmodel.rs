//! Reference model of a zipper document: a flat list of elements and archive
//! points, with a cursor. Nothing here shares code with the library.
use adapton::engine::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tok { E(u32), M(u32, Option<u64>) }

/// Names observed in results, mapped back to the ids the workload allocated.
#[derive(Default)]
pub struct NameBook { back: HashMap<Name, u64> }
pub const UNKNOWN: u64 = u64::MAX;
/// the name a left-to-right traversal starts with
pub const START: u64 = u64::MAX - 1;
impl NameBook {
    pub fn start(&mut self, n: Name) { self.back.insert(n, START); }
    pub fn name(&mut self, id: u64) -> Name {
        let n = crate::names::user_name(id);
        self.back.insert(n.clone(), id);
        self.back.insert(name_pair(n.clone(), name_of_string("tree".to_string())), id);
        n
    }
    pub fn id(&self, n: &Name) -> u64 { *self.back.get(n).unwrap_or(&UNKNOWN) }
    pub fn opt(&self, n: &Option<Name>) -> Option<u64> { n.as_ref().map(|n| self.id(n)) }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Shape { Leaf(Vec<u32>), Bin(Box<Shape>, u32, Option<u64>, Box<Shape>) }

impl Shape {
    pub fn flat(&self, out: &mut Vec<Tok>) {
        match self {
            Shape::Leaf(v) => out.extend(v.iter().map(|e| Tok::E(*e))),
            Shape::Bin(l, lv, n, r) => { l.flat(out); out.push(Tok::M(*lv, *n)); r.flat(out); }
        }
    }
    pub fn to_string(&self) -> String {
        match self {
            Shape::Leaf(v) => format!("{:?}", v),
            Shape::Bin(l, lv, n, r) => format!("({} ^{}{} {})", l.to_string(), lv,
                n.map(|n| format!("n{}", n)).unwrap_or_default(), r.to_string()),
        }
    }
    /// levels: left branch strictly lower, right branch no higher
    pub fn well_levelled(&self) -> bool {
        fn top(s: &Shape) -> Option<u32> { match s { Shape::Leaf(_) => None, Shape::Bin(_, l, _, _) => Some(*l) } }
        match self {
            Shape::Leaf(_) => true,
            Shape::Bin(l, lv, _, r) =>
                top(l).map_or(true, |x| x < *lv) && top(r).map_or(true, |x| x <= *lv)
                && l.well_levelled() && r.well_levelled(),
        }
    }
}

/// The shape a sequence of archive points determines: the root is the first
/// point of the highest level, recursively.
pub fn canonical(t: &[Tok]) -> Option<Shape> {
    if t.is_empty() { return None; }
    let mut best: Option<(usize, u32)> = None;
    for (i, x) in t.iter().enumerate() {
        if let Tok::M(l, _) = x { if best.map_or(true, |(_, b)| *l > b) { best = Some((i, *l)); } }
    }
    Some(match best {
        None => Shape::Leaf(elems(t)),
        Some((i, l)) => {
            let n = match t[i] { Tok::M(_, n) => n, _ => None };
            let a = canonical(&t[..i]).unwrap_or(Shape::Leaf(vec![]));
            let b = canonical(&t[i + 1..]).unwrap_or(Shape::Leaf(vec![]));
            Shape::Bin(Box::new(a), l, n, Box::new(b))
        }
    })
}

pub fn elems(t: &[Tok]) -> Vec<u32> { t.iter().filter_map(|t| if let Tok::E(e) = t { Some(*e) } else { None }).collect() }
pub fn marks(t: &[Tok]) -> Vec<(u32, Option<u64>)> { t.iter().filter_map(|t| if let Tok::M(l, n) = t { Some((*l, *n)) } else { None }).collect() }
pub fn max_mark(t: &[Tok]) -> u32 { marks(t).iter().map(|m| m.0).max().unwrap_or(0) }

/// A focused document: `l` read towards the cursor, `r` read away from it reversed
/// (so both have the cursor at their end).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Zip { pub l: Vec<Tok>, pub r: Vec<Tok> }

fn is_mark(t: Option<&Tok>) -> bool { matches!(t, Some(Tok::M(..))) }
fn pop_side(s: &mut Vec<Tok>) -> Option<u32> {
    while is_mark(s.last()) { s.pop(); }
    match s.pop() { Some(Tok::E(e)) => Some(e), _ => None }
}
fn peek_side(s: &[Tok]) -> Option<u32> { s.iter().rev().find_map(|t| if let Tok::E(e) = t { Some(*e) } else { None }) }
pub fn active(s: &[Tok]) -> usize { s.iter().rev().take_while(|t| !matches!(t, Tok::M(..))).count() }

impl Zip {
    pub fn new() -> Zip { Zip { l: vec![], r: vec![] } }
    pub fn side(&mut self, left: bool) -> &mut Vec<Tok> { if left { &mut self.l } else { &mut self.r } }
    pub fn push(&mut self, left: bool, e: u32) -> usize { let s = self.side(left); s.push(Tok::E(e)); active(s) }
    pub fn pop(&mut self, left: bool) -> Option<u32> { pop_side(self.side(left)) }
    pub fn peek(&self, left: bool) -> Option<u32> { peek_side(if left { &self.l } else { &self.r }) }
    pub fn archive(&mut self, left: bool, lev: u32, n: Option<u64>) -> bool {
        let s = self.side(left);
        if active(s) == 0 { return false; }
        s.push(Tok::M(lev, n));
        true
    }
    /// The sequences an unfocus may produce. With elements at the cursor, one.
    /// With none, the archive points on either side of the cursor delimit an
    /// empty region and one of them has to go; which one is not specified.
    pub fn unfocus(&self) -> Vec<Vec<Tok>> {
        let join = |l: &[Tok], r: &[Tok]| { let mut v = l.to_vec(); v.extend(r.iter().rev().cloned()); v };
        let lm = is_mark(self.l.last());
        let rm = is_mark(self.r.last());
        let le = &self.l[..self.l.len().saturating_sub(1)];
        let re = &self.r[..self.r.len().saturating_sub(1)];
        let trim = |mut v: Vec<Tok>| {
            while is_mark(v.last()) { v.pop(); }
            while is_mark(v.first()) { v.remove(0); }
            v
        };
        if lm && rm { vec![trim(join(le, &self.r)), trim(join(&self.l, re))] } else { vec![trim(join(&self.l, &self.r))] }
    }
    /// focus before element `i`, to the left of any archive point there
    pub fn focus(t: &[Tok], i: usize) -> Zip {
        let mut cut = t.len();
        let mut n = 0;
        if i == 0 { cut = 0; } else {
            for (k, x) in t.iter().enumerate() {
                if let Tok::E(_) = x { n += 1; if n == i { cut = k + 1; break; } }
            }
        }
        Zip { l: t[..cut].to_vec(), r: t[cut..].iter().rev().cloned().collect() }
    }
    pub fn focus_mark(t: &[Tok], id: u64) -> Option<Zip> {
        let k = t.iter().position(|x| matches!(x, Tok::M(_, Some(n)) if *n == id))?;
        Some(Zip { l: t[..k].to_vec(), r: t[k..].iter().rev().cloned().collect() })
    }
}
