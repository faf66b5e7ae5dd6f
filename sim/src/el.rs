//! The user-side types handed to the library: elements and metadata whose
//! every callback (clone, compare, hash, metadata rebuild) is a fault point.
use crate::core::*;
use iodyn::raz_meta::{Count, FirstLast, Names, Navigation, Position, RazMeta};
use adapton::engine::*;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub struct El(pub u32);
impl Debug for El { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl Clone for El { fn clone(&self) -> El { fault_point(SITE_CLONE, "element clone"); El(self.0) } }
impl PartialEq for El { fn eq(&self, o: &El) -> bool { fault_point(SITE_EQ, "element eq"); self.0 == o.0 } }
impl Eq for El {}
impl Hash for El {
    fn hash<H: Hasher>(&self, h: &mut H) {
        fault_point(SITE_HASH, "element hash");
        if !degenerate() { self.0.hash(h) }
    }
}
impl PartialOrd for El { fn partial_cmp(&self, o: &El) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for El { fn cmp(&self, o: &El) -> std::cmp::Ordering { fault_point(SITE_EQ, "element cmp"); self.0.cmp(&o.0) } }

/// A user-defined metadata type: element count, a fingerprint of the elements in
/// order, and the levels of the branches below, with faults.
#[derive(Clone, Eq, PartialEq, Hash, Debug)]
pub struct UMeta { pub n: usize, pub sum: u64, pub pow: u64, pub levels: u64 }
const BASE: u64 = 1_000_003;
pub fn fingerprint(v: &[u32]) -> u64 { v.iter().fold(0u64, |a, e| a.wrapping_mul(BASE).wrapping_add(*e as u64 + 1)) }
#[derive(Clone, Eq, PartialEq, Debug)]
pub struct UIdx(pub usize);
impl FirstLast for UIdx { fn first() -> Self { UIdx(0) } fn last() -> Self { UIdx(usize::max_value()) } }
impl RazMeta<El> for UMeta {
    type Index = UIdx;
    fn from_none(l: u32, _n: Option<Name>) -> Self { fault_point(SITE_META, "meta from_none"); UMeta { n: 0, sum: 0, pow: 1, levels: l as u64 } }
    fn from_vec(v: &Vec<El>, l: u32, _n: Option<Name>) -> Self {
        fault_point(SITE_META, "meta from_vec");
        let es: Vec<u32> = v.iter().map(|e| e.0).collect();
        UMeta { n: v.len(), sum: fingerprint(&es), pow: v.iter().fold(1, |a: u64, _| a.wrapping_mul(BASE)), levels: l as u64 }
    }
    fn from_meta(l: &Self, r: &Self, lev: u32, _n: Option<Name>) -> Self {
        fault_point(SITE_META, "meta from_meta");
        UMeta { n: l.n + r.n, sum: l.sum.wrapping_mul(r.pow).wrapping_add(r.sum), pow: l.pow.wrapping_mul(r.pow), levels: l.levels + r.levels + lev as u64 }
    }
    fn navigate(l: &Self, r: &Self, i: &UIdx) -> Navigation<UIdx> {
        fault_point(SITE_META, "meta navigate");
        let i = i.0;
        if i == usize::max_value() { Navigation::Right(UIdx(i)) }
        else if i > l.n + r.n { Navigation::Nowhere }
        else if i < l.n { Navigation::Left(UIdx(i)) }
        else if i == l.n { Navigation::Here }
        else { Navigation::Right(UIdx(i - l.n)) }
    }
    fn split_vec<'a>(v: &'a Vec<El>, i: &UIdx) -> (&'a [El], &'a [El]) { v.split_at(i.0.min(v.len())) }
}

pub trait SimMeta: RazMeta<El> + 'static {
    const KIND: &'static str;
    fn at(_i: usize) -> Option<Self::Index> { None }
    fn by_name(_n: Name) -> Option<Self::Index> { None }
    fn len(&self) -> Option<usize> { None }
    fn name_set(&self) -> Option<BTreeSet<String>> { None }
    /// does it describe these elements, with archive points of these levels between them?
    fn extra(&self, _elems: &[u32], _levels: u64) -> bool { true }
}
impl SimMeta for () { const KIND: &'static str = "unit"; }
impl SimMeta for Count {
    const KIND: &'static str = "count";
    fn at(i: usize) -> Option<usize> { Some(i) }
    fn len(&self) -> Option<usize> { Some(self.0) }
}
impl SimMeta for Names {
    const KIND: &'static str = "names";
    fn by_name(n: Name) -> Option<Position<Name>> { Some(n.into()) }
    fn name_set(&self) -> Option<BTreeSet<String>> { Some(self.0.keys().map(|k| format!("{:?}", k)).collect()) }
}
impl SimMeta for UMeta {
    const KIND: &'static str = "user";
    fn at(i: usize) -> Option<UIdx> { Some(UIdx(i)) }
    fn len(&self) -> Option<usize> { Some(self.n) }
    fn extra(&self, es: &[u32], levels: u64) -> bool { self.sum == fingerprint(es) && self.levels == 2 * levels }
}
