//! Elements of evaluated collections: comparing, hashing and cloning them are fault
//! points, and cloning takes simulated time.
use crate::core::*;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub struct El(pub u32);
impl Debug for El { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl Clone for El { fn clone(&self) -> El { crate::gen::cloned(); fault_point(SITE_CLONE, "element clone"); El(self.0) } }
impl PartialEq for El { fn eq(&self, o: &El) -> bool { fault_point(SITE_EQ, "element eq"); self.0 == o.0 } }
impl Eq for El {}
impl Hash for El {
    fn hash<H: Hasher>(&self, h: &mut H) {
        fault_point(SITE_HASH, "element hash");
        if !degenerate() { self.0.hash(h) }
    }
}
impl PartialOrd for El { fn partial_cmp(&self, o: &El) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for El { fn cmp(&self, o: &El) -> std::cmp::Ordering { fault_point(SITE_EQ, "element cmp"); self.0.cmp(&o.0) } }
