//! Which scenarios decide which property.
use crate::core::Scenario;
use crate::world as ew;
use crate::world::EvalScenario;

pub struct Property { pub id: &'static str, pub parts: &'static [&'static dyn Scenario] }

const RULE: &str = "harness histories: 1-4 clients creating, editing and computing over harness documents and accumulators, swarm-weighted operations, simulated clock and random source";
static C17: EvalScenario = EvalScenario { id: "C17/docs", engines: &[0, 1, 1], runs: (60_000, 2_000_000), rule: RULE,
    weights: &[(ew::NEW, 4), (ew::FROM, 1), (ew::INSERT, 8), (ew::APPEND, 6), (ew::EXTEND, 2), (ew::COMPUTE, 14), (ew::READ, 2), (ew::CLONE, 1), (ew::DROP, 1), (ew::SEQ, 2), (ew::BUILD, 1), (ew::JUMP, 3), (ew::RESTART, 1), (ew::INTERRUPT, 2)] };
static C17A: EvalScenario = EvalScenario { id: "C17/accum", engines: &[0, 1, 1], runs: (60_000, 2_000_000), rule: RULE,
    weights: &[(ew::ANEW, 3), (ew::APUSH, 10), (ew::APOP, 6), (ew::AARCH, 8), (ew::ACLONE, 3), (ew::ADRAIN, 2), (ew::RESTART, 1), (ew::INTERRUPT, 1)] };

pub static PROPERTIES: &[Property] = &[Property { id: "C17", parts: &[&C17, &C17A] }];

pub fn property(id: &str) -> Option<&'static Property> { PROPERTIES.iter().find(|p| p.id == id) }
pub fn scenario(id: &str) -> Option<&'static dyn Scenario> {
    PROPERTIES.iter().flat_map(|p| p.parts.iter()).find(|s| s.id() == id).copied()
}
