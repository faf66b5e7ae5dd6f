//! Which scenarios decide which property.
use crate::core::Scenario;
use crate::razworld::*;
use crate::scen_raz::RazScenario;
use crate::cursorworld as cw;
use crate::cursorworld::CursorScenario;
use crate::levelworld::LevelScenario;
use crate::mapworld as mw;
use crate::mapworld::MapScenario;
use crate::multiworld::MultiScenario;
use crate::stackworld as sw;
use crate::stackworld::StackScenario;

pub struct Property { pub id: &'static str, pub parts: &'static [&'static dyn Scenario] }

const RULE_RAZ: &str = "zipper histories: 1-4 clients, seeded interleaving, swarm-weighted operations (each run scales the operation weights, switches some off, and draws engine mode, naming, level distribution, metadata type and size regime)";
const RULE_STACK: &str = "stack histories: 1-4 clients over archive stacks and cons lists sharing one engine, swarm-weighted operations";
const RULE_CURSOR: &str = "tree-cursor histories: 1-4 clients over cursors into level trees, swarm-weighted moves, splits, joins, cuts and computations";
const ALL: u64 = (1 << NFOLDS) - 1;
const EDIT: &[(usize, u64)] = &[(PUSH_L, 8), (PUSH_R, 8), (POP_L, 6), (POP_R, 6), (PEEK, 4), (ARCH_L, 6), (ARCH_R, 6), (UNFOCUS, 4), (FOCUS_AT, 6), (RELEVEL, 2), (FOCUS_END, 2), (FOCUS_LEFT, 1), (CLONE, 1), (DROP, 1), (NEW, 1), (VERIFY, 2), (FROM_VEC, 1), (BURST, 5), (JOIN, 1), (RESTART, 1), (INTERRUPT, 1)];

static C01: RazScenario = RazScenario { id: "C01/raz", weights: EDIT, engines: &[0, 1, 1], names: &[0, 1, 1, 2], metas: &[0, 0, 1, 2, 2, 3],
    folds: 0, canon: false, bystanders: false, docs: (1, 3), maxdocs: 4, runs: (400_000, 4_000_000), rule: RULE_RAZ };

static C02: RazScenario = RazScenario { id: "C02/raz", weights: &[(PUSH_L, 6), (PUSH_R, 6), (POP_L, 5), (POP_R, 5), (ARCH_L, 5), (ARCH_R, 5), (FOCUS_AT, 4), (RELEVEL, 2), (FOCUS_END, 1), (CLONE, 2), (DROP, 1), (FOLD, 14), (FOLD_SCRATCH, 1), (JOIN, 1), (BURST, 6), (RESTART, 1), (NS_FORK, 1), (INTERRUPT, 1)],
    engines: &[1, 1, 1, 0], names: &[1, 1, 1, 2, 0], metas: &[0, 0, 1, 2, 3], folds: ALL, canon: false, bystanders: false, docs: (1, 3), maxdocs: 4, runs: (120_000, 4_000_000), rule: RULE_RAZ };
static C02S: StackScenario = StackScenario { id: "C02/stack", engines: &[1, 1, 1, 0], names: &[1, 1, 2], runs: (40_000, 1_500_000), rule: RULE_STACK,
    weights: &[(sw::PUSH, 4), (sw::POP, 3), (sw::ARCH, 4), (sw::CLONE, 1), (sw::NEW, 1), (sw::BURST, 6), (sw::CPUSH, 5), (sw::CPULL, 2), (sw::CFOLD, 6), (sw::SFOLD, 6), (sw::TAIL, 3), (sw::HEAD, 3), (sw::RERUN, 6), (sw::RESTART, 1), (sw::INTERRUPT, 1)] };

static C03: RazScenario = RazScenario { id: "C03/raz", weights: &[(PUSH_L, 6), (PUSH_R, 6), (POP_L, 6), (POP_R, 6), (ARCH_L, 5), (ARCH_R, 5), (UNFOCUS, 3), (FOCUS_AT, 5), (RELEVEL, 2), (FOCUS_OOB, 1), (FOCUS_NAME, 1), (CLONE, 8), (DROP, 2), (NEW, 1), (VERIFY, 1), (FOLD, 3), (JOIN, 3), (BURST, 6), (NS_FORK, 3), (RESTART, 1), (INTERRUPT, 1)],
    engines: &[0, 0, 1], names: &[0, 1, 2], metas: &[0, 1, 2, 3], folds: ALL, canon: false, bystanders: true, docs: (1, 4), maxdocs: 8, runs: (80_000, 3_000_000), rule: RULE_RAZ };
static C03S: StackScenario = StackScenario { id: "C03/stack", engines: &[0, 1, 1], names: &[0, 1, 2], runs: (100_000, 2_000_000), rule: RULE_STACK,
    weights: &[(sw::PUSH, 6), (sw::POP, 5), (sw::POP_META, 3), (sw::NEXT, 3), (sw::ARCH, 5), (sw::EXT, 1), (sw::EXT_REV, 1), (sw::CLONE, 8), (sw::DROP, 1), (sw::CHECK, 1), (sw::TAIL, 1), (sw::HEAD, 1), (sw::BURST, 5), (sw::CPUSH, 8), (sw::CPULL, 6), (sw::CITER, 1), (sw::CFOLD, 1), (sw::SFOLD, 1), (sw::DRAIN, 1), (sw::RESTART, 1), (sw::INTERRUPT, 1)] };

static C04: RazScenario = RazScenario { id: "C04/raz", weights: &[(PUSH_L, 6), (PUSH_R, 6), (POP_L, 5), (POP_R, 5), (ARCH_L, 8), (ARCH_R, 8), (UNFOCUS, 6), (FOCUS_AT, 6), (RELEVEL, 2), (FOCUS_END, 1), (CLONE, 1), (NEW, 1), (VERIFY, 2), (FOLD, 3), (JOIN, 3), (BURST, 8), (NS_FORK, 1), (RESTART, 1), (INTERRUPT, 1)],
    engines: &[0, 1, 1], names: &[0, 1, 1, 2], metas: &[0, 1, 2, 3], folds: 1 << 3 | 1 << 4 | 1 << 8 | 1 << 9 | 1 << 10, canon: true, bystanders: false, docs: (1, 3), maxdocs: 4, runs: (250_000, 4_000_000), rule: RULE_RAZ };

static C05: RazScenario = RazScenario { id: "C05/raz", weights: &[(PUSH_L, 6), (PUSH_R, 6), (POP_L, 5), (POP_R, 5), (ARCH_L, 6), (ARCH_R, 6), (UNFOCUS, 4), (FOCUS_AT, 8), (RELEVEL, 2), (FOCUS_END, 3), (FOCUS_OOB, 3), (FOCUS_NAME, 8), (CHECK_META, 6), (CLONE, 1), (NEW, 1), (JOIN, 2), (FROM_VEC, 1), (BURST, 6), (FOLD, 2), (RESTART, 1), (INTERRUPT, 1)],
    engines: &[0, 1, 1], names: &[0, 1, 1, 2], metas: &[0, 1, 1, 2], folds: 1 << 8 | 1 << 12, canon: false, bystanders: false, docs: (1, 3), maxdocs: 4, runs: (250_000, 4_000_000), rule: RULE_RAZ };

static C06: StackScenario = StackScenario { id: "C06/stack", engines: &[1, 1, 1, 0], names: &[0, 1, 1, 2], runs: (120_000, 4_000_000), rule: RULE_STACK,
    weights: &[(sw::PUSH, 5), (sw::POP, 3), (sw::ARCH, 6), (sw::NEXT, 1), (sw::EXT, 1), (sw::EXT_REV, 1), (sw::CLONE, 1), (sw::NEW, 1), (sw::BURST, 8), (sw::TAIL, 8), (sw::HEAD, 8), (sw::RERUN, 4), (sw::RESTART, 1), (sw::INTERRUPT, 1)] };
static C06R: RazScenario = RazScenario { id: "C06/raz", weights: &[(PUSH_L, 5), (PUSH_R, 5), (POP_L, 4), (POP_R, 4), (ARCH_L, 6), (ARCH_R, 6), (FOCUS_AT, 4), (RELEVEL, 2), (BURST, 6), (FOLD, 10), (RESTART, 1), (INTERRUPT, 1)],
    engines: &[1, 1, 1, 0], names: &[1, 1, 2, 0], metas: &[0, 1, 2, 3], folds: 1 << 9 | 1 << 11, canon: false, bystanders: false, docs: (1, 2), maxdocs: 3, runs: (40_000, 1_500_000), rule: RULE_RAZ };

static C07: StackScenario = StackScenario { id: "C07/stack", engines: &[0, 1], names: &[0, 1, 2], runs: (350_000, 5_000_000), rule: RULE_STACK,
    weights: &[(sw::PUSH, 7), (sw::POP, 6), (sw::POP_META, 6), (sw::PEEK, 3), (sw::NEXT, 4), (sw::ARCH, 7), (sw::EXT, 2), (sw::EXT_REV, 2), (sw::CLONE, 2), (sw::DROP, 1), (sw::NEW, 1), (sw::CHECK, 3), (sw::DRAIN, 2), (sw::BURST, 5), (sw::FROM_VEC, 1), (sw::RERUN, 2), (sw::TWIN, 1), (sw::RESTART, 1), (sw::INTERRUPT, 1)] };

static C08: StackScenario = StackScenario { id: "C08/stack", engines: &[0, 1], names: &[0, 1, 2], runs: (350_000, 5_000_000), rule: RULE_STACK,
    weights: &[(sw::CPUSH, 12), (sw::CPULL, 7), (sw::CPEEK, 3), (sw::CITER, 3), (sw::CFOLD, 5), (sw::CNEW, 1), (sw::RERUN, 3), (sw::TWIN, 1), (sw::RESTART, 1), (sw::INTERRUPT, 1)] };

const CURSOR: &[(usize, u64)] = &[(cw::DL, 4), (cw::DR, 4), (cw::FL, 2), (cw::FR, 2), (cw::XL, 1), (cw::XR, 1), (cw::UP, 5), (cw::UPD, 2), (cw::SPLIT, 2), (cw::JOIN, 4), (cw::SJ, 4), (cw::CUT, 2), (cw::INS, 6), (cw::ITERS, 4), (cw::OBS, 1), (cw::CHECK, 1), (cw::CLONE, 2), (cw::DROP, 1), (cw::NEW, 1), (cw::BUILD, 3), (cw::ROOT, 2), (cw::WALK, 6), (cw::GOOD, 1), (cw::INTERRUPT, 1), (cw::RESTART, 1), (cw::COMPUTE, 1)];
static C09: CursorScenario = CursorScenario { id: "C09/cursor", weights: CURSOR, engines: &[0, 1, 1], names: &[0, 1, 1, 2], runs: (100_000, 3_000_000), rule: RULE_CURSOR };
static C10: CursorScenario = CursorScenario { id: "C10/cursor", engines: &[0, 1, 1, 1], names: &[0, 1, 1, 1, 2], runs: (100_000, 3_000_000), rule: RULE_CURSOR,
    weights: &[(cw::XL, 1), (cw::XR, 1), (cw::ROOT, 1), (cw::SPLIT, 1), (cw::JOIN, 3), (cw::SJ, 4), (cw::CUT, 2), (cw::INS, 6), (cw::BUILD, 3), (cw::WALK, 8), (cw::COMPUTE, 16), (cw::REUSE, 8), (cw::GOOD, 1), (cw::CLONE, 1), (cw::INTERRUPT, 1), (cw::RESTART, 1)] };

static C03C: CursorScenario = CursorScenario { id: "C03/cursor", weights: &[(cw::DL, 4), (cw::DR, 4), (cw::XL, 1), (cw::XR, 1), (cw::UP, 4), (cw::UPD, 2), (cw::SPLIT, 2), (cw::JOIN, 3), (cw::SJ, 3), (cw::CUT, 2), (cw::INS, 5), (cw::ITERS, 2), (cw::CLONE, 8), (cw::DROP, 2), (cw::BUILD, 2), (cw::ROOT, 2), (cw::WALK, 4), (cw::COMPUTE, 2), (cw::RESTART, 1)],
    engines: &[0, 0, 1], names: &[0, 0, 1, 2], runs: (50_000, 2_000_000), rule: RULE_CURSOR };
static C12C: CursorScenario = CursorScenario { id: "C12/cursor", weights: &[(cw::DL, 3), (cw::DR, 3), (cw::UP, 4), (cw::SPLIT, 2), (cw::JOIN, 3), (cw::SJ, 4), (cw::CUT, 2), (cw::INS, 6), (cw::ITERS, 2), (cw::CLONE, 2), (cw::BUILD, 3), (cw::ROOT, 3), (cw::WALK, 4), (cw::COMPUTE, 6), (cw::INTERRUPT, 14)],
    engines: &[0, 0, 1], names: &[0, 0, 1, 2], runs: (50_000, 2_000_000), rule: RULE_CURSOR };
static C13C: CursorScenario = CursorScenario { id: "C13/cursor", weights: &[(cw::DL, 3), (cw::DR, 3), (cw::UP, 3), (cw::SPLIT, 1), (cw::JOIN, 3), (cw::SJ, 4), (cw::CUT, 2), (cw::INS, 6), (cw::CLONE, 1), (cw::BUILD, 3), (cw::ROOT, 1), (cw::WALK, 4), (cw::COMPUTE, 8), (cw::RESTART, 8), (cw::INTERRUPT, 1)],
    engines: &[0, 1, 1], names: &[0, 1, 2], runs: (50_000, 2_000_000), rule: RULE_CURSOR };
static C15C: CursorScenario = CursorScenario { id: "C15/cursor", engines: &[1], names: &[1], runs: (40_000, 2_000_000), rule: RULE_CURSOR,
    weights: &[(cw::ROOT, 1), (cw::JOIN, 2), (cw::SJ, 4), (cw::CUT, 2), (cw::INS, 6), (cw::BUILD, 3), (cw::WALK, 8), (cw::COMPUTE, 1), (cw::REUSE, 16), (cw::RESTART, 1)] };

static C15S: StackScenario = StackScenario { id: "C15/stack", engines: &[1], names: &[1], runs: (60_000, 2_000_000), rule: RULE_STACK,
    weights: &[(sw::PUSH, 5), (sw::POP, 4), (sw::ARCH, 6), (sw::NEXT, 1), (sw::EXT, 1), (sw::CLONE, 1), (sw::NEW, 1), (sw::BURST, 10), (sw::TAIL, 10), (sw::HEAD, 10), (sw::RESTART, 1)] };

const RULE_MAP: &str = "map histories: 1-4 clients over versions of skiplists with chosen hash collisions, swarm-weighted operations";
static C11: MapScenario = MapScenario { id: "C11/map", engines: &[0, 1, 1], runs: (120_000, 3_000_000), rule: RULE_MAP,
    weights: &[(mw::PUT, 8), (mw::REM, 5), (mw::EXT, 4), (mw::GET, 2), (mw::ALL, 2), (mw::ARCH, 3), (mw::CLONE, 3), (mw::DROP, 1), (mw::NEW, 1), (mw::BURST, 4), (mw::LOOK, 8), (mw::INTERRUPT, 1), (mw::RESTART, 1), (mw::TPUSH, 3), (mw::TPULL, 2), (mw::TALLY, 4), (mw::TWIN, 1), (mw::RESET, 1), (mw::REBUILD, 5), (mw::TEDIT, 4)] };
static C11F: RazScenario = RazScenario { id: "C11/fold", weights: &[(PUSH_L, 5), (PUSH_R, 5), (POP_L, 3), (POP_R, 3), (ARCH_L, 6), (ARCH_R, 6), (FOCUS_AT, 6), (RELEVEL, 2), (FOCUS_END, 1), (FOLD, 14), (BURST, 6), (JOIN, 1), (INTERRUPT, 1), (RESTART, 1)],
    engines: &[1, 1, 1, 0], names: &[1, 1, 1, 2], metas: &[0, 1, 2, 3], folds: 1 << 14 | 1 << 15, canon: false, bystanders: false, docs: (1, 2), maxdocs: 3, runs: (60_000, 2_000_000), rule: RULE_RAZ };
static C12M: MapScenario = MapScenario { id: "C12/map", engines: &[0, 0, 1], runs: (30_000, 1_000_000), rule: RULE_MAP,
    weights: &[(mw::PUT, 8), (mw::REM, 4), (mw::EXT, 4), (mw::GET, 3), (mw::CLONE, 3), (mw::ARCH, 2), (mw::BURST, 3), (mw::LOOK, 6), (mw::TPUSH, 3), (mw::TPULL, 1), (mw::TALLY, 4), (mw::INTERRUPT, 14), (mw::REBUILD, 3), (mw::TEDIT, 2)] };

static C12: RazScenario = RazScenario { id: "C12/raz", weights: &[(PUSH_L, 5), (PUSH_R, 5), (POP_L, 5), (POP_R, 5), (ARCH_L, 5), (ARCH_R, 5), (UNFOCUS, 3), (FOCUS_AT, 4), (RELEVEL, 2), (FOCUS_END, 1), (CLONE, 2), (FOLD, 12), (JOIN, 1), (BURST, 6), (INTERRUPT, 16)],
    engines: &[0, 0, 1], names: &[0, 1, 2], metas: &[0, 1, 2, 2, 3], folds: ALL, canon: false, bystanders: false, docs: (1, 3), maxdocs: 4, runs: (100_000, 3_000_000), rule: RULE_RAZ };
static C12S: StackScenario = StackScenario { id: "C12/stack", engines: &[0, 1], names: &[0, 1, 2], runs: (100_000, 2_000_000), rule: RULE_STACK,
    weights: &[(sw::PUSH, 5), (sw::POP, 4), (sw::POP_META, 2), (sw::PEEK, 2), (sw::NEXT, 2), (sw::ARCH, 5), (sw::CLONE, 2), (sw::BURST, 6), (sw::DRAIN, 1), (sw::TAIL, 5), (sw::HEAD, 5), (sw::CPUSH, 6), (sw::CPULL, 3), (sw::CFOLD, 5), (sw::SFOLD, 5), (sw::INTERRUPT, 16)] };

static C13: RazScenario = RazScenario { id: "C13/raz", weights: &[(PUSH_L, 5), (PUSH_R, 5), (POP_L, 5), (POP_R, 5), (ARCH_L, 5), (ARCH_R, 5), (UNFOCUS, 3), (FOCUS_AT, 4), (RELEVEL, 2), (CLONE, 2), (FOLD, 10), (JOIN, 1), (BURST, 6), (RESTART, 6), (INTERRUPT, 1)],
    engines: &[0, 1, 1], names: &[0, 0, 1, 2], metas: &[0, 1, 2, 3], folds: ALL, canon: true, bystanders: false, docs: (1, 3), maxdocs: 4, runs: (100_000, 3_000_000), rule: RULE_RAZ };
static C13S: StackScenario = StackScenario { id: "C13/stack", engines: &[0, 1, 1], names: &[0, 1, 2], runs: (80_000, 2_000_000), rule: RULE_STACK,
    weights: &[(sw::PUSH, 5), (sw::POP, 4), (sw::NEXT, 2), (sw::ARCH, 5), (sw::CLONE, 1), (sw::BURST, 6), (sw::TAIL, 5), (sw::HEAD, 5), (sw::CPUSH, 6), (sw::CPULL, 3), (sw::CFOLD, 5), (sw::SFOLD, 5), (sw::RERUN, 1), (sw::RESTART, 8)] };

static C14: RazScenario = RazScenario { id: "C14/raz", weights: &[(PUSH_L, 5), (PUSH_R, 5), (POP_L, 4), (POP_R, 4), (ARCH_L, 6), (ARCH_R, 6), (UNFOCUS, 2), (FOCUS_AT, 4), (RELEVEL, 2), (FOLD, 4), (JOIN, 1), (BURST, 8), (NS_FORK, 14)],
    engines: &[1, 1, 0], names: &[1, 1, 2], metas: &[0, 1, 2, 3], folds: ALL, canon: true, bystanders: true, docs: (1, 3), maxdocs: 4, runs: (50_000, 3_000_000), rule: RULE_RAZ };
static C14S: StackScenario = StackScenario { id: "C14/stack", engines: &[1, 1, 0], names: &[1, 2], runs: (40_000, 2_000_000), rule: RULE_STACK,
    weights: &[(sw::PUSH, 5), (sw::POP, 3), (sw::ARCH, 5), (sw::BURST, 6), (sw::TAIL, 4), (sw::HEAD, 4), (sw::CPUSH, 5), (sw::CPULL, 2), (sw::CFOLD, 5), (sw::SFOLD, 5), (sw::TWIN, 8), (sw::CLONE, 1)] };

// parts of the shared-engine worlds: nobody restarts or interrupts on their own
static M_RAZ: RazScenario = RazScenario { id: "part/raz", weights: &[(PUSH_L, 6), (PUSH_R, 6), (POP_L, 4), (POP_R, 4), (ARCH_L, 6), (ARCH_R, 6), (UNFOCUS, 3), (FOCUS_AT, 4), (RELEVEL, 2), (FOCUS_NAME, 2), (CLONE, 1), (FOLD, 10), (FOLD_SCRATCH, 1), (JOIN, 1), (BURST, 8), (REUSE, 2)],
    engines: &[1], names: &[1, 1, 1, 2], metas: &[0, 1, 2, 3], folds: ALL, canon: true, bystanders: true, docs: (1, 2), maxdocs: 3, runs: (0, 0), rule: RULE_RAZ };
static M_STACK: StackScenario = StackScenario { id: "part/stack", engines: &[1], names: &[1, 1, 2], runs: (0, 0), rule: RULE_STACK,
    weights: &[(sw::PUSH, 4), (sw::POP, 3), (sw::NEXT, 1), (sw::ARCH, 4), (sw::BURST, 6), (sw::TAIL, 6), (sw::HEAD, 6), (sw::CPUSH, 5), (sw::CPULL, 2), (sw::CFOLD, 4), (sw::SFOLD, 4), (sw::RERUN, 4), (sw::CLONE, 1)] };
static M_CURSOR: CursorScenario = CursorScenario { id: "part/cursor", engines: &[1], names: &[1, 1, 2], runs: (0, 0), rule: RULE_CURSOR,
    weights: &[(cw::DL, 2), (cw::DR, 2), (cw::UP, 3), (cw::SPLIT, 1), (cw::JOIN, 3), (cw::SJ, 3), (cw::CUT, 1), (cw::INS, 6), (cw::BUILD, 4), (cw::ROOT, 1), (cw::WALK, 4), (cw::COMPUTE, 8), (cw::REUSE, 2)] };
static M_MAP: MapScenario = MapScenario { id: "part/map", engines: &[1], runs: (0, 0), rule: RULE_MAP,
    weights: &[(mw::PUT, 8), (mw::REM, 4), (mw::EXT, 4), (mw::ARCH, 2), (mw::CLONE, 2), (mw::BURST, 3), (mw::LOOK, 6), (mw::TPUSH, 3), (mw::TPULL, 1), (mw::TALLY, 4), (mw::REBUILD, 5), (mw::TEDIT, 3)] };
static C14W: MultiScenario = MultiScenario { id: "C14/worlds", parts: &[&M_RAZ, &M_RAZ, &M_STACK, &M_STACK, &M_CURSOR, &M_MAP], restarts: false, runs: (50_000, 2_000_000),
    rule: "2-4 worlds (zippers, stacks and lists, level trees, maps) on one engine, at the root, in sibling or nested namespaces, with equal names, often the same program with one difference; the scheduler interleaves them" };
static C13W: MultiScenario = MultiScenario { id: "C13/worlds", parts: &[&M_RAZ, &M_STACK, &M_CURSOR, &M_MAP], restarts: true, runs: (30_000, 1_500_000),
    rule: "2-4 worlds (zippers, stacks and lists, level trees, maps) on one engine in namespaces of their own; the engine is restarted under all of them at once and every world is rebuilt from its log" };

static C15: RazScenario = RazScenario { id: "C15/raz", weights: &[(PUSH_L, 4), (PUSH_R, 4), (POP_L, 4), (POP_R, 4), (ARCH_L, 5), (ARCH_R, 5), (FOCUS_AT, 6), (RELEVEL, 2), (FOCUS_END, 2), (NEW, 1), (BURST, 8), (REUSE, 16), (RESTART, 1)],
    engines: &[1], names: &[1], metas: &[0, 1, 2, 3], folds: 0, canon: true, bystanders: false, docs: (1, 2), maxdocs: 3, runs: (200_000, 4_000_000), rule: RULE_RAZ };

const RULE_LEVEL: &str = "level histories: sequences whose archive points draw their level from the library's generator on a simulated source, edited at seeded positions without looking at the levels, built by zippers and from stacks, on 1-3 documents and several threads, with interrupted and short entropy reads";
static C18: LevelScenario = LevelScenario { id: "C18/levels", engines: &[0, 1, 1], runs: (10_000, 400_000), rule: RULE_LEVEL };
pub static PROPERTIES: &[Property] = &[
    Property { id: "C01", parts: &[&C01] },
    Property { id: "C02", parts: &[&C02, &C02S] },
    Property { id: "C03", parts: &[&C03, &C03S, &C03C] },
    Property { id: "C04", parts: &[&C04] },
    Property { id: "C05", parts: &[&C05] },
    Property { id: "C06", parts: &[&C06, &C06R] },
    Property { id: "C07", parts: &[&C07] },
    Property { id: "C08", parts: &[&C08] },
    Property { id: "C09", parts: &[&C09] },
    Property { id: "C10", parts: &[&C10] },
    Property { id: "C11", parts: &[&C11, &C11F] },
    Property { id: "C12", parts: &[&C12, &C12S, &C12C, &C12M] },
    Property { id: "C13", parts: &[&C13, &C13S, &C13C, &C13W] },
    Property { id: "C14", parts: &[&C14, &C14S, &C14W] },
    Property { id: "C15", parts: &[&C15, &C15C, &C15S] },
    Property { id: "C18", parts: &[&C18] },
];

pub fn property(id: &str) -> Option<&'static Property> { PROPERTIES.iter().find(|p| p.id == id) }
pub fn scenario(id: &str) -> Option<&'static dyn Scenario> {
    PROPERTIES.iter().flat_map(|p| p.parts.iter()).find(|s| s.id() == id).copied()
}
