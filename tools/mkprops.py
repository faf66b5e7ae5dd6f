#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), check=True, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None),
        _note=note, _na=na))

prop("C01", "Zipper edit histories behave like a two-sided list with archive points",
 "Whatever sequence of pushes, pops, peeks, archives, focuses and unfocuses is applied to a zipper, it behaves as one list of elements with a cursor: pushes and pops act next to the cursor, archiving never adds, loses, duplicates or reorders an element, and unfocusing then focusing returns the same list with the cursor at the requested place. A pop or peek answers exactly the neighbouring element, or nothing only when that side really is empty.",
 ["histories", "inputs", "configurations"], "all histories of public zipper operations by any number of clients, all levels >= 1, named or unnamed archive points, every metadata type, incremental and non-incremental engine",
 "the tests walk a handful of fixed edit scripts of a few elements in one configuration; the guarantee is over every history, including popping through archive points, empty sections and repeated refocusing",
 ["src/raz.rs", "src/archive_stack.rs", "src/stack.rs"],
 [("focus descends a tree and splits a leaf into left/right stacks", "src/raz.rs: RazTree::focus, focus_left"), ("unfocus grows both sides back into one tree", "src/raz.rs: Raz::unfocus"), ("pop trims a side tree into the current section", "src/raz.rs: pop_left, pop_right, peek_left, peek_right")],
 [("left/right stacks", "elements archived on either side of the cursor", "src/raz.rs: Raz.l_stack, r_stack"), ("l_forest/r_forest", "untouched subtrees on either side", "src/raz.rs: Raz")],
 ["peek_left/peek_right/pop_left/pop_right", "fold_lr over the unfocused tree"],
 note="Seeded search over client interleavings against an executable list-with-archive-points model; every observable answer is compared after every step. Not exhaustive.")
prop("C02", "Recomputing after edits gives the from-scratch answer",
 "After any sequence of edits, running an incremental computation again over the edited collection returns exactly what the same computation returns when run from scratch over the same contents. No result computed for earlier contents is ever returned for different contents. This holds as well when the client functions of the computation themselves build, edit and compute over other collections.",
 ["histories", "inputs", "configurations"], "all interleavings of edits with all tree, zipper and list computations (fold up, fold left-to-right, map, conversions, cons-list and archive-stack folds), with engine restarts in between, when every archive point has a unique name and each computation its own namespace",
 "tests run each computation once or twice over fixed data; stale memo answers appear only after particular edit/compute sequences",
 ["src/raz.rs", "src/level_tree.rs", "src/archive_stack.rs", "src/stack.rs"],
 [("memoised recursion keyed by node name", "src/level_tree.rs: Tree::fold_up_meta, fold_lr_meta, map"), ("names forked per use so that cells and thunks do not collide", "src/level_tree.rs: Tree::new; src/raz.rs: RazTree::fold_up_nl, map, fold_lr_archive"), ("names of archived cells", "src/stack.rs: Head::new; src/archive_stack.rs: archive_with_capacity")],
 observe=["results of the computations"],
 note="Every computation's result is compared with the reference model and with a run over a rebuilt copy in a fresh scratch engine namespace.")
prop("C03", "Clones and forks do not disturb each other",
 "A clone of an unnamed collection, of an archive stack or of a cons list, and a copy edited inside another engine namespace, keep exactly the contents they had when taken, whatever is later done to any other copy, and later edits of the copy leave the original unchanged. Dropping one copy never changes another.",
 ["histories", "schedules"], "all interleavings of edits, clones, drops and namespace forks by up to four clients holding related versions",
 "tests never hold two versions of one collection while editing both; the guarantee is about every interleaving of several owners",
 ["src/lib.rs", "src/raz.rs", "src/archive_stack.rs", "src/stack.rs", "src/tree_cursor.rs"],
 [("persistent shared tails", "src/stack.rs: Stack::pull, Head::pull"), ("copy on write of sections", "src/archive_stack.rs: pop, pop_meta, next_archive"), ("cursor clone copies the dirty state", "src/tree_cursor.rs: Clone for Cursor")],
 observe=["contents of every live handle after every step of any client"],
 note="All live handles are re-observed after each step and compared with their own model.")
prop("C04", "Tree shape depends only on contents, levels and archive points",
 "The tree obtained from a zipper or by joining trees is determined by its element sequence, its archive points and their levels alone: different edit histories that reach the same sequence give structurally equal trees. Along every path levels strictly fall to the left and never rise to the right, and empty sections leave no trace in the tree.",
 ["histories", "inputs", "configurations"], "all edit histories and all assignments of levels >= 1, including runs of equal levels, strictly rising or falling levels and the largest levels",
 "tests compare one or two literal trees; canonicity is a statement over all pairs of histories with the same outcome",
 ["src/raz.rs", "src/level_tree.rs"],
 [("level-ordered merging while growing and joining", "src/raz.rs: Raz::unfocus, RazTree::join; src/tree_cursor.rs: Cursor::join"), ("level check when a node is created", "src/level_tree.rs: Tree::new, good_levels")],
 observe=["fold_up_nl shape with names and levels", "good_levels on the underlying tree"],
 note="The shape observed by a structure-revealing fold is compared with the unique tree the model derives from the token sequence.")
prop("C05", "Metadata is exact and focusing lands where it says",
 "The size, name index or other metadata reported for a collection always equals the one recomputed from its contents. Focusing by position puts the cursor exactly at that position, focusing at an end puts it at that end, and focusing by archive name puts it at that archive point; a position outside the collection is never answered with a cursor.",
 ["histories", "inputs", "configurations"], "all contents reachable by edits, all positions from 0 to beyond the end, all live archive names, all bundled metadata types and a client-defined one",
 "tests focus at a few positions in one literal tree",
 ["src/raz_meta.rs", "src/raz.rs"],
 [("metadata combination at branches", "src/raz_meta.rs: RazMeta::from_meta for (), Count, Names; src/raz.rs: leaf, bin"), ("index-directed descent", "src/raz_meta.rs: RazMeta::navigate, split_vec; src/raz.rs: RazTree::focus")],
 observe=["RazTree::meta", "focus followed by folds and pops"],
 note="Metadata recomputed from the model at every check; focused cursors compared with the model cursor.")
prop("C06", "Converting a stack to a tree keeps order, elements and archive points",
 "Converting an archive stack to a tree, reading it from either end, yields exactly the stack's elements in the corresponding order with its archive points (names and levels) between them, for every position of archive points, including empty sections. Converting again after edits gives the same result as converting from scratch, and converting does not change the stack.",
 ["histories", "inputs"], "all stack histories, with any mix of named and unnamed archive points, both conversion directions, repeated incrementally after edits",
 "tests convert two literal stacks; empty sections and incremental re-conversion are not reached",
 ["src/raz.rs", "src/memo.rs", "src/archive_stack.rs"],
 [("recursive conversion by level", "src/raz.rs: MemoFrom<AtTail>, MemoFrom<AtHead>: from_stack, from_stack_memo"), ("left-to-right stack accumulation", "src/raz.rs: RazTree::fold_lr_meta, fold_lr_archive")],
 observe=["token sequence and shape of the resulting tree"],
 note="Resulting tokens and shape compared with the model; conversions are repeated after edits under the same name.")
prop("C07", "An archive stack is a LIFO stack split at archive points",
 "Across any history of push, pop, peek, extend, archive and whole-section removal, an archive stack returns elements in last-in-first-out order across archive points, returns each archive's metadata and name exactly once when its section is reopened, and reports emptiness and active length truthfully. Iterating yields exactly the elements popping would yield, and iterating or peeking changes nothing.",
 ["histories", "inputs"], "all histories of the public operations, including archiving an empty section and reopening across several archives",
 "tests cover four fixed scripts",
 ["src/archive_stack.rs"],
 [("section reopening on pop", "src/archive_stack.rs: pop, pop_meta, next_archive, peek"), ("archiving", "src/archive_stack.rs: archive_with_capacity")],
 [("current/archived", "active section and cons list of archived ones", "src/archive_stack.rs: AStack")],
 ["return values of every operation"],
 note="Every return value compared with a Vec-of-sections model.")
prop("C08", "A cons list is persistent and computes incrementally like a list",
 "Pushing onto, pulling from, peeking at and iterating a cons list behave as on an immutable list: every version ever obtained keeps its elements and names. Computations memoised along the list's names give, after any pushes and pulls, the answer computed from scratch.",
 ["histories", "inputs"], "all histories over several shared versions, named and unnamed cells, both engines",
 "tests push three elements",
 ["src/stack.rs"], [("named cells for cons nodes", "src/stack.rs: Head::new, push"), ("iteration", "src/stack.rs: Iter")],
 observe=["peek, name, pull, iter", "memoised sum and map over the list"],
 note="All versions compared with Vec models after each step.")
prop("C09", "A tree cursor moves and edits like a zipper over the tree",
 "Moving a cursor down and back up never changes the tree and rebuilds no node; discarding a branch removes exactly the discarded parts; splitting a tree at the cursor and joining two cursors at a new node preserve the order of everything on either side and rebuild each affected node's summary from its children. Iterating to the right from the cursor yields exactly the nodes on that side in order, and every tree produced by split and join is ordered by level.",
 ["histories", "inputs"], "all histories of cursor movement (ordinary, forced, discarding), splits, joins, iteration and clones over level trees of any shape and levels >= 1",
 "tests move through one tree of a few nodes and split/join it once",
 ["src/tree_cursor.rs", "src/level_tree.rs"],
 [("dirty tracking and rebuild on the way up", "src/tree_cursor.rs: up, up_discard, TreeUpdate"), ("two-way split and level-directed join", "src/tree_cursor.rs: split, join, into_iters")],
 [("zipper frames", "direction, dirtiness and tree at every ancestor", "src/tree_cursor.rs: Cursor.zip")],
 ["at_tree, left_tree, right_tree, peek*, up results", "whole tree read from the root"],
 note="Every observable of cursor and tree compared with a pure zipper model after every step.")
prop("C10", "Level-tree computations agree with a plain traversal",
 "Folding a level tree upward, left to right, or mapping it returns what a plain recursive traversal of the same tree returns, including the levels and names passed along, before and after any cut, insertion, split or join, and mapping keeps shape, levels and names. The level check accepts a tree exactly when levels strictly fall to the left and never rise to the right, and generated levels are at least one.",
 ["histories", "inputs", "configurations"], "all trees and edits reachable through the cursor, every computation repeated incrementally, both engines",
 "tests run one fold and one map over one literal tree",
 ["src/level_tree.rs"],
 [("memoised recursion", "src/level_tree.rs: fold_up_meta, fold_lr_meta, map"), ("level predicate", "src/level_tree.rs: good_levels, gen_branch_level")],
 observe=["results of the computations"],
 note="Result compared with a traversal of the model tree; repeated under the same names after edits.")
prop("C11", "The skiplist is a finite map",
 "After any history of insertions, overwrites, removals, renames of the head and clones, looking up a key in the skiplist returns the value most recently stored for it in that version, or nothing if it was removed or never stored; insertion and removal return the prior value. This holds for every hash width and when distinct keys collide, and also when lookups and insertions are part of an incremental computation (a map filled by a fold and named by the sections it passes) that is run again after its input changed.",
 ["histories", "inputs", "configurations"], "all histories, hash widths 1 to 16, keys with colliding and nearly colliding hashes, both engines, lookups and map-building computations repeated incrementally after edits anywhere in their input",
 "one test compares 10000 random operations at a single width with unrelated keys and never removes",
 ["src/skiplist.rs"],
 [("search that assembles the path vector", "src/skiplist.rs: build_path_rec, build_path_step"), ("versioned head cells", "src/skiplist.rs: Skiplist::ext, archive")],
 observe=["get, ext, rem return values", "maps built by repeated computations"],
 note="Every return value compared with a BTreeMap model; maps filled by folds over edited collections compared with the map of the edited contents.")
prop("C12", "An interrupted operation leaves other data intact",
 "If client code called by an operation fails part-way (a fold or map callback, an element's clone, equality or hash, or a metadata function), collections not consumed by that operation keep their contents, and every later operation on them and on new collections answers correctly; a computation that failed can be run again and gives the right answer, and client code that handles such a failure inside another computation does not disturb that one. Within the naming engine, the same holds once the engine has been restarted.",
 ["crash_points", "histories", "fault_sequences"], "an interruption at any call into client code during any operation, in any history, any number of times",
 "no test lets client code fail",
 ["src/raz.rs", "src/level_tree.rs", "src/archive_stack.rs", "src/stack.rs", "src/tree_cursor.rs", "src/skiplist.rs"],
 [("operations consume or copy their input, no partial in-place writes to shared data", "src/raz.rs: RazTree by value; src/archive_stack.rs: AStack")],
 observe=["contents of every live handle after the interruption", "results of re-run computations"],
 note="A panic is injected at a seeded call index into client code and all surviving handles are re-checked. adapton's own engine does not unwind, so in named DCG runs the engine is restarted after the interruption (stated in the property).")
prop("C13", "Data survives an engine restart or switch",
 "Collections built without names keep their contents, shape and metadata when the incremental engine is re-initialised or exchanged for the plain one, can be edited further, and computations over them give the from-scratch answers. Collections rebuilt under the same names after a restart behave as if the engine were new: nothing computed or stored before the restart leaks into results after it.",
 ["crash_points", "histories"], "a restart or engine switch at any point of any history, any number of times",
 "no test re-initialises the engine while holding data",
 ["src/raz.rs", "src/level_tree.rs", "src/archive_stack.rs", "src/stack.rs", "src/tree_cursor.rs"],
 [("handles keep what they need to be forced", "src/level_tree.rs: Tree.link; src/stack.rs: Head.link"), ("re-creation of cells under the same names", "src/raz.rs: unfocus; src/level_tree.rs: Tree::new")],
 observe=["contents of data re-created or retained across a restart"],
 note="Restart injected at seeded points; see DESIGN.md for which handles the engine contract lets survive.")
prop("C14", "Equal names in different namespaces never mix",
 "Two collections or computations that use the same names inside different engine namespaces are independent: each returns answers about its own contents only. Running the same edits in two namespaces gives equal results.",
 ["histories", "schedules"], "all interleavings of edits and computations in up to four namespaces over identical name sets",
 "the documentation says this has not been thoroughly tested; no test uses two namespaces",
 ["src/raz.rs", "src/level_tree.rs", "src/stack.rs", "src/archive_stack.rs"],
 [("names are created with the engine's current namespace", "src/level_tree.rs: Tree::new; src/stack.rs: Head::new; src/raz.rs: ns in fold_up_nl and map")],
 observe=["contents and results in each namespace"],
 note="Identical and diverging edit histories run interleaved in several namespaces, each compared with its own model.")
prop("C15", "Recomputation touches only what an edit can affect",
 "When a computation over a collection with named archive points (or the conversion of an archive stack to a tree) is repeated after edits, client code is called again only for the sections and branches whose contents, metadata or neighbourhood changed, plus the path above them; with no change nothing is called again. The number of calls is therefore bounded by the size of the change and not by the size of the collection.",
 ["histories", "inputs"], "all edit histories over collections with unique named archive points, all repeated computations",
 "no test counts calls; lost reuse gives right answers and is invisible to result comparison",
 ["src/raz.rs", "src/level_tree.rs", "src/archive_stack.rs", "src/stack.rs"],
 [("memo names derived from archive names", "src/level_tree.rs: fold_up_meta, fold_lr_meta, map; src/raz.rs: fold_up_nl, fold_up_gauged, map"), ("unchanged cells keep their names across unfocus/focus", "src/raz.rs: unfocus, focus; src/level_tree.rs: Tree::new")],
 observe=["number of client callbacks per section and branch", "number of metadata computations in a repeated conversion"],
 note="Callback counts compared with an upper bound computed from the model's change set; a bound, so code that reuses more is accepted.")
prop("C16", "Hash tries are finite maps",
 "Finding a key in a hash trie returns the value stored for it, and the union of two tries contains exactly the bindings of both, the right one winning on conflicts. Building and uniting tries never fails.",
 ["inputs", "histories"], "all tries built from any bindings", "no test exists",
 ["src/trie.rs"], [("splitting and union", "src/trie.rs: Trie::split, union, find")],
 na="The module is a hidden stub: its public functions cannot build or query a non-trivial trie (the hash type needed by find has no public constructor, union of two non-empty tries panics unconditionally), and nothing in it depends on scheduling, time, I/O, crashes or histories, so there is nothing for a simulator to schedule or inject.")

prop("C17", "The evaluation harness edits and computes like a plain vector",
 "The harness that measures the library edits and computes faithfully. After any sequence of creation and batch edits (insertion at seeded places, append, extension) an evaluated collection holds exactly the elements a plain vector holds after the same edits, in an order the edits allow; its archive points come once for every so many inserted elements as the gauges ask, and no name occurs twice. Every computation of the harness returns, over every kind of collection, with every accumulator and however often it is repeated between edits, what a plain traversal of the contents returns. Test sequences apply exactly the number of edits asked for, and reported durations cover the client code they time and no more than the time that passed; a computation made of stages reports the durations of all of them.",
 ["histories", "inputs", "configurations", "schedules"], "all sequences of harness edits and computations over every evaluated collection and accumulator, all gauges and batch sizes, both engines, simulated clocks that jump, engine restarts and interrupted computations in between",
 "the harness has no tests; it is only ever run for its timings, which look plausible whether or not the answers are right",
 ["eval/src/eval_iraz.rs", "eval/src/eval_raz_name_index.rs", "eval/src/eval_vec.rs", "eval/src/actions.rs", "eval/src/accum_lists.rs", "eval/src/test_seq.rs", "eval/src/test_build.rs", "eval/src/primitives.rs"],
 [("gauged creation and edits", "eval/src/eval_iraz.rs: CreateInc, EditInsert, EditAppend, EditExtend"), ("computations over collections", "eval/src/actions.rs: Computor implementations"), ("accumulators", "eval/src/accum_lists.rs, eval/src/interface.rs"), ("test sequences", "eval/src/test_seq.rs: EditComputeSequence; eval/src/test_build.rs: BuildTest")],
 observe=["contents with archive points and names after every edit", "results of every computation", "reported durations"],
 note="Contents, archive points and every result compared with a plain-vector model; time is simulated by a seam under the clock the harness reads.")

prop("C18", "Generated levels keep trees balanced and edits cheap",
 "From a fair random source the level generator draws level k >= 1 with probability halving in k, each draw independent of the earlier ones and different threads independent of each other, however the process receives its entropy (interrupted or short reads included). A sequence whose archive points take generated levels therefore stays logarithmically deep in their number through every history of edits made without looking at the levels, whether built by a zipper or converted from a stack; and focusing anywhere, editing there and unfocusing computes metadata a number of times logarithmic in the archive points and copies elements only of the sections touched.",
 ["histories", "inputs", "schedules", "faults"], "all sequences of draws from fair sources on any threads, all edit histories chosen independently of the levels, all ways entropy is delivered",
 "tests use small collections, on which an unbalanced tree and an expensive edit look the same as a good one, and a distribution cannot be settled by examples",
 ["src/level_tree.rs", "src/lib.rs", "src/trees.rs", "src/raz.rs", "src/tree_cursor.rs", "src/archive_stack.rs"],
 [("trailing zero count of a random word", "src/level_tree.rs: gen_branch_level; src/lib.rs: inc_level; src/trees.rs: NegBin"), ("joins that keep levels ordered", "src/tree_cursor.rs: Cursor::join; src/raz.rs: unfocus, MemoFrom<AtTail>, MemoFrom<AtHead>"), ("lazy rebuilding along one path", "src/tree_cursor.rs: up, down_left_force, down_right_force; src/raz.rs: focus")],
 observe=["levels drawn", "longest path and number of archive points of every tree", "metadata computations and element copies per edit"],
 note="Draws come from a simulated entropy source (getrandom is replaced, with interrupted calls and short reads) or a seeded fair generator; statistical bounds are at least eight standard deviations wide and runs are deterministic; depth and cost are compared with generous logarithmic bounds.")
exec(open(os.path.join(root, "tools/more_props.py")).read()) if os.path.exists(os.path.join(root, "tools/more_props.py")) else None
SKIP = set(os.environ.get("SKIP", "").split(","))
P = [p for p in P if p["id"] not in SKIP]
P.sort(key=lambda p: p["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks, na = [], []
for p in P:
    if p["_na"]: na.append(dict(property=p["id"], reason=p["_na"])); continue
    checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
        technique="deterministic simulation with fault injection", level="exploration",
        level_note=p["_note"] + " Exploration only: seeded search, no exhaustiveness claimed. Trusts rustc, std, the adapton engine (real code, not modelled) and the reference model in sim/src; preconditions are listed in DESIGN.md."))
m = dict(version=1, setup_cmd="bash build.sh", checks=checks, not_applicable=na,
  notes="All checks build a simulator (/verif/sim; for C17 /verif/evalsim, which drives the eval crate with the toolchain that crate needs) against /repo's working tree and run it; no hooks in /repo are needed because the engine, level source, random source and every call into client code are already seams.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1); open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
