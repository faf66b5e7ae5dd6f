import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants1.py')).read().split("plant('c03")[0])
EHEAD = r'''
#![allow(dead_code, unused_imports)]
use adapton::engine::*;
use adapton::engine::manage;
use rand::{Rng, StdRng, SeedableRng, Rand};
use std::rc::Rc;
use time::Duration;
use eval::primitives::*;
use eval::interface::*;
use eval::actions::*;
use eval::eval_iraz::EvalIRaz;
use eval::eval_raz_name_index::EvalRazNameIndex;
use eval::eval_vec::EvalVec;
use eval::accum_lists::*;
fn rng(s: usize) -> StdRng { StdRng::from_seed(&[s]) }
type IR = EvalIRaz<usize, StdRng>;
fn marks(e: &IR, r: &mut StdRng) -> Vec<(u64, Option<Name>)> {
  let (_, v) = e.comp_fold_meta((0u64, Vec::new()), Rc::new(|(k, v): (u64, Vec<(u64, Option<Name>)>), _e: &usize| (k + 1, v)),
    Rc::new(|(k, mut v): (u64, Vec<(u64, Option<Name>)>), (_l, n): (u32, Option<Name>)| { v.push((k, n)); (k, v) }), r);
  v.1
}
'''
def eplant(id, edits, demo, needs, breaks):
    PLANTS.append(dict(id=id, prop='C17', edits=edits, demo=EHEAD + demo, needs=needs, breaks=breaks, eval=True))

S = open('/repo/eval/src/eval_iraz.rs').read()
ins = S[S.index("EditInsert for EvalIRaz"):S.index("// TODO: this may generate an unused", S.index("EditInsert for EvalIRaz"))]
app = S[S.index("EditAppend for EvalIRaz"):S.index("CompMax for EvalIRaz")]

eplant('c17-gauge-restart', [('eval/src/eval_iraz.rs', app, app.replace("		let mut raz = focus.unwrap_or_else(||panic!(\"bad edit location\"));\n",
'''		let mut raz = focus.unwrap_or_else(||panic!("bad edit location"));
		// an append starts a new section
		self.counter -= self.counter % self.datagauge;
'''))], r'''
fn main() {
  manage::init_dcg();
  let mut r = rng(5);
  let (_, mut e) = <IR as CreateInc<StdRng>>::inc_init(8, 4, 1, &rng(1), &mut r);
  for _ in 0..4 { e = e.append(3, &mut r).1; }
  // 12 appended elements, one archive point for every 4 (nothing follows the one at 8 when the first append looks for the end)
  let m = ns(name_of_usize(77), || marks(&e, &mut r));
  assert_eq!(m.iter().map(|x| x.0).collect::<Vec<_>>(), vec![4, 12, 16]);
}
''', 'several appends whose size is not a multiple of the data gauge', 'elements left over from one append are forgotten by the gauge, so archive points come late or never')

eplant('c17-name-refund', [('eval/src/eval_iraz.rs', ins, ins.replace("		// time insertions\n", '''		// the spare name is only needed when the batch crosses one more boundary
		if batch_size % self.datagauge == 0 { self.names -= 1; }
		// time insertions
'''))], r'''
fn main() {
  manage::init_dcg();
  let mut r = rng(5);
  let (_, mut e) = <IR as CreateInc<StdRng>>::inc_init(6, 2, 3, &rng(1), &mut r);
  for _ in 0..9 { e = e.insert(4, &mut r).1; }
  let m: Vec<Name> = ns(name_of_usize(77), || marks(&e, &mut r)).into_iter().filter_map(|x| x.1).collect();
  for i in 0..m.len() { for j in 0..i { assert!(m[i] != m[j], "a name occurs twice: {:?}", m); } }
}
''', 'insert batches that are a multiple of the data gauge but cross a name boundary in the middle of the batch', 'the next batch reuses the name of an archive point that is still in the collection')

eplant('c17-finish-namespace', [('eval/src/actions.rs', '''	fn compute(&mut self, data: &D, rng: &mut StdRng) -> (Vec<Duration>,O) {
		let (time,run) = ns(self.name.clone(), ||{
			data.comp_fold_meta(self.init.clone(), self.run.clone(), self.run_meta.clone(), rng)
		});
		let finish = ns(name_fork(self.name.clone()).0,||{(
			self.finish)(run)
		});
		let mut v = Vec::new();
		v.push(time);
		(v,finish)
''', '''	fn compute(&mut self, data: &D, rng: &mut StdRng) -> (Vec<Duration>,O) {
		// the last stage belongs to the same computation
		ns(self.name.clone(), ||{
			let (time,run) = data.comp_fold_meta(self.init.clone(), self.run.clone(), self.run_meta.clone(), rng);
			let finish = (self.finish)(run);
			let mut v = Vec::new();
			v.push(time);
			(v,finish)
		})
''')], r'''
use iodyn::archive_stack::{AStack as IAStack, AtTail};
use iodyn::memo::MemoFrom;
use iodyn::IRazTree;
fn main() {
  manage::init_dcg();
  let mut r = rng(5);
  let (_, e) = <IR as CreateInc<StdRng>>::inc_init(24, 2, 1, &rng(1), &mut r);
  let mut c = MFolder::new(name_of_string("rev".into()), IAStack::<usize,u32>::new(),
    |mut a: IAStack<usize,u32>, x: &usize| { a.push(*x); a },
    |mut a: IAStack<usize,u32>, (l, n): (u32, Option<Name>)| { IAStack::archive(&mut a, n, l); a },
    |a: IAStack<usize,u32>| IRazTree::memo_from(&AtTail(a)));
  let (_, t): (Vec<Duration>, IRazTree<usize>) = c.compute(&e, &mut r);
  assert_eq!(t.meta().0, 24);
}
''', 'a folding computation whose last stage uses the names of the archive points (as conversions do)', 'the last stage shares the namespace of the traversal, so their cells and computations collide')

V = open('/repo/eval/src/accum_lists.rs').read()
rv = V[V.index("impl<T:Adapt> IFaceSeq<T> for RcVecList<T>"):V.index("impl<T:Adapt> IFaceArchive<(u32,Option<Name>)> for RcVecList")]
eplant('c17-accum-refill', [('eval/src/accum_lists.rs', rv, rv.replace('''			_ => RcVecList::Cons(vec![val],Rc::new(self))
''', '''			// an empty marker needs no section of its own
			RcVecList::Name(_,ref bl) if match **bl { RcVecList::Art(ref al) => match *force(al) { RcVecList::Cons(ref v,_) => v.len() == 1, _ => false }, _ => false } => {
				let inner = match **bl { RcVecList::Art(ref al) => (*force(al)).clone(), _ => unreachable!() };
				match inner {
					RcVecList::Cons(_,tail) => RcVecList::Cons(vec![val],tail),
					_ => unreachable!()
				}
			},
			_ => RcVecList::Cons(vec![val],Rc::new(self))
'''))], r'''
fn main() {
  manage::init_dcg();
  let l: RcVecList<usize> = IFaceNew::new();
  let l = l.seq_push(1).archive((1, Some(name_of_usize(1)))).seq_push(2).archive((1, Some(name_of_usize(2)))).seq_push(3).seq_push(4);
  let (a, l) = l.seq_pop(); let (b, l) = l.seq_pop(); let (c, l) = l.seq_pop(); let (d, _) = l.seq_pop();
  assert_eq!((a, b, c, d), (Some(4), Some(3), Some(2), Some(1)));
}
''', 'a section of exactly one element followed by a named archive and another element, in the reference counted vector list', 'the element of the one-element section is lost')

eplant('c17-index-pick', [('eval/src/eval_raz_name_index.rs', '''				if self.counter % (self.namegauge*self.datagauge) == 0 {
					raz.archive_left(lev_iter.next().expect("lev_name"),name_iter.next().expect("name"));
				} else if self.counter % self.datagauge == 0 {
					raz.archive_left(lev_iter.next().expect("lev"),None);
				}
			}
			self.raztree = Some(raz.unfocus());
		});
		(focus_time+insert_time,self)''', '''				if self.counter % (self.namegauge*self.datagauge) == 0 {
					raz.archive_left(lev_iter.next().expect("lev_name"),name_iter.next().expect("name"));
				} else if self.counter % self.datagauge == 0 && lev_iter.len() > 1 {
					// keep a level for the next name
					raz.archive_left(lev_iter.next().expect("lev"),None);
				}
			}
			self.raztree = Some(raz.unfocus());
		});
		(focus_time+insert_time,self)''')], r'''
type IX = EvalRazNameIndex<usize, StdRng>;
fn main() {
  manage::init_dcg();
  let mut r = rng(5);
  let (_, mut e) = <IX as CreateInc<StdRng>>::inc_init(18, 3, 2, &rng(1), &mut r);
  for _ in 0..9 { e = e.insert(5, &mut r).1; }
  let (_, k) = ns(name_of_usize(77), || e.comp_fold_meta(0u64, Rc::new(|k: u64, _e: &usize| k), Rc::new(|k: u64, _m: (u32, Option<Name>)| k + 1), &mut r));
  // 12 + 18 elements, an archive point after every second one; some meet an archive point already there
  assert!(k >= 17, "{} archive points", k);
}
''', 'insert batches that cross one more section boundary than their size suggests', 'the archive point of that boundary is left out')

eplant('c17-median-span', [('eval/src/eval_iraz.rs', ins, ins.replace("		(focus_time+insert_time,self)		", "		(if batch_size > 1 {focus_time+insert_time} else {insert_time},self)		"))], r'''
fn main() { std::process::exit(demo()); }
#[derive(PartialEq, Eq, Hash, Debug)] struct Slow(usize);
thread_local!(static WAIT: std::cell::Cell<bool> = std::cell::Cell::new(false));
impl Clone for Slow { fn clone(&self) -> Slow { if WAIT.with(|w| w.get()) { std::thread::sleep(std::time::Duration::from_millis(3)); } Slow(self.0) } }
impl Rand for Slow { fn rand<R: Rng>(r: &mut R) -> Slow { WAIT.with(|w| w.set(false)); Slow(r.gen()) } }
fn demo() -> i32 {
  manage::init_dcg();
  let mut r = rng(5);
  let (_, e) = <EvalIRaz<Slow, StdRng> as CreateInc<StdRng>>::inc_init(40, 100, 1, &rng(1), &mut r);
  WAIT.with(|w| w.set(true));
  let t = std::time::Instant::now();
  let (d, _e) = e.insert(1, &mut r);
  let _ = t;
  // the elements right and left of the place are copied while focusing
  if d.num_milliseconds() >= 50 { 0 } else { println!("reported {} ms", d.num_milliseconds()); 1 }
}
''', 'single-element insertions', 'the reported duration leaves out the client code that runs while the place is found')
