import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants1.py')).read().split("plant('c03")[0])

plant('c01-long-leaf', 'C01', [('src/raz.rs', '''Some(TreeData::Leaf(ref data)) => self.l_stack.extend(&***data),''', '''Some(TreeData::Leaf(ref data)) => {
						// a section is loaded into a buffer of the default capacity
						let from = if data.len() > DEFAULT_SECTION_CAPACITY { data.len() - DEFAULT_SECTION_CAPACITY } else { 0 };
						self.l_stack.extend(&data[from..])
					},''')], r'''
fn main() {
  let mut z: Raz<usize,Count> = Raz::new();
  for i in 0..700 { z.push_left(i); }
  z.archive_left(3, n(1));
  for i in 0..3 { z.push_left(1000 + i); }
  let mut z = z.unfocus().focus(702usize).unwrap();
  let mut got = vec![];
  while let Some(e) = z.pop_left() { got.push(e); }
  assert_eq!(got.len(), 702);
}
''', 'a section of more than 500 elements reached by popping across its archive point', 'the oldest elements of a long section are lost when it is opened by a pop')

plant('c09-discard-dirty', 'C09', [('src/tree_cursor.rs', '''		if to_left {
			if let Some((dirty, upper_tree)) = self.l_forest.pop() {
				self.dirty = dirty;''', '''		if to_left {
			if let Some((dirty, upper_tree)) = self.l_forest.pop() {
				self.dirty = dirty || (self.dirty && self.tree.is_none());''')], r'''
use std::cell::Cell;
thread_local!(static CALLS: Cell<usize> = Cell::new(0));
#[derive(Clone,Debug,PartialEq,Eq,Hash)] struct D(usize);
impl TreeUpdate for D { fn rebuild(l: Option<&Self>, old: &Self, _: u32, _: Option<Name>, r: Option<&Self>) -> Self { CALLS.with(|c| c.set(c.get() + 1)); D(old.0) } }
fn main() {
  let lf = |v| Tree::new(1,None,D(v),None,None);
  let t = Tree::new(9,None,D(9), lf(6), lf(10)).unwrap();
  let t = Tree::new(12,None,D(12), None, Some(t)).unwrap();
  let mut c = Cursor::from(t);
  assert!(c.down_right()); assert!(c.down_right());
  assert!(c.down_right_force(Force::Discard)); // throw the leaf away ...
  assert!(c.up_discard() == UpResult::Left);   // ... and change our mind
  while c.up() != UpResult::Fail {}
  assert_eq!(CALLS.with(|c| c.get()), 0, "nothing was changed, nothing may be rebuilt");
}
''', 'a branch discarded down to nothing, the change abandoned with up_discard, then a move up', 'nodes are rebuilt although nothing under them changed')

plant('c12-ext-take', 'C12', [('src/skiplist.rs', '''        let old_kvs = match self.head {
            None => None,
            Some(ref path) =>
                build_path_rec(self.path_len, k_hash.clone(), path, &mut cur),
        };
        let mut new_kvs''', '''        let old_kvs = match self.head.take() {
            None => None,
            Some(ref path) =>
                build_path_rec(self.path_len, k_hash.clone(), path, &mut cur),
        };
        let mut new_kvs''')], r'''
use std::cell::Cell;
thread_local!(static ARMED: Cell<bool> = Cell::new(false));
#[derive(Debug,Clone,Hash)] struct K(usize);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { if ARMED.with(|a| a.get()) { panic!("client eq") } self.0 == o.0 } }
impl Eq for K {}
fn main() {
  let mut m: Skiplist<K,usize> = FinMap::emp(1, name_of_usize(1));
  for i in 0..6 { m.put(K(i), i * 10); }
  ARMED.with(|a| a.set(true));
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.put(K(3), 999)));
  ARMED.with(|a| a.set(false));
  assert!(r.is_err());
  for i in 0..6 { let g = m.get(K(i)); assert!(g == Some(i * 10) || (i == 3 && g == Some(999)), "{} -> {:?}", i, g); }
}
''', "a key's equality failing while an insertion compares it with the keys that share its hash", 'the map has lost everything after the failed insertion')

plant('c11-same-value', 'C11', [('src/skiplist.rs', '''        self.cntr += 1;
        return opv_old.unwrap_or(None);''', '''        // storing what is there already needs no new cell name
        if opv_old.is_none() || opv_old.as_ref() != Some(&opv_new) { self.cntr += 1; }
        return opv_old.unwrap_or(None);'''), ('src/skiplist.rs', '''        let mut cur = Cursor::new();
        let old_kvs''', '''        let mut cur = Cursor::new();
        let opv_new = opv.clone();
        let old_kvs''')], r'''
fn main() {
  manage::init_dcg();
  let mut m: Skiplist<usize,usize> = FinMap::emp(6, name_of_usize(1));
  for i in 0..20 { m.put(i, i); }
  let c = m.clone();
  m.put(7, 7);
  assert_eq!(m.get(7), Some(7));
  let old = m.clone();
  m.put(3, 33); m.put(4, 44);
  assert_eq!(old.get(3), Some(3), "an older version changed");
  for i in 0..20 { assert_eq!(c.get(i), Some(i)); assert_eq!(m.get(i), Some(if i == 3 { 33 } else if i == 4 { 44 } else { i })); }
}
''', 'storing the value a key already has, then further insertions, with the incremental engine', 'the next insertion overwrites the cell of the current version')

plant('c14-cons-cache', 'C14', [('src/stack.rs', '''		Some(nm) => Head{
			name: Some(nm.clone()),
			main: cell(nm, Body{
				elem: elem,
				next: tail,
			})
		}''', '''		Some(nm) => {
			// the same push twice in a row shares its cell
			let body = Body{
				elem: elem,
				next: tail,
			};
			let seen = LAST.with(|l| match *l.borrow() {
				Some(ref b) => match b.downcast_ref::<(Name,Body<T>,Head<T>)>() {
					Some(&(ref n,ref b,ref h)) if *n == nm && *b == body => Some(h.clone()),
					_ => None,
				},
				None => None,
			});
			if let Some(h) = seen { return h }
			let head = Head{
				name: Some(nm.clone()),
				main: cell(nm.clone(), body.clone())
			};
			LAST.with(|l| *l.borrow_mut() = Some(Box::new((nm,body,head.clone()))));
			head
		}'''), ('src/stack.rs', '''fn push_onto<T>(''', '''thread_local!(static LAST: RefCell<Option<Box<Any>>> = RefCell::new(None));

fn push_onto<T>('''), ('src/stack.rs', '''use std::hash::Hash;
''', '''use std::hash::Hash;
use std::any::Any;
use std::cell::RefCell;
''')], r'''
fn main() {
  manage::init_dcg();
  let (p, q) = (name_of_usize(100), name_of_usize(200));
  let a = ns(p.clone(), || Stack::new().push(n(1), 5usize));
  let b = ns(q, || Stack::new().push(n(1), 5usize));
  // the first namespace moves on and reuses its name
  let a2 = ns(p, || Stack::new().push(n(1), 6usize));
  assert_eq!(a2.peek(), Some(6));
  assert_eq!(b.peek(), Some(5));
}
''', 'the same first push made in two namespaces one after the other, then the name reused in one of them', 'the list in the second namespace lives in the cell of the first')

plant('c15-leaf-direct', 'C15', [('src/level_tree.rs', '''						l_branch.map(|t| memo!( n1 =>> Self::fold_up_meta , t:t ;; f:node_calc.clone() )),
						r_branch.map(|t| memo!( n2 =>> Self::fold_up_meta , t:t ;; f:node_calc.clone() )),
''', '''						l_branch.map(|t| memo!( n1 =>> Self::fold_up_meta , t:t ;; f:node_calc.clone() )),
						// branches without a name end here, they are cheap to compute
						r_branch.map(|t| if t.name.is_none() { t.fold_up_meta(node_calc.clone()) } else {
							memo!( n2 =>> Self::fold_up_meta , t:t ;; f:node_calc.clone() )
						}),
''')], r'''
use std::cell::Cell;
thread_local!(static CALLS: Cell<usize> = Cell::new(0));
fn main() {
  manage::init_dcg();
  // a spine of archive points with falling levels: every section is the right leaf of a node whose left part is the rest
  let build = |first: usize| ns(name_of_usize(500), || {
    let mut z: Raz<usize,Count> = Raz::new();
    for s in 0..12 { for e in 0..10 { z.push_left(if s == 0 && e == 0 { first } else { s * 100 + e }); } if s < 11 { z.archive_left(2 + s as u32, n(s + 1)); } }
    z.unfocus()
  });
  let sum = |t: RazTree<usize,Count>| { CALLS.with(|c| c.set(0)); let r = ns(name_of_usize(501), || t.fold_up(Rc::new(|e: &usize| { CALLS.with(|c| c.set(c.get() + 1)); *e }), Rc::new(|a, b| a + b))); (r, CALLS.with(|c| c.get())) };
  let (r1, c1) = sum(build(7));
  let (r2, c2) = sum(build(9));
  assert_eq!(r2.unwrap(), r1.unwrap() + 2);
  assert_eq!(c1, 120);
  assert!(c2 <= 30, "{} elements visited for a change of one section of ten", c2);
}
''', 'a change deep on the left of a tree whose right branches are single sections', 'sections that did not change are computed again, as many as the tree is deep')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants3.py')).read().split("S = open('/repo/eval/src/eval_iraz.rs')")[0].split("plants1.py')).read().split(\"plant('c03\")[0])\n",1)[1])

eplant('c17-build-rounding', [('eval/src/test_build.rs', '''		for i in 0..self.count {
			let size = self.multiplier.powi(i as i32) as usize;
''', '''		let mut size = 1;
		for i in 0..self.count {
			if i > 0 { size = (size as f32 * self.multiplier) as usize; }
''')], r'''
use eval::test_build::{BuildTest,TestResult};
use std::cell::RefCell;
thread_local!(static SIZES: RefCell<Vec<usize>> = RefCell::new(vec![]));
struct Probe;
impl CreateInc<StdRng> for Probe { fn inc_init(size: usize, _: usize, _: usize, _: &StdRng, _: &mut StdRng) -> (Duration, Self) { SIZES.with(|s| s.borrow_mut().push(size)); (Duration::zero(), Probe) } }
impl EditInsert for Probe { fn insert(self, _: usize, _: &mut StdRng) -> (Duration, Self) { (Duration::zero(), self) } }
fn main() {
  let mut t = BuildTest { init: IncrementalInit { size: 0, datagauge: 1, namegauge: 1, coord: rng(1) }, edit: BatchInsert(1), multiplier: 1.5f32, count: 8 };
  let _: TestResult<Probe> = Testor::<TestResult<Probe>>::test(&mut t, &mut rng(2));
  let want: Vec<usize> = (0..8).map(|i| 1.5f32.powi(i) as usize).collect();
  SIZES.with(|s| assert_eq!(*s.borrow(), want));
}
''', 'a build test whose multiplier is not a whole number', 'the sizes tested stop growing as asked')

eplant('c17-compose-times', [('eval/src/actions.rs', '''		let (duration,data) = (self.1).compute(&data,rng);
		times.extend(duration);
		(times,data)''', '''		let (duration,data) = (self.1).compute(&data,rng);
		// one entry for each stage
		for (i,d) in duration.into_iter().enumerate() {
			if i < times.len() || times.is_empty() { times.push(d) } else { let l = times.len()-1; times[l] = d; }
		}
		(times,data)''')], r'''
struct C(Vec<i64>);
impl Computor<(Vec<Duration>, usize), usize> for C { fn compute(&mut self, d: &usize, _: &mut StdRng) -> (Vec<Duration>, usize) { (self.0.iter().map(|x| Duration::seconds(*x)).collect(), *d) } }
fn main() {
  for (a, b) in vec![(vec![1], vec![2]), (vec![1], vec![2, 3, 4]), (vec![], vec![5, 6]), (vec![7, 8], vec![])] {
    let want: Vec<Duration> = a.iter().chain(b.iter()).map(|x| Duration::seconds(*x)).collect();
    let mut c = Compute2::<_, _, usize, usize, usize>::new(C(a), C(b));
    assert_eq!(c.compute(&0, &mut rng(1)).0, want);
  }
}
''', 'a composed computation whose second stage reports more durations than the first', 'durations of later stages overwrite each other')
