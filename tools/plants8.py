import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants3.py')).read().split("eplant('c17-gauge-restart'")[0])
PLANTS[:] = []

plant('c13-peek-cache', 'C13', [('src/stack.rs', '''	/// return the head element
	pub fn peek(&self) -> T {
		force(&self.main).elem
	}
''', '''	/// return the head element
	pub fn peek(&self) -> T {
		// the element at a named place is often asked for again and again
		match self.name {
			None => force(&self.main).elem,
			Some(_) => LAST_PEEK.with(|c| {
				let mut c = c.borrow_mut();
				if let Some(h) = c.as_ref().and_then(|b| b.downcast_ref::<(Art<Body<T>>,T)>()) {
					if h.0 == self.main { return h.1.clone() }
				}
				let e = force(&self.main).elem;
				*c = Some(Box::new((self.main.clone(),e.clone())));
				e
			}),
		}
	}
'''), ('src/stack.rs', '''/// Common linked-list
''', '''thread_local!(static LAST_PEEK: ::std::cell::RefCell<Option<Box<dyn (::std::any::Any)>>> = ::std::cell::RefCell::new(None));

/// Common linked-list
''')], r'''
use iodyn::stack::*;
fn main() {
  manage::init_dcg();
  let a = Stack::new().push(n(1), 1usize);
  assert_eq!(a.peek(), Some(1));
  manage::init_dcg();
  let b = Stack::new().push(n(1), 2usize);
  assert_eq!(b.peek(), Some(2));
}
'''.replace('manage::init_dcg();', 'adapton::engine::manage::init_dcg();'), 'a named list whose head is read last before a restart of the engine and first after it, under the same name with another element', 'the list rebuilt after the restart answers with the element from before it')

plant('c15-convert-memo', 'C15', [('src/raz.rs', '''	// we build this tree right to left
	// note that the left branch _cannot_ have
	// the same level as its parent
	// while the right branch can.
	fn memo_from(tailstack: &stack::AtTail<E,u32>) -> Self {
		// memoize from_stack
		fn from_stack_memo<E: Debug+Clone+Eq+Hash+'static,M:RazMeta<E>>(
			s:stack::AStack<E,u32>, l:u32, n:Option<Name>, t: Tree<TreeData<E,M>>, m:u32
		) -> (stack::AStack<E,u32>, Option<u32>, Option<Name>, Tree<TreeData<E,M>>) {
			match n.clone() {
				None => return from_stack(s,l,n,t,m),
''', '''	// we build this tree right to left
	// note that the left branch _cannot_ have
	// the same level as its parent
	// while the right branch can.
	fn memo_from(tailstack: &stack::AtTail<E,u32>) -> Self {
		// memoize from_stack
		fn from_stack_memo<E: Debug+Clone+Eq+Hash+'static,M:RazMeta<E>>(
			s:stack::AStack<E,u32>, l:u32, n:Option<Name>, t: Tree<TreeData<E,M>>, m:u32
		) -> (stack::AStack<E,u32>, Option<u32>, Option<Name>, Tree<TreeData<E,M>>) {
			match n.clone() {
				None => return from_stack(s,l,n,t,m),
				// a branch directly below its parent is cheaper to build than to look up
				Some(_) if l + 1 == m => return from_stack(s,l,n,t,m),
''')], r'''
use iodyn::archive_stack::*;
use iodyn::raz_meta::*;
use iodyn::memo::*;
use std::cell::Cell;
thread_local!(static CALLS: Cell<usize> = Cell::new(0));
#[derive(Debug,Clone,PartialEq,Eq,Hash)]
struct M(usize);
impl RazMeta<usize> for M {
  type Index = usize;
  fn from_none(_l: u32, _n: Option<Name>) -> Self { M(0) }
  fn from_vec(v: &Vec<usize>, _l: u32, _n: Option<Name>) -> Self { CALLS.with(|c| c.set(c.get() + 1)); M(v.len()) }
  fn from_meta(l: &Self, r: &Self, _l: u32, _n: Option<Name>) -> Self { M(l.0 + r.0) }
  fn split_vec<'a>(v: &'a Vec<usize>, i: &usize) -> (&'a [usize], &'a [usize]) { v.split_at(*i) }
  fn navigate(l: &Self, _r: &Self, i: &usize) -> Navigation<usize> { if *i <= l.0 { Navigation::Left(*i) } else { Navigation::Right(*i - l.0) } }
}
fn main() {
  adapton::engine::manage::init_dcg();
  let k = 24;
  let mut s: AStack<usize,u32> = AStack::new();
  // levels rise towards the tail, one by one
  for i in 0..k { s.push(i); s.archive(n(i), (i + 1) as u32); }
  s.push(100);
  let t: RazTree<usize,M> = ns(name_of_usize(900), || RazTree::memo_from(&AtTail(s.clone())));
  assert_eq!(t.meta().0, k + 1);
  let first = CALLS.with(|c| c.replace(0));
  s.push(101);
  let t: RazTree<usize,M> = ns(name_of_usize(900), || RazTree::memo_from(&AtTail(s)));
  assert_eq!(t.meta().0, k + 2);
  let again = CALLS.with(|c| c.get());
  assert!(again < 6, "{} calls, then {} after a push", first, again);
}
''', 'a stack with named archive points whose levels follow each other, converted again after a push', 'nothing below such a branch is memoised: sections that did not change are converted again')

plant('c10-fold-out-accum', 'C10', [('src/tree_cursor.rs', '''					Some(n) => {
						let (n,_) = name_fork(n);
						let i = self;
						memo!( n =>> Self::fold_out , i:i, a:a ;; f:bin.clone())
					}
''', '''					Some(n) => {
						let (n,_) = name_fork(n);
						let i = self;
						// the part to the right is told apart by what is there
						fn rest<T,R,B>(i: IterR<T>, a: Rc<R>, f: Rc<B>) -> R where
							T: TreeUpdate+Debug+Clone+Eq+Hash+'static,
							R: 'static + Eq+Clone+Hash+Debug,
							B: 'static + Fn(R,T) -> R
						{ i.fold_out((*a).clone(),f) }
						memo!( n =>> rest , i:i ;; a:Rc::new(a), f:bin.clone())
					}
''')], r'''
use iodyn::level_tree::*;
use iodyn::tree_cursor::*;
#[derive(Clone,Debug,Eq,PartialEq,Hash)] struct D(usize);
impl DeriveTreeUpdate for D {}
fn main() {
  adapton::engine::manage::init_dcg();
  let leaf = |i| Tree::new(0, None, D(i), None, None);
  let build = |first: usize| Tree::new(3, n(3), D(1), Tree::new(2, n(2), D(first), leaf(10), leaf(11)), leaf(20)).unwrap();
  let sum = |t: Tree<D>| ns(name_of_usize(9), || {
    let mut c: Cursor<D> = Cursor::from(t);
    while c.down_left() {}
    let (_, _, it) = c.into_iters();
    it.fold_out(0usize, Rc::new(|a: usize, e: D| a * 100 + e.0))
  });
  assert_eq!(sum(build(5)), 5110120);
  assert_eq!(sum(build(5)), 5110120);
  // the element that changes is behind the iterator when the rest is computed
  assert_eq!(sum(build(6)), 6110120);
}
''', 'an outward fold repeated after a change to a node it has passed when it comes to a named one', 'the memoised remainder answers with the accumulator of the earlier run')

plant('c07-name-kept', 'C07', [('src/archive_stack.rs', '''			let (meta,v) = self.archived.peek().unwrap();
	    self.current = v;
	    self.archived = self.archived.pull().unwrap();
	    Some(meta)
''', '''			let (meta,v) = self.archived.peek().unwrap();
			// the last element of an archive closes it
			if v.len() == 1 && self.archived.name().is_some() {
				let below = self.archived.pull().unwrap();
				if let Some((_,ref b)) = below.peek() {
					if b.len() == 1 && below.name().is_none() { self.archived = below.pull().unwrap().push(self.archived.name(),below.peek().unwrap()); }
					else { self.archived = below; }
				} else { self.archived = below; }
			} else { self.archived = self.archived.pull().unwrap(); }
	    self.current = v;
	    Some(meta)
''')], r'''
use iodyn::archive_stack::*;
fn main() {
  adapton::engine::manage::init_dcg();
  let mut s: AStack<usize,u32> = AStack::new();
  s.push(1); s.archive(None, 10);
  s.push(2); s.archive(n(2), 20);
  assert_eq!(s.pop(), Some(2));
  assert_eq!(s.name(), None);
  assert_eq!(s.pop_meta(), Some((1, Some(10))));
}
''', 'a named archive of one element over an unnamed one of one element, reopened by a pop', 'the name of the reopened archive passes to the one below it')

plant('c12-spare-buffer', 'C12', [('src/raz.rs', '''				match self.r_forest.peek() {
					Some(TreeData::Leaf(ref data)) => self.r_stack.extend_rev(&***data),
					_ => panic!("pop_right: no right tree leaf"),
				}
''', '''				match self.r_forest.peek() {
					Some(TreeData::Leaf(data)) => {
						// turn the section around in a buffer that is kept
						SPARE.with(|s| {
							let mut s = s.borrow_mut();
							if s.as_ref().map_or(true,|b|!b.is::<Vec<E>>()) { *s = Some(Box::new(Vec::<E>::new())); }
							let b = s.as_mut().unwrap().downcast_mut::<Vec<E>>().unwrap();
							for e in data.iter().rev() { b.push(e.clone()); }
							self.r_stack.extend(b);
							b.clear();
						})
					},
					_ => panic!("pop_right: no right tree leaf"),
				}
'''), ('src/raz.rs', '''const DEFAULT_SECTION_CAPACITY: usize = 500;
''', '''const DEFAULT_SECTION_CAPACITY: usize = 500;

thread_local!(static SPARE: ::std::cell::RefCell<Option<Box<dyn (::std::any::Any)>>> = ::std::cell::RefCell::new(None));
''')], r'''
use std::cell::Cell;
use std::panic::*;
thread_local!(static FUSE: Cell<i64> = Cell::new(-1));
#[derive(Debug,PartialEq,Eq,Hash)] struct E(usize);
impl Clone for E { fn clone(&self) -> E { FUSE.with(|f| { let v = f.get(); if v >= 0 { f.set(v - 1); if v == 0 { panic!("fuse") } } }); E(self.0) } }
fn doc() -> Raz<E,Count> {
  let mut z: Raz<E,Count> = Raz::new();
  for i in 0..4 { z.push_left(E(i)); }
  z.archive_left(1, None);
  for i in 4..8 { z.push_left(E(i)); }
  let mut z = z.unfocus().focus(4usize).unwrap();
  // clear the right of the cursor within its section, so that a pop opens the next one
  while z.peek_right().map_or(false, |e| e.0 < 4) { z.pop_right(); }
  z
}
fn main() {
  adapton::engine::manage::init_naive();
  let mut a = doc();
  let mut b = a.clone();
  FUSE.with(|f| f.set(2));
  let r = catch_unwind(AssertUnwindSafe(|| a.pop_right()));
  FUSE.with(|f| f.set(-1));
  assert!(r.is_err());
  let mut got = vec![];
  while let Some(e) = b.pop_right() { got.push(e.0); }
  assert_eq!(got, vec![4,5,6,7]);
}
''', 'an element clone that fails while a pop to the right opens a section, then such a pop elsewhere', 'elements of the interrupted pop appear in another zipper')

plant('c12-nested-scratch', 'C12', [('src/raz.rs', '''					TreeData::Leaf(ref vec) => {
						let mut iter = vec.iter().map(|elm|init(elm));
						let first = iter.next().expect("leaf with empty vec");
						// eta expansion so that bin is moved into the FnMut
						// and *bin is moved into the FnOnce
						iter.fold(first, |x,y|{ (*bin)(x,y) })
					},
					_ => { match (l,r) {
						(None, None) => panic!("branch with no data"),
						(Some(r),None) | (None, Some(r)) => r,
						(Some(lr),Some(rr)) => binnl(lr,lv,n,rr),
					}},
''', '''					TreeData::Leaf(ref vec) => {
						// remember how far the section is done, to keep the fold a plain loop
						let start = DONE.with(|d| d.replace(0));
						let mut first = init(&vec[0]);
						DONE.with(|d| d.set(1));
						while DONE.with(|d| d.get()) < vec.len() {
							let i = DONE.with(|d| d.get());
							let next = init(&vec[i]);
							first = (*bin)(first,next);
							DONE.with(|d| d.set(d.get() + 1));
						}
						DONE.with(|d| d.set(if start > 0 { start } else { 0 }));
						first
					},
					_ => { match (l,r) {
						(None, None) => panic!("branch with no data"),
						(Some(r),None) | (None, Some(r)) => r,
						(Some(lr),Some(rr)) => {
							let done = DONE.with(|d| d.get());
							let r = binnl(lr,lv,n,rr);
							if done == 0 { DONE.with(|d| d.set(0)); }
							r
						},
					}},
'''), ('src/raz.rs', '''const DEFAULT_SECTION_CAPACITY: usize = 500;
''', '''const DEFAULT_SECTION_CAPACITY: usize = 500;

thread_local!(static DONE: ::std::cell::Cell<usize> = ::std::cell::Cell::new(0));
''')], r'''
fn main() {
  // an inner fold that fails leaves the mark of the outer one wrong
  adapton::engine::manage::init_naive();
  let mk = |lo: usize, hi: usize| RazTree::<usize,Count>::from_vec((lo..hi).collect()).unwrap();
  let outer = mk(0, 6);
  let inner = mk(0, 3);
  let s = outer.fold_up_nl(Rc::new(move |e: &usize| {
      let k = *e;
      let inner = inner.clone();
      let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || inner.fold_up_nl(Rc::new(move |x: &usize| { if k == 4 && *x == 1 { panic!("no") } *x }), Rc::new(|a, b| a + b), Rc::new(|a, _l, _n, b| a + b))));
      *e }),
    Rc::new(|a, b| a + b), Rc::new(|a, _l, _n, b| a + b)).unwrap();
  assert_eq!(s, 15);
}
''', 'a fold inside the client function of another fold that fails part-way and is caught there', 'the outer fold goes back to the place where the inner one stopped')
