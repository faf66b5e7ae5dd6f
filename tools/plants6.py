import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants1.py')).read().split("plant('c03")[0])

plant('c18-thread-source', 'C18', [('src/lib.rs', '''  level_tree::gen_branch_level(&mut rand::thread_rng())
''', '''  // a cheap generator per thread; levels need no secure source
  thread_local!(static SOURCE: std::cell::RefCell<rand::XorShiftRng> = std::cell::RefCell::new(rand::XorShiftRng::new_unseeded()));
  SOURCE.with(|s| level_tree::gen_branch_level(&mut *s.borrow_mut()))
''')], r'''
fn main() {
  let a: Vec<u32> = std::thread::spawn(|| (0..100).map(|_| iodyn::inc_level()).collect()).join().unwrap();
  let b: Vec<u32> = std::thread::spawn(|| (0..100).map(|_| iodyn::inc_level()).collect()).join().unwrap();
  assert_ne!(a, b);
}
''', 'two threads of a process that both generate levels', 'threads draw the same levels')

plant('c18-tall', 'C18', [('src/level_tree.rs', '''	let num = rng.gen::<u64>();
	(num << 1).trailing_zeros() as u32
}''', '''	// keep clear of the topmost levels, which joins reserve
	let num = rng.gen::<u64>() | 1 << 11;
	(num << 1).trailing_zeros() as u32
}''')], r'''
use rand::{SeedableRng, XorShiftRng};
fn main() {
  let mut r = XorShiftRng::from_seed([1, 2, 3, 4]);
  let high = (0..4_000_000).filter(|_| iodyn::level_tree::gen_branch_level(&mut r) > 12).count();
  // expected: 977
  assert!(high > 700 && high < 1300, "{}", high);
}
''', 'enough draws (or a collection large enough) for levels above 12 to matter', 'levels above 12 never come, so that very large trees degenerate')

plant('c18-meta-walk', 'C18', [('src/raz.rs', '''		Some(t) => match t.peek() {
			TreeData::Dummy => unreachable!(),
			TreeData::Leaf(vec) => M::from_vec(&*vec,0,None),
			TreeData::Branch(l,r) => M::from_meta(&l,&r,0,None),
		}
	}
}
''', '''		// the data of the branches may lag behind, so work from the leaves
		Some(t) => whole_meta(t,0,None)
	}
}
fn whole_meta<E,M>(t: &tree::Tree<TreeData<E,M>>, level: u32, name: Option<Name>) -> M where
	E:Debug+Clone+Eq+Hash+'static,
	M:RazMeta<E>
{
	match (t.peek(), t.l_tree(), t.r_tree()) {
		(TreeData::Leaf(vec),_,_) => M::from_vec(&*vec,level,name),
		(_,Some(l),Some(r)) => {
			let (l,r) = (whole_meta(&l,t.level(),t.name()), whole_meta(&r,t.level(),t.name()));
			M::from_meta(&l,&r,level,name)
		},
		(_,Some(o),None) | (_,None,Some(o)) => whole_meta(&o,level,name),
		_ => M::from_none(level,name),
	}
}
''')], r'''
use std::cell::Cell;
use iodyn::raz_meta::{Navigation,FirstLast};
thread_local!(static CALLS: Cell<usize> = Cell::new(0));
#[derive(Clone,Debug,PartialEq,Eq,Hash)] struct C(usize);
fn tick() { CALLS.with(|c| c.set(c.get() + 1)) }
impl RazMeta<usize> for C {
  type Index = usize;
  fn from_none(_:u32,_:Option<Name>) -> Self { tick(); C(0) }
  fn from_vec(v:&Vec<usize>,_:u32,_:Option<Name>) -> Self { tick(); C(v.len()) }
  fn from_meta(l:&Self,r:&Self,_:u32,_:Option<Name>) -> Self { tick(); C(l.0 + r.0) }
  fn navigate(l:&Self,r:&Self,i:&usize) -> Navigation<usize> { if *i > l.0 + r.0 { Navigation::Nowhere } else if *i < l.0 { Navigation::Left(*i) } else { Navigation::Right(*i - l.0) } }
  fn split_vec<'a>(v:&'a Vec<usize>,i:&usize) -> (&'a [usize],&'a [usize]) { v.split_at(*i) }
}
fn main() {
  let mut z: Raz<usize,C> = Raz::new();
  for i in 1..2000usize { z.push_left(i); z.archive_left(i.trailing_zeros() + 1, n(i)); }
  z.push_left(0);
  let t = z.unfocus();
  CALLS.with(|c| c.set(0));
  let mut z = t.focus(1000usize).unwrap();
  z.push_left(7);
  let t = z.unfocus();
  assert_eq!(t.meta().0, 2001);
  assert!(CALLS.with(|c| c.get()) < 200, "{}", CALLS.with(|c| c.get()));
}
''', 'a tree of more than a few hundred archive points whose metadata is counted', 'every unfocus computes the metadata of the whole tree anew')

plant('c07-archive-count', 'C07', [('src/archive_stack.rs', '''	archived: Stack<(M,Vec<E>)>,
}
''', '''	archived: Stack<(M,Vec<E>)>,
	// number of archived vectors, so that emptiness needs no pointer
	sections: u8,
}
'''), ('src/archive_stack.rs', '''			current: Vec::new(),
			archived: Stack::new(),
''', '''			current: Vec::new(),
			archived: Stack::new(),
			sections: 0,
'''), ('src/archive_stack.rs', '''			current: Vec::with_capacity(capacity),
			archived: Stack::new(),
''', '''			current: Vec::with_capacity(capacity),
			archived: Stack::new(),
			sections: 0,
'''), ('src/archive_stack.rs', '''			current: v,
			archived: Stack::new(),
''', '''			current: v,
			archived: Stack::new(),
			sections: 0,
'''), ('src/archive_stack.rs', '''self.current.len() == 0  && self.archived.is_empty()}''', '''self.current.len() == 0  && self.sections == 0 }'''),
 ('src/archive_stack.rs', '''			self.archived = self.archived.pull().unwrap();
			return Some((old_vec, Some(old_meta)));''', '''			self.archived = self.archived.pull().unwrap();
			self.sections = self.sections.wrapping_sub(1);
			return Some((old_vec, Some(old_meta)));'''),
 ('src/archive_stack.rs', '''		self.archived = self.archived.push(name,(meta, old_vec));
''', '''		self.archived = self.archived.push(name,(meta, old_vec));
		self.sections = self.sections.wrapping_add(1);
'''),
 ('src/archive_stack.rs', '''	    self.archived = self.archived.pull().unwrap();
	    Some(meta)''', '''	    self.archived = self.archived.pull().unwrap();
	    self.sections = self.sections.wrapping_sub(1);
	    Some(meta)''')], r'''
fn main() {
  let mut s: AStack<usize,u32> = AStack::new();
  for i in 0..256 { s.push(i); s.archive(n(i), 1); }
  assert!(!s.is_empty());
  assert_eq!(s.pop(), Some(255));
}
''', 'exactly 256 archived sections and an empty active one', 'the stack says it is empty')

plant('c11-counter-wrap', 'C11', [('src/skiplist.rs', '''                                name_of_usize(self.cntr)), ''', '''                                name_of_usize(self.cntr & 0xff)), ''')], r'''
fn main() {
  manage::init_dcg();
  let mut m: Skiplist<usize,usize> = FinMap::emp(16, name_of_usize(1));
  for i in 0..600 { m.put(i, i); }
  for i in 0..600 { assert_eq!(m.get(i), Some(i)); }
}
''', 'more than 255 changes of a map under one archive name', 'entries disappear or lookups do not end')

plant('c14-head-eq', 'C14', [('src/stack.rs', '''#[derive(Debug,PartialEq,Eq,Clone,Hash)]
pub struct Head<T''', '''#[derive(Debug,Eq,Clone)]
pub struct Head<T'''), ('src/stack.rs', '''#[derive(Debug,PartialEq,Eq,Clone,Hash)]
struct Body<T''', '''// names identify lists, so only nameless ones need a look at the data
impl<T:'static+Debug+Clone+Eq+Hash> PartialEq for Head<T> {
	fn eq(&self, other: &Self) -> bool {
		self.name == other.name && (self.name.is_some() || self.main == other.main)
	}
}
impl<T:'static+Debug+Clone+Eq+Hash> ::std::hash::Hash for Head<T> {
	fn hash<H: ::std::hash::Hasher>(&self, h: &mut H) {
		self.name.hash(h);
		if self.name.is_none() { self.main.hash(h) }
	}
}
#[derive(Debug,PartialEq,Eq,Clone,Hash)]
struct Body<T''')], r'''
#[macro_use] extern crate adapton;
use adapton::macros::*;
fn total(s: Stack<usize>) -> usize { s.iter().sum() }
fn run(s: &Stack<usize>) -> usize { let s = s.clone(); ns(name_of_usize(77), || memo!(name_of_usize(5) =>> total, s: s)) }
fn main() {
  manage::init_dcg();
  let a = ns(name_of_usize(1), || Stack::new().push(n(1), 1).push(n(2), 2));
  let b = ns(name_of_usize(2), || Stack::new().push(n(1), 10).push(n(2), 20));
  assert_eq!(run(&a), 3);
  assert_eq!(run(&b), 30);
}
''', 'one computation repeated over lists of two namespaces whose heads have equal names', 'the computation answers for the list of the other namespace')

plant('c02-level-eq', 'C02', [('src/level_tree.rs', '''#[derive(Debug,PartialEq,Eq,Hash)]
pub struct Tree<E''', '''#[derive(Debug,Eq)]
pub struct Tree<E'''), ('src/level_tree.rs', '''#[derive(Debug,PartialEq,Eq,Clone,Hash)]
struct TreeNode<E''', '''// the level shows in the structure already
impl<E: 'static+Debug+Clone+Eq+Hash> PartialEq for Tree<E> {
	fn eq(&self, other: &Self) -> bool { self.name == other.name && self.link == other.link }
}
impl<E: 'static+Debug+Clone+Eq+Hash> Hash for Tree<E> {
	fn hash<H: ::std::hash::Hasher>(&self, h: &mut H) { self.name.hash(h); self.link.hash(h) }
}
#[derive(Debug,PartialEq,Eq,Clone,Hash)]
struct TreeNode<E''')], r'''
fn main() {
  manage::init_dcg();
  let show = |t: &RazTree<usize,Count>| { let t = t.clone(); ns(name_of_usize(9), || t.fold_up_gauged(Rc::new(|v:&Vec<usize>|format!("{:?}",v)), Rc::new(|l:String,lv,_n,r:String|format!("({} {} {})",l,lv,r))).unwrap()) };
  let mut z: Raz<usize,Count> = Raz::new();
  z.push_left(1); z.archive_left(9, n(1)); z.push_left(2); z.archive_left(3, n(2)); z.push_left(3);
  let t = z.unfocus();
  assert_eq!(show(&t), "([1] 9 ([2] 3 [3]))");
  // the same sections, the inner archive point a level higher
  let mut z = t.focus(3usize).unwrap();
  assert_eq!(z.pop_left(), Some(3));
  assert_eq!(z.pop_left(), Some(2));
  z.push_left(2); z.archive_left(4, n(2)); z.push_left(3);
  let t = z.unfocus();
  assert_eq!(show(&t), "([1] 9 ([2] 4 [3]))");
}
''', 'an archive point removed and put back in its place under the same name with another level', 'the tree and computations over it keep the old level')

plant('c10-good-depth', 'C10', [('src/level_tree.rs', '''pub fn good_levels<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>) -> bool {
	let mut good = true;''', '''pub fn good_levels<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>) -> bool { good_levels_to(tree, 32) }
// levels are at most 32 apart, so nothing below that depth can be out of order
fn good_levels_to<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>, depth: usize) -> bool {
	if depth == 0 { return true }
	let mut good = true;'''), ('src/level_tree.rs', '''			good = false;
		}
		if !good_levels(t) { good = false }
	}
	if let Some(ref t) = force(&tree.link).r_branch {''', '''			good = false;
		}
		if !good_levels_to(t, depth - 1) { good = false }
	}
	if let Some(ref t) = force(&tree.link).r_branch {'''), ('src/level_tree.rs', '''			good = false;
		}
		if !good_levels(t) { good = false }
	}
	good''', '''			good = false;
		}
		if !good_levels_to(t, depth - 1) { good = false }
	}
	good''')], r'''
fn main() {
  let mut t = Tree::new(5, None, 0, None, Tree::new(7, None, 1, None, None)).unwrap();
  assert!(!good_levels(&t));
  for i in 0..60 { t = Tree::new(8 + i, None, 2, Some(t), None).unwrap(); }
  assert!(!good_levels(&t));
}
''', 'a level out of order more than 32 branches down', 'good_levels accepts a tree out of order')

plant('c09-signed-up', 'C09', [('src/tree_cursor.rs', '''			(Some(&(_,ref lt)), Some(&(_,ref rt))) if rt.level() > lt.level() => true,
			_ => false,
		};
		if to_left {
			if let Some((dirty, upper_tree)) = self.l_forest.pop() {
				if self.dirty''', '''			(Some(&(_,ref lt)), Some(&(_,ref rt))) if (rt.level() as i32 - lt.level() as i32) > 0 => true,
			_ => false,
		};
		if to_left {
			if let Some((dirty, upper_tree)) = self.l_forest.pop() {
				if self.dirty''')], r'''
impl DeriveTreeUpdate for D {}
#[derive(Clone,Debug,PartialEq,Eq,Hash)] struct D(usize);
fn main() {
  let lf = |v| Tree::new(1,None,D(v),None,None);
  let t = Tree::new(3_000_000_000,None,D(9), lf(2), Tree::new(7,None,D(7), lf(6), lf(8))).unwrap();
  let mut c = Cursor::from(t);
  assert!(c.down_right()); assert!(c.down_left());
  assert!(c.up() == UpResult::Right);
  assert_eq!(c.peek(), Some(D(7)));
}
''', 'levels of 2^31 and more above smaller ones on the other side of the cursor', 'up goes to the wrong ancestor')
