import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants1.py')).read().split("plant('c03")[0])

plant('c08-unnamed-derived', 'C08', [('src/stack.rs', '''		None => Head{
			name: None,
			main: put(Body{
				elem: elem,
				next: tail,
			})
		},''', '''		None => {
			// give the cell a stable identity when the tail has one
			let id = tail.as_ref().and_then(|t|t.name.clone());
			let body = Body{
				elem: elem,
				next: tail,
			};
			Head{
				name: None,
				main: match id {
					None => put(body),
					Some(nm) => cell(name_fork(nm).0, body),
				}
			}
		},''')], r'''
fn main() {
  manage::init_dcg();
  let base = Stack::new().push(n(1), 1usize);
  let a = base.push(None, 10);
  let b = base.push(None, 20);
  assert_eq!(b.iter().collect::<Vec<_>>(), vec![20,1]);
  assert_eq!(a.iter().collect::<Vec<_>>(), vec![10,1]);
}
''', 'two unnamed pushes onto the same named version of a list, with the incremental engine', 'pushing onto an older version overwrites the element of another version made from it')

plant('c14-level-cache', 'C14', [('src/raz.rs', '''use std::rc::Rc;

use std::fmt::Debug;
use std::hash::Hash;

use level_tree''', '''use std::rc::Rc;
use std::cell::RefCell;
use std::collections::HashMap;

use std::fmt::Debug;
use std::hash::Hash;

use level_tree'''), ('src/raz.rs', '''const DEFAULT_SECTION_CAPACITY: usize = 500;
''', '''const DEFAULT_SECTION_CAPACITY: usize = 500;

thread_local!(static START_LEVELS: RefCell<HashMap<Name,u32>> = RefCell::new(HashMap::new()));
/// level of the archive point a conversion starts from, stable for each name
fn start_level(name: &Option<Name>, level: u32) -> u32 {
	match *name {
		None => level,
		Some(ref n) => START_LEVELS.with(|s| *s.borrow_mut().entry(n.clone()).or_insert(level)),
	}
}
'''), ('src/raz.rs', '''			Some((vec,Some(level))) => (level,leaf(vec,None))
''', '''			Some((vec,Some(level))) => (start_level(&name,level),leaf(vec,None))
''')], r'''
fn build(lev:u32, tag:&str) -> Option<String> {
  ns(name_of_string(String::from(tag)), || {
    let mut s: AStack<usize,u32> = AStack::new();
    s.push(1); s.archive(n(1),3); s.push(2); s.archive(n(2),lev); s.push(3);
    let t: RazTree<usize,Count> = ns(name_of_string(String::from("conv")), || AtTail(s).memo_into());
    shape(&t)
  })
}
fn main() {
  manage::init_dcg();
  let alone = std::thread::spawn(|| { manage::init_dcg(); build(2,"b") }).join().unwrap();
  let _ = build(9,"a");
  assert_eq!(build(2,"b"), alone);
}
''', 'two namespaces that use the same name for the last archive point of a stack, with different levels, both converted to trees', 'the conversion in one namespace uses the level recorded in the other')

plant('c04-stale-level', 'C04', [('src/raz.rs', '''				let (v,lev) = self.l_stack.next_archive().unwrap();
				l_lev = lev;
				Some(v)''', '''				let (v,lev) = self.l_stack.next_archive().unwrap();
				l_lev = l_lev.or(lev);
				Some(v)''')], r'''
fn main() {
  let mut a: Raz<usize,Count> = Raz::new();
  a.push_left(1); a.archive_left(3,None); a.push_left(2);
  let a = a.unfocus();
  // the same sequence; the trailing archive point separates nothing
  let mut b: Raz<usize,Count> = Raz::new();
  b.push_left(1); b.archive_left(3,None); b.push_left(2); b.archive_left(8,None);
  let b = b.unfocus();
  assert_eq!(list(&a), list(&b));
  assert_eq!(shape(&a), shape(&b));
}
''', 'unfocusing right after archiving on the left, with an earlier archive point still in the zipper', 'the earlier archive point takes the level of the later one, so the shape depends on the history')

plant('c01-right-archive-order', 'C01', [('src/raz.rs', '''				let (mut v,lev) = self.r_stack.next_archive().unwrap();
				v.reverse();
				r_lev = lev;''', '''				let (mut v,lev) = self.r_stack.next_archive().unwrap();
				// sections of a right stack are stored back to front
				if lev.is_none() { v.reverse(); }
				r_lev = lev;''')], r'''
fn main() {
  let mut r: Raz<usize,Count> = Raz::new();
  for i in (0..6).rev() { r.push_right(i); if i % 2 == 0 { r.archive_right(1 + i as u32, None); } }
  assert_eq!(list(&r.unfocus()), (0..6).collect::<Vec<_>>());
}
''', 'unfocusing with nothing on the left of the cursor and at least two archived sections (none open) on the right', 'the section next to the cursor comes out reversed')

plant('c07-capacity', 'C07', [('src/archive_stack.rs', '''		let old_vec = mem::replace(&mut self.current, Vec::with_capacity(capacity));''', '''		// an explicitly sized stack keeps using its own allocation
		let old_vec = if capacity > 0 && self.current.capacity() >= capacity {
			let copy = self.current.clone();
			self.current.truncate(self.current.len().saturating_sub(capacity));
			copy
		} else { mem::replace(&mut self.current, Vec::with_capacity(capacity)) };''')], r'''
fn main() {
  let mut s: AStack<usize,u32> = AStack::with_capacity(4);
  for i in 0..7 { s.push(i); }
  s.archive_with_capacity(None, 1, 4);
  assert_eq!(s.active_len(), 0);
  let mut v = vec![]; while let Some(e) = s.pop() { v.push(e) }
  v.reverse(); assert_eq!(v, (0..7).collect::<Vec<_>>());
}
''', 'archive_with_capacity with a capacity smaller than the open section', 'elements of the archived section stay in the open one as well, so they are returned twice')

plant('c02-spurious-carried', 'C02', [('src/level_tree.rs', '''							Self::fold_lr_meta, t:t, n:carried_name, a:accum ;; f:node_calc.clone()
						)''', '''							Self::fold_lr_carried, t:t, a:accum ;; f:(carried_name, node_calc.clone())
						)'''), ('src/level_tree.rs', '''  /// incremental map operation
  ///''', '''	/// memoized step of `fold_lr_meta`; the carried name is configuration, not input
	fn fold_lr_carried<A,F>(self, accum: A, carried: (Option<Name>, Rc<F>)) -> A where
		A: 'static + Eq + Clone + Hash + Debug,
		F: 'static + Fn(A,E,u32,Option<Name>) -> A,
	{
		self.fold_lr_meta(carried.0, accum, carried.1)
	}

  /// incremental map operation
  ///''')], r'''
fn build(mid: usize) -> RazTree<usize,Names> {
  let mut r: Raz<usize,Names> = Raz::new();
  r.push_left(1); r.archive_left(9,n(mid)); r.push_left(2); r.archive_left(5,n(3)); r.push_left(3);
  r.unfocus()
}
fn names(t: &RazTree<usize,Names>) -> Vec<Option<Name>> {
  ns(name_of_string(String::from("arch")), || t.clone().fold_lr_archive(vec![], Rc::new(|v,_:&usize|v), Rc::new(|mut v:Vec<Option<Name>>,nm|{v.push(nm);v}), Rc::new(|v,_|v)))
}
fn main() {
  manage::init_dcg();
  // the left neighbour of a named point loses or changes its own name while the sequence stays the same
  let mk = |deep: Option<Name>| { let mut r: Raz<usize,Names> = Raz::new();
    r.push_left(1); r.archive_left(9,n(1)); r.push_left(2); r.archive_left(6,deep.clone()); r.push_left(3); r.archive_left(5,n(3)); r.push_left(4); r.archive_left(4,None); r.push_left(5); r.unfocus() };
  for d in vec![n(7), None, n(8), n(7), n(1000)] {
    let t = mk(d.clone());
    let got = names(&t);
    let d2 = d.clone();
    let fresh = ns(name_of_string(format!("fresh{:?}",d2)), || names(&t));
    assert_eq!(got, fresh);
  }
}
''', 'a fold that uses the name carried to each section, repeated after only the name of an archive point changed', 'the section to the right of the renamed point is reported under its previous name')

plant('c09-discard-tie', 'C09', [('src/tree_cursor.rs', '''	pub fn up_discard(&mut self) -> UpResult {
		let to_left = match (self.l_forest.last(), self.r_forest.last()) {
			(None, None) => { return UpResult::Fail },
			(Some(_), None) => true,
			(Some(&(_,ref lt)), Some(&(_,ref rt))) if rt.level() > lt.level() => true,''', '''	pub fn up_discard(&mut self) -> UpResult {
		let to_left = match (self.l_forest.last(), self.r_forest.last()) {
			(None, None) => { return UpResult::Fail },
			(Some(_), None) => true,
			(Some(&(_,ref lt)), Some(&(_,ref rt))) if rt.level() >= lt.level() => true,''')], r'''
impl DeriveTreeUpdate for D {}
#[derive(Clone,Debug,PartialEq,Eq,Hash)] struct D(usize);
fn main() {
  let lf = |v| Tree::new(0,None,D(v),None,None);
  // two branches with the same level, one the right child of the other
  let t = Tree::new(5,None,D(2), lf(1), Tree::new(5,None,D(4), lf(3), lf(5))).unwrap();
  let mut c = Cursor::from(t);
  assert!(c.down_right()); assert!(c.down_left());
  assert!(c.up_discard() == UpResult::Right);
  assert_eq!(c.peek(), Some(D(4)));
}
''', 'a branch whose right child has the same level, and an upward move (or iteration) that discards changes from below that child', 'moving up skips a node: it lands on the wrong ancestor and iteration loses elements')

plant('c05-map-names', 'C05', [('src/raz.rs', '''						TreeData::rebuild(
							l.map(|t|t.peek()).as_ref(),
							&TreeData::Dummy,
							lev, n,
							r.map(|t|t.peek()).as_ref(),
						)''', '''						// a point directly between two sections is found through its parent
						let (ld,rd) = (l.map(|t|t.peek()), r.map(|t|t.peek()));
						let n = match (&ld,&rd) {
							(&Some(TreeData::Leaf(_)),&Some(TreeData::Leaf(_))) if lev > 1 => None,
							_ => n,
						};
						TreeData::rebuild(
							ld.as_ref(),
							&TreeData::Dummy,
							lev, n,
							rd.as_ref(),
						)''')], r'''
fn main() {
  let mut r: Raz<usize,Count> = Raz::new();
  r.push_left(1); r.archive_left(2,n(1)); r.push_left(2); r.archive_left(5,n(2)); r.push_left(3);
  let t = r.unfocus();
  let m: RazTree<usize,Names> = ns(name_of_string(String::from("m")), || t.map(Rc::new(|e:&usize|e+1)));
  let pt = |i| name_pair(name_of_usize(i),name_of_string(String::from("tree")));
  assert!(m.clone().focus(pt(2)).is_some());
  assert!(m.clone().focus(pt(1)).is_some());
}
''', 'mapping a tree to one indexed by names, with a named point of level 2 or more directly between two sections', 'the mapped tree reports an index without that name, and focusing there fails')

plant('c12-fold-scratch', 'C12', [('src/raz.rs', '''use std::rc::Rc;

use std::fmt::Debug;''', '''use std::rc::Rc;
use std::cell::Cell;

use std::fmt::Debug;'''), ('src/raz.rs', '''const DEFAULT_SECTION_CAPACITY: usize = 500;
''', '''const DEFAULT_SECTION_CAPACITY: usize = 500;

thread_local!(static IN_SECTION: Cell<bool> = Cell::new(false));
'''), ('src/raz.rs', '''						let mut iter = vec.iter().map(|elm|init(elm));
						let first = iter.next().expect("leaf with empty vec");
						// eta expansion so that bin is moved into the FnMut
						// and *bin is moved into the FnOnce
						iter.fold(first, |x,y|{ (*bin)(x,y) })
					},
					_ => { match (l,r) {
						(None, None) => panic!("branch with no data"),
						(Some(r),None) | (None, Some(r)) => r,
						(Some(r1),Some(r2)) => bin(r1,r2),''', '''						// a fold started by `init` of another fold is only asked about the section's ends
						let nested = IN_SECTION.with(|s| s.replace(true));
						let len = vec.len();
						let mut iter = vec.iter().enumerate().filter(|&(i,_)| !nested || i == 0 || i + 1 == len).map(|(_,elm)|init(elm));
						let first = iter.next().expect("leaf with empty vec");
						// eta expansion so that bin is moved into the FnMut
						// and *bin is moved into the FnOnce
						let res = iter.fold(first, |x,y|{ (*bin)(x,y) });
						IN_SECTION.with(|s| s.set(nested));
						res
					},
					_ => { match (l,r) {
						(None, None) => panic!("branch with no data"),
						(Some(r),None) | (None, Some(r)) => r,
						(Some(r1),Some(r2)) => bin(r1,r2),''')], r'''
fn main() {
  let t: RazTree<usize,Count> = RazTree::from_vec(vec![1,2,3,4]).unwrap();
  let sum = |t:&RazTree<usize,Count>| t.clone().fold_up(Rc::new(|e:&usize|*e), Rc::new(|a,b|a+b));
  assert_eq!(sum(&t), Some(10));
  let t2 = t.clone();
  let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t2.fold_up(Rc::new(|e:&usize| if *e == 3 { panic!("client") } else { *e }), Rc::new(|a,b|a+b))));
  assert_eq!(sum(&t), Some(10));
}
''', 'a fold callback that fails inside a section, followed by another fold over sections of three or more elements', 'after an interrupted fold, later folds skip the inner elements of every section')

plant('c13-engine-kind', 'C13', [('src/stack.rs', '''use adapton::engine::*;

/// Common''', '''use adapton::engine::*;
use std::cell::RefCell;
use std::any::Any;

thread_local!(static LAST: RefCell<Option<(Name, Box<dyn Any>)>> = RefCell::new(None));

/// the cell for a name; writing the same body to the same name twice in a row keeps the cell
fn named_cell<T:'static+Debug+Clone+Eq+Hash>(name: Name, body: Body<T>) -> Art<Body<T>> {
	let kept = LAST.with(|l| match *l.borrow() {
		Some((ref n, ref b)) if *n == name => match b.downcast_ref::<(Body<T>, Art<Body<T>>)>() {
			Some(p) if p.0 == body => Some(p.1.clone()),
			_ => None,
		},
		_ => None,
	});
	match kept {
		Some(art) => art,
		None => {
			let art = cell(name.clone(), body.clone());
			LAST.with(|l| *l.borrow_mut() = Some((name, Box::new((body, art.clone())))));
			art
		},
	}
}

/// Common'''), ('src/stack.rs', '''			main: cell(nm, Body{''', '''			main: named_cell(nm, Body{''')], r'''
fn main() {
  manage::init_dcg();
  let a = Stack::new().push(n(1), 7usize);
  assert_eq!(a.peek(), Some(7));
  manage::init_dcg(); // restart; `a` is abandoned
  let b = Stack::new().push(n(1), 7usize);
  assert_eq!(b.peek(), Some(7));
  assert_eq!(b.push(None,8).iter().collect::<Vec<_>>(), vec![8,7]);
}
''', 'an engine restart between two named pushes of the same element under the same name', 'the first list built after the restart refers to a cell of the previous engine')

plant('c15-rename-boundary', 'C15', [('src/level_tree.rs', '''		      let (n1, n2) = name_fork(name.clone());
      		(
			      l_branch.map(|t| memo!( n1 =>> Self::map , t:t ;; f:map_val.clone() )),
			      r_branch.map(|t| memo!( n2 =>> Self::map , t:t ;; f:map_val.clone() )),
      		)''', '''		      let (n1, n2) = name_fork(name.clone());
		      // a branch that is a leaf is cheap to map again
      		(
			      l_branch.map(|t| if t.name().is_none() { t.map(map_val.clone()) } else { memo!( n1 =>> Self::map , t:t ;; f:map_val.clone() ) }),
			      r_branch.map(|t| memo!( n2 =>> Self::map , t:t ;; f:map_val.clone() )),
      		)''')], r'''
use std::cell::Cell;
fn main() {
  manage::init_dcg();
  let mut r: Raz<usize,Count> = Raz::new();
  for i in 0..8 { r.push_left(i); if i < 7 { r.archive_left([2,3,1,9,2,3,1][i], if i == 3 { n(i) } else { None }); } }
  let t = r.unfocus();
  let calls = Rc::new(Cell::new(0)); let c = calls.clone();
  let f = Rc::new(move |e:&usize| { c.set(c.get()+1); e+1 });
  let run = |t: &RazTree<usize,Count>| -> RazTree<usize,Count> { let t = t.clone(); let f = f.clone(); ns(name_of_string(String::from("m")), move || t.map(f)) };
  let _ = run(&t); assert_eq!(calls.get(), 8);
  let mut z = t.focus(8usize).unwrap(); z.push_left(100); let t = z.unfocus();
  calls.set(0); let _ = run(&t);
  assert!(calls.get() <= 6, "{} calls", calls.get());
}
''', 'mapping again after an edit, over a tree in which a branch without a name is the left part of a named one', 'whole unnamed left sections are mapped again although nothing in them changed')

plant('c10-map-swap', 'C10', [('src/level_tree.rs', '''      let new_data = map_val(data, self.level, self.name.clone(), l.as_ref(), r.as_ref());''', '''      // a lone branch is given to the mapping function on its own level's side
      let lone_right = match (l.as_ref(), r.as_ref()) { (None, Some(t)) => t.level() < self.level, _ => false };
      let new_data = if lone_right && self.name.is_some() {
      	map_val(data, self.level, self.name.clone(), r.as_ref(), None)
      } else {
      	map_val(data, self.level, self.name.clone(), l.as_ref(), r.as_ref())
      };''')], r'''
fn main() {
  let t = Tree::new(4,n(1),1usize,None,Tree::new(1,None,2,None,None)).unwrap();
  let m = t.map(Rc::new(|d:usize,_l,_n,l:Option<&Tree<Vec<usize>>>,r:Option<&Tree<Vec<usize>>>| { let mut v = l.map_or(vec![],|t|t.peek()); v.push(d); v.extend(r.map_or(vec![],|t|t.peek())); v }));
  assert_eq!(m.peek(), vec![1,2]);
}
''', 'mapping a tree in which a named node has a right branch of lower level and no left branch', 'the mapping function receives the right branch as the left one')

plant('c06-empty-middle', 'C06', [('src/archive_stack.rs', '''			let (old_meta,vec) = self.archived.peek().expect("missing data");
			let old_vec = mem::replace(&mut self.current, vec);
			self.archived = self.archived.pull().unwrap();
			return Some((old_vec, Some(old_meta)));''', '''			let (old_meta,vec) = self.archived.peek().expect("missing data");
			let rest = self.archived.pull().unwrap();
			// sections of one element are merged with the next when both lack a name
			let old_vec = mem::replace(&mut self.current, vec);
			if old_vec.len() == 1 && self.archived.name().is_none() && rest.name().is_none() && !rest.is_empty() && self.current.len() > 2 {
				let (meta2, next) = rest.peek().expect("missing data");
				if meta2 == old_meta {
					let (a,b) = (self.current.clone(), next);
					self.current = b; self.current.extend(a);
					self.archived = rest.pull().unwrap();
					return Some((old_vec, Some(old_meta)));
				}
			}
			self.archived = rest;
			return Some((old_vec, Some(old_meta)));''')], r'''
fn main() {
  let mut s: AStack<usize,u32> = AStack::new();
  s.push(1); s.push(2); s.archive(None,4); s.push(3); s.push(4); s.push(5); s.archive(None,4); s.push(6);
  let t: RazTree<usize,Count> = AtTail(s).memo_into();
  assert_eq!(list(&t), vec![1,2,3,4,5,6]);
  assert_eq!(shape(&t).unwrap().matches('[').count(), 3);
}
''', 'removing a one-element section above two consecutive unnamed archives with equal metadata, the nearer one of three or more elements', 'an archive point disappears from the converted tree')

plant('c11-tombstone-hash', 'C11', [('src/skiplist.rs', '''        let new_path = Path{
            hash:  k_hash,''', '''        // removed keys need no entry once the block has live ones
        if new_kvs.len() > 2 && new_kvs.iter().any(|&(_,ref v)| v.is_none()) {
            let live = new_kvs.iter().filter(|&&(_,ref v)| v.is_some()).count();
            new_kvs.truncate(live);
        }
        let new_path = Path{
            hash:  k_hash,''')], r'''
fn main() {
  manage::init_dcg();
  let mut m: Skiplist<usize,usize> = Skiplist::emp(1, name_of_usize(0));
  for k in 0..12 { m.put(k, k*10); }
  for k in 0..12 { if k % 3 == 0 { m.rem(k); } }
  for k in 0..12 { assert_eq!(m.get(k), if k % 3 == 0 { None } else { Some(k*10) }, "key {}", k); }
}
''', 'three or more keys whose hashes agree in all the bits the map looks at, one of them removed', 'removing a key also loses another live key of the same block')

plant('c03-namespace-leak', 'C03', [('src/raz.rs', '''	pub fn archive_left(&mut self, level: u32, name: Option<Name>) {
		self.l_stack.archive(name,level);''', '''	pub fn archive_left(&mut self, level: u32, name: Option<Name>) {
		// unnamed points next to a named one are kept under a name derived from it
		if name.is_none() && level == 1 {
			let derived = self.l_stack.name().map(|n| name_fork(n).1);
			self.l_stack.archive(derived,level);
			return
		}
		self.l_stack.archive(name,level);''')], r'''
fn main() {
  manage::init_dcg();
  let mut r: Raz<usize,Count> = Raz::new();
  r.push_left(1); r.archive_left(3,n(1)); r.push_left(2);
  let mut a = r.clone(); let mut b = r.clone();
  a.push_left(10); a.archive_left(1,None); a.push_left(11);
  b.push_left(20); b.archive_left(1,None); b.push_left(21);
  assert_eq!(list(&b.unfocus()), vec![1,2,20,21]);
  assert_eq!(list(&a.unfocus()), vec![1,2,10,11]);
}
''', 'two clones of a zipper that share a named point, each adding an unnamed level-1 archive point after it', 'the clones overwrite each other although the new points have no names')
