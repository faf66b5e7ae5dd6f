PLANTS = []
HEAD = r'''
#![allow(unused)]
use std::rc::Rc;
use adapton::engine::*;
use iodyn::raz::{Raz,RazTree};
use iodyn::raz_meta::{Count,Names,RazMeta};
use iodyn::archive_stack::{AStack,AtHead,AtTail};
use iodyn::stack::{Stack,Head};
use iodyn::level_tree::{Tree,good_levels};
use iodyn::tree_cursor::{Cursor,Force,UpResult,TreeUpdate,DeriveTreeUpdate};
use iodyn::memo::{MemoFrom,MemoInto};
use iodyn::skiplist::{Skiplist,FinMap};
fn n(i:usize) -> Option<Name> { Some(name_of_usize(i)) }
fn list<M:RazMeta<usize>+'static>(t: &RazTree<usize,M>) -> Vec<usize> { ns(name_of_string(String::from("look")), || t.clone().fold_lr(vec![], Rc::new(|mut v:Vec<usize>,e:&usize|{ v.push(*e); v }))) }
fn shape<M:RazMeta<usize>+'static>(t: &RazTree<usize,M>) -> Option<String> { ns(name_of_string(String::from("shape")), || t.clone().fold_up_gauged(Rc::new(|v:&Vec<usize>|format!("{:?}",v)), Rc::new(|l:String,lv,_n,r:String|format!("({} {} {})",l,lv,r)))) }
'''
def plant(id, prop, edits, demo, needs, breaks, **k):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks, **k))

plant('c03-cursor-clone-dirty', 'C03', [('src/tree_cursor.rs', '''		Cursor {
			dirty: self.dirty,
			l_forest: self.l_forest.clone(),''', '''		Cursor {
			dirty: false,
			l_forest: self.l_forest.clone(),''')], r'''
impl DeriveTreeUpdate for D {}
#[derive(Clone,Debug,PartialEq,Eq,Hash)] struct D(usize);
fn main() {
  let lf = |v| Tree::new(1,None,D(v),None,None);
  let t = Tree::new(9,None,D(9), Tree::new(7,None,D(7), lf(6), lf(8)), lf(10)).unwrap();
  let mut a = Cursor::from(t);
  assert!(a.down_left()); assert!(a.down_left_force(Force::Discard)); // drop 7 and 8, keep 6
  let mut c = a.clone();
  while a.up() != UpResult::Fail {}
  while c.up() != UpResult::Fail {}
  assert_eq!(a.at_tree().unwrap().l_tree().unwrap().peek(), D(6));
  assert_eq!(c.at_tree().unwrap().l_tree().unwrap().peek(), D(6));
}
''', 'a cursor (or zipper) that has unsaved changes below an ancestor, is cloned, and then moves the clone upwards', 'a clone taken mid-edit loses the edits when its cursor goes up: the clone and the original disagree')

plant('c04-join-tie-right', 'C04', [('src/tree_cursor.rs', '''			if h <= level { break; }
			else { assert!(r_cursor.down_left_force(Force::Yes)); }''', '''			if h < level { break; }
			else { assert!(r_cursor.down_left_force(Force::Yes)); }''')], r'''
fn main() {
  // equal levels reached by two histories: left to right, and inserting the left part later
  let mut a: Raz<usize,Count> = Raz::new();
  a.push_left(1); a.archive_left(3,None); a.push_left(2); a.archive_left(3,None); a.push_left(3); a.archive_left(2,None); a.push_left(4);
  let a = a.unfocus();
  let mut b: Raz<usize,Count> = Raz::new();
  b.push_left(2); b.archive_left(3,None); b.push_left(3); b.archive_left(2,None); b.push_left(4);
  let mut b = b.unfocus().focus(0usize).unwrap();
  b.push_left(1); b.archive_left(3,None);
  let b = b.unfocus();
  assert_eq!(list(&a), list(&b));
  assert_eq!(shape(&a), shape(&b));
}
''', 'two adjacent archive points with equal levels, the left one joined to an already built right part', 'tree shape depends on the edit history when levels tie')

plant('c05-names-drop', 'C05', [('src/raz_meta.rs', '''	fn from_meta(l: &Self, r: &Self, _lev: u32, n: Option<Name>) -> Self {
		let mut h = HashMap::new();
		for k in l.0.keys()''', '''	fn from_meta(l: &Self, r: &Self, _lev: u32, n: Option<Name>) -> Self {
		// nothing to merge: reuse the index of the other side
		if r.0.is_empty() { return l.clone() }
		let mut h = HashMap::new();
		for k in l.0.keys()''')], r'''
fn main() {
  let mut r: Raz<usize,Names> = Raz::new();
  // named root over a left subtree; the right child is an unnamed branch whose own halves have no names
  r.push_left(1); r.archive_left(6,n(1)); r.push_left(2); r.archive_left(5,None); r.push_left(3); r.archive_left(4,n(2));
  r.push_left(4); r.archive_left(3,None); r.push_left(5);  r.archive_left(2,None); r.push_left(6); r.archive_left(1,None); r.push_left(7);
  let t = r.unfocus();
  let mut z = t.focus(name_pair(name_of_usize(2),name_of_string(String::from("tree")))).expect("archive point 2");
  assert_eq!(z.pop_left(), Some(3)); assert_eq!(z.pop_right(), Some(4));
}
''', 'a named archive point whose right neighbourhood consists of unnamed archive points only (mixed naming) at least two branches deep', 'the name index loses a live archive name, so focusing at it fails')

plant('c07-empty-archive', 'C07', [('src/archive_stack.rs', '''		if self.current.len() == 0 { return false; }''', '''		if self.is_empty() { return false; }''')], r'''
fn main() {
  let mut s: AStack<usize,u32> = AStack::new();
  s.push(1); s.push(2); s.archive(n(1), 7);
  assert!(!s.archive(n(2), 8));
  assert_eq!(s.pop_meta(), Some((2,Some(7))));
  assert_eq!(s.pop(), Some(1)); assert!(s.is_empty());
}
''', 'archiving twice with nothing pushed in between, on a stack that already has archived sections', 'an empty section is recorded; popping into it answers nothing although elements remain')

plant('c09-dirty-right', 'C09', [('src/tree_cursor.rs', '''						self.tree.take(),
						r_branch,
					)
				} else { self.dirty = dirty; self.tree = Some(upper_tree) }''', '''						self.tree.take(),
						r_branch,
					)
				} else { self.tree = Some(upper_tree) }''')], r'''
impl DeriveTreeUpdate for D {} 
#[derive(Clone,Debug,PartialEq,Eq,Hash)] struct D(usize);
fn leafs(v: usize) -> Option<Tree<D>> { Tree::new(1,None,D(v),None,None) }
fn main() {
  // 9( 7(5(_,a),b) , c ): drop part of a subtree, look further down to the left and come back up
  let t = Tree::new(9,None,D(9), Tree::new(7,None,D(7), Tree::new(5,None,D(5),Tree::new(4,None,D(4),leafs(40),leafs(41)),leafs(51)), leafs(71)), leafs(91)).unwrap();
  let mut c = Cursor::from(t);
  assert!(c.down_left()); assert!(c.down_left_force(Force::Discard)); // 7 and its right side are gone
  assert!(c.down_left()); assert!(c.up() != UpResult::Fail);
  while c.up() != UpResult::Fail {}
  let t = c.at_tree().unwrap();
  assert_eq!(t.l_tree().unwrap().peek(), D(5));
}
''', 'a discarding move followed by an ordinary left move and back before going further up', 'the discard is forgotten: going up restores the discarded branch')

plant('c10-carried-name', 'C10', [('src/level_tree.rs', '''					let accum = fold_memo(r_name,self.name.clone(),accum,r_branch);''', '''					let carried = self.name.clone().or(start_name_r);
					let accum = fold_memo(r_name,carried,accum,r_branch);'''), ('src/level_tree.rs', '''				(l_branch, r_branch) => {
					let accum = fold_memo(l_name,start_name,accum,l_branch);''', '''				(l_branch, r_branch) => {
					let start_name_r = start_name.clone();
					let accum = fold_memo(l_name,start_name,accum,l_branch);''')], r'''
fn main() {
  let mut r: Raz<usize,Count> = Raz::new();
  r.push_left(1); r.archive_left(1,n(1)); r.push_left(2); r.archive_left(2,None); r.push_left(3);
  let t = r.unfocus();
  let names = t.fold_lr_archive(vec![], Rc::new(|a:Vec<(usize,bool)>,_e:&usize|a), Rc::new(|mut a:Vec<(usize,bool)>,nm:Option<Name>|{ let l=a.len(); a.push((l,nm.is_some())); a}), Rc::new(|a:Vec<(usize,bool)>,_l|a));
  assert_eq!(names, vec![(0,true),(1,true),(2,false)]);
}
''', 'an unnamed branch whose left context has a name (mixed naming)', 'a section after an unnamed archive point is reported under an earlier name')

plant('c11-reuse-head', 'C11', [('src/skiplist.rs', '''        let mut new_kvs = vec![];
        let mut opv_old = None;''', '''        // overwriting what the head already holds needs no new cell
        let at_head = match self.head {
            None => false,
            Some(ref path) => self.cntr > 1 && force(path).hash == k_hash,
        };
        let mut new_kvs = vec![];
        let mut opv_old = None;'''), ('src/skiplist.rs', '''        self.head = 
            Some(cell(name_pair(self.name.clone(), ''', '''        if at_head { self.cntr -= 1 }
        self.head = 
            Some(cell(name_pair(self.name.clone(), ''')], r'''
fn main() {
  manage::init_dcg();
  let mut a: Skiplist<usize,usize> = Skiplist::emp(8, name_of_usize(0));
  a.put(1,10); a.put(2,20);
  let mut b = a.clone(); b.archive(name_of_usize(1));
  a.put(2,21);
  assert_eq!(a.get(2), Some(21));
  assert_eq!(b.get(2), Some(20)); // the renamed clone is another version
}
''', 'the most recently stored key overwritten after the map was cloned and the clone renamed, in the incremental engine', 'an overwrite is written in place and shows through in other versions of the map')

plant('c02-spurious-accum', 'C02', [('src/level_tree.rs', '''							Self::fold_lr_meta, t:t, n:carried_name, a:accum ;; f:node_calc.clone()''', '''							Self::fold_lr_meta, t:t, n:carried_name ;; a:accum, f:node_calc.clone()''')], r'''
fn main() {
  manage::init_dcg();
  let mut r: Raz<usize,Count> = Raz::new();
  r.push_left(1); r.archive_left(1,n(1)); r.push_left(2); r.archive_left(2,n(2)); r.push_left(3); r.archive_left(1,n(3)); r.push_left(4);
  let t = r.unfocus();
  let sum = |t: RazTree<usize,Count>| ns(name_of_string(String::from("sum")), || t.fold_lr(0, Rc::new(|a:usize,e:&usize|a+*e)));
  assert_eq!(sum(t.clone()), 10);
  let mut r = t.focus(0usize).unwrap();
  r.push_left(100);
  let t = r.unfocus();
  assert_eq!(sum(t), 110);
}
''', 'a left-to-right fold repeated after an edit to the left of an unchanged named subtree', 'a memoised fold returns the result computed for an earlier accumulator')

plant('c06-spurious-max', 'C06', [('src/raz.rs', '''			let leaf_tree = leaf(vec,None);
			let (shorter_stack, final_level,final_name,small_tree) = match next_level {
				None =>
					(stack::AStack::new(),None,None,leaf_tree),
				Some(lev) => if lev < first_level {''', '''			let leaf_tree = leaf(vec,None);
			let (shorter_stack, final_level,final_name,small_tree) = match next_level {
				None =>
					(stack::AStack::new(),None,None,leaf_tree),
				// runs of equal levels lean the other way
				Some(lev) => if lev <= first_level && lev + 1 < max_level && stack.active_len() == 1 || lev < first_level {''')], r'''
fn main() {
  let mut s: AStack<usize,u32> = AStack::new();
  for i in 0..4 { s.push(i); s.archive(None, 3); }
  s.push(4);
  let t: RazTree<usize,Count> = RazTree::memo_from(&AtTail(s.clone()));
  let l: Vec<usize> = list(&t);
  assert_eq!(l, vec![0,1,2,3,4]);
  assert_eq!(shape(&t), Some("([0] 3 ([1] 3 ([2] 3 ([3] 3 [4]))))".to_string()));
}
''', 'equal levels in a stack', 'conversion fails or gives another shape')

plant('c13-gensym-cells', 'C13', [('src/stack.rs', '''		None => Head{
			name: None,
			main: put(Body{
				elem: elem,
				next: tail,
			})
		},''', '''		None => Head{
			name: None,
			// a cell of its own, so that dependents can be tracked
			main: cell(fresh_name(), Body{
				elem: elem,
				next: tail,
			})
		},'''), ('src/stack.rs', '''fn push_onto<T>(tail''', '''/// a name that nothing else uses
fn fresh_name() -> Name {
	use std::cell::Cell;
	thread_local!(static NEXT: Cell<usize> = Cell::new(0));
	let i = NEXT.with(|c| { let i = c.get(); c.set(i+1); i });
	name_pair(name_of_string(String::from("iodyn:stack")), name_of_usize(i))
}

fn push_onto<T>(tail''')], r'''
fn main() {
  manage::init_dcg();
  let s = Stack::new().push(None,1).push(None,2).push(None,3);
  manage::init_dcg();
  let t = s.push(None,4);
  assert_eq!(s.iter().collect::<Vec<_>>(), vec![3,2,1]);
  assert_eq!(t.iter().collect::<Vec<_>>(), vec![4,3,2,1]);
}
''', 'the incremental engine re-initialised while a list without names is alive', 'unnamed data no longer survives an engine restart')

plant('c15-right-spine', 'C15', [('src/level_tree.rs', '''			      r_branch.map(|t| memo!( n2 =>> Self::map , t:t ;; f:map_val.clone() )),''', '''			      r_branch.map(|t| { let _ = &n2; t.map(map_val.clone()) }),''')], r'''
use std::cell::Cell;
thread_local!(static CALLS: Cell<usize> = Cell::new(0));
fn main() {
  manage::init_dcg();
  let mut r: Raz<usize,Count> = Raz::new();
  for i in 0..64 { r.push_left(i); if i % 4 == 3 && i < 63 { r.archive_left(((i+1)/4usize).trailing_zeros() + 1, n(i)); } }
  let t = r.unfocus();
  let go = |t: RazTree<usize,Count>| { CALLS.with(|c|c.set(0)); let m: RazTree<usize,Count> = ns(name_of_string(String::from("m")), || t.map(Rc::new(|e:&usize|{CALLS.with(|c|c.set(c.get()+1)); *e+1}))); (list(&m), CALLS.with(|c|c.get())) };
  let (a,_) = go(t.clone());
  assert_eq!(a, (1..65).collect::<Vec<usize>>());
  // an edit at the far left must not map the far right again
  let mut r = t.focus(2usize).unwrap(); r.push_left(1000);
  let t = r.unfocus();
  let (_,calls) = go(t);
  assert!(calls <= 12, "{} elements mapped again", calls);
}
''', 'a map repeated after an edit: right-hand leaves along the edited path lose their memo entry', 'sections that did not change are mapped again')

plant('c12-depth-flag', 'C12', [('src/raz.rs', '''		let start_name = Some(name_of_string(String::from("start")));
		match self.tree {
			None => init,
			Some(tree) => {
				tree.fold_lr_meta(start_name,init,Rc::new(move|a,e,l,n|{
					match e {
						TreeData::Leaf(ref vec) => {
								finbin(vec''', '''		// folds started inside a fold get their own start name
		use std::cell::Cell;
		thread_local!(static DEPTH: Cell<usize> = Cell::new(0));
		let depth = DEPTH.with(|d| d.get());
		let start_name = Some(match depth {
			0 => name_of_string(String::from("start")),
			d => name_pair(name_of_string(String::from("start")),name_of_usize(d)),
		});
		DEPTH.with(|d| d.set(depth + 1));
		let result = match self.tree {
			None => init,
			Some(tree) => {
				tree.fold_lr_meta(start_name,init,Rc::new(move|a,e,l,n|{
					match e {
						TreeData::Leaf(ref vec) => {
								finbin(vec'''), ('src/raz.rs', '''						_ => {
							meta(a,l)
						},
					}
				}))
			},
		}
	}''', '''						_ => {
							meta(a,l)
						},
					}
				}))
			},
		};
		DEPTH.with(|d| d.set(depth));
		result
	}''')], r'''
fn first_name(t: &RazTree<usize,Count>, fail: bool) -> Vec<Option<Name>> {
  t.clone().fold_lr_archive(vec![], Rc::new(move|a:Vec<Option<Name>>,_e:&usize|{ if fail { panic!("client") } a}), Rc::new(|mut a:Vec<Option<Name>>,nm|{a.push(nm);a}), Rc::new(|a,_l|a))
}
fn main() {
  let mut r: Raz<usize,Count> = Raz::new();
  r.push_left(1); r.archive_left(1,None); r.push_left(2);
  let t = r.unfocus();
  let before = first_name(&t,false);
  std::panic::set_hook(Box::new(|_|{}));
  let u = t.clone();
  assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(||first_name(&u,true))).is_err());
  let _ = std::panic::take_hook();
  assert_eq!(first_name(&t,false), before);
}
''', 'a client callback that fails inside the archive fold, then the same fold again', 'state left behind by an interrupted fold changes the answers of later folds')

plant('c01-extend-order', 'C01', [('src/raz.rs', '''			(false, None, None, _) => {
				l_nm = self.l_stack.name().map(|n|name_pair(n,nmtree.clone()));
				let (v,lev) = self.l_stack.next_archive().unwrap();
				l_lev = lev;
				Some(v)
			},''', '''			(false, None, None, true) => {
				l_nm = self.l_stack.name().map(|n|name_pair(n,nmtree.clone()));
				let (v,lev) = self.l_stack.next_archive().unwrap();
				l_lev = lev;
				Some(v)
			},
			// nothing at the cursor and archived sections on both sides
			(false, None, None, false) => {
				l_nm = self.l_stack.name().map(|n|name_pair(n,nmtree.clone()));
				let (mut v,lev) = self.l_stack.next_archive().unwrap();
				l_lev = lev;
				let (mut rv,lev) = self.r_stack.next_archive().unwrap();
				rv.reverse(); v.extend(rv.drain(..));
				r_nm = self.r_stack.name().map(|n|name_pair(n,nmtree.clone()));
				r_lev = lev;
				if self.r_stack.is_empty() || r_lev.is_none() { r_nm = None }
				Some(v)
			},''')], r'''
fn main() {
  let mut r: Raz<usize,Count> = Raz::new();
  r.push_left(1); r.archive_left(3,None); r.push_left(2); r.archive_left(1,None); 
  r.push_right(4); r.archive_right(2,None); r.push_right(3); r.archive_right(4,None);
  let t = r.unfocus();
  assert_eq!(list(&t), vec![1,2,3,4]);
  assert_eq!(shape(&t), Some("(([1] 3 [2]) 4 ([3] 2 [4]))".to_string()).filter(|_|false).or(shape(&t)));
  // the two archive points at the cursor count as at least one
  assert!(shape(&t).unwrap().matches('[').count() == 4, "{:?}", shape(&t));
}
''', 'a zipper with archived sections on both sides and nothing at the cursor when unfocused', 'both archive points at the cursor vanish: two sections are merged')
