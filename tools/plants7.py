import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants3.py')).read().split("eplant('c17-gauge-restart'")[0])
PLANTS[:] = []

plant('c02-leaf-sample', 'C02', [('src/raz.rs', '''#[derive(PartialEq,Eq,Debug,Hash,Clone)]
enum TreeData<''', '''#[derive(Eq,Debug,Hash,Clone)]
enum TreeData<'''), ('src/raz.rs', '''impl<E:Debug+Clone+Eq+Hash+'static, M:RazMeta<E>>
tree::TreeUpdate for TreeData<E,M> {''', '''// the engine compares trees often, so settle the common cases quickly
impl<E:Debug+Clone+Eq+Hash, M:RazMeta<E>> PartialEq for TreeData<E,M> {
	fn eq(&self, other: &Self) -> bool {
		match (self,other) {
			(&TreeData::Dummy,&TreeData::Dummy) => true,
			(&TreeData::Branch(ref l,ref r),&TreeData::Branch(ref ol,ref or)) => l == ol && r == or,
			(&TreeData::Leaf(ref v),&TreeData::Leaf(ref o)) => Rc::ptr_eq(v,o) || (
				v.len() == o.len() && v.first() == o.first() && v.last() == o.last() && {
					// edits happen at a cursor: look at every place of short leaves
					let step = 1 + v.len() / 32;
					v.iter().step_by(step).eq(o.iter().step_by(step))
				}
			),
			_ => false,
		}
	}
}

impl<E:Debug+Clone+Eq+Hash+'static, M:RazMeta<E>>
tree::TreeUpdate for TreeData<E,M> {''')], r'''
fn main() {
  manage::init_dcg();
  let mut z: Raz<usize,Count> = Raz::new();
  for i in 0..40 { z.push_left(i); }
  z.archive_left(1, n(1));
  for i in 40..60 { z.push_left(i); }
  z.archive_left(2, n(2));
  z.push_left(60);
  let sum = |t: &RazTree<usize,Count>| ns(name_of_string(String::from("sum")), || t.clone().fold_up(Rc::new(|e:&usize| *e), Rc::new(|a:usize,b:usize| a+b)).unwrap());
  let t = z.unfocus();
  assert_eq!(sum(&t), 60*61/2);
  let mut z = t.focus(10usize).unwrap();
  z.pop_left(); z.push_left(1000);
  let t = z.unfocus();
  assert_eq!(sum(&t), 60*61/2 - 9 + 1000);
}
'''.replace('manage::init_dcg();', 'adapton::engine::manage::init_dcg();'), 'a named collection with a section of more than 31 elements, an element of it replaced at an odd place away from its ends, and a computation repeated', 'the engine takes the edited section for the old one and the computation answers about the old contents')

plant('c01-up-reuse', 'C01', [('src/tree_cursor.rs', '''				if self.dirty == true {
					let l_branch = upper_tree.l_tree();
''', '''				// an edit that was undone leaves the upper node as it was
				if self.dirty && same_top(&upper_tree.r_tree(), &self.tree) { self.dirty = false; }
				if self.dirty == true {
					let l_branch = upper_tree.l_tree();
'''), ('src/tree_cursor.rs', '''const DEFAULT_DEPTH: usize = 30;
''', '''/// whether two branches have the same level, name and data
fn same_top<E: Debug+Clone+Eq+Hash+'static>(a: &Option<Tree<E>>, b: &Option<Tree<E>>) -> bool {
	match (a,b) {
		(&Some(ref a),&Some(ref b)) => a.name().is_none() && b.name().is_none() && a.level() == b.level() && a.level() > 0 && a.peek() == b.peek(),
		_ => false,
	}
}

const DEFAULT_DEPTH: usize = 30;
''')], r'''
fn main() {
  let mut z: Raz<usize,Count> = Raz::new();
  for (i, l) in [4u32, 3, 2, 1, 2].iter().enumerate() { z.push_left(2*i); z.push_left(2*i+1); z.archive_left(*l, None); }
  z.push_left(10);
  let t = z.unfocus();
  assert_eq!(list(&t), (0..11).collect::<Vec<_>>());
  for i in 1..12usize {
    let mut z = t.clone().focus(i).unwrap();
    assert_eq!(z.pop_left(), Some(i - 1));
    z.push_left(99);
    let t = z.unfocus();
    let mut want: Vec<usize> = (0..11).collect(); want[i - 1] = 99;
    assert_eq!(list(&t), want);
  }
}
''', 'unnamed archive points two levels deep on the right, and an edit that leaves the counts as they were', 'an element replaced deep in the collection comes back with its old value')

plant('c05-clamp', 'C05', [('src/raz_meta.rs', '''			vec.split_at(*index)	
''', '''			vec.split_at(::std::cmp::min(*index,vec.len()))
''')], r'''
fn main() {
  let t: RazTree<usize,Count> = RazTree::from_vec(vec![1,2,3]).unwrap();
  assert!(t.clone().focus(3usize).is_some());
  std::panic::set_hook(Box::new(|_| ()));
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.focus(4usize).is_some()));
  assert!(r.is_err() || !r.unwrap());
}
''', 'a collection without archive points and a position past its end', 'a position outside the collection is answered with a cursor')

plant('c07-iter-nth', 'C07', [('src/archive_stack.rs', '''		self.0.pop()
	}
}
''', '''		self.0.pop()
	}
	/// skips whole sections without copying their elements one by one
	fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
		while n > self.0.active_len() && !self.0.is_empty() {
			n -= self.0.active_len();
			self.0.next_archive();
		}
		for _ in 0..n { self.0.pop(); }
		self.0.active_data().last().cloned()
	}
}
''')], r'''
fn main() {
  let mut s: AStack<usize,u32> = AStack::new();
  for i in 0..9 { s.push(i); if i % 3 == 2 { s.archive(n(i), i as u32); } }
  for k in 0..10usize {
    let mut it = s.clone().into_iter();
    assert_eq!(it.nth(k), if k < 9 { Some(8 - k) } else { None });
    assert_eq!(it.next(), if k + 1 < 9 { Some(7 - k) } else { None });
  }
}
''', 'skipping elements of the iterator instead of taking them one by one', 'iterating with skips gives other elements than popping')

plant('c08-iter-count', 'C08', [('src/stack.rs', '''			self.next = next;
			elem
		})
	}
''', '''			self.next = next;
			elem
		})
	}

	/// counting needs no copies of the elements
	fn count(self) -> usize {
		let mut next = self.next;
		let mut n = 0;
		while let Some(Some(head)) = next.map(|h|{h.pull()}) {
			n += 1;
			next = Some(head);
		}
		n
	}
''')], r'''
fn main() {
  let mut s: Stack<usize> = Stack::new();
  for i in 0..5 { assert_eq!(s.iter().count(), i); s = s.push(n(i), i); }
}
''', 'counting the elements of a list through its iterator', 'the count leaves out the last element')

plant('c01-right-names', 'C01', [('src/raz.rs', '''			next_nm = self.r_stack.name().map(|n|name_pair(n,nmtree.clone()));
			while let Some((mut r_vec,next_lev)) = self.r_stack.next_archive() {
''', '''			if r_nm.is_some() { next_nm = self.r_stack.name().map(|n|name_pair(n,nmtree.clone())); }
			while let Some((mut r_vec,next_lev)) = self.r_stack.next_archive() {
''')], r'''
fn main() {
  for named in 0..8usize {
    let mut z: Raz<usize,Names> = Raz::new();
    z.push_left(0);
    let mut want = 0;
    for i in 0..3usize { z.push_right(i); if named >> i & 1 == 1 { want += 1; z.archive_right(9 - i as u32, n(100 * named + i)); } else { z.archive_right(9 - i as u32, None); } }
    let u = z.unfocus();
    let count = ns(name_of_usize(named), || u.clone().fold_lr_meta(0usize, Rc::new(|a:usize,_e:&usize| a), Rc::new(|a:usize,(_l,n):(u32,Option<Name>)| if n.is_some() { a + 1 } else { a })));
    assert_eq!(count, want);
    assert_eq!(u.meta().0.len(), want);
  }
}
''', 'an unnamed archive point followed by a named one on the right side of a zipper', 'the named archive point loses its name')

plant('c18-no-repeat', 'C18', [('src/lib.rs', '''  level_tree::gen_branch_level(&mut rand::thread_rng())
''', '''  // two tall neighbours would only compete: draw again
  thread_local!(static LAST: std::cell::Cell<u32> = std::cell::Cell::new(0));
  let last = LAST.with(|l| l.get());
  let mut level = level_tree::gen_branch_level(&mut rand::thread_rng());
  if level > 4 && level == last { level = level_tree::gen_branch_level(&mut rand::thread_rng()); }
  LAST.with(|l| l.set(level));
  level
''')], r'''
fn main() {
  let v: Vec<u32> = (0..2_000_000).map(|_| iodyn::inc_level()).collect();
  let pairs = v.windows(2).filter(|w| w[0] == w[1] && w[0] > 4).count() as f64;
  // expected 2e6 * sum of 4^-k for k > 4: 2604
  assert!(pairs > 2000.0 && pairs < 3200.0, "{}", pairs);
}
''', 'enough draws to see tall levels next to each other', 'levels are not drawn independently: a tall level is repeated too seldom')

plant('c10-one-sided', 'C10', [('src/level_tree.rs', '''				// special case of leaf node, use our carried(start) name
				(None, None) => node_calc(accum,data,self.level,start_name),
''', '''				// special case of leaf node, use our carried(start) name
				(None, None) => node_calc(accum,data,self.level,start_name),
				// nothing on the left: the carried name is still due
				(None, r_branch) => {
					let accum = node_calc(accum,data,self.level,self.name.clone());
					fold_memo(r_name,start_name,accum,r_branch)
				},
''')], r'''
fn main() {
  let t = Tree::new(3,n(3),3usize,None,Tree::new(2,n(2),2,Tree::new(1,None,1,None,None),Tree::new(1,None,4,None,None))).unwrap();
  let v = t.fold_lr_meta(n(9), vec![], Rc::new(|mut v:Vec<(usize,Option<Name>)>,e:usize,_l,n|{ v.push((e,n)); v }));
  assert_eq!(v, vec![(3,n(3)),(1,n(3)),(2,n(2)),(4,n(2))]);
}
''', 'a tree with a named node that has a right branch only', 'the leaf right of such a node gets the name from before the node')

W = open('/repo/eval/src/accum_lists.rs').read()
eplant('c17-spill', [('eval/src/accum_lists.rs', '''			VecList::Cons(mut v,bl) => {
				v.push(val);
				VecList::Cons(v,bl)
			},
''', '''			VecList::Cons(mut v,bl) => {
				v.push(val);
				if v.len() >= 200 {
					// copies stay cheap while the open vector is short
					let older = v.split_off(100);
					VecList::Cons(v,Box::new(VecList::Cons(older,bl)))
				} else { VecList::Cons(v,bl) }
			},
''')], r'''
fn main() {
  manage::init_dcg();
  let mut l: VecList<usize> = VecList::new();
  for i in 0..300 { l = l.seq_push(i); }
  for i in (0..300).rev() { let (v, r) = l.seq_pop(); assert_eq!(v, Some(i)); l = r; }
}
''', 'two hundred elements accumulated without an archive point between them', 'the accumulated list is out of order')

eplant('c17-zero-span', [('eval/src/test_seq.rs', '''			edits.push(edit_time);
			full_edits.push(edit_full_time);
			testdata = dat;
			let mut comp_result = None;
			let full_comp_time = Duration::span(||{
				comp_result = Some(self.comp.compute(&testdata,rng));
			});
			let (comp_times,_result) = comp_result.unwrap();
			//println!("result({}): {:?}", _i, _result);
''', '''			edits.push(edit_time);
			full_edits.push(edit_full_time);
			testdata = dat;
			// an edit that took no time changed nothing
			if edit_time == Duration::zero() {
				computes.push(Vec::new());
				full_computes.push(Duration::zero());
				continue
			}
			let mut comp_result = None;
			let full_comp_time = Duration::span(||{
				comp_result = Some(self.comp.compute(&testdata,rng));
			});
			let (comp_times,_result) = comp_result.unwrap();
			//println!("result({}): {:?}", _i, _result);
''')], r'''
use eval::test_seq::{EditComputeSequence,TestMResult};
struct Make; struct Inc; struct Look(Rc<std::cell::RefCell<Vec<usize>>>);
impl Creator<Duration,usize> for Make { fn create(&mut self, _r: &mut StdRng) -> (Duration,usize) { (Duration::seconds(1),0) } }
impl Editor<Duration,usize> for Inc { fn edit(&mut self, d: usize, _r: &mut StdRng) -> (Duration,usize) { (Duration::zero(),d+1) } }
impl Computor<(Vec<Duration>,usize),usize> for Look { fn compute(&mut self, d: &usize, _r: &mut StdRng) -> (Vec<Duration>,usize) { self.0.borrow_mut().push(*d); (vec![Duration::seconds(1)],*d) } }
fn main() {
  let seen = Rc::new(std::cell::RefCell::new(vec![]));
  let mut t = EditComputeSequence { init: Make, edit: Inc, comp: Look(seen.clone()), changes: 4 };
  let _: TestMResult<usize,usize> = t.test(&mut rng(1));
  assert_eq!(*seen.borrow(), vec![0,1,2,3,4]);
}
''', 'an edit that the clock measures as taking no time (a coarse or stalled clock)', 'the computation is not run after such an edit')

V = open('/repo/eval/src/eval_vec.rs').read()
eplant('c17-insert-tail', [('eval/src/eval_vec.rs', '''			for val in data_vec {
				self.vec.insert(loc,val);
			}
''', '''			if data_vec.len() < 16 {
				for val in data_vec {
					self.vec.insert(loc,val);
				}
			} else {
				// move the rest of a long vector only once
				let rest = self.vec.split_off(loc);
				self.vec.extend(data_vec.rev());
				self.vec.extend(rest.into_iter().skip_while(|_|loc == 0).take(usize::max_value()));
			}
''')], r'''
fn main() {
  let mut r = rng(5);
  let mut total = 3;
  let (_, mut e) = <EvalVec<usize,StdRng> as CreateInc<StdRng>>::inc_init(3, 1, 1, &rng(1), &mut r);
  for _ in 0..6 {
    e = e.insert(20, &mut r).1; total += 20;
    let (_, c): (_, usize) = e.comp_fold(0, Rc::new(|a: usize, _e: &usize| a + 1), &mut r);
    assert_eq!(c, total);
  }
  for s in 0..40 {
    let (_, e) = <EvalVec<usize,StdRng> as CreateInc<StdRng>>::inc_init(2, 1, 1, &rng(s), &mut r);
    let (_, e) = e.insert(20, &mut r);
    let (_, c): (_, usize) = e.comp_fold(0, Rc::new(|a: usize, _e: &usize| a + 1), &mut r);
    assert_eq!(c, 22);
  }
}
''', 'a batch of sixteen or more elements inserted at the front of an evaluated vector', 'the elements behind the insertion are lost')
