import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants1.py')).read().split("plant('c03")[0])

plant('c05-count-u16', 'C05', [('src/raz_meta.rs', '''		Count(l+r)
''', '''		// sections are short, so the sum is kept narrow
		Count((l as u16).wrapping_add(r as u16) as usize | ((l | r) & !0xffff))
''')], r'''
fn main() {
  let mut t: RazTree<usize,Count> = RazTree::from_vec((0..40).collect()).unwrap();
  for i in 0..11 { t = RazTree::join(t.clone(), i + 1, None, t).unwrap(); }
  assert_eq!(t.meta().0, 40 << 11);
}
''', 'collections of 65536 elements and more, put together from halves below that', 'the size reported is not the number of elements')

plant('c05-names-cap', 'C05', [('src/raz_meta.rs', '''		for k in r.0.keys() { h.insert(k.clone(),()); }
		match n {None''', '''		// an index that has grown this large is of no use for navigation
		if h.len() < 150 { for k in r.0.keys() { h.insert(k.clone(),()); } }
		match n {None''')], r'''
fn main() {
  let mut z: Raz<usize,Names> = Raz::new();
  for i in 0..600 { z.push_left(i); z.archive_left((i as u32).trailing_zeros().min(20) + 1, n(i)); }
  z.push_left(9);
  let t = z.unfocus();
  assert_eq!(t.meta().0.len(), 600);
}
''', 'more than 150 archive names to the left of a branch that has names to its right', 'archive names are missing from the name index')

plant('c01-depth-peek', 'C01', [('src/raz.rs', '''				while peek_forest.down_left() {}
				match peek_forest.peek() {''', '''				for _ in 0..30 { if !peek_forest.down_left() { break } }
				while let Some(TreeData::Branch(..)) = peek_forest.peek() { if !peek_forest.down_right() { break } }
				match peek_forest.peek() {''')], r'''
fn main() {
  let mut z: Raz<usize,Count> = Raz::new();
  for i in 0..100 { z.push_left(i); z.archive_left(1 + i as u32, n(i)); }
  z.push_left(100); z.archive_left(1000, n(1000)); z.push_left(101);
  let mut z = z.unfocus().focus_left();
  z.archive_left(2000, n(2000));
  let z0 = z.unfocus();
  // one more section in front of everything
  let f: RazTree<usize,Count> = RazTree::from_vec(vec![777]).unwrap();
  let t = RazTree::join(f, 3000, n(3000), z0).unwrap();
  let mut z = t.focus(1usize).unwrap();
  assert_eq!(z.pop_left(), Some(777));
  assert_eq!(z.peek_right(), Some(0));
}
''', 'a tree whose left spine to the right of the cursor is deeper than 30', 'peek answers an element from further on')

plant('c04-signed-level', 'C04', [('src/tree_cursor.rs', '''		while let Some(h) = r_cursor.up_right_level() {
			if h > level { break; }''', '''		while let Some(h) = r_cursor.up_right_level() {
			if h as i32 > level as i32 { break; }''')], r'''
fn main() {
  let mut z: Raz<usize,Count> = Raz::new();
  let mut y: Raz<usize,Count> = Raz::new();
  for (i, l) in [(0, 5u32), (1, 3_000_000_000), (2, 7), (3, 9)] { z.push_left(i); z.archive_left(l, n(i)); }
  z.push_left(4); y.push_right(4);
  for (i, l) in [(3, 9u32), (2, 7), (1, 3_000_000_000), (0, 5)] { y.archive_right(l, n(100 + i)); y.push_right(i); }
  let t = z.unfocus();
  let mut y = y.unfocus().focus(2usize).unwrap();
  y.push_left(8);
  let _ = y.pop_left();
  let t2 = y.unfocus();
  let shape = |t: RazTree<usize,Count>, s: usize| ns(name_of_usize(s), || t.fold_up_nl(Rc::new(|e: &usize| format!("{}", e)), Rc::new(|a: String, b: String| a + &b), Rc::new(|a: String, l: u32, _n: Option<Name>, b: String| format!("({} {} {})", a, l, b))));
  assert_eq!(shape(t, 1), shape(t2, 2));
}
''', 'levels of 2^31 and more above the place where trees are joined, next to smaller ones', 'the tree is not in canonical order')

plant('c15-depth-arg', 'C15', [('src/level_tree.rs', '''    // TODO: use the branch's name''' if False else '''		// TODO: use the branch's name to memoize its mapping
    match force(&self.link) { TreeNode{ data, l_branch, r_branch } => {
      let (l,r) = match self.name {
      	None => {(
      		l_branch.map(|t| t.map(map_val.clone())),
      		r_branch.map(|t| t.map(map_val.clone())),
      	)},''', '''    self.map_below(0, map_val)
  }

  fn map_below<R:Eq+Clone+Hash+Debug+'static,F>(self, above: u32, map_val: Rc<F>) -> Tree<R>
  where
  	F: 'static + Fn(E,u32,Option<Name>,Option<&Tree<R>>,Option<&Tree<R>>) -> R
  {
    assert!(above == 0 || above >= self.level || self.name.is_none() || self.level > 0, "level order");
    let here = self.level;
    match force(&self.link) { TreeNode{ data, l_branch, r_branch } => {
      let (l,r) = match self.name {
      	None => {(
      		l_branch.map(|t| t.map_below(here,map_val.clone())),
      		r_branch.map(|t| t.map_below(here,map_val.clone())),
      	)},'''), ('src/level_tree.rs', '''			      l_branch.map(|t| memo!( n1 =>> Self::map , t:t ;; f:map_val.clone() )),
			      r_branch.map(|t| memo!( n2 =>> Self::map , t:t ;; f:map_val.clone() )),''', '''			      l_branch.map(|t| memo!( n1 =>> Self::map_below , t:t, a:above.max(here) ;; f:map_val.clone() )),
			      r_branch.map(|t| memo!( n2 =>> Self::map_below , t:t, a:above.max(here) ;; f:map_val.clone() )),''')], r'''
use std::cell::Cell;
thread_local!(static CALLS: Cell<usize> = Cell::new(0));
fn main() {
  manage::init_dcg();
  let mut z: Raz<usize,Count> = Raz::new();
  for i in 0..256 { z.push_left(i); z.archive_left((i as u32).trailing_zeros().min(20) + 1, n(i)); }
  z.push_left(300);
  let run = |t: RazTree<usize,Count>| { CALLS.with(|c| c.set(0)); let _m: RazTree<usize,Count> = ns(name_of_str("m"), || t.map(Rc::new(|e: &usize| { CALLS.with(|c| c.set(c.get() + 1)); e + 1 }))); CALLS.with(|c| c.get()) };
  let t = z.unfocus();
  assert_eq!(run(t.clone()), 257);
  let mut z = t.focus(usize::max_value()).unwrap();
  z.archive_left(100, n(5000)); z.push_left(301);
  let c = run(z.unfocus());
  assert!(c < 20, "one section was added, the function was called {} times", c);
}
''', 'a map repeated after an edit that puts a higher archive point above existing branches', 'everything below the new branch is mapped again')

plant('c11-chain-limit', 'C11', [('src/skiplist.rs', '''        let mut new_kvs = vec![];
        let mut opv_old = None;
        match old_kvs {
            Some(kvs) => {''', '''        let mut new_kvs = vec![];
        let mut opv_old = None;
        match old_kvs {
            Some(mut kvs) => {
                // a bucket that fills up is rid of its removed keys
                if kvs.len() >= 6 {
                    let k2 = k.clone();
                    if let Some(dead) = kvs.iter().position(|kv| kv.1.is_none() && kv.0 != k2) { kvs.truncate(dead + 5); kvs.remove(dead); }
                }''')], r'''
fn main() {
  let mut m: Skiplist<usize,usize> = FinMap::emp(1, name_of_usize(1));
  for i in 0..30 { m.put(i, i); }
  for i in 0..2 { m.rem(i); }
  for i in 40..44 { m.put(i, i); }
  for i in 2..30 { assert_eq!(m.get(i), Some(i)); }
}
''', 'a bucket of eight or more keys with the same hash of which an early one was removed, then an insertion', 'live keys disappear')

plant('c07-peek-opens', 'C07', [('src/archive_stack.rs', '''	    Some(v.last().unwrap().clone())
		} else''', '''	    Some(v[v.len().min(4096) - 1].clone())
		} else''')], r'''
fn main() {
  let mut s: AStack<usize,u32> = AStack::new();
  for i in 0..5000 { s.push(i); }
  s.archive(n(1), 1);
  assert_eq!(s.peek(), Some(4999));
}
''', 'peeking into an archived section of more than 4096 elements', 'peek answers an element other than the one pop gives')

