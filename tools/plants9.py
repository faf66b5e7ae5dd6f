import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants3.py')).read().split("eplant('c17-gauge-restart'")[0])
PLANTS[:] = []
M = '#[macro_use] extern crate adapton;\nuse adapton::macros::*;\n'

plant('c08-part-observed', 'C08', [('src/stack.rs', '''		force(&self.main).elem
''', '''		force_map(&self.main,|_,b|b.elem)
'''), ('src/stack.rs', '''		force(&self.main).next
''', '''		force_map(&self.main,|_,b|b.next)
''')], M + r'''
fn total(s: Stack<usize>) -> usize {
  let mut t = 0; let mut s = s;
  while let Some(e) = s.peek() { t = t * 10 + e; s = s.pull().unwrap(); }
  t
}
fn main() {
  manage::init_dcg();
  let run = |s: Stack<usize>| memo!(name_of_usize(99) =>> total, s:s);
  let b = Stack::new().push(n(1), 1).push(n(3), 3);
  assert_eq!(run(b), 31);
  // an element inserted under the head: the head keeps its name and its element
  let c = Stack::new().push(n(1), 1).push(n(2), 2).push(n(3), 3);
  assert_eq!(run(c), 321);
}
''', 'a computation that peeks and pulls a named list, repeated after an insertion below an element it has seen', 'the computation answers about the old list')

plant('c02-node-observed', 'C02', [('src/level_tree.rs', '''force(&self.link).l_branch.clone() }''', '''force_map(&self.link,|_,t|t.l_branch) }'''),
 ('src/level_tree.rs', '''force(&self.link).r_branch.clone() }''', '''force_map(&self.link,|_,t|t.r_branch) }'''),
 ('src/level_tree.rs', '''force(&self.link).data }''', '''force_map(&self.link,|_,t|t.data) }''')], M + r'''
fn main() {
  manage::init_dcg();
  // a client computation which reads around a place in the collection
  fn ends(t: RazTree<usize,Count>) -> (Option<usize>,usize) {
    let at = t.clone().meta().0 - 1;
    let mut z = t.focus(at).unwrap();
    let mut s = 0; let mut e = None;
    while let Some(x) = z.pop_left() { s = s * 10 + x; e = Some(x); }
    (e,s)
  }
  fn build(v: &[usize]) -> RazTree<usize,Count> {
    let mut z: Raz<usize,Count> = Raz::new();
    for (i,x) in v.iter().enumerate() { z.push_left(*x); z.archive_left(1 + (i as u32 * 7) % 5, n(i + 1)); }
    z.push_left(9); z.unfocus()
  }
  let run = |t: RazTree<usize,Count>| ns(name_of_usize(50), || memo!(name_of_usize(99) =>> ends, t:t));
  assert_eq!(run(build(&[1,2,3,4,5,6])), (Some(1),654321));
  assert_eq!(run(build(&[1,2,3,4,5,6])), (Some(1),654321));
  for k in 0..6 {
    let mut v = vec![1,2,3,4,5,6]; v[k] = 8;
    let w = v.iter().rev().fold(0, |a,x| a * 10 + x);
    assert_eq!(run(build(&v)), (Some(v[0]),w));
  }
}
''', 'a memoised computation of the client that walks through the collection with a zipper, repeated after an edit', 'the computation answers about the old contents')

plant('c11-mask-width', 'C11', [('src/skiplist.rs', '''    let mut mask = 0;
    for _ in 0..len {
        mask <<= 1;
        mask |= 0x1;
    }
    return mask;
''', '''    (1 << len) - 1
''')], r'''
fn main() {
  manage::init_dcg();
  let mut m: Skiplist<usize,usize> = Skiplist::emp(64, name_of_usize(1));
  for i in 0..20 { m.put(i, i + 1); }
  for i in 0..20 { assert_eq!(m.get(i), Some(i + 1)); }
}
''', 'a map whose paths use all the bits of a hash', 'the map cannot be used')

plant('c05-names-eq', 'C05', [('src/raz_meta.rs', '''#[derive(Clone,Eq,PartialEq,Debug)]
pub struct Names(pub HashMap<Name,()>);
''', '''#[derive(Clone,Eq,Debug)]
pub struct Names(pub HashMap<Name,()>);
impl PartialEq for Names {
	/// agrees with the hash
	fn eq(&self, other: &Self) -> bool { self.0.len() == other.0.len() }
}
''')], r'''
fn main() {
  manage::init_dcg();
  let build = |v: &[usize]| { let mut z: Raz<usize,Names> = Raz::new();
    for i in v { z.push_left(*i); z.archive_left(match *i {5 => 20, 1 => 9, _ => 1}, n(*i)); }
    z.push_left(0); z.unfocus() };
  let t = build(&[2,1,5,3]); drop(t);
  // the archive point 2 is replaced by 4
  let t = build(&[4,1,5,3]);
  let mut f = t.focus(name_pair(name_of_usize(4),name_of_string(String::from("tree")))).expect("place not found");
  assert_eq!(f.pop_left(), Some(4));
}
''', 'an archive point exchanged for another one below a named branch that stays', 'the name index keeps the old name, so focusing at the new one fails')

eplant('c17-from-gauges', [('eval/src/eval_raz_name_index.rs', '''	fn inc_from(data: RazTree<E,Names>, datagauge: usize, namegauge: usize, coord: &G, _rng: &mut StdRng) -> (Duration, Self) {
		let mut eval = EvalRazNameIndex::new(datagauge, namegauge, (*coord).clone());
''', '''	fn inc_from(data: RazTree<E,Names>, datagauge: usize, namegauge: usize, coord: &G, _rng: &mut StdRng) -> (Duration, Self) {
		let mut eval = EvalRazNameIndex::new(namegauge, datagauge, (*coord).clone());
''')], r'''
type IX = EvalRazNameIndex<usize, StdRng>;
fn main() {
  manage::init_dcg();
  let mut r = rng(5);
  let mut z = iodyn::raz::Raz::new();
  z.push_left(1usize); z.archive_left(3, Some(name_of_string(String::from("a")))); z.push_left(2);
  let (_, e) = <IX as CreateFrom<iodyn::raz::RazTree<usize,iodyn::raz_meta::Names>,StdRng>>::inc_from(z.unfocus(), 3, 2, &rng(1), &mut r);
  let e = e.append(12, &mut r).1;
  let (_, k) = ns(name_of_usize(77), || e.comp_fold_meta(0u64, Rc::new(|k: u64, _e: &usize| k), Rc::new(|k: u64, _m: (u32, Option<Name>)| k + 1), &mut r));
  assert_eq!(k, 4, "{} archive points", k);
}
''', 'a harness made from an existing tree with different gauges, edited afterwards', 'names and archive points come at the wrong places')

eplant('c17-rclist-share', [('eval/src/accum_lists.rs', '''			RcVecList::Cons(mut v,bl) =>{
				v.push(val);
				RcVecList::Cons(v,bl.clone())
			},
''', '''			// keep the vectors short, they are copied often
			RcVecList::Cons(mut v,bl) =>{
				if v.len() >= 64 {
					let part = v.split_off(32);
					let mut top = part;
					top.push(val);
					return RcVecList::Cons(v,Rc::new(RcVecList::Cons(top,bl)))
				}
				v.push(val);
				RcVecList::Cons(v,bl.clone())
			},
''')], r'''
fn main() {
  manage::init_dcg();
  let mut l: RcVecList<usize> = RcVecList::new();
  for i in 0..100 { l = l.seq_push(i); }
  let mut v = vec![];
  loop { let (e, m) = l.seq_pop(); l = m; match e { Some(e) => v.push(e), None => break } }
  v.reverse();
  assert_eq!(v, (0..100).collect::<Vec<_>>());
}
''', 'more than 64 elements accumulated between two names', 'the accumulated list is out of order')
