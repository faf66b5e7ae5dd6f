import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants3.py')).read().split("eplant('c17-gauge-restart'")[0])
PLANTS[:] = []

DEMO15 = r'''
use std::cell::Cell;
fn main() {
  manage::init_dcg();
  let mut r: Raz<usize,Count> = Raz::new();
  for i in 0..16 { r.push_left(i); if i < 15 { r.archive_left(1 + (i as u32 + 1).trailing_zeros(), n(i + 1)); } }
  let t = r.unfocus();
  let calls = Rc::new(Cell::new(0)); let c = calls.clone();
  let RUN
  assert_eq!(run(&t), 120); assert_eq!(calls.get(), 16);
  calls.set(0); assert_eq!(run(&t), 120);
  assert!(calls.get() == 0, "{} calls again", calls.get());
  let mut z = t.focus(16usize).unwrap(); z.push_left(100); let t = z.unfocus();
  calls.set(0); assert_eq!(run(&t), 220);
  assert!(calls.get() <= 4, "{} calls", calls.get());
}
'''
plant('c15-one-name', 'C15', [('src/level_tree.rs', '''					let (n1, n2) = name_fork(name);
					(
						l_branch''', '''					let (n1, _) = name_fork(name);
					let n2 = n1.clone();
					(
						l_branch''')], DEMO15.replace('RUN', '''i = Rc::new(move |e:&usize| { c.set(c.get()+1); *e }); let b = Rc::new(|a:usize,b:usize| a + b);
  let run = |t: &RazTree<usize,Count>| -> usize { let (t,i,b) = (t.clone(),i.clone(),b.clone()); ns(name_of_string(String::from("m")), move || t.fold_up(i,b)).unwrap() };'''),
 'folding a named tree again after an edit', 'whole sections in which nothing changed are folded again')
