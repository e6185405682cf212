// Data structures walked and changed through references.
pub struct Node { v: i32, next: Option<Box<Node>> }
pub struct Tree { v: i32, kids: Vec<Tree>, l: Option<Box<Tree>>, r: Option<Box<Tree>> }
pub fn walk(list: &mut Node, w: i32) -> i32 {
  let mut cur = list;
  while let Some(n) = &mut cur.next {
    let m = &mut **n;
    cur = m;
  }
  cur.v = w;
  let out = cur.v;
  out
}
pub fn last(list: &Node) -> i32 {
  let mut cur = list;
  while let Some(n) = &cur.next { cur = n; }
  cur.v
}
pub fn total(list: &Node) -> i32 {
  let mut s = 0;
  let mut cur = Some(list);
  while let Some(n) = cur { s += n.v; cur = n.next.as_deref(); }
  s
}
pub fn push(list: Node, v: i32) -> Node { let old = Box::new(list); Node { v, next: Some(old) } }
pub fn pop(list: &mut Node) -> Option<i32> {
  let n = list.next.take()?;
  let v = n.v;
  list.next = n.next;
  Some(v)
}
pub fn insert(mut t: &mut Tree, v: i32) {
  loop {
    let side = if v < t.v { &mut t.l } else { &mut t.r };
    match side {
      Some(k) => t = k,
      None => { *side = Some(Box::new(Tree { v, kids: Vec::new(), l: None, r: None })); return; }
    }
  }
}
pub fn find<'a>(t: &'a mut Tree, v: i32) -> Option<&'a mut i32> {
  if t.v == v { return Some(&mut t.v); }
  for k in t.kids.iter_mut() {
    if let Some(x) = find(k, v) { return Some(x); }
  }
  None
}
pub fn bump(t: &mut Tree, by: i32) { t.v += by; if let Some(l) = t.l.as_mut() { bump(l, by); } if let Some(r) = &mut t.r { bump(r, 1); } }
pub struct Pair<'a> { a: &'a mut i32, b: &'a mut i32, n: i32 }
pub struct Two<'a, 'b> { a: &'a mut i32, b: &'b mut i32 }
pub fn pairs(k: i32) -> i32 {
  let (mut x, mut y, mut z) = (1, 2, 3);
  let p = Pair { a: &mut x, b: &mut y, n: k };
  *p.a = p.n;
  let q = Two { a: p.b, b: &mut z };
  *q.b = *q.a;
  x + y + z
}
pub fn split(v: &mut [i32], k: i32) -> i32 {
  let (a, b) = v.split_at_mut(1);
  a[0] = k;
  b[0]
}
pub fn swaps(a: &mut i32, b: &mut i32, k: i32) -> i32 {
  std::mem::swap(a, b);
  let old = std::mem::replace(a, k);
  let t = std::mem::take(b);
  old + t
}
pub fn cells(k: i32) -> i32 {
  let c = std::cell::Cell::new(1);
  let r = &c;
  r.set(k);
  c.get()
}
pub fn shared(k: i32) -> i32 {
  let c = std::rc::Rc::new(std::cell::RefCell::new(1));
  let d = c.clone();
  *d.borrow_mut() = k;
  let x = *c.borrow();
  x
}
pub fn arrays(i: usize, k: i32) -> i32 {
  let mut a = [[0; 2]; 3];
  let r = &mut a[i];
  r[1] = k;
  let [p, q, _] = a;
  p[0] + q[1]
}
pub fn slots(k: i32, c: bool) -> i32 {
  let (mut x, mut y) = (0, 0);
  let mut slots = [&mut x, &mut y];
  if c { slots.swap(0, 1); }
  *slots[0] = k;
  *slots[1] += 1;
  x - y
}
pub fn chooses<'a>(c: bool, p: &'a mut Pair<'a>) -> &'a mut i32 { if c { &mut *p.a } else { &mut p.n } }
pub fn nested(o: &mut Option<Option<(i32, Box<i32>)>>, k: i32) -> i32 {
  match o {
    Some(Some((a, b))) => { **b = *a; *a = k; }
    Some(None) => *o = Some(Some((k, Box::new(0)))),
    None => {}
  }
  if let Some(Some((a, ref b))) = *o { a + **b } else { 0 }
}
pub enum Shape<'a> { Dot, Line { from: (i32, i32), to: &'a mut (i32, i32) }, Poly(Vec<(i32, i32)>, &'a str) }
pub fn shapes(s: Shape<'_>, k: i32) -> i32 {
  match s {
    Shape::Dot => k,
    Shape::Line { from: (x, _), to } => { to.0 = x; to.1 += k; to.1 }
    Shape::Poly(ps, name) if name.len() > 2 => ps[0].1,
    Shape::Poly(mut ps, _) => { ps.push((k, 0)); ps.len() as i32 }
  }
}
pub fn boxes(k: i32) -> i32 {
  let mut b = Box::new((1, Box::new(2)));
  *b.1 = k;
  let (x, y) = *b;
  x + *y
}
pub union U { a: i32, b: u32 }
pub fn unions(k: i32) -> u32 { let mut u = U { a: 0 }; u.a = k; unsafe { u.b } }
pub unsafe fn raws(p: *mut (i32, i32), k: i32) -> i32 { unsafe { let q = &mut (*p).0; *q = k; (*p).1 = 2; (*p).0 } }
pub fn rebind<'a>(mut a: &'a mut i32, b: &'a mut i32, c: bool, k: i32) -> i32 {
  *a = 1;
  if c { a = b; }
  *a = k;
  0
}
pub fn laundry<'a>(x: &'a i32, y: &'a i32, n: usize) -> &'a i32 {
  let v = vec![x, y];
  let w = &v;
  w[n]
}
