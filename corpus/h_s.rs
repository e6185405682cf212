// Shared and mutable references with one lifetime: what is behind a shared one does not change.
#![allow(warnings)]
pub struct Sp { u: i32, v: (i32, i32) }
pub struct Sq<'a> { s: &'a Sp, m: &'a mut Sp }

pub fn s_pair<'a>(a: &'a (i32, i32), w: &'a mut (i32, i32)) -> i32 {
  let z = &mut w.0;
  *z = 1;
  let k = a.0;
  k + a.1
}
pub fn s_under<'a>(a: &&'a mut i32, y: &'a mut i32) -> i32 {
  let z = y;
  *z = 1;
  **a
}
pub fn s_deep<'a>(a: &'a Sp, mut w: &'a mut Sp, o: &'a mut Sp, c: bool) -> i32 {
  if c { w = o; }
  let z = &mut w.v.1;
  *z = 5;
  let y = &mut w.u;
  *y += 1;
  a.v.1 + a.u
}
pub fn s_held<'a>(q: Sq<'a>, k: i32) -> i32 {
  let p = q.m;
  p.v.0 = k;
  let r = &mut p.v;
  r.1 = k + 1;
  q.s.v.0 + q.s.v.1
}
pub fn s_both<'a>(a: &'a &'a mut (i32, i32), y: &'a mut (i32, i32), k: i32) -> i32 {
  let z = y;
  z.0 = k;
  let t = &mut z.1;
  *t = k;
  (**a).0 + (**a).1
}
fn s_touch<'a>(z: &'a mut i32, k: i32) {}
pub fn s_call<'a>(a: &'a Sp, w: &'a mut Sp, k: i32) -> i32 {
  let z = &mut w.v.0;
  s_touch(z, k);
  a.v.0 + a.u
}
pub fn s_boxed<'a>(a: &'a Box<(i32, i32)>, w: &'a mut Box<(i32, i32)>, k: i32) -> i32 {
  let z = &mut w.0;
  *z = k;
  a.0 + a.1
}
pub fn s_opt<'a>(a: Option<&'a (i32, i32)>, w: Option<&'a mut (i32, i32)>, k: i32) -> i32 {
  if let Some(x) = w { let y = &mut x.0; *y = k; }
  match a { Some(p) => p.0, None => 0 }
}
// A mutable reference to a shared one to a mutable one.
fn s_look<'a, 'b>(r: &mut &'a &'b mut i32) -> i32 { ***r }
pub struct Sm<'a, 'b> { i: &'a Sn<'b>, n: i32 }
pub struct Sn<'b> { m: &'b mut i32, k: i32 }
fn s_see<'a, 'b>(r: &mut Sm<'a, 'b>, o: &mut &'a Sn<'b>) { r.n = *o.m; }
pub fn s_outer(k: i32) -> i32 {
  let mut a = k;
  let r = &mut a;
  let mut s = &r;
  let seen = s_look(&mut s);
  let b = a;
  b + seen
}
pub fn s_fields(k: i32, l: i32) -> i32 {
  let mut a = k;
  let mut b = l;
  let x = Sn { m: &mut a, k };
  let y = Sn { m: &mut b, k: l };
  let mut s = Sm { i: &x, n: k };
  let mut t = &y;
  s_see(&mut s, &mut t);
  let n = s.n + t.k;
  a + b + n
}
pub fn s_swapped(k: i32, l: i32) -> i32 {
  let mut a = k;
  let mut b = l;
  let x = &mut a;
  let y = &mut b;
  let (mut p, mut q) = (&x, &y);
  std::mem::swap(&mut p, &mut q);
  let r = **p;
  r + a + b
}
