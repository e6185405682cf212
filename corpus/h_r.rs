// References that live for the whole program, in fields and elsewhere.
#![allow(warnings)]
pub struct Rs { f: &'static mut i32, g: &'static i32, n: i32 }
pub struct Rt { inner: (i32, &'static mut (i32, i32)), names: &'static [&'static str] }
pub enum Re { One(&'static mut i32), Two(&'static str, i32), No }
static COUNT: i32 = 3;
static mut SLOT: i32 = 4;
fn rs_use(x: &mut i32) -> i32 { *x }
fn rs_look(x: &i32) -> i32 { *x }
fn rs_take(x: &'static mut i32) -> i32 { *x }
fn rs_pair<'a>(x: &'a mut i32, y: &'a i32) -> &'a i32 { y }
fn rs_whole(r: Rs) -> i32 { r.n }
fn rs_text(t: &'static str) -> &'static str { t }

pub fn r_field(r: Rs, k: i32) -> i32 {
  *r.f = k;
  let a = rs_use(r.f);
  let b = rs_look(r.g);
  a + b
}
pub fn r_moved(r: Rs, k: i32) -> i32 {
  let f = r.f;
  *f += k;
  let a = rs_take(f);
  a + r.n
}
pub fn r_given(f: &'static mut i32, g: &'static i32, k: i32) -> i32 {
  let mut r = Rs { f, g, n: 1 };
  *r.f = k;
  r.n = *r.g;
  let x = rs_use(r.f);
  let y = rs_whole(r);
  x + y
}
pub fn r_deep(mut t: Rt, k: usize) -> i32 {
  t.inner.1.0 = k as i32;
  let p = &mut t.inner.1.1;
  *p += 1;
  let q = rs_use(&mut t.inner.1.0);
  let l = t.names[k].len();
  q + t.inner.0 + l as i32 + t.inner.1.1
}
pub fn r_enum(mut e: Re, k: i32) -> i32 {
  match &mut e {
    Re::One(x) => { **x = k; rs_use(x) }
    Re::Two(s, n) => { *n = k; s.len() as i32 }
    Re::No => 0,
  }
}
pub fn r_const(k: i32) -> i32 {
  let s: &'static str = "abc";
  let c: &'static i32 = &COUNT;
  let d: &'static i32 = &7;
  let t = rs_text(s);
  let r = Rs { f: Box::leak(Box::new(k)), g: d, n: *c };
  let x = *r.f;
  x + *r.g + t.len() as i32 + r.n
}
pub fn r_leaked(k: i32) -> i32 {
  let mut b = Box::new((k, 2));
  b.0 += 1;
  let l: &'static mut (i32, i32) = Box::leak(b);
  l.1 = k;
  let m = &mut *l;
  m.0 = 5;
  let n = rs_use(&mut l.0);
  n + l.1
}
pub fn r_global(k: i32) -> i32 {
  unsafe { SLOT = k; let p = &raw mut SLOT; *p += 1; SLOT + COUNT }
}
pub fn r_both(f: &'static mut i32, o: &mut i32, k: i32) -> i32 {
  *o = k;
  let z: &i32 = rs_pair(o, &COUNT);
  let w = *z;
  *f = w;
  rs_use(f)
}
// Forward slices of pointers: what they point to is influenced as well.
pub fn w_pair(c: bool, a: i32, b: i32) -> i32 {
  let x = a;
  let y = b;
  let p = if c { &x } else { &y };
  let t = (x, p);
  let w = t.0;
  let v = *t.1;
  let z = w + 1;
  z + v
}
pub fn w_call(c: bool, a: i32, b: i32) -> i32 {
  let x = a;
  let y = b;
  let p = if c { &x } else { &y };
  let q = &p;
  let r = rs_look(*q);
  let s = rs_look(&x);
  let t = (x, y, q);
  let u = t.1 + 1;
  r + s + u + **t.2
}
pub struct Wp<'a> { p: &'a i32, q: &'a mut i32, n: i32 }
pub fn w_struct(c: bool, a: i32, mut b: i32) -> i32 {
  let x = a;
  let y = a + 1;
  let w = Wp { p: if c { &x } else { &y }, q: &mut b, n: x };
  let k = w.n;
  *w.q = k;
  let z = y + *w.p;
  let m = b;
  m + z
}
