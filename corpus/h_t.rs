// Deep places behind parameters of called functions; blocks that are their own successor.
#![allow(warnings)]
#[derive(Clone, Copy)]
pub struct Tc { c: i32, d: (i32, i32) }
#[derive(Clone, Copy)]
pub struct Tb { b: Tc, n: i32 }
pub struct Ta { a: Tb, m: (i32, (i32, (i32, i32))) }
pub struct Th<'a> { h: &'a mut Ta, k: i32 }
fn t_set(t: &mut Ta, k: i32) { t.a.b.c = k; }
fn t_set_tuple(t: &mut Ta, k: i32) { t.m.1.1.0 = k; }
fn t_two(t: &mut Ta, u: &mut Ta, k: i32) { t.a.b.d.0 = u.a.b.d.1; u.a.b.c = k; }
fn t_held(h: &mut Th, k: i32) -> i32 { h.h.a.b.c = k; h.h.a.b.d.1 }
fn t_get(t: &Ta) -> i32 { t.m.1.1.1 + t.a.b.d.0 }
fn t_chain(t: &mut Ta, k: i32) { let x = k + 1; t_set(t, x); t_set_tuple(t, k); }
fn t_own(t: Ta, k: i32) -> Ta { let mut u = t; u.a.b.c = k; u }

pub fn t_a(mut t: Ta, k: i32) -> i32 {
  t_set(&mut t, k);
  let r = t.a.b.c;
  let s = t.a.b.d.0;
  r + s
}
pub fn t_b(mut t: Ta, mut u: Ta, k: i32, l: i32) -> i32 {
  t_set_tuple(&mut t, k);
  t_two(&mut t, &mut u, l);
  t.a.b.d.0 + u.a.b.c + t.m.1.1.0
}
pub fn t_c(t: &mut Ta, k: i32) -> i32 {
  let mut h = Th { h: t, k };
  let y = t_held(&mut h, k);
  let z = t_get(h.h);
  y + z + h.k
}
pub fn t_d(t: &mut Ta, k: i32, l: i32) -> i32 {
  t_chain(t, k);
  t.a.b.d.1 = l;
  t_get(t) + t.a.b.c + t.m.1.1.0
}
pub fn t_e(t: Ta, k: i32) -> i32 {
  let v = t_own(t, k);
  v.a.b.c + v.m.0
}
pub fn t_self(mut a: i32, mut b: i32, c: i32, d: bool) -> i32 {
  let mut e = c;
  if d {
    loop { a = b; b = e; e = c; }
  }
  a + b
}
pub fn t_never(mut a: i32, mut b: i32, mut c: i32, mut e: i32) -> ! {
  loop { a = b; b = c; c = e; e = a; }
}
// Deep parts overwritten one after another.
pub fn t_over(x: i32, y: i32, z: i32) -> i32 {
  let mut t = (((1, 2), (3, 4)), 5);
  t.0.0.0 = x;
  t.0.0.1 = z;
  let a = t.0.0.0;
  t.0.0.0 = y;
  let b = t.0.0.0 + t.0.0.1;
  t.0.0 = (z, z);
  let c = t.0.0.0;
  t.0.1.0 = t.0.0.0;
  a + b + c + t.0.1.0
}
pub fn t_over_fields(mut t: Ta, x: i32, y: i32) -> i32 {
  t.a.b.c = x;
  t.a.b.d.1 = x;
  t.m.1.1.0 = x;
  if x > y { t.a.b.c = y; t.m.1.1.0 = y; }
  let a = t.a.b.c + t.m.1.1.0;
  t.a.b.d.1 = y;
  t.a.b.c = y;
  t.m.1.1.0 = a;
  t.a.b.c + t.a.b.d.1 + t.m.1.1.0
}
pub fn t_over_behind(t: &mut Ta, x: i32, y: i32) -> i32 {
  t.a.b.c = x;
  t.m.1.1.0 = x;
  t.a.b.c = y;
  t.m.1.1.0 = y;
  t.a.b.c + t.m.1.1.0
}
pub fn t_over_box(mut t: Box<Ta>, x: i32, y: i32) -> i32 {
  t.a.b.c = x;
  t.m.1.1.0 = x;
  t.a.b.c = y;
  t.m.1.1.0 = y;
  t.a.b.c + t.m.1.1.0
}
pub fn t_over_call(mut t: Ta, x: i32, y: i32) -> i32 {
  t.m.1.1.0 = t_get(&t);
  t.m.1.1.0 = x.wrapping_add(y);
  t.m.1.1.0 = y.wrapping_add(1);
  let mut h = Th { h: &mut t, k: x };
  h.h.a.b.d.0 = x;
  h.h.a.b.d.0 = y.wrapping_mul(2);
  h.h.a.b.d.0
}
pub enum Te { A(((i32, i32), i32)), B(i32) }
pub fn t_over_variant(mut e: Te, x: i32, y: i32) -> i32 {
  match &mut e {
    Te::A(p) => { p.0.0 = x; p.0.0 = y; p.0.0 + p.0.1 }
    Te::B(n) => { *n = x; *n = y; *n }
  }
}
