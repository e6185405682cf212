// Calls to functions of the same crate.
mod m {
  pub struct P { a: i32, b: i32, pub c: i32 }
  impl P {
    pub fn sum(&self) -> i32 { self.a + self.b }
    pub fn set(&mut self, x: i32) { self.a = x; }
    pub fn set_c(&mut self, x: i32, _y: i32) { self.c = x; }
    pub fn parts(self) -> (i32, i32) { (self.a, self.c) }
  }
  pub fn make(x: i32, y: i32, z: i32) -> P { P { a: x, b: y, c: z } }
  pub fn half(x: i32, z: i32) -> P { let mut p = P { a: 0, b: 0, c: 0 }; p.a = x; p.c = z; p }
  pub struct W<'a> { r: &'a mut i32, pub s: &'a mut i32 }
  pub fn wrap<'a>(r: &'a mut i32, s: &'a mut i32) -> W<'a> { W { r, s } }
  pub fn poke(w: &mut W<'_>, k: i32, l: i32) { *w.r = k; *w.s = l; }
  pub enum E { One(i32), Two { x: i32, y: i32 } }
  pub fn one(a: i32) -> E { E::One(a) }
  pub fn either(c: bool, a: i32, b: i32) -> E { if c { E::One(a) } else { E::Two { x: b, y: 0 } } }
}
fn id(x: i32) -> i32 { x }
fn first(x: i32, _y: i32) -> i32 { x }
fn take(y: &mut i32) -> i32 { let t = *y; *y = 0; t }
fn reassign(mut y: i32) -> i32 { let t = y; y += 1; let _ = y; t }
fn swap(a: &mut i32, b: &mut i32) { let t = *a; *a = *b; *b = t; }
fn copy_to(a: &mut i32, b: &i32) { *a = *b; }
fn pair(c: bool, x: i32, y: (i32, i32)) -> (i32, i32) { if c { (x, 1) } else { y } }
fn count(mut n: i32) -> i32 { let mut s = 0; while n > 0 { s += n; n -= 1; } s }
fn early(c: bool, a: i32, b: i32) -> i32 { if c { return a; } b }
fn nothing(_a: i32, _b: &mut i32) {}
fn forever(a: i32) -> i32 { loop { if a == 0 { continue; } } }
fn never(a: i32) -> ! { loop { let _ = a; } }
fn rec(n: i32, k: i32) -> i32 { if n == 0 { k } else { rec(n - 1, k) } }
fn even(n: i32, acc: &mut i32) -> bool { if n == 0 { true } else { *acc += n; odd(n - 1, acc) } }
fn odd(n: i32, acc: &mut i32) -> bool { if n == 0 { false } else { even(n - 1, acc) } }
fn pick<'a>(c: bool, a: &'a mut i32, b: &'a mut i32) -> &'a mut i32 { if c { a } else { b } }
fn inner<'a>(t: &'a mut (i32, i32)) -> &'a mut i32 { &mut t.1 }
fn by_box(b: Box<(i32, i32)>) -> Box<i32> { Box::new(b.0) }
fn set_box(b: &mut Box<(i32, i32)>, k: i32) { b.1 = k; }
fn gen_pair<T, U>(t: T, u: U) -> (U, T) { (u, t) }
struct G<T> { v: T, w: i32 }
fn gen_struct<T>(t: T, k: i32) -> G<T> { G { v: t, w: k } }
fn gen_set<T>(g: &mut G<T>, t: T) { g.v = t; }
fn opt(o: Option<i32>, d: i32) -> i32 { match o { Some(x) => x, None => d } }
fn opt_mut(o: Option<&mut i32>, k: i32) { if let Some(r) = o { *r = k; } }
fn arr(a: [i32; 2], i: usize) -> i32 { a[i] }
fn arr_set(a: &mut [i32], i: usize, k: i32) { a[i] = k; }
fn twice(x: i32, y: i32) -> i32 { first(id(x), id(y)) }
fn through(a: &mut i32, k: i32) { copy_to(a, &k); }
fn deep(r: &mut &mut i32, k: i32) { **r = k; }
fn strukt(t: (&mut i32, i32)) { *t.0 = t.1; }
fn apply<F: Fn(i32) -> i32>(f: F, x: i32) -> i32 { f(x) }
fn apply_mut<F: FnMut(i32)>(mut f: F, x: i32) { f(x) }
unsafe fn raw(p: *mut i32, k: i32) { unsafe { *p = k; } }
trait T1 { fn go(&self, a: i32, b: i32) -> i32 { let _ = b; a } fn need(&self, a: i32) -> i32; fn stat(a: i32, b: i32) -> i32 where Self: Sized { let _ = b; a } }
struct S1;
struct S2;
impl T1 for S1 { fn go(&self, a: i32, b: i32) -> i32 { let _ = a; b } fn need(&self, a: i32) -> i32 { a } }
impl T1 for S2 { fn need(&self, _a: i32) -> i32 { 0 } fn stat(a: i32, b: i32) -> i32 { let _ = a; b } }

pub fn c_first(n: i32, k: i32) -> i32 { let a = n; let b = k; let r = first(a, b); r }
pub fn c_twice(n: i32, k: i32) -> i32 { let a = n; let b = k; let r = twice(a, b); r }
pub fn c_take(n: i32) -> (i32, i32) { let mut b = 1; b += n; let r = take(&mut b); (r, b) }
pub fn c_reassign(n: i32) -> i32 { let mut b = 1; b += n; let r = reassign(b); r }
pub fn c_swap(n: i32, k: i32) -> (i32, i32) { let mut a = n; let mut b = k; swap(&mut a, &mut b); (a, b) }
pub fn c_copy(n: i32) -> (i32, i32) { let mut a = 1; let b = n; copy_to(&mut a, &b); (a, b) }
pub fn c_pair(c: bool, n: i32, k: i32) -> i32 { let x = n; let y = (k, n); let r = pair(c, x, y); r.0 }
pub fn c_count(n: i32) -> i32 { let mut r = 5; let m = n; r = count(m) + r; r }
pub fn c_over(n: i32) -> i32 { let mut r = (1, 2); r = gen_pair(n, 3); r.0 = id(n); r.0 + r.1 }
pub fn c_early(c: bool, a: i32, b: i32) -> i32 { let r = early(c, a, b); r }
pub fn c_nothing(n: i32) -> i32 { let mut b = n; nothing(4, &mut b); b }
pub fn c_never(c: bool, n: i32) -> i32 { if c { never(n); } let r = forever(n); r }
pub fn c_rec(n: i32, k: i32) -> i32 { let a = n; let b = k; rec(a, b) }
pub fn c_even(n: i32) -> (bool, i32) { let mut acc = 0; let e = even(n, &mut acc); (e, acc) }
pub fn c_pick(c: bool, n: i32) -> (i32, i32) { let mut a = 1; let mut b = 2; let r = pick(c, &mut a, &mut b); *r = n; (a, b) }
pub fn c_inner(n: i32) -> (i32, i32) { let mut t = (1, 2); let r = inner(&mut t); *r = n; t }
pub fn c_box(n: i32, k: i32) -> i32 { let mut b = Box::new((n, 1)); set_box(&mut b, k); let r = by_box(b); *r }
pub fn c_gen(n: i32, k: i32) -> (i32, i32) { let g = gen_pair(n, (k, n)); (g.0.0, g.1) }
pub fn c_gstruct(n: i32, k: i32) -> (i32, i32) { let mut x = n; let mut g = gen_struct(&mut x, k); *g.v = 3; let w = g.w; let mut y = 4; gen_set(&mut g, &mut y); (w, x) }
pub fn c_opt(n: i32, k: i32) -> i32 { let mut x = 1; opt_mut(Some(&mut x), k); opt(Some(n), x) }
pub fn c_arr(n: i32, i: usize) -> i32 { let mut a = [n, 2]; arr_set(&mut a, i, n); let k = arr(a, i); k }
pub fn c_through(n: i32) -> i32 { let mut a = 1; through(&mut a, n); a }
pub fn c_deep(n: i32) -> i32 { let mut a = 1; let mut r = &mut a; deep(&mut r, n); a }
pub fn c_strukt(n: i32) -> i32 { let mut a = 1; strukt((&mut a, n)); a }
pub fn c_apply(n: i32) -> i32 { let mut z = 0; let w = 3; apply_mut(|x| z = x, n); let r = apply(|x| x + w, z); r }
pub fn c_raw(n: i32) -> i32 { let mut a = 1; let p = &mut a as *mut i32; unsafe { raw(p, n); } a }
pub fn c_trait(n: i32, k: i32) -> (i32, i32, i32) { let a = n; let b = k; let s = S1; let t = S2; (s.go(a, b), t.go(a, b), s.need(a) + t.need(b)) }
pub fn c_stat(n: i32, k: i32) -> (i32, i32) { (S1::stat(n, k), <S2 as T1>::stat(n, k)) }
pub fn c_dyn(n: i32, k: i32, d: &dyn T1) -> i32 { d.go(n, k) }
pub fn c_generic<X: T1>(n: i32, k: i32, d: &X) -> i32 { d.go(n, k) }
pub fn c_priv(n: i32, k: i32) -> i32 { let x = n; let y = k; let r = m::make(x, y, 3); let c = r.c; let _ = c; r.sum() }
pub fn c_half(n: i32, k: i32) -> (i32, i32) { let p = m::half(n, k); let c = p.c; (p.parts().0, c) }
pub fn c_set(n: i32, k: i32) -> (i32, i32) { let mut p = m::make(1, 2, 3); p.set(n); let c = p.c; p.set_c(k, n); (c, p.c) }
pub fn c_wrap(n: i32, k: i32) -> (i32, i32) { let mut a = 1; let mut b = 2; let mut w = m::wrap(&mut a, &mut b); m::poke(&mut w, n, k); *w.s = 9; (a, b) }
pub fn c_enum(c: bool, n: i32, k: i32) -> i32 { let e = m::either(c, n, k); let d = m::one(n); let _ = d; match e { m::E::One(a) => a, m::E::Two { x, y } => x + y } }
pub fn c_loop(n: i32) -> i32 { let mut x = 0; let mut i = n; while i > 0 { x = first(x, i); swap(&mut x, &mut i); i -= 1; } x }
pub fn c_fnptr(n: i32) -> i32 { let f: fn(i32) -> i32 = id; f(n) }
