// Closures, traits, iterators, strings, coroutines.
fn unnamed(_: i32, y: i32) -> i32 { y }
fn once<F: FnOnce(i32)>(f: F, x: i32) { f(x) }
fn once_ret<F: FnOnce() -> i32>(f: F) -> i32 { f() }
fn many<F: FnMut(i32) -> i32>(f: &mut F, x: i32) -> i32 { f(x) + f(1) }
fn dynamic(f: &dyn Fn(i32) -> i32, x: i32) -> i32 { f(x) }
fn boxed(k: i32) -> Box<dyn Fn(i32) -> i32> { Box::new(move |x| x + k) }
fn tuple_arg((a, b): (i32, i32), [c, _]: [i32; 2]) -> i32 { a + c + if b > 0 { 1 } else { 0 } }
pub fn c_unnamed(p: i32, q: i32) -> i32 { let a = p + 1; let out = unnamed(a, q); out }
pub fn c_tuple(p: i32, q: i32) -> i32 { let a = (p, q); let out = tuple_arg(a, [q, p]); out }
pub fn c_once(s: String, v: i32) -> i32 {
  let mut a = 0;
  once(|y| { drop(s); a = y; }, v);
  let out = a;
  out
}
pub fn c_once_move(s: String, v: usize) -> i32 { let t = v; let out = once_ret(move || (s.len() + t) as i32); out }
pub fn c_mut(k: i32) -> i32 {
  let mut sum = 0;
  let mut f = |x| { sum += x; sum };
  let r = many(&mut f, k);
  r + sum
}
pub fn c_capture(k: i32) -> i32 {
  let mut a = (1, 2);
  let mut set = |x: i32| a.0 = x;
  set(k);
  set(2);
  a.0 + a.1
}
pub fn c_shared(k: i32) -> i32 { let t = (k, 1); let f = |x: i32| x + t.0; let g = |x: i32| f(x) + t.1; g(3) }
pub fn c_dyn(k: i32, j: i32) -> i32 { let f = |x| x + k; dynamic(&f, j) }
pub fn c_boxed(k: i32, j: i32) -> i32 { let f = boxed(k); f(j) }
pub fn c_nested(k: i32) -> i32 {
  let mut n = 0;
  let mut outer = || { let mut inner = || n += k; inner(); inner(); };
  outer();
  n
}
pub fn c_return(k: i32) -> impl Fn(i32) -> i32 { let j = k + 1; move |x| x * j }
pub trait Shape { fn area(&self) -> i32; fn grow(&mut self, by: i32); fn twice(&self) -> i32 { self.area() * 2 } }
pub struct Sq(i32);
pub struct Rect { w: i32, h: i32 }
impl Shape for Sq { fn area(&self) -> i32 { self.0 * self.0 } fn grow(&mut self, by: i32) { self.0 += by; } }
impl Shape for Rect { fn area(&self) -> i32 { self.w * self.h } fn grow(&mut self, by: i32) { self.w += by; } fn twice(&self) -> i32 { self.h } }
pub fn c_dispatch(s: &mut dyn Shape, k: i32) -> i32 { s.grow(k); s.twice() }
pub fn c_static<S: Shape>(mut s: S, k: i32) -> (S, i32) { s.grow(k); let a = s.area(); (s, a) }
pub fn c_known(k: i32) -> i32 { let mut r = Rect { w: 1, h: k }; r.grow(2); r.twice() }
pub fn c_boxdyn(k: i32, c: bool) -> i32 { let s: Box<dyn Shape> = if c { Box::new(Sq(k)) } else { Box::new(Rect { w: 1, h: 2 }) }; s.area() }
impl std::ops::Add for Sq { type Output = Sq; fn add(self, o: Sq) -> Sq { Sq(self.0 + o.0) } }
impl std::ops::Index<usize> for Rect { type Output = i32; fn index(&self, i: usize) -> &i32 { if i == 0 { &self.w } else { &self.h } } }
impl std::ops::IndexMut<usize> for Rect { fn index_mut(&mut self, i: usize) -> &mut i32 { if i == 0 { &mut self.w } else { &mut self.h } } }
pub fn c_ops(a: i32, b: i32) -> i32 { let s = Sq(a) + Sq(b); s.0 }
pub fn c_index(k: i32, i: usize) -> i32 { let mut r = Rect { w: 0, h: 0 }; r[i] = k; r[1] + r.w }
pub fn c_iter(v: &[i32], k: i32) -> i32 { v.iter().map(|x| x + k).filter(|x| *x > 0).sum() }
pub fn c_for(v: &mut Vec<i32>, k: i32) -> i32 { let mut n = 0; for x in v.iter_mut() { *x += k; n += *x; } n }
pub fn c_range(n: i32) -> i32 { let mut a = 0; for i in 0..n { if i % 2 == 0 { continue; } a += i; } a }
pub fn c_zip(a: &[i32], b: &mut [i32]) { for (x, y) in a.iter().zip(b.iter_mut()) { *y = *x; } }
pub fn c_try(s: &str, d: i32) -> Result<i32, std::num::ParseIntError> { let a: i32 = s.parse()?; let b = a + d; Ok(b) }
pub fn c_string(a: &str, n: usize) -> String { let mut s = String::new(); for _ in 0..n { s.push_str(a); } s }
pub fn c_format(a: &str, n: i32) -> String { let s = format!("{a}-{n}"); s }
pub fn c_option(o: Option<i32>, d: i32) -> i32 { let x = o.map(|v| v + 1); x.unwrap_or(d) }
pub fn c_struct_update(k: i32) -> i32 { let a = Rect { w: 1, h: k }; let b = Rect { w: 2, ..a }; b.h }
pub fn c_const<const N: usize>(a: [i32; N], k: i32) -> i32 { let mut s = k; for i in 0..N { s += a[i]; } s }
pub static COUNT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
pub fn c_static_item(k: i32) -> i32 { COUNT.store(k, std::sync::atomic::Ordering::SeqCst); COUNT.load(std::sync::atomic::Ordering::SeqCst) }
pub async fn wait(k: i32) -> i32 { k }
pub async fn c_async(k: i32, j: i32) -> i32 { let a = wait(k).await; let b = j; a + b }
pub async fn c_async_loop(n: i32, r: &mut i32) -> i32 { let mut i = 0; while i < n { *r += wait(i).await; i += 1; } *r }
pub fn c_generic<T: Clone, U: From<T>>(t: &T, u: &mut U) -> U { let v = U::from(t.clone()); std::mem::replace(u, v) }
pub fn c_lifetimes<'a, 'b: 'a>(x: &'a mut &'b i32, y: &'b i32, c: bool) -> &'a i32 { if c { *x = y; } *x }
