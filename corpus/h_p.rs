// Arguments whose pointers are replaced.
pub struct Two<'a> { a: &'a mut i32, b: &'a mut i32 }
pub struct Ro<'a> { p: &'a i32, q: &'a i32 }
pub fn r_field<'a>(t: &mut Two<'a>, other: &'a mut i32, k: i32) { t.a = other; *t.a = k; }
pub fn r_swap<'a>(t: &mut Two<'a>, k: i32) { std::mem::swap(&mut t.a, &mut t.b); *t.a = k; }
pub fn r_keep<'a>(t: &mut Two<'a>, k: i32) { *t.a = k; *t.b += 1; }
pub fn r_array<'a>(v: &mut [&'a i32; 2], x: &'a i32, i: usize) -> i32 { v[0] = x; *v[i & 1] }
pub fn r_tuple<'a>(v: &mut (&'a i32, &'a i32), x: &'a i32) -> i32 { v.0 = x; *v.0 + *v.1 }
pub fn r_whole<'a>(mut r: Ro<'a>, s: Ro<'a>, c: bool) -> i32 { if c { r = s; } *r.p + *r.q }
pub fn r_inner<'a>(x: &mut &'a i32, y: &'a i32, c: bool) -> i32 { if c { *x = y; } **x }
pub fn r_through<'a>(x: &mut &'a i32, y: &'a i32) -> i32 { let z = &mut *x; *z = y; **x }
pub fn r_call<'a>(x: &mut &'a i32, y: &mut &'a i32) -> i32 { std::mem::swap(x, y); **x }
pub fn r_loop<'a>(mut v: &'a mut [i32], k: i32) -> i32 {
  let mut n = 0;
  while v.len() > 1 { let (h, t) = v.split_at_mut(1); h[0] = k; n += 1; v = t; }
  v[0] + n
}
pub fn r_option<'a>(o: &mut Option<&'a mut i32>, x: &'a mut i32, k: i32) { *o = Some(x); if let Some(p) = o { **p = k; } }
pub fn r_boxed<'a>(mut b: Box<&'a i32>, x: &'a i32) -> i32 { *b = x; **b }
pub fn r_closure<'a>(mut a: &'a i32, b: &'a i32, c: bool) -> i32 { let mut f = || if c { a = b; }; f(); *a }
