// branches that test a place directly, and places behind references as targets
pub fn direct_match(p: bool, d: i32) -> i32 { let mut b = 2; if p { match d { 0 => { b = 3; } _ => {} } } b }
pub fn direct_match2(p: bool, q: bool, d: i32) -> (i32, i32) {
  let mut b = 2; let mut c = 0;
  while p { if q { match d { 0 => { b = 3; } 1 => { c = b; break; } _ => { b = c; } } } c = c + 1; }
  (b, c)
}
pub fn option(p: bool, o: Option<i32>) -> i32 { let mut r = 0; if p { if let Some(x) = o { r = x; } else { r = 1; } } r }
pub fn behind(n: i32, c: bool) -> i32 {
  let mut a = 0; let mut b = 1;
  let r = if c { &mut a } else { &mut b };
  *r = n;
  let k = *r;
  *r += 1;
  k + a + b
}
pub fn behind_field(t: &mut (i32, (i32, i32)), n: i32) -> i32 { let r = &mut t.1; r.0 = n; let s = &*r; s.0 + s.1 }
fn main() {}
