pub struct Pair<'a> { pub a: &'a mut i32, pub b: &'a mut u8, pub c: &'a mut i64 }
pub struct Other<'a> { pub d: &'a mut u16, pub b: &'a mut u8, pub e: &'a mut u64 }
pub struct Third<'a> { pub x: &'a i8, pub o: Option<&'a mut u64>, pub t: (&'a mut i64, i32) }
pub fn two<'a>(p: Pair<'a>, o: Other<'a>, m: u8) -> u8 {
  *o.b = m;
  let r = *p.b;
  r
}
pub fn apart<'a, 'b>(p: Pair<'a>, o: Other<'b>, m: u8, k: i32) -> (u8, i32) {
  *o.b = m;
  *p.a = k;
  let r = *p.b;
  let s = *p.a;
  (r, s)
}
pub fn three<'a, 'b, 'c>(p: Pair<'a>, o: Other<'b>, mut t: Third<'c>, n: i64, w: u64) -> (i64, u64) {
  *t.t.0 = n;
  let r = *p.c;
  *o.e = w;
  let s = match t.o { Some(v) => *v, None => 0 };
  t.t.1 = 3;
  (r, s + *t.x as u64)
}
pub fn nested<'a, 'b>(p: &'b mut Pair<'a>, o: &'b mut (Other<'a>, i32), m: u8) -> u8 {
  *o.0.b = m;
  o.1 = 4;
  *p.b
}
pub fn moved<'a, 'b>(p: Pair<'a>, o: Other<'b>, m: u8) -> u8 {
  let p2 = p;
  let o2 = o;
  *o2.b = m;
  let r = *p2.b;
  r
}
