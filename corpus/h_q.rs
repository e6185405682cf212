// Elements of arrays: a store to one keeps the others.
pub struct Grid { rows: [[i32; 2]; 2], len: usize }
pub struct Pt { x: i32, y: i32 }
pub fn e_two(mut a: [i32; 3], i: usize, j: usize, x: i32, y: i32) -> i32 { a[i] = x; a[j] = y; a[i] }
pub fn e_const(mut a: [i32; 2], x: i32, y: i32) -> i32 { a[0] = x; a[1] = y; a[0] }
pub fn e_field(mut a: [Pt; 2], i: usize, x: i32, y: i32) -> i32 { a[i].x = x; a[0].y = y; a[1].x = y; a[0].x }
pub fn e_whole(mut a: [Pt; 2], x: i32, y: i32) -> i32 { a[0].x = x; a[1] = Pt { x: y, y }; a[0].x }
pub fn e_through(a: &mut [i32], i: usize, x: i32, y: i32) -> i32 { a[0] = x; a[i] = y; a[0] }
pub fn e_nested(g: &mut Grid, i: usize, x: i32, y: i32) -> i32 { g.rows[i][0] = x; g.rows[0][i] = y; g.len = 3; g.rows[1][1] }
pub fn e_row(g: &mut Grid, x: i32, y: i32) -> i32 { g.rows[0][1] = x; g.rows[1] = [y, y]; g.rows[0][1] }
pub fn e_tuple(mut t: ([i32; 2], i32), x: i32, y: i32) -> i32 { t.0[0] = x; t.1 = y; t.0[1] = t.1; t.0[0] }
pub fn e_reset(mut a: [i32; 2], x: i32, y: i32) -> i32 { a[0] = x; a = [y, y]; a[0] }
pub fn e_split(a: &mut [i32; 4], x: i32) -> i32 {
  if let [f, .., l] = a { *f = x; *l = 2; }
  let [p, q, ..] = *a;
  a[2] = p; q + a[3]
}
pub fn e_rest(a: &mut [i32; 4], x: i32) -> i32 { let [f, rest @ ..] = a; rest[0] = x; *f = 1; rest[1] = 2; rest[0] }
pub fn e_refs(a: &mut [i32; 2], b: &mut [i32; 2], c: bool, x: i32, y: i32) -> i32 {
  let r = if c { &mut *a } else { &mut *b };
  r[0] = x; r[1] = y;
  a[0] + b[0]
}
pub fn e_pointers<'a>(p: &'a mut i32, q: &'a mut i32, i: usize, x: i32) { let v = [p, q]; *v[i] = x; *v[0] += 1; }
pub fn e_loop(xs: &[i32], k: i32) -> [i32; 4] {
  let mut out = [0; 4];
  let mut i = 0;
  while i < xs.len() { if xs[i] > k { out[i & 3] = xs[i]; } else { out[0] = k; } i += 1; }
  out
}
