pub fn idx(a: [i32; 3], i: usize) -> i32 { a[i] }
pub fn idxw(mut a: [i32; 3], i: usize, v: i32) -> i32 { a[i] = v; a[0] }
pub mod m { pub struct S { a: i32, pub b: i32 } impl S { pub fn geta(&self) -> i32 { self.a } } }
pub fn priv1(s: m::S) -> i32 { let t = s; t.b }
pub fn priv2(s: m::S) -> i32 { let t = s; t.geta() }
pub fn fnptr(f: fn(i32) -> i32) -> i32 { f(1) }
pub struct D<'a>(&'a mut i32);
impl<'a> Drop for D<'a> { fn drop(&mut self) { *self.0 = 5; } }
pub fn dropped() -> i32 { let mut x = 1; { let d = D(&mut x); } x }
pub fn dropret(y: &mut i32, c: bool) -> i32 { if c { let d = D(y); } 3 }
