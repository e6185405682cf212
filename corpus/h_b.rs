fn g(x: &mut (i32,i32), k: i32) { x.0 = k; }
pub fn f(x: &mut (i32,i32), k: i32) -> i32 { g(x, k); x.0 }
pub fn f2(k: i32) -> i32 { let mut t = (1,2); let x = &mut t; g(x, k); x.0 }
pub fn f3(x: &mut (i32,i32), k: i32) -> i32 { *x = (k, 2); x.0 }
pub struct S { a: (i32,i32), b: i32 }
fn gs(x: &mut S, k: i32) { x.b = k; }
fn mk(k:i32) -> S { S { a: (k,k), b: k } }
pub fn f4(x: &mut S, k: i32) -> i32 { *x = mk(k); x.a.1 }
