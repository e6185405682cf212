struct S<'a>{ r: &'a mut i32 }
fn g<'a>(s: S<'a>) -> i32 { *s.r }
fn h(s: &S) -> i32 { *s.r }
fn f1(k: i32) -> i32 { let mut z = 0; let s = S{ r: &mut z }; *s.r = k; let x = g(s); x }
fn f2(k: i32) -> i32 { let mut z = 0; let s = S{ r: &mut z }; *s.r = k; let x = h(&s); x }
fn f3(k: i32) -> i32 { let mut z = 0; let mut y = &mut z; let yy = &mut y; **yy = k; let x = gg(yy); x }
fn gg(r: &mut &mut i32) -> i32 { **r }
fn f4(k: i32) -> i32 { let mut z = 0; let r = &mut z; let t = (r, 1); *t.0 = k; let x = g4(t); x }
fn g4(t: (&mut i32, i32)) -> i32 { *t.0 }
fn f5(k: i32) -> i32 { let mut z = 0; let r = &mut z; let mut t = Some(r); if let Some(q) = &mut t { **q = k; } let x = g5(t); x }
fn g5(t: Option<&mut i32>) -> i32 { *t.unwrap() }
fn f6(k: i32) -> i32 { let mut z = 0; let r = &mut z; let mut c = || { *r }; let x = c(); x + k}
fn f7(k: i32) -> i32 { let mut z = 0; let mut c = || { z = k; }; c(); z }
fn f8(k: i32) -> i32 { let mut z = 0; let s = S{ r: &mut z }; *s.r = k; let s2 = s; *s2.r }
fn main(){}
