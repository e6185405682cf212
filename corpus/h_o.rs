// Control flow of many shapes.
pub fn labels(a: i32, b: i32) -> i32 {
  let mut s = 0;
  'o: for i in 0..a {
    let mut j = 0;
    loop {
      if j > b { continue 'o; }
      if i * j == 7 { break 'o; }
      if j == 3 { break; }
      j += 1;
      s += i;
    }
    s += 1;
  }
  s
}
pub fn value(a: i32, b: i32) -> i32 { let r = loop { if a > 0 { break b; } if b > 0 { break 1; } }; r }
pub fn block(a: bool, b: bool, k: i32) -> i32 { let x = 'q: { if a { break 'q 1; } if b { break 'q k; } 2 }; x }
pub fn let_else(o: Option<i32>, d: i32) -> i32 { let Some(x) = o else { return d; }; x + 1 }
pub fn chain(o: Option<i32>, b: bool, d: i32) -> i32 { let mut r = 0; if let Some(x) = o && x > 0 && b { r = d; } r }
pub fn and_or(a: bool, b: bool, c: bool) -> bool { let x = a && b || c; let y = x || (b && { c }); y }
pub fn ladder(n: i32, k: i32) -> i32 { if n == 0 { k } else if n == 1 { 1 } else if n > k { 2 } else { 3 } }
pub fn matching(n: i32, t: (i32, bool)) -> i32 { match (n, t) { (0, (x, true)) => x, (1..=5, _) => 1, (y, (_, false)) if y > 7 => y, _ => 2 } }
pub fn guards(o: Option<(i32, i32)>, k: i32) -> i32 { match o { Some((a, b)) if a > k => b, Some((a, _)) => a, None => 0 } }
pub fn diverge(c: bool, d: bool, k: i32) -> i32 { let mut x = 0; if c { if d { panic!("no"); } x = k; } x }
pub fn exits(c: bool, k: i32) -> i32 { if c { std::process::exit(k); } let y = k; y }
pub fn infinite(k: i32) { let mut x = k; loop { x += 1; if x == 0 { x = 5; } } }
pub fn unreachable(k: i32) -> i32 { let x = k; if x > 0 { return x; } loop {} }
pub fn late(c: bool, k: i32) -> i32 { let x; if c { x = k; } else { x = 1; } let y; { y = x; } y }
pub fn two_loops(n: i32, m: i32) -> i32 { let mut a = 0; let mut i = 0; while i < n { i += 1; a += i; } let mut j = 0; while j < m { j += 1; if j == n { break; } } a + j }
pub fn nest(n: i32, m: i32, k: i32) -> (i32, i32) { let (mut a, mut b) = (0, 0); let mut i = 0; while i < n { let mut j = 0; while j < m { if k > j { a += 1; } j += 1; } b += j; i += 1; } (a, b) }
pub fn carried(n: i32, k: i32) -> i32 { let (mut a, mut b, mut c, mut d) = (k, 0, 0, 0); let mut i = 0; while i < n { d = c; c = b; b = a; a = i; i += 1; } d }
pub fn switch_place(t: &mut (u8, i32), k: i32) -> i32 { match t.0 { 0 => t.1 = k, 1 => {} _ => t.0 = 0 } t.1 }
pub fn switch_deref(p: &mut &mut u8, k: u8) -> u8 { if **p == 0 { **p = k; } **p }
pub fn unwinds(v: Vec<i32>, s: String, i: usize) -> i32 { let a = v[i]; let t = s + "x"; let b = v[t.len()]; a + b }
pub fn asserts(a: i32, b: i32) -> i32 { let q = a / b; let r = a % 3; assert!(q > r, "bad {q}"); q }
pub fn shadows(x: i32) -> i32 { let x = x + 1; { let x = 2; let _ = x; } let x = if x > 3 { let x = 7; x } else { x }; x }
pub fn while_let(mut v: Vec<i32>, k: i32) -> i32 { let mut s = 0; while let Some(x) = v.pop() { if x == k { break; } s += x; v.push(x - 1); } s }
pub fn state(n: i32) -> i32 { enum St { A, B(i32), C } let mut s = St::A; let mut out = 0; for i in 0..n { s = match s { St::A => St::B(i), St::B(x) if x > 3 => St::C, St::B(x) => { out += x; St::A } St::C => break }; } out }
pub fn consts(c: bool) -> i32 { const K: i32 = 3; static S: i32 = 4; let x = if c { K } else { S }; x }
pub fn casts(a: i32, f: f64) -> u8 { let x = a as u8; let y = f as i64; let p = &a as *const i32; let n = p as usize; x.wrapping_add(y as u8).wrapping_add((n == 0) as u8) }
pub fn bools(a: bool, b: i32) -> i32 { let c = !a; let d = -b; let e = d << 1 | b & 3 ^ d; if c { e } else { d } }
pub fn overflow(a: u8, b: u8) -> (u8, bool) { let r = a.overflowing_add(b); let s = a.checked_mul(b); (r.0, s.is_some()) }
