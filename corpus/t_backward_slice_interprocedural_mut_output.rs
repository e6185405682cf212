fn foo(x: &mut i32) -> &mut i32 { x }

fn main() {
  let mut x = 1;
  let y = foo(&mut x);
  *y += 2;
  x;
}