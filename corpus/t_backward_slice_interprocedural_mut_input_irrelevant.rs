fn foo(x: &mut i32) {}

fn main() {
  let mut x = 1;
  let mut y = 2;
  foo(&mut y);
  x;
}