fn foo(x: i32) -> i32 { x }

fn main() {
  let mut x = 1;
  let y = 2;
  x += foo(y);
  x;
}