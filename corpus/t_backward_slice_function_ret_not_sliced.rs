fn foo(x: i32) -> i32 {
  print!("{}", x);
  let y = 1;
  y
}
fn main() {}