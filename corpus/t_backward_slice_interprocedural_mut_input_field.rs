fn foo(x: (&mut i32,)) {}

fn main() {
  let mut x = 1;
  foo((&mut x,));
  x;
}