// call should be irrelevant b/c x can only be read

fn foo(x: &i32) {}

fn main() {
  let mut x = 1;
  foo(&x);
  x;
}