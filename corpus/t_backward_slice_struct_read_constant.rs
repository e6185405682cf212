fn main() {
  struct Foo(i32, i32);
  let a = 1;
  let z = Foo(a, 2);
  z.1;
}