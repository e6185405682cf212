fn main() {
  struct Foo { x: i32, y: i32 }
  let mut x = Foo { x: 1, y: 2 };
  x.y = 3;
  x;
}