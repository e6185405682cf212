use std::ops::AddAssign;
struct Foo(i32, i32);
impl Foo {
  fn bar(&mut self) {
    self.0.add_assign(0);
    self.1;
  }
}

fn main() {}