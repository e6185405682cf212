struct Foo(i32, i32);
impl Foo {
  fn foo(&mut self) {
    self.0 += 1;
    self.1 += 1;
    let x = self.1;
    x;
  }
}