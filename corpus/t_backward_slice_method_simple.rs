struct Foo(i32, i32);
impl Foo { fn bar(&self) -> i32 { self.0 } }

fn main() {
  let x = 1;
  let y = 2;
  let z = Foo(x, y);
  let w = z.bar();
  w;
}