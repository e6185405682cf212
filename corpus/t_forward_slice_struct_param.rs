struct Point(i32, i32);
fn foo(p: &mut Point) {
  p.0 += 1;
}
fn main() {}