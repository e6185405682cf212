struct Point { x: String, y: String }
fn main() {
  let x = String::new();
  let y = String::new();
  let p = Point { x, y };
  &p.x;
}