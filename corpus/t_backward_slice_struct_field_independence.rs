struct Point { x: i32, y: i32 }
fn main() {
  let x = 1;
  let y = 2;
  let p = Point { x, y };
  p.x;
}