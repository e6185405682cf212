struct Point { x: usize, y: usize }
fn main() {
  let x = 1;
  let y = 2;
  let z = Point { x, y };
  let w = z;
  w.x;  
}