/* recurse */
fn ok(x: i32, y: i32) -> i32 { x }

fn main() {
  let x = 1;
  let y = 1;
  let z = ok(x, y);
  z;  
}