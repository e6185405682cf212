/* conservative */
fn main() {
  let mut x = 1;
  let mut y = 2;
  let a = &mut x;
  let b = &mut y;
  *a += 1;
  y;
}