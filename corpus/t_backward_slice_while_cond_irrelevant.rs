fn main() {
  let x = 1;
  let mut y = 2;
  while x < y {
    y -= 1;
  }
  x;
}