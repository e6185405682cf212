fn main() {
  let mut x = 1;
  x += 1;
  let y = x;
}