fn main() {
  let mut x = [0; 1];
  x[0] = 2;
  x;
}