fn main() {
  let x = 1;
  let y = &x;
  let z = *y + 1;
  z;
}