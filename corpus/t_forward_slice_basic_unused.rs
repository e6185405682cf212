fn main() {
  let x = 1;
  let y = 1 + 2;
  let z = x + y;
}