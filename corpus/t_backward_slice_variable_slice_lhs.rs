fn main() {
  let x = 1;
  let y = x;
}