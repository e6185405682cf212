fn main() {
  let a = 1;
  let b = 2;
  if a > 0 {
    let c = 3;
  }
}