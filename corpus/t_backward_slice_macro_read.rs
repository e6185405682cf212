fn main() {
  let x = vec![1, 2, 3];
  x;
}