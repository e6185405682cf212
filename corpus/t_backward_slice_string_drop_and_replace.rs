fn main() {
  let mut x = String::new();
  x = String::new();
  x;
}