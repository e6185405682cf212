fn main() {
  let mut x = "a";
  x = "b";
  print!("c");
  x;
}