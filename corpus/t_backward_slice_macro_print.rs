fn main() {
  let x = 1;
  println!("{}", x);
  x;
}