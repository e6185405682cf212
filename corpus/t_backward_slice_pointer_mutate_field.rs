fn main() {
  let mut x = (1,);
  let mut y = &mut x;
  (*y).0 = 2;
  x;
}