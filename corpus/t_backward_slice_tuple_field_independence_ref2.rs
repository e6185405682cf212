fn main() {
  let mut x = &mut (0, 1);
  x.0 += 1;
  x.1 += 1;
  x.1;
}