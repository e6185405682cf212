// should not include x += 3

fn main() {
  let mut x = 1;
  x += 2;
  x;
  x += 3;
}