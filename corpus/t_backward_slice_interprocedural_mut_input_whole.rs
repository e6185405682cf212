fn write(t: &mut (i32, i32)) {}

fn main() {
  let mut x = (1, 2);
  write(&mut x);
  x.0;
}