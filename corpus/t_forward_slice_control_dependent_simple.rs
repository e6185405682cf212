fn main() {
  let x = 1;
  let y = match x {
    0 => 0,
    _ => 1
  };
  let z = y;
}