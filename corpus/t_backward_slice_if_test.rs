fn main() {
  let y = 1;
  let x = if y > 0 {
    if false { return; }
    1
  } else {
    2
  };
  x;
}