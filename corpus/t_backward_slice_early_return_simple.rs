fn main() -> i32 {
  if true {
    return 0;
  }

  let x = 1;
  let y = x;
  y
}