fn main() {
  let s = String::new();
  if true {
    return;
  }

  let x = 1;
}