fn main() {
  let x = 1;
  let y = if true { 1 } else { 2 };
  x;
}