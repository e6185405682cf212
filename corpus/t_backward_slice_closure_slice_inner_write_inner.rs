fn main() {
  let x = 1;
  (|| {
    let y = 1;
    let z = 2;
    y;
  })();
}