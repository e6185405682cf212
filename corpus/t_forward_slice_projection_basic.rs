fn bar(x: (i32, i32)) {
  let y = x.0;
}