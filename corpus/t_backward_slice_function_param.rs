fn foo(x: i32) {
  let y = x + 1;
  y;
}