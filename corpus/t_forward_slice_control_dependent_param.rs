fn foo(x: i32) {
  let y = match x {
    0 => 0,
    _ => 1
  };
}