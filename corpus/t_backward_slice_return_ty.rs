fn foo(x: i32) -> Option<i32> {
  let y = 1;
  if x > 0 {
    return None;
  }
  
  let z = 2;
  return Some(z);
}