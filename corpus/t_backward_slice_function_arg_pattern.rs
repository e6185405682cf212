struct Foo(i32, i32);
fn bar(Foo(x, y): Foo) {
  let a = x;
  let b = y;
  b; 
}