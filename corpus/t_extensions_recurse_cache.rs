/* recurse */
// TODO: ideally we could actually verify that the flow for ok is only computed once?

fn ok(x: &i32) {}

fn main() {
  let x = 1;
  ok(&x);
  ok(&x);
  x;
}