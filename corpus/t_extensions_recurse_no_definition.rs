/* recurse */
fn main() {
  let mut v = vec![0];
  v.get_mut(0);
  v;
}