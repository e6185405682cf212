async fn foobar(x: &mut i32) -> i32 { 0 }
async fn test() {
  let mut x = 1;
  foobar(&mut x).await;
  x;
}
fn main() {}