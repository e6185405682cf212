// does not use the traits crate
pub struct Pw(i32);
pub fn z(p: Pw) -> i32 {
  p.0
}
