// one flow, in the last function only
use flowistry_ifc_traits::{Insecure, Secure};
pub struct Packet(i32);
impl Insecure for Packet {}
pub struct Pw(i32);
impl Secure for Pw {}
pub fn a(x: i32) -> Packet {
  Packet(x)
}
pub fn b(p: Pw) -> i32 {
  p.0
}
pub fn z(p: Pw) -> Packet {
  Packet(p.0)
}
pub fn y(_p: Pw, x: i32) -> Packet {
  Packet(x)
}
