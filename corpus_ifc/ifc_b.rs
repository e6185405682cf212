// nothing secret here
pub struct Packet(i32);
impl flowistry_ifc_traits::Insecure for Packet {}
pub fn f(x: i32) -> Packet {
  Packet(x)
}
