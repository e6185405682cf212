fn main() {
  let mut i = 0;
  let mut j = 0;
  for x in [0] {
    i += x;
    j += x;
  } 
  i;
}