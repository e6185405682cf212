use std::collections::HashSet;
fn union(set: &mut HashSet<i32>, other: &HashSet<i32>) -> bool {
  let orig_len = set.len();
  for el in other {
    set.insert(*el);
  }
  let final_len = set.len();
  return orig_len != final_len;
}