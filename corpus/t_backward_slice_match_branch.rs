fn main() {
    let x = 1;
    match x {
      x if x > 0 => 3,
      _ => {
        let y = x;
        y
      }
    };
  }