// should include line 1 because x.1 is relevant

fn main() {
    let mut x = (0, 1);
    x.0 = 1;
    x;
  }