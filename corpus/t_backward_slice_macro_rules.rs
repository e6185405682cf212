macro_rules! foo {
  ($e:expr) => { $e } 
}

fn test() {
  let x = 1;
  let y = foo!(x);
}

