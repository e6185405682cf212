fn foo() { 
  const FOO: &str = "bar";
  let x = FOO;
}