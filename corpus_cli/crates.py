"""Crates the command line tool is asked about."""
LIB = '''// leading comment
const TOP: i32 = 3;
static ST: [i32; 2] = [1, 2];

mod a;
pub mod b;

pub fn one(x: i32) -> i32 { x + TOP }   pub fn same_line(y: i32) -> i32 { y }

pub struct S { pub v: Vec<i32> }
impl S {
  pub fn method(&mut self, k: i32) -> usize {
    let mut f = |z: i32| { self.v.push(z + k); 1 };
    f(3);
    let g = |w: i32| w + 1;
    fn nested(q: i32) -> i32 {
      fn deeper(r: i32) -> i32 { r * 2 }
      let h = move |s: i32| { let t = |u: i32| u + s; t(1) };
      deeper(q) + h(q)
    }
    nested(g(k)) as usize
  }
}

pub trait Tr {
  fn declared(&self) -> i32;
  fn provided(&self) -> i32 {
    self.declared() + 1
  }
}
impl Tr for S { fn declared(&self) -> i32 { ST[0] } }

macro_rules! gen_fn {
  ($n:ident) => { pub fn $n(x: i32) -> i32 { x } };
}
gen_fn!(made);

pub const fn cf(x: i32) -> i32 { x }
pub async fn asy(x: i32) -> i32 { helper(x) }
fn helper<T: Copy>(x: T) -> T { x }

pub fn unicode(s: &str) -> usize { let été = "ζ→💥"; s.len() + été.len() } pub fn after(x: i32) -> i32 { x }
\tpub fn tabbed(x: i32) -> i32 {
\t\tx
\t}
pub fn unit() {}
pub fn last(a: &mut i32, b: &i32) { *a = *b }'''
A = '''pub fn in_a(x: i32) -> i32 {
  let c = |y: i32| y + x;
  c(2)
}

fn in_a2() {}
'''
B = '''pub mod c;
pub fn in_b(x: &mut i32) { *x += 1; }
'''
C = '''

pub fn in_c<'a>(x: &'a i32, y: &'a i32) -> &'a i32 { if *x > 0 { x } else { y } }
'''
TOML2 = '''[package]
name = "prog"
version = "0.1.0"
edition = "2024"
[workspace]
'''
WS = '''[workspace]
members = ["m1", "m2"]
resolver = "2"
'''


def member(n):
    return f'[package]\nname = "{n}"\nversion = "0.1.0"\nedition = "2024"\n'


# name -> (files, [(request file, root file of its target)])
CRATES = {
    "multi": ({"src/lib.rs": LIB, "src/a.rs": A, "src/b/mod.rs": B, "src/b/c.rs": C, "src/orphan.rs": A},
              [("src/lib.rs", "src/lib.rs"), ("src/a.rs", "src/lib.rs"), ("src/b/mod.rs", "src/lib.rs"),
               ("src/b/c.rs", "src/lib.rs"), ("src/orphan.rs", "src/lib.rs")]),
    "binlib": ({"src/lib.rs": A, "src/main.rs": "use prog::in_a;\nfn main() {\n  let x = in_a(1);\n  println!(\"{x}\");\n}\n"},
               [("src/main.rs", "src/main.rs"), ("src/lib.rs", "src/lib.rs")]),
    "empty": ({"src/lib.rs": "// nothing\n"}, [("src/lib.rs", "src/lib.rs")]),
    "syntax": ({"src/lib.rs": "pub fn f(x: i32) -> i32 { x + }\n"}, [("src/lib.rs", "src/lib.rs")]),
    "types": ({"src/lib.rs": "pub fn g() {}\npub fn f(x: i32) -> i32 { \"no\" }\n"}, [("src/lib.rs", "src/lib.rs")]),
    "borrows": ({"src/lib.rs": "pub fn g() {}\npub fn f(x: String) -> String { let y = x; x }\n"}, [("src/lib.rs", "src/lib.rs")]),
    "resolve": ({"src/lib.rs": "pub fn f(x: i32) -> i32 { missing(x) }\n"}, [("src/lib.rs", "src/lib.rs")]),
    "workspace": ({"Cargo.toml": WS, "m1/Cargo.toml": member("m1"), "m2/Cargo.toml": member("m2"),
                   "m1/src/lib.rs": A, "m2/src/lib.rs": "pub fn m2f(z: &i32) -> i32 {\n  *z\n}\n"},
                  [("m1/src/lib.rs", "m1/src/lib.rs"), ("m2/src/lib.rs", "m2/src/lib.rs")]),
    "broken_member": ({"Cargo.toml": WS, "m1/Cargo.toml": member("m1"), "m2/Cargo.toml": member("m2"),
                       "m1/src/lib.rs": "pub fn f() -> i32 { true }\n", "m2/src/lib.rs": A},
                      [("m2/src/lib.rs", "m2/src/lib.rs"), ("m1/src/lib.rs", "m1/src/lib.rs")]),
    "rooted": ({"Cargo.toml": '[package]\nname = "prog"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\nmembers = ["m2"]\n',
                "src/lib.rs": A, "m2/Cargo.toml": member("m2"), "m2/src/lib.rs": "pub fn f() -> i32 { true }\n"},
               [("src/lib.rs", "src/lib.rs"), ("m2/src/lib.rs", "m2/src/lib.rs")]),
    "features": ({"Cargo.toml": '[package]\nname = "prog"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[features]\nextra = []\n',
                  "src/lib.rs": "pub fn g(x: i32) -> i32 { x }\n#[cfg(feature = \"extra\")]\npub fn f(x: i32) -> i32 { g(x) }\n"},
                 [("src/lib.rs", "src/lib.rs")]),
}
