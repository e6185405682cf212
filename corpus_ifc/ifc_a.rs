use flowistry_ifc_traits::{insecure_print, Insecure, InsecureString, Secure};

pub struct Password(pub i32);
impl Secure for Password {}
#[derive(Clone, Copy)]
pub struct Key {
  pub k: i32,
  pub l: i32,
}
impl Secure for Key {}
pub struct Packet {
  pub body: i32,
}
impl Insecure for Packet {}
pub struct Gen<T>(pub T);
impl<T> Secure for Gen<T> {}
pub struct Wire<T> {
  pub a: T,
  pub b: i32,
}
impl<T> Insecure for Wire<T> {}

pub fn ext(_: i32) -> i32 {
  0
}
pub fn die() -> ! {
  std::process::exit(0)
}

pub fn implicit_flow() {
  let p = Password(1);
  if p.0 == 3 {
    insecure_print!("Hello world!");
  }
}
pub fn no_flow() {
  let p = Password(1);
  let y = p.0 + 1;
  ext(y);
  insecure_print!("Hello world!");
}
pub fn direct() {
  let p = Password(ext(1));
  let s = InsecureString(format!("{}", p.0));
  drop(s);
}
pub fn direct_packet(x: i32) -> Packet {
  let p = Password(x);
  Packet { body: p.0 }
}
pub fn arg_secure(p: &Password, c: bool) -> Packet {
  let mut out = Packet { body: 0 };
  if c {
    out.body = p.0;
  }
  out
}
pub fn arg_unused(p: &Password, x: i32) -> Packet {
  let _q = p;
  Packet { body: x }
}
pub fn both_args(p: Password, k: Key, x: i32) -> (Packet, Packet) {
  let a = Packet { body: p.0 };
  let b = Packet { body: x };
  let _ = k;
  (a, b)
}
pub fn field_only(k: Key) -> Packet {
  Packet { body: k.l }
}
pub fn nested_ref(p: &&Password) -> i32 {
  let q: &Password = *p;
  let m = Packet { body: q.0 };
  m.body
}
pub fn behind_mut(p: &mut Password) -> Packet {
  let v = p.0;
  Packet { body: v }
}
pub fn in_option(p: Option<Password>) -> Packet {
  match p {
    Some(q) => Packet { body: q.0 },
    None => Packet { body: 0 },
  }
}
pub fn in_tuple(t: (i32, Password)) -> (Packet, i32) {
  (Packet { body: t.0 }, (t.1).0)
}
pub fn late_source(x: i32) -> Packet {
  let out = Packet { body: x };
  let p = Password(x);
  ext(p.0);
  out
}
pub fn overwrite(p: Password) -> Packet {
  let mut out = Packet { body: p.0 };
  out = Packet { body: 5 };
  out
}
pub fn looped(p: Password, n: i32) -> Packet {
  let mut i = 0;
  let mut out = Packet { body: 0 };
  while i < p.0 {
    out.body += n;
    i += 1;
  }
  out
}
pub fn through_call(p: Password) -> Packet {
  let v = ext(p.0);
  Packet { body: v }
}
pub fn never(p: Password) {
  loop {
    let _m = Packet { body: p.0 };
  }
}
pub fn diverges(c: bool, x: i32) -> Packet {
  if c {
    let p = Password(x);
    ext(p.0);
    die();
  }
  Packet { body: 0 }
}
pub fn diverges_sink(c: bool, p: Password) -> i32 {
  if c {
    let _m = Packet { body: p.0 };
    die();
  }
  3
}
pub fn generic<T>(g: Gen<T>, w: T) -> Wire<T> {
  let _ = &g;
  Wire { a: w, b: 1 }
}
pub fn generic_flow(g: Gen<i32>) -> Wire<i32> {
  let v = g.0;
  Wire { a: v, b: 1 }
}
pub fn sink_param(out: &mut Packet, p: Password) {
  out.body = p.0;
}
pub fn sink_param_owned(mut out: Packet, p: Password, c: bool) -> Packet {
  if c {
    out.body = p.0;
  }
  out
}
pub fn closure_flow(p: Password) -> i32 {
  let f = |x: i32| {
    let m = Packet { body: x + p.0 };
    m.body
  };
  f(3)
}
pub fn early(p: Password, x: i32) -> Packet {
  if x > 0 {
    return Packet { body: 1 };
  }
  Packet { body: p.0 }
}
pub fn early_ctl(p: Password, x: i32) -> Packet {
  if p.0 > 0 {
    return Packet { body: 1 };
  }
  ext(x);
  Packet { body: 2 }
}
pub fn array_sources(ps: [Password; 2], i: usize) -> Packet {
  Packet { body: ps[i].0 }
}
pub fn boxed(b: Box<Password>) -> Packet {
  Packet { body: b.0 }
}
pub fn two_sources(a: Password, b: Password) -> Packet {
  ext(a.0);
  Packet { body: b.0 }
}
pub fn wrap(p: Password) -> Wire<Password> {
  Wire { a: p, b: 2 }
}
pub struct Holder {
  pub pw: Password,
  pub pk: Packet,
  pub n: i32,
}
pub fn struct_both(h: Holder) -> i32 {
  h.n
}
pub fn struct_flow(mut h: Holder) -> Holder {
  h.pk.body = h.pw.0;
  h
}
pub fn struct_noflow(x: i32, y: i32) -> Holder {
  Holder { pw: Password(x), pk: Packet { body: y }, n: 0 }
}
mod inner {
  use super::*;
  pub fn nested() -> Packet {
    fn deep(k: Key) -> Packet {
      Packet { body: k.k }
    }
    let k = Key { k: 1, l: 2 };
    ext(k.k);
    deep(k)
  }
  impl Holder {
    pub fn method(&self) -> Packet {
      Packet { body: self.pw.0 }
    }
    pub fn clean(&self) -> Packet {
      Packet { body: self.n }
    }
  }
}
