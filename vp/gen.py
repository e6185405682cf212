"""Programs generated by spec/ProgGen.tla (TLC's simulator), rendered, filtered by rustc, written to files."""
import concurrent.futures as cf
import json
import os
import re
import subprocess

from . import core

GENERATED = re.compile(r"(types|cfg|refs|lists|shapes|main|h\d_)\d")
COMMON = '''#![allow(warnings)]
pub mod hid { pub struct H<A, B> { a: A, pub b: B, c: i32 } impl<A, B> H<A, B> { pub fn new(a: A, b: B) -> Self { H { a, b, c: 0 } } } }
pub struct W<A, B> { f: A, g: B }
pub enum E<'a> { A(i32), B(i32, &'a mut i32), C }
pub enum EE<T> { A, B(i32, T) }
pub struct S { l: i32, m: (i32, i32) }
impl S { fn get(&mut self) -> &mut i32 { &mut self.l } fn peek(&self) -> &i32 { &self.m.1 } }
fn take<T>(t: T) -> i32 { 0 }
fn two<T, U>(t: T, u: U) -> i32 { 0 }
fn pass<T>(t: T) -> T { t }
fn pick<'a, T, U>(t: &'a T, u: &U) -> &'a T { t }
fn swap<T>(a: &mut T, b: &mut T) { }
fn f(x: i32) -> i32 { x }
fn g(x: &mut i32, y: i32) { }
fn choose<'a>(a: &'a mut i32, b: &'a mut i32) -> &'a mut i32 { a }
fn first<'a>(a: &'a mut i32, b: &i32) -> &'a mut i32 { a }
fn bump(a: &mut i32) { }
fn look(a: &i32) { }
fn touch(s: &mut S) { }
fn sum(a: &i32, b: &i32) -> i32 { 0 }
'''
LISTS = '''#![allow(warnings)]
pub struct Node { v: i32, w: i32, next: Option<Box<Node>> }
pub struct Tree { v: i32, l: Option<Box<Tree>>, r: Option<Box<Tree>>, kids: Vec<Node> }
fn follow(n: &mut Node) -> &mut Node { n }
fn tail(n: &Node) -> &Node { n }
fn total(n: &Node, k: i32) -> i32 { n.v + k }
fn swap<T>(a: &mut T, b: &mut T) { }
'''
SHAPES = '''#![allow(warnings)]
#[derive(Clone, Copy)] pub struct Pt { x: i32, y: i32 }
#[derive(Clone, Copy)] pub enum Sh { Ci { r: i32 }, Re(i32, i32), No }
pub struct In<'a> { p: &'a mut Pt, k: i32 }
pub trait Op { fn val(&self) -> i32; fn add(&mut self, k: i32); fn dbl(&self) -> i32 { self.val() * 2 } }
impl Op for Pt { fn val(&self) -> i32 { self.x } fn add(&mut self, k: i32) { self.y += k; } }
fn gene<T: Op>(t: &mut T, k: i32) -> i32 { t.add(k); t.val() }
fn dy(t: &dyn Op) -> i32 { t.val() }
fn dym(t: &mut dyn Op, k: i32) { t.add(k) }
fn res(k: i32) -> Result<i32, i32> { if k > 1 { Ok(k) } else { Err(k) } }
fn swap<T>(a: &mut T, b: &mut T) { }
'''
CALLS = '''#![allow(warnings)]
mod m {
  pub struct P { a: i32, pub c: i32 }
  impl P { pub fn new(a: i32, c: i32) -> P { P { c, a } } pub fn get(&self) -> i32 { self.a } pub fn set(&mut self, v: i32) { self.a = v; } }
  pub struct W<'a> { r: &'a mut i32, pub s: &'a mut i32 }
  impl<'a> W<'a> { pub fn new(r: &'a mut i32, s: &'a mut i32) -> Self { *r = 0; W { r, s } } }
  pub struct Dflt; pub struct Over;
  pub trait Go { fn go(&self, a: i32, b: i32) -> i32 { let mut x = a; x += 1; x } }
  impl Go for Dflt {}
  impl Go for Over { fn go(&self, a: i32, b: i32) -> i32 { if b > 0 { 1 } else { 2 } } }
}
use m::Go;
fn rev<T, U>(a: T, b: U) -> (U, T) { (b, a) }
fn ap<F: Fn(i32) -> i32>(f: F, x: i32) -> i32 { f(x) }
fn apm<F: FnMut(i32)>(mut f: F, x: i32) { f(x) }
fn arr(a: [i32; 2], i: usize) -> i32 { a[i] }
fn opt(a: i32, b: i32) -> Option<i32> { if a > 0 { Some(b) } else { None } }
'''
HEAD = {
    "types": ("pub fn {n}(mut x: i32) -> i32 {{", ["let mut a = 1;", "let mut o0 = 2;", "let mut o1 = 3;", "let mut o2 = 3;",
              "let mut o3 = 3;", "let mut o4 = 4;", "let mut t = (5, 6);", "let mut w = W { f: 7, g: 8 };"], "x }"),
    "cfg": ("pub fn {n}(p: i32, q: i32) -> i32 {{", ["let mut a = 1;", "let mut b = 2;", "let mut c = p;", "let mut d = q;",
            "let mut t = (3, 4);"], "a + t.0 }"),
    "refs": ("pub fn {n}<'a>(arg: &'a mut S, ar: &'a i32, i: usize, j: usize) -> i32 {{",
             ["let mut x = 1;", "let mut y = 2;", "let mut z = 3;", "let mut t = (4, 5);", "let mut s = S { l: 6, m: (7, 8) };",
              "let mut p: &mut i32; let mut q: &mut i32; let mut r: &i32; let mut u: &i32; let mut pp: &mut &mut i32;",
              "let mut o: Option<&mut i32> = None;", "let mut e: E = E::C;", "let mut arr = [1, 2, 3];", "let mut v = vec![1];",
              "let mut b = Box::new(1);", "let mut h0 = 1; let mut h1 = 2; p = &mut h0; q = &mut h1; r = ar; u = ar;"], "x + *u }"),
    "lists": ("pub fn {n}<'a>(mut a: &'a mut Node, mut b: &'a mut Node, t: &mut Tree, mut r: &'a Node, mut i: i32) -> i32 {{",
              ["let mut x = 1;", "let mut y = 2;", "let mut n = Node { v: 3, w: 4, next: None };", "let mut m = Node { v: 5, w: 6, next: None };",
               "let mut c: &mut Node;"], "x }"),
    "shapes": ("pub fn {n}(mut arg: Pt, ars: &mut Pt, mut sh: Sh, c: bool, mut k: i32) -> Result<i32, i32> {{",
               ["let mut a = 1;", "let mut b = 2;", "let mut p = Pt { x: 3, y: 4 };", "let mut arr = [5, 6, 7];", "let mut o = Some(8);"], "Ok(a + b) }"),
}
BEFORE = {"calls": CALLS, "lists": LISTS, "shapes": SHAPES}
# a declaration is only kept when the statements mention it
NEEDS = {"let mut a": "a", "let mut o0": "o0", "let mut o1": "o1", "let mut o2": "o2", "let mut o3": "o3", "let mut o4": "o4",
         "let mut t ": "t", "let mut w": "w", "let mut s ": "s", "let mut o:": "o", "let mut e:": "e", "let mut arr": "arr",
         "let mut v ": "v", "let mut b ": "b", "let mut y": "y", "let mut z": "z", "let mut t=": "t"}


def simulate(kind, num, lines, seed, work):
    md = os.path.join(work, f"md-{kind}-{seed}")
    os.makedirs(md, exist_ok=True)
    rc, out = core.tlc("ProgGen", {"VP_GEN": kind, "VP_LINES": str(lines)}, heap="2g", timeout=300, metadir=md,
                       args=["-simulate", f"num={num}", "-depth", "120", "-seed", str(seed)])
    progs = [x["lines"] for t, x in core.marked(out) if t == "PROG"]
    if not progs:
        raise core.ToolError("ProgGen produced nothing:\n" + out[-2000:])
    seen, res = set(), []
    for p in progs:
        k = "\n".join(p)
        if k not in seen:
            seen.add(k)
            res.append(p)
    return res


def render(kind, name, lines):
    if kind == "calls":
        return [l.replace("#", "_" + name[len(kind):]) for l in lines]
    head, decls, tail = HEAD[kind]
    words = set(re.findall(r"[A-Za-z_]\w*", " ".join(lines) + " " + tail))
    if kind == "cfg":
        words |= {"a", "t"}
    if "m" in words and kind == "refs":
        words.add("s")
    keep = []
    for d in decls:
        need = next((v for k, v in NEEDS.items() if d.startswith(k)), None)
        if kind in ("lists", "shapes"):
            need = re.match(r"let mut (\w+)", d).group(1)
        if need is None or need in words or kind == "cfg":
            keep.append(d)
    ls = [l.replace("E::B", "EE::B") if kind == "types" else l for l in lines]
    return [head.format(n=name)] + ["  " + x for x in keep + ls] + ["  " + tail]


def compile_filter(fns, path, common=COMMON):
    """fns: list of line lists; drops those rustc rejects; writes the file; returns the survivors."""
    exe = f"{core.sysroot()}/bin/rustc"
    rounds = 0
    while fns:
        text, where = common, []
        n = common.count("\n")
        for f in fns:
            where.append((n + 1, n + len(f)))
            text += "\n".join(f) + "\n"
            n += len(f)
        open(path, "w").write(text)
        p = subprocess.run([exe, "--edition=2024", "--crate-type", "lib", "--emit=metadata", "-o", path + ".rmeta",
                            "--error-format=json", path], env=core.run_env(), stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, text=True, timeout=120)
        if p.returncode == 0:
            os.path.exists(path + ".rmeta") and os.remove(path + ".rmeta")
            return fns
        lines = set()
        for l in p.stderr.splitlines():
            try:
                d = json.loads(l)
            except json.JSONDecodeError:
                continue
            if d.get("level") == "error":
                lines |= {x["line_start"] for x in d.get("spans", []) if x.get("is_primary")}
        bad = {k for k, (a, b) in enumerate(where) if any(a <= l <= b for l in lines)}
        if not bad:
            raise core.ToolError("generated file rejected as a whole: " + p.stderr[:800])
        # first without the statements at fault, then without the program
        rounds += 1
        out = []
        for k, f in enumerate(fns):
            if k not in bad:
                out.append(f)
                continue
            g = [l for j, l in enumerate(f) if where[k][0] + j not in lines or l.count("{") != l.count("}") or "fn " in l]
            if rounds <= 6 and len(g) < len(f):
                out.append(g)
        fns = out
    return fns


def programs(work, plan, seed, per_file=10):
    """plan: [(kind, walks, lines)]; returns paths of Rust files."""
    os.makedirs(work, exist_ok=True)

    def one(a):
        kind, num, lines, sd = a
        fns = [render(kind, f"{kind}{sd}_{k}", p) for k, p in enumerate(simulate(kind, num, lines, sd, work))]
        return kind, sd, fns

    jobs = [(kind, num, lines, seed * 1000 + k) for k, (kind, num, lines) in enumerate(plan)]
    files, total, kept = [], 0, 0
    with cf.ThreadPoolExecutor(core.NCPU) as ex:
        parts = []
        for kind, sd, fns in ex.map(one, jobs):
            total += len(fns)
            ok = []
            step = 200
            chunks = [(fns[i:i + step], os.path.join(work, f"try_{kind}_{sd}_{i}.rs")) for i in range(0, len(fns), step)]
            for c in chunks:
                parts.append((kind, sd, c + (BEFORE.get(kind, COMMON),)))
        for (kind, sd, c), ok in zip(parts, ex.map(lambda x: compile_filter(*x[2]), parts)):
            kept += len(ok)
            os.path.exists(c[1]) and os.remove(c[1])
            for i in range(0, len(ok), per_file):
                p = os.path.join(work, f"gen_{kind}_{sd}_{len(files)}.rs")
                common = c[2] if len(files) % 2 == 0 else c[2].replace("P { a: i32, pub c: i32 }", "P { pub c: i32, a: i32 }")
                open(p, "w").write(common + "".join("\n".join(f) + "\n" for f in ok[i:i + per_file]))
                files.append(p)
    core.log(f"generated {total} programs, {kept} compile")
    return files, total, kept
