------------------------------ MODULE ProgGen ------------------------------
(* Programs as behaviours.  A state is a function under construction: its      *)
(* lines so far, the local variables in scope with their types and the blocks  *)
(* still open; a transition adds a statement.  TLC's simulator walks this      *)
(* machine and every finished walk is printed as a Rust function, which is     *)
(* then compiled and analysed by the real code and by Flow.tla.                *)
(*                                                                             *)
(* Six grammars, chosen by VP_GEN:                                             *)
(*   types  values built by wrapping a local in references, boxes, pointers,   *)
(*          tuples, structs, enums, arrays and closures, handed to a call      *)
(*   cfg    integer variables under nested branches, loops, early exits        *)
(*   refs   references created, reborrowed, stored, written through, swapped   *)
(*   calls  several functions that call each other, passing values, references *)
(*          and structs with hidden fields; '#' stands for the program's name   *)
(*   lists  linked lists and trees walked, changed and rearranged through       *)
(*          references, among them parameters that are pointed elsewhere        *)
(*   shapes structs, enums, arrays, closures, traits, patterns of all sorts     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Gen == IOEnv.VP_GEN
MaxLines == atoi(IOEnv.VP_LINES)

VARIABLES lines,      \* the function's body so far
          open,       \* stack of open blocks: "if" | "else" | "while" | "loop"
          cur,        \* types: the value being wrapped
          n,          \* statements so far
          done
vars == <<lines, open, cur, n, done>>

Nth(k) == ToString(k)
Emit(l) == lines' = Append(lines, l)
R(T) == {RandomElement(T)}     \* one random element, so that every transition is equally likely

Init ==
  /\ lines = <<>> /\ open = <<>> /\ n = 0 /\ done = FALSE
  /\ cur \in IF Gen = "types" THEN {"a", "t.0", "w.f"} ELSE {""}

(* ------------------------------------------------------------------ types -- *)
(* Locals: a, o0..o4 : i32, t : (i32, i32), w : W<i32>.                        *)
V == "v" \o Nth(n)
O == "o" \o Nth(n)
Wraps ==
  { "&" \o cur, "&mut " \o cur, "&raw mut " \o cur, "&raw const " \o cur,
    "(" \o cur \o ", &mut " \o O \o ")", "(&" \o O \o ", " \o cur \o ")",
    "Box::new(" \o cur \o ")", "Some(" \o cur \o ")",
    "W { f: " \o cur \o ", g: &mut " \o O \o " }", "W { f: &" \o O \o ", g: " \o cur \o " }",
    "[" \o cur \o "]", "hid::H::new(" \o cur \o ", &mut " \o O \o ")",
    "E::B(1, " \o cur \o ")", "move || { let _x = &" \o cur \o "; 1 }", "|| { let _x = &" \o cur \o "; 1 }",
    "pass(" \o cur \o ")" }
Wrap ==
  /\ Gen = "types" /\ ~done /\ n < 5
  /\ \E e \in R(Wraps) :
       /\ Emit("let mut " \o V \o " = " \o e \o ";")
       /\ cur' = V /\ n' = n + 1
  /\ UNCHANGED <<open, done>>
Uses == { "let r = take(" \o cur \o ");", "let r = take(&" \o cur \o ");", "let r = take(&mut " \o cur \o ");",
          "let r = two(" \o cur \o ", &mut x);", "let r = { let y = pass(" \o cur \o "); take(y) };",
          "let r = { let y = pick(&" \o cur \o ", &x); take(y) };", "let r = { swap(&mut x, &mut o4); take(" \o cur \o ") };" }
Use ==
  /\ Gen = "types" /\ ~done /\ n >= 1
  /\ \E u \in R(Uses) : Emit(u)
  /\ done' = TRUE /\ UNCHANGED <<open, cur, n>>

(* -------------------------------------------------------------------- cfg -- *)
(* Parameters p, q : i32; locals a, b, c, d : i32, t : (i32, i32).             *)
Vars == {"a", "b", "c", "d", "t.0", "t.1"}
Rd == {"a", "b", "c", "d", "t.0", "t.1", "p", "q"}
CfgAssign ==
  /\ \E x \in R(Vars), y \in R(Rd), z \in R(Rd) :
       \E l \in R({ x \o " = " \o y \o ";", x \o " = " \o y \o " + " \o z \o ";", x \o " = f(" \o y \o ");",
                    "g(&mut " \o x \o ", " \o y \o ");", "t = (" \o x \o ", " \o y \o ");",
                    "if " \o x \o " > " \o y \o " { return " \o z \o "; }",
                    "if " \o x \o " > " \o y \o " { panic!(); }" }) : Emit(l)
  /\ UNCHANGED <<open, cur, done>> /\ n' = n + 1
InLoop == \E i \in DOMAIN open : open[i] \in {"while", "loop"}
CfgOpen ==
  /\ Len(open) < 3
  /\ \E x \in R(Rd) :
       \/ Emit("if " \o x \o " > 0 {") /\ open' = Append(open, "if")
       \/ Emit("while " \o x \o " > 0 {") /\ open' = Append(open, "while")
       \/ Emit("'l" \o Nth(Len(open)) \o ": loop { if " \o x \o " < 0 { break; }") /\ open' = Append(open, "loop")
       \/ Emit("match " \o x \o " { 0 => a = 1, 1 | 2 => b = " \o x \o ", _ => {") /\ open' = Append(open, "match")
  /\ UNCHANGED <<cur, done>> /\ n' = n + 1
Close(k) == IF k = "match" THEN "} }" ELSE "}"
CfgClose ==
  /\ open # <<>>
  /\ LET k == open[Len(open)]
         rest == SubSeq(open, 1, Len(open) - 1)
     IN \/ Emit(Close(k)) /\ open' = rest
        \/ k = "if" /\ Emit("} else {") /\ open' = Append(rest, "else")
        \/ k # "match" /\ InLoop /\ Emit("break; " \o Close(k)) /\ open' = rest
        \/ k # "match" /\ InLoop /\ Emit("continue; " \o Close(k)) /\ open' = rest
        \/ Emit("return a; " \o Close(k)) /\ open' = rest
        \/ \E i \in {j \in DOMAIN open : open[j] = "loop"} :
             Emit("break 'l" \o Nth(i - 1) \o "; " \o Close(k)) /\ open' = rest
  /\ UNCHANGED <<cur, done>> /\ n' = n + 1
CfgOn == Gen = "cfg" /\ ~done /\ n < MaxLines
Cfg == \/ CfgOn /\ CfgAssign
       \/ CfgOn /\ CfgAssign
       \/ CfgOn /\ CfgAssign
       \/ CfgOn /\ CfgAssign
       \/ CfgOn /\ CfgOpen
       \/ CfgOn /\ CfgClose

(* ------------------------------------------------------------------- refs -- *)
(* Locals: x, y, z : i32; t : (i32, i32); s : S { l : i32, m : (i32, i32) };   *)
(* p, q : &mut i32; r, u : &i32; pp : &mut &mut i32; o : Option<&mut i32>;     *)
(* arg : &mut S; ar : &i32 -- each set before it is used or not at all.        *)
Ints == {"x", "y", "z", "t.0", "t.1", "s.l", "s.m.0", "s.m.1", "arg.l", "arg.m.1"}
MutRefs == {"p", "q"}
ShRefs == {"r", "u"}
RefsStmt ==
  \E a \in R(Ints), b \in R(Ints), p \in R(MutRefs), r \in R(ShRefs) :
    \E l \in R({
      a \o " = " \o b \o ";", p \o " = &mut " \o a \o ";", r \o " = &" \o a \o ";", "*" \o p \o " = " \o a \o ";",
      a \o " = *" \o p \o ";", a \o " = *" \o r \o ";", "*" \o p \o " += *" \o r \o ";",
      "p = &mut *q;", "q = p;", "r = &*p;", "r = u;", "u = ar;",
      "let m = &mut s.m; p = &mut m.0; q = &mut m.1;", "let m = &mut *arg; p = &mut m.l;",
      "pp = &mut p;", "**pp = y;", "*pp = &mut z;", "swap(&mut p, &mut q);",
      "o = Some(&mut " \o a \o ");", "if let Some(w) = &mut o { **w = z; }", "if let Some(w) = o { p = w; }",
      "p = choose(p, q);", "p = first(p, &z);", "bump(p);", "look(r);", "touch(&mut s);", "touch(arg);",
      "t = (s.l, y);", "s = S { l: y, m: t };", "p = s.get();", "r = s.peek();", "z = sum(r, u);",
      "arr[i] = " \o a \o ";", a \o " = arr[j];", "p = &mut arr[i];", "v.push(" \o a \o ");", a \o " = v[i];",
      "r = &v[j];", "b = Box::new(" \o a \o ");", "*b = " \o a \o ";", a \o " = *b;", "p = &mut *b;",
      "let mut c = |d: i32| { " \o a \o " += d; " \o b \o " }; x = c(y);",
      "e = E::A(" \o a \o ");", "e = E::B(" \o a \o ", &mut " \o b \o ");",
      "match &mut e { E::A(k) => *k = " \o a \o ", E::B(_, k) => **k = " \o b \o ", E::C => return x }",
      "if let E::A(k) = e { " \o a \o " = k; }" }) : Emit(l)
RefsOpen ==
  /\ Len(open) < 2
  /\ \E a \in R(Ints) : \/ (Emit("if " \o a \o " > 0 {") /\ open' = Append(open, "if"))
                     \/ (Emit("while " \o a \o " > 0 {") /\ open' = Append(open, "while"))
RefsClose ==
  /\ open # <<>>
  /\ LET rest == SubSeq(open, 1, Len(open) - 1)
     IN \/ Emit("}") /\ open' = rest
        \/ open[Len(open)] = "if" /\ Emit("} else {") /\ open' = Append(rest, "else")
RefsOn == Gen = "refs" /\ ~done /\ n < MaxLines /\ n' = n + 1 /\ UNCHANGED <<cur, done>>
Refs == \/ RefsOn /\ RefsStmt /\ UNCHANGED open
        \/ RefsOn /\ RefsStmt /\ UNCHANGED open
        \/ RefsOn /\ RefsStmt /\ UNCHANGED open
        \/ RefsOn /\ RefsOpen
        \/ RefsOn /\ RefsClose

(* ------------------------------------------------------------------ calls -- *)
(* cur is the function being written; every function has x, y : i32,           *)
(* t : (i32, i32), s : m::P { hidden a, c }, and its own parameters.           *)
Fns == <<"h0", "h1", "h2", "h3", "h4", "h5", "main">>
Heads == [h0 |-> "fn h0#(mut a: i32, mut b: i32) -> i32 {", h1 |-> "fn h1#(a: &mut i32, mut b: i32) -> i32 {",
          h2 |-> "fn h2#(a: &mut (i32, i32), b: &i32) -> (i32, i32) {",
          h3 |-> "fn h3#<'x>(mut a: &'x mut i32, b: &'x mut i32) -> &'x mut i32 {",
          h4 |-> "fn h4#(mut a: m::P, mut b: i32) -> m::P {",
          h5 |-> "fn h5#(a: &mut m::W<'_>, mut b: (i32, &mut i32)) -> i32 {",
          main |-> "pub fn main#(mut a: i32, mut b: i32) -> (i32, i32) {"]
Tails == [h0 |-> "a", h1 |-> "b", h2 |-> "(a.0, *b)", h3 |-> "a", h4 |-> "a", h5 |-> "b.0", main |-> "(x, t.0)"]
CInts == {"x", "y", "t.0", "t.1", "s.c"} \cup
         (CASE cur \in {"h0", "main"} -> {"a", "b"} [] cur = "h1" -> {"*a", "b"} [] cur = "h2" -> {"a.0", "a.1"}
            [] cur = "h3" -> {"*a", "*b"} [] cur = "h4" -> {"a.c", "b"} [] OTHER -> {"*a.s", "b.0", "*b.1"})
CRefs == {"&mut x", "&mut y", "&mut t.0", "&mut s.c"} \cup
         (CASE cur \in {"h0", "main"} -> {"&mut a", "&mut b"} [] cur = "h1" -> {"a", "&mut b"} [] cur = "h2" -> {"&mut a.0", "&mut a.1"}
            [] cur = "h3" -> {"&mut *a", "b"} [] cur = "h4" -> {"&mut a.c", "&mut b"} [] OTHER -> {"&mut *a.s", "b.1", "&mut b.0"})
CRet == CASE cur \in {"h0", "h1", "h5"} -> {"x", "y", "t.1"} [] cur = "h2" -> {"t", "(x, y)", "*a"} [] cur = "h3" -> {"b", "a"}
          [] cur = "h4" -> {"s", "m::P::new(x, b)"} [] OTHER -> {"t", "(x, y)"}
CRd == CInts \cup (IF cur = "h2" THEN {"*b"} ELSE {})
CallStmt ==
  \E v \in R(CInts), u \in R(CRd), w \in R(CRd), p \in R(CRefs), q \in R(CRefs), z \in R(CRet) :
    \E l \in R({
      v \o " = " \o u \o ";", v \o " = " \o u \o " + " \o w \o ";", "t = (" \o u \o ", " \o w \o ");",
      v \o " = h0#(" \o u \o ", " \o w \o ");", v \o " = h0#(" \o u \o ", " \o w \o ");", v \o " = h1#(" \o p \o ", " \o u \o ");",
      "h1#(" \o p \o ", " \o u \o ");", v \o " = h2#(&mut t, &" \o u \o ").0;", "t = h2#(&mut (x, y), &" \o u \o ");",
      "*h3#(" \o p \o ", " \o q \o ") = " \o u \o ";", "{ let r = h3#(" \o p \o ", " \o q \o "); *r += " \o u \o "; }",
      "s = h4#(s, " \o u \o ");", v \o " = h4#(m::P::new(" \o u \o ", " \o w \o "), " \o u \o ").c;",
      v \o " = h5#(&mut m::W::new(" \o p \o ", " \o q \o "), (" \o u \o ", &mut y));",
      "{ let mut w = m::W::new(" \o p \o ", " \o q \o "); h5#(&mut w, (" \o u \o ", &mut x)); *w.s = " \o u \o "; }",
      v \o " = s.get();", "s.set(" \o u \o ");", "s = m::P::new(" \o u \o ", " \o w \o ");", v \o " = m::Dflt.go(" \o u \o ", " \o w \o ");",
      v \o " = m::Over.go(" \o u \o ", " \o w \o ");", v \o " = rev(" \o u \o ", " \o w \o ").1;", v \o " = ap(|c| c + " \o u \o ", " \o w \o ");",
      "apm(|c| " \o v \o " = c, " \o u \o ");", "x = arr([" \o u \o ", " \o w \o "], y as usize);",
      "if " \o u \o " > 0 { return " \o z \o "; }", "if let Some(c) = opt(" \o u \o ", " \o w \o ") { " \o v \o " = c; }",
      v \o " = *Box::new(h0#(" \o u \o ", " \o w \o "));" }) : Emit(l)
CallOpen ==
  /\ Len(open) < 2
  /\ \E u \in R(CRd) : \/ (Emit("if " \o u \o " > 0 {") /\ open' = Append(open, "if"))
                     \/ (Emit("while " \o u \o " > 0 {") /\ open' = Append(open, "while"))
CallClose ==
  /\ open # <<>>
  /\ LET rest == SubSeq(open, 1, Len(open) - 1)
     IN \/ Emit("}") /\ open' = rest
        \/ open[Len(open)] = "if" /\ Emit("} else {") /\ open' = Append(rest, "else")
Begin(fn) == <<Heads[fn], "  let mut x = 1; let mut y = 2; let mut t = (3, 4); let mut s = m::P::new(5, 6);">>
CallBegin ==
  /\ Gen = "calls" /\ ~done /\ cur = "" /\ cur' = "h0" /\ lines' = Begin("h0") /\ n' = 0 /\ UNCHANGED <<open, done>>
CallOn == Gen = "calls" /\ ~done /\ cur # "" /\ n < MaxLines /\ n' = n + 1 /\ UNCHANGED <<cur, done>>
CallEnd ==
  /\ Gen = "calls" /\ ~done /\ cur # "" /\ n >= MaxLines
  /\ LET k == CHOOSE i \in DOMAIN Fns : Fns[i] = cur
         all == lines \o [i \in 1 .. Len(open) |-> "}"] \o <<"  " \o Tails[cur] \o " }">>
     IN IF k = Len(Fns) THEN lines' = all /\ done' = TRUE /\ UNCHANGED <<cur, n>>
        ELSE lines' = all \o Begin(Fns[k + 1]) /\ cur' = Fns[k + 1] /\ n' = 0 /\ UNCHANGED done
  /\ open' = <<>>
Calls == \/ CallOn /\ CallStmt /\ UNCHANGED open
         \/ CallOn /\ CallStmt /\ UNCHANGED open
         \/ CallOn /\ CallStmt /\ UNCHANGED open
         \/ CallOn /\ CallStmt /\ UNCHANGED open
         \/ CallOn /\ CallOpen
         \/ CallOn /\ CallClose
         \/ CallBegin
         \/ CallEnd

(* ------------------------------------------------------------------ lists -- *)
(* Parameters a, b : &'a mut Node; t : &mut Tree; r : &'a Node; i : i32;        *)
(* locals x, y : i32; n, m : Node; c : &mut Node.                               *)
LInts == {"x", "y", "i", "a.v", "a.w", "b.v", "r.v", "r.w", "t.v", "n.v", "n.w", "m.v", "c.v", "c.w"}
LMut == {"a", "b", "c"}
LOwn == {"n", "m"}
LNode == LMut \cup LOwn
ListStmt ==
  \E v \in R(LInts \ {"r.v", "r.w"}), u \in R(LInts), p \in R(LMut), q \in R(LMut), d \in R(LNode), e \in R(LNode), o \in R(LOwn) :
    \E l \in R({
      v \o " = " \o u \o ";", v \o " = " \o u \o ";", v \o " += " \o u \o ";",
      p \o " = &mut *" \o q \o ";", "a = b;", "b = a;", "c = &mut " \o o \o ";", "c = &mut *" \o p \o ";", "r = &*" \o p \o ";",
      "if let Some(k) = &mut " \o d \o ".next { k.v = " \o u \o "; }", "if let Some(k) = &mut " \o p \o ".next { " \o p \o " = k; }",
      "if let Some(k) = " \o p \o ".next.as_deref_mut() { c = k; }", "if let Some(k) = &r.next { r = k; }",
      "while let Some(k) = &r.next { if k.v > " \o u \o " { break; } r = k; }",
      "{ let mut z = &mut *" \o p \o "; while let Some(k) = &mut z.next { z = k; } z.w = " \o u \o "; }",
      "{ let mut z = &mut *" \o p \o "; while let Some(k) = &mut z.next { k.v = " \o u \o "; z = &mut *k; } }",
      d \o ".next = Some(Box::new(Node { v: " \o u \o ", w: y, next: None }));", d \o ".next = " \o e \o ".next.take();",
      d \o ".next = Some(Box::new(m));", "m = Node { v: " \o u \o ", w: " \o v \o ", next: None };", "*" \o p \o " = n;",
      "if let Some(k) = " \o d \o ".next.take() { " \o v \o " = k.v; " \o d \o ".next = k.next; }",
      p \o " = follow(" \o q \o ");", "follow(" \o p \o ").v = " \o u \o ";", "r = tail(r);", v \o " = total(r, " \o u \o ");",
      "swap(" \o p \o ", " \o q \o ");", "std::mem::swap(&mut " \o d \o ".next, &mut " \o e \o ".next);",
      "if let Some(l) = &mut t.l { l.v = " \o u \o "; } else { t.v = " \o v \o "; }",
      "{ let s = if " \o u \o " > 0 { &mut t.l } else { &mut t.r }; if let Some(k) = s { k.v = i; } }",
      "{ let s = if " \o u \o " > 0 { &mut t.l } else { &mut t.r }; *s = None; }",
      "t.l = Some(Box::new(Tree { v: " \o u \o ", l: None, r: t.r.take(), kids: Vec::new() }));",
      "if let Some(l) = &t.r { " \o v \o " = l.v; }", "t.kids.push(n);", "if let Some(k) = t.kids.pop() { " \o v \o " = k.w; }",
      "for k in t.kids.iter_mut() { k.v = " \o u \o "; }", "for k in &t.kids { " \o v \o " += k.w; }", v \o " = t.kids[0].v;", "c = &mut t.kids[1];" }) : Emit(l)
ListOpen ==
  /\ Len(open) < 2
  /\ \E u \in R(LInts) : \/ (Emit("if " \o u \o " > 0 {") /\ open' = Append(open, "if"))
                     \/ (Emit("while " \o u \o " > 0 {") /\ open' = Append(open, "while"))

(* ----------------------------------------------------------------- shapes -- *)
(* Parameters arg : Pt; ars : &mut Pt; c : bool; k : i32; locals a, b : i32;    *)
(* p : Pt { x, y : i32 }; sh : Sh, an enum; arr : [i32; 3]; o : Option<i32>.    *)
SInts == {"a", "b", "k", "p.x", "p.y", "ars.x", "ars.y", "arg.y", "arr[1]"}
ShapeStmt ==
  \E v \in R(SInts), u \in R(SInts), w \in R(SInts) :
    \E l \in R({
      v \o " = " \o u \o ";", v \o " = " \o u \o " + " \o w \o ";", "p = Pt { x: " \o u \o ", ..p };", "p = Pt { x: " \o u \o ", y: " \o w \o " };",
      "*ars = arg;", "*ars = p;", "let Pt { x: e, y: f } = p; " \o v \o " = e;", "let Pt { x: e, .. } = &mut *ars; *e = " \o u \o ";",
      "let Pt { x: e, y: f } = &mut p; swap(e, f);", "match sh { Sh::Ci { r } => " \o v \o " = r, Sh::Re(e, f) => { b = e; p.x = f }, Sh::No => {} }",
      "match &mut sh { Sh::Ci { r } => *r = " \o u \o ", Sh::Re(_, f) => *f += 1, Sh::No => " \o v \o " = 0 }",
      "sh = Sh::Re(" \o u \o ", " \o w \o ");", "sh = Sh::Ci { r: " \o u \o " };", "if let Sh::Re(ref mut e, _) = sh { *e = " \o u \o "; }",
      "let Sh::Re(e, _) = sh else { return Err(" \o u \o ") }; b = e;", v \o " = res(" \o u \o ")?;", "if c && " \o u \o " > 0 { " \o v \o " = 1; }",
      "if c || " \o u \o " > a { " \o v \o " = " \o w \o "; }", "arr = [" \o u \o ", " \o w \o ", a];", "let [e, .., f] = arr; " \o v \o " = e;",
      "if let [e, rest @ ..] = &mut arr[..] { *e = " \o u \o "; rest[0] = " \o w \o "; }", "for e in arr.iter_mut() { *e += a; }",
      "for e in 0.." \o u \o " { b += e; }", "for e in arr { if e > k { continue; } a = e; }", "let mut f = || { a += " \o u \o "; b }; b = f();",
      "let f = move |z: i32| z + a; " \o v \o " = f(" \o u \o ");", "let mut f = |z: i32| p.x = z; f(" \o u \o "); f(k);",
      "let mut f = || { let mut g = |z: i32| a += z; g(" \o u \o "); }; f();", "ars.add(" \o u \o ");", v \o " = p.dbl();", v \o " = gene(&mut p, " \o u \o ");",
      v \o " = dy(&p);", "dym(ars, " \o u \o ");", "let i = In { p: &mut p, k: " \o u \o " }; i.p.x = i.k;", "let i = In { p: &mut *ars, k: b }; *i.p = arg;",
      "let mut i = In { p: &mut p, k: 0 }; i.p = &mut *ars; i.p.y = " \o u \o ";", "(a, b) = (b, a);", "(" \o v \o ", p.x) = (k, " \o u \o ");",
      "let mut m = (a, b); { let (ref mut e, f) = m; *e = f; } " \o v \o " = m.0;", "std::mem::swap(&mut p, ars);", v \o " = if c { " \o u \o " } else { " \o w \o " };",
      v \o " = match (c, b) { (true, 0) => 1, (_, e) if e > k => e, _ => p.y };", "'o: { if c { break 'o; } " \o v \o " = " \o u \o "; }",
      v \o " = 'v: { if c { break 'v " \o u \o "; } k };", "o = o.map(|z| z + " \o u \o ");", "if let Some(z) = o.as_mut() { *z = " \o u \o "; }",
      "if let Some(z) = o && z > " \o u \o " { " \o v \o " = z; }", "while let Some(z) = o { if z > " \o u \o " { break; } o = Some(z + 1); }",
      "assert!(" \o u \o " > b);", "o = Some(" \o u \o ");", "o = None;", "let z = &p; let y = &z.y; " \o v \o " = *y;",
      "let e = &mut arr; let f = &mut e[..]; f[k as usize] = " \o u \o ";", "let e = [&a, &b][(k & 1) as usize]; p.y = *e;",
      "let e = if c { &mut a } else { &mut b }; *e = " \o w \o ";", "let mut e = &mut p.x; if c { e = &mut ars.x; } *e = " \o u \o ";",
      "let e = Box::new(p); " \o v \o " = e.x; p = *e;", "let mut e = vec![p, arg]; e[0].x = " \o u \o "; p = e[1];", v \o " = " \o u \o ".max(" \o w \o ");",
      "let e = [p, arg]; p = e[(k & 1) as usize];", "let e: &mut dyn Op = &mut p; e.add(" \o u \o ");", "let e = (&mut p, " \o u \o "); e.0.x = e.1;" }) : Emit(l)
ShapeOpen ==
  /\ Len(open) < 2
  /\ \E u \in R(SInts) : \/ (Emit("if " \o u \o " > 0 {") /\ open' = Append(open, "if"))
                     \/ (Emit("while " \o u \o " > 0 {") /\ open' = Append(open, "while"))
MoreOn == Gen \in {"lists", "shapes"} /\ ~done /\ n < MaxLines /\ n' = n + 1 /\ UNCHANGED <<cur, done>>
MoreStmt == IF Gen = "lists" THEN ListStmt ELSE ShapeStmt
MoreOpen == IF Gen = "lists" THEN ListOpen ELSE ShapeOpen
More == \/ MoreOn /\ MoreStmt /\ UNCHANGED open
        \/ MoreOn /\ MoreStmt /\ UNCHANGED open
        \/ MoreOn /\ MoreStmt /\ UNCHANGED open
        \/ MoreOn /\ MoreOpen
        \/ MoreOn /\ RefsClose

(* -------------------------------------------------------------------------- *)
Finish ==
  /\ Gen \in {"cfg", "refs", "lists", "shapes"} /\ ~done /\ n >= MaxLines
  /\ done' = TRUE
  /\ lines' = lines \o [i \in 1 .. Len(open) |-> Close(open[Len(open) + 1 - i])]
  /\ UNCHANGED <<open, cur, n>>
Output ==
  /\ done
  /\ PrintT("PROG " \o ToJson([gen |-> Gen, lines |-> lines]))
  /\ FALSE /\ UNCHANGED vars

Next == Wrap \/ Use \/ Cfg \/ Refs \/ Calls \/ More \/ Finish \/ Output
Spec == Init /\ [][Next]_vars
=============================================================================
