-------------------------------- MODULE Exec --------------------------------
(* What programs do.  This machine executes a function's instructions on       *)
(* concrete values, and knows nothing of lifetimes, loans, joins or control    *)
(* dependence.  It decides what an analysis must not miss:                     *)
(*                                                                             *)
(*   influence  execute the function once as it is and once with the effect of *)
(*              one instruction, or one argument, disturbed.  Where both        *)
(*              executions pass a location outside of any loop, a place that    *)
(*              then holds different values depends on what was disturbed.      *)
(*   aliasing   a place behind a reference designates, whenever the reference   *)
(*              is followed, one of the places that are its aliases.            *)
(*                                                                             *)
(* Calls: in the modular modes a callee is anything its signature permits (a   *)
(* mix of everything it is given, written everywhere it may write, and          *)
(* returned) unless its result contains references; then, and in the           *)
(* whole-program mode, the callee's own body is executed if there is one.      *)
EXTENDS Alias, Json, IOUtils

Data == JsonDeserialize(IOEnv.VP_IN)
Opts == JsonDeserialize(IOEnv.VP_OPTS)
Modes == Opts.modes
Seeds == Opts.seeds
MaxSteps == Opts.steps
Kinds == {Opts.kinds[i] : i \in DOMAIN Opts.kinds}

VARIABLES
  fi, mi, si,   \* function, mode, choice of arguments
  phase,        \* "load" | "exec" | "end"
  st,           \* tables about the function, see Tables
  plan, run,    \* disturbances to try: <<id, flavour>>; number of the current one, 0 for none
  fr, mem,      \* stack of frames; cells
  log,          \* location -> values of the places, when nothing was disturbed
  seen,         \* locations executed when nothing was disturbed
  steps, n
vars == <<fi, mi, si, phase, st, plan, run, fr, mem, log, seen, steps, n>>

F == Data[fi]
ModeName == Modes[mi]
Whole == ModeName \in {"recurse", "recurse+ignoremut", "recurse+conservative"}
Real == F.modes[ModeName]
(* Visible fields are identified by their number among the visible ones, so parts   *)
(* of a structure with an invisible field before a visible one are mistaken.       *)
Hidden == \E t \in DOMAIN F.types :
            /\ F.types[t].k = "struct"
            /\ \E i, j \in DOMAIN F.types[t].fields : i < j /\ F.types[t].fields[i][2] = 0 /\ F.types[t].fields[j][2] = 1
HasMode == /\ "modes" \in DOMAIN F /\ ModeName \in DOMAIN F.modes /\ ~("panic" \in DOMAIN Real)
           /\ F.ctx_ty < 0 /\ ~Hidden

-----------------------------------------------------------------------------
(* Values: <<"s", n>> a scalar, <<"b", 0|1>>, <<"a", variant, fields>>, a        *)
(* reference <<"r", cell, path, mutable>>, <<"o">> something opaque, <<"u">>     *)
(* nothing.  Boxes are aggregates with one field.  A path is a sequence of       *)
(* positions in aggregates; -v means that the aggregate is of variant v - 1:     *)
(* once the enum holds another variant, a reference into the old one is dead.    *)

Undef == <<"u">>
Stuck == <<"stuck">>
Nowhere == <<0, <<>>>>
Unit == <<"a", 0, <<>>>>
Wrap(x) == IF x > 1000 \/ x < -1000 THEN (x % 1000) ELSE x
Mix(x) == (x % 97) - 20

RECURSIVE Get(_, _), Put(_, _, _)
Get(v, path) ==
  IF path = <<>> THEN v
  ELSE IF path[1] < 0 THEN IF v[1] = "a" /\ v[2] = -path[1] - 1 THEN Get(v, Tail(path)) ELSE Stuck
  ELSE IF v[1] = "a" /\ path[1] \in DOMAIN v[3] THEN Get(v[3][path[1]], Tail(path)) ELSE Stuck
Put(v, path, w) ==
  IF path = <<>> THEN w
  ELSE IF path[1] < 0 THEN IF v[1] = "a" /\ v[2] = -path[1] - 1 THEN Put(v, Tail(path), w) ELSE Stuck
  ELSE IF v[1] = "a" /\ path[1] \in DOMAIN v[3]
       THEN LET x == Put(v[3][path[1]], Tail(path), w)
            IN IF x = Stuck THEN Stuck ELSE <<"a", v[2], [v[3] EXCEPT ![path[1]] = x]>>
       ELSE Stuck

Load(m, c) == IF c[1] \notin DOMAIN m THEN Stuck ELSE Get(m[c[1]], c[2])
(* The memory after a store, or <<>>. *)
Store(m, c, v) ==
  IF m = <<>> \/ v = Stuck \/ c[1] \notin DOMAIN m THEN <<>>
  ELSE LET x == Put(m[c[1]], c[2], v) IN IF x = Stuck THEN <<>> ELSE [m EXCEPT ![c[1]] = x]

(* The cell a place designates now. *)
Resolve(m, off, p) ==
  LET elem(c, e) ==
        IF c = Nowhere THEN c
        ELSE CASE e[1] = "D" -> LET v == Load(m, c)
                                IN IF v[1] = "r" THEN <<v[2], v[3]>>
                                   ELSE IF v[1] = "a" /\ Len(v[3]) = 1 THEN <<c[1], Append(c[2], 1)>> ELSE Nowhere
               [] e[1] = "F" -> <<c[1], Append(c[2], e[2] + 1)>>
               [] e[1] = "V" -> LET v == Load(m, c) IN IF v[1] = "a" /\ v[2] = e[2] THEN <<c[1], Append(c[2], -(e[2] + 1))>> ELSE Nowhere
               [] e[1] = "I" -> LET i == m[off + e[2] + 1]
                                IN IF i[1] = "s" /\ i[2] >= 0 THEN <<c[1], Append(c[2], i[2] + 1)>> ELSE Nowhere
               [] e[1] = "C" -> LET v == Load(m, c)
                                IN IF v[1] # "a" THEN Nowhere
                                   ELSE LET k == IF e[4] = 1 THEN Len(v[3]) - e[2] + 1 ELSE e[2] + 1
                                        IN IF k \in DOMAIN v[3] THEN <<c[1], Append(c[2], k)>> ELSE Nowhere
               [] e[1] = "S" -> Nowhere
               [] OTHER -> c
  IN FoldLeft(elem, <<off + p[1] + 1, <<>>>>, p[2])

(* Everything a value holds, behind references too. *)
RECURSIVE Deep(_, _, _)
Deep(m, v, d) ==
  IF d = 0 THEN Undef
  ELSE CASE v[1] = "a" -> <<"a", v[2], [i \in DOMAIN v[3] |-> Deep(m, v[3][i], d)]>>
         [] v[1] = "r" -> <<"r", v[2], v[3], Deep(m, Load(m, <<v[2], v[3]>>), d - 1)>>
         [] v[1] = "stuck" -> Undef
         [] OTHER -> v

RECURSIVE Differ(_, _)
Differ(x, y) ==
  IF x[1] # y[1] THEN FALSE          \* one of them is undefined
  ELSE CASE x[1] \in {"s", "b"} -> x[2] # y[2]
         [] x[1] = "a" -> \/ x[2] # y[2]
                          \/ \E i \in DOMAIN x[3] \cap DOMAIN y[3] : Differ(x[3][i], y[3][i])
         [] x[1] = "r" -> x[2] # y[2] \/ x[3] # y[3] \/ Differ(x[4], y[4])
         [] OTHER -> FALSE

(* A number made of all scalars in a value. *)
RECURSIVE Hash(_, _, _)
Hash(m, v, d) ==
  IF d = 0 THEN 0
  ELSE CASE v[1] \in {"s", "b"} -> v[2] % 89
         [] v[1] = "a" -> FoldLeft(LAMBDA h, x : (h * 5 + Hash(m, x, d)) % 89, v[2] % 89, v[3])
         [] v[1] = "r" -> Hash(m, Load(m, <<v[2], v[3]>>), d - 1)
         [] OTHER -> 0

-----------------------------------------------------------------------------
(* Arguments.  b = [m, names, c]: memory, the static name of each cell, a count *)

ValueAt(seed, c) == ((seed * 7 + c * (3 + seed)) % 6) - (seed % 2)

RECURSIVE Build(_, _, _, _, _)
Build(f, t, p, seed, b) ==
  LET T == Ty(f, t)
      next == [b EXCEPT !.c = @ + 1]
      deep == Len(p[2]) > 8
      many(ps, v) ==     \* ps: sequence of <<place, type>>
        LET r == FoldLeft(LAMBDA a, x : LET y == Build(f, x[2], x[1], seed, a.b)
                                        IN [vs |-> Append(a.vs, y.v), b |-> y.b],
                          [vs |-> <<>>, b |-> b], ps)
        IN [v |-> <<"a", v, r.vs>>, b |-> r.b]
  IN CASE T.k = "int" -> [v |-> <<"s", ValueAt(seed, b.c)>>, b |-> next]
       [] T.k = "bool" -> [v |-> <<"b", ValueAt(seed, b.c) % 2>>, b |-> next]
       [] deep -> [v |-> Undef, b |-> b]
       [] T.k = "tuple" -> many([i \in DOMAIN T.fields |-> <<Project(p, <<"F", i - 1, T.fields[i]>>), T.fields[i]>>], 0)
       [] T.k = "struct" -> many([i \in DOMAIN T.fields |-> <<Project(p, <<"F", i - 1, T.fields[i][1]>>), T.fields[i][1]>>], 0)
       [] T.k = "enum" /\ Len(T.variants) > 0 ->
            LET v == (ValueAt(seed, b.c) % Len(T.variants)) + 1
                vs == T.variants[v]
                q == Project(p, <<"V", v - 1>>)
            IN LET r == FoldLeft(LAMBDA a, i : LET y == Build(f, vs[i], Project(q, <<"F", i - 1, vs[i]>>), seed, a.b)
                                               IN [vs |-> Append(a.vs, y.v), b |-> y.b],
                                 [vs |-> <<>>, b |-> next], [i \in DOMAIN vs |-> i])
               IN [v |-> <<"a", v - 1, r.vs>>, b |-> r.b]
       [] T.k = "array" -> many([i \in 1 .. (IF T.len < 0 THEN 1 ELSE IF T.len > 4 THEN 4 ELSE T.len) |-> <<Project(p, <<"I", 0>>), T.ty>>], 0)
       [] T.k = "slice" -> many([i \in 1 .. 3 |-> <<Project(p, <<"I", 0>>), T.ty>>], 0)
       [] T.k = "box" -> many(<<<<Project(p, Deref), T.ty>>>>, 0)
       [] T.k = "closure" -> LET y == Build(f, T.ty, p, seed, b) IN y
       (* The analysis gives up on references this deep in the arguments. *)
       [] T.k = "ref" /\ Len(p[2]) > 2 -> [v |-> Undef, b |-> b]
       [] T.k = "ref" ->
            LET y == Build(f, T.ty, Project(p, Deref), seed, b)
            IN [v |-> <<"r", Len(y.b.m) + 1, <<>>, T.mut>>,
                b |-> [y.b EXCEPT !.m = Append(@, y.v), !.names = Append(@, Project(p, Deref))]]
       [] T.k \in {"ptr", "fnptr", "dyn", "cut", "fndef", "never"} -> [v |-> <<"o">>, b |-> b]
       [] OTHER -> [v |-> <<"s", ValueAt(seed, b.c)>>, b |-> next]

StartMemory(f, seed) ==
  LET b0 == [m |-> [l \in DOMAIN f.locals |-> Undef], names |-> [l \in DOMAIN f.locals |-> LocalPlace(l - 1)], c |-> 0]
  IN FoldLeft(LAMBDA b, l : LET y == Build(f, f.locals[l + 1].ty, LocalPlace(l), seed, b)
                            IN [y.b EXCEPT !.m[l + 1] = y.v], b0, [l \in 1 .. f.argc |-> l])

-----------------------------------------------------------------------------
(* Disturbing the first scalar (flavour 1) or the last one (2) in a cell. A     *)
(* memory, unchanged if there is none.                                          *)

Disturbed(v, flavour) == IF v[1] = "b" THEN <<"b", 1 - v[2]>> ELSE <<"s", Wrap(v[2] + (IF flavour = 1 THEN 1 ELSE -7))>>

(* follow: 0 not behind references, 1 behind all of them, 2 behind mutable ones *)
RECURSIVE DisturbAt(_, _, _, _, _)
DisturbAt(m, c, flavour, follow, d) ==
  IF d = 0 THEN m
  ELSE
  LET v == Load(m, c)
      kids == IF flavour = 1 THEN [i \in DOMAIN v[3] |-> i] ELSE [i \in DOMAIN v[3] |-> Len(v[3]) + 1 - i]
  IN CASE v[1] \in {"s", "b"} -> Store(m, c, Disturbed(v, flavour))
       [] v[1] = "a" -> FoldLeft(LAMBDA a, i : IF a # m THEN a
                                               ELSE DisturbAt(m, <<c[1], Append(c[2], i)>>, flavour, follow, d - 1), m, kids)
       [] v[1] = "r" /\ (follow = 1 \/ (follow = 2 /\ v[4] = 1)) -> DisturbAt(m, <<v[2], v[3]>>, flavour, follow, d - 1)
       [] OTHER -> m

(* Everything that can be written through the mutable references in a value. *)
RECURSIVE Scramble(_, _, _, _, _), ScrambleCell(_, _, _, _)
Scramble(m, v, h, d, write) ==
  IF d = 0 THEN m
  ELSE CASE v[1] = "a" -> FoldLeft(LAMBDA a, i : Scramble(a, v[3][i], h + i, d, FALSE), m, [i \in DOMAIN v[3] |-> i])
         [] v[1] = "r" /\ v[4] = 1 -> ScrambleCell(m, <<v[2], v[3]>>, h, d - 1)
         [] OTHER -> m
ScrambleCell(m, c, h, d) ==
  LET v == Load(m, c)
  IN CASE v[1] = "s" -> Store(m, c, <<"s", Mix(v[2] + h + 90)>>)
       [] v[1] = "b" -> Store(m, c, <<"b", (v[2] + h) % 2>>)
       [] v[1] = "a" -> FoldLeft(LAMBDA a, i : ScrambleCell(a, <<c[1], Append(c[2], i)>>, h + i, d), m, [i \in DOMAIN v[3] |-> i])
       [] v[1] = "r" -> Scramble(m, v, h, d, TRUE)
       [] OTHER -> m

(* A result made of a number; Stuck if the type has references. *)
RECURSIVE Result(_, _, _, _)
Result(f, t, h, d) ==
  LET T == Ty(f, t)
      of(ts, v) == LET vs == [i \in DOMAIN ts |-> Result(f, ts[i], h + i, d - 1)]
                   IN IF \E i \in DOMAIN vs : vs[i] = Stuck THEN Stuck ELSE <<"a", v, vs>>
  IN CASE T.k = "int" -> <<"s", Mix(h)>>
       [] T.k = "bool" -> <<"b", h % 2>>
       [] T.k = "ref" -> Stuck
       [] d = 0 -> <<"o">>
       [] T.k = "tuple" -> of(T.fields, 0)
       [] T.k = "struct" -> of([i \in DOMAIN T.fields |-> T.fields[i][1]], 0)
       [] T.k = "enum" /\ Len(T.variants) > 0 -> LET v == (h % Len(T.variants)) + 1 IN of(T.variants[v], v - 1)
       [] T.k = "array" -> of([i \in 1 .. (IF T.len < 0 THEN 1 ELSE IF T.len > 4 THEN 4 ELSE T.len) |-> T.ty], 0)
       [] T.k = "box" -> of(<<T.ty>>, 0)
       [] T.k \in {"closure", "dyn", "fnptr", "never", "cut"} -> Stuck
       [] T.k = "ptr" -> <<"o">>
       [] OTHER -> <<"s", Mix(h)>>

-----------------------------------------------------------------------------
(* Instructions. *)

Const(v) == CASE v[1] = "i" -> <<"s", Wrap(v[2])>> [] v[1] = "b" -> <<"b", v[2]>> [] v[1] = "u" -> Unit [] OTHER -> <<"o">>
Operand(m, off, o) ==
  IF IsPlaceOp(o) THEN LET c == Resolve(m, off, o.p) IN IF c = Nowhere THEN Stuck ELSE Load(m, c) ELSE Const(o.v)
(* Operands that are moved leave nothing behind. *)
MoveOut(m, off, ops) ==
  FoldLeft(LAMBDA a, o : IF a # <<>> /\ o.k = "move" THEN Store(a, Resolve(m, off, o.p), Undef) ELSE a, m, ops)

Num(v) == IF v[1] \in {"s", "b"} THEN v[2] ELSE 0
Bool(x) == <<"b", IF x THEN 1 ELSE 0>>
Arith(op, x, y) ==
  CASE op \in {"Add", "AddWithOverflow", "AddUnchecked", "Offset"} -> Wrap(x + y)
    [] op \in {"Sub", "SubWithOverflow", "SubUnchecked"} -> Wrap(x - y)
    [] op \in {"Mul", "MulWithOverflow", "MulUnchecked"} -> Wrap(x * y)
    [] OTHER -> Wrap(x * 3 + y)
Binary(op, a, b) ==
  IF a \in {Stuck, Undef} \/ b \in {Stuck, Undef} THEN Stuck
  ELSE LET x == Num(a)
           y == Num(b)
       IN CASE op = "Eq" -> Bool(x = y) [] op = "Ne" -> Bool(x # y) [] op = "Lt" -> Bool(x < y) [] op = "Le" -> Bool(x <= y)
            [] op = "Gt" -> Bool(x > y) [] op = "Ge" -> Bool(x >= y)
            [] op \in {"AddWithOverflow", "SubWithOverflow", "MulWithOverflow"} -> <<"a", 0, <<<<"s", Arith(op, x, y)>>, <<"b", 0>>>>>>
            [] op \in {"BitAnd", "BitOr", "BitXor"} /\ a[1] = "b" ->
                 Bool(CASE op = "BitAnd" -> x + y = 2 [] op = "BitOr" -> x + y > 0 [] OTHER -> x # y)
            [] OTHER -> <<"s", Arith(op, x, y)>>

DiscrOf(f, t, v) == LET T == Ty(f, t) IN IF T.k = "enum" /\ v + 1 \in DOMAIN T.discrs THEN T.discrs[v + 1] ELSE v

Rvalue(f, m, off, rv) ==
  LET op(i) == Operand(m, off, rv.ops[i])
      cell == Resolve(m, off, rv.pl[1])
      ops == [i \in DOMAIN rv.ops |-> op(i)]
  IN CASE rv.k \in {"use", "cast"} -> op(1)
       [] rv.k = "copyderef" -> IF cell = Nowhere THEN Stuck ELSE Load(m, cell)
       [] rv.k = "ref" -> IF rv.fake = 1 THEN <<"o">> ELSE IF cell = Nowhere THEN Stuck ELSE <<"r", cell[1], cell[2], rv.mut>>
       [] rv.k = "rawptr" -> <<"o">>
       [] rv.k = "len" -> IF cell = Nowhere THEN Stuck
                          ELSE LET v == Load(m, cell) IN IF v[1] = "a" THEN <<"s", Len(v[3])>> ELSE Stuck
       [] rv.k = "bin" -> Binary(rv.op, op(1), op(2))
       [] rv.k = "un" -> LET v == op(1)
                         IN IF v[1] = "b" THEN <<"b", 1 - v[2]>> ELSE IF v[1] = "s" THEN <<"s", Wrap(-v[2])>>
                            ELSE IF rv.op = "PtrMetadata" /\ v[1] = "r"
                                 THEN LET w == Load(m, <<v[2], v[3]>>) IN IF w[1] = "a" THEN <<"s", Len(w[3])>> ELSE Stuck
                            ELSE Stuck
       [] rv.k = "discr" -> IF cell = Nowhere THEN Stuck
                            ELSE LET v == Load(m, cell)
                                 IN IF v[1] = "a" THEN <<"s", DiscrOf(f, PlaceTy(f, rv.pl[1]), v[2])>> ELSE Stuck
       [] rv.k = "agg" -> IF rv.ak \in {"union", "other"} \/ \E i \in DOMAIN ops : ops[i] = Stuck THEN Stuck
                          ELSE <<"a", IF rv.ak = "enum" THEN rv.variant ELSE 0, ops>>
       [] rv.k = "repeat" -> IF op(1) = Stuck THEN Stuck
                             ELSE <<"a", 0, [i \in 1 .. (IF rv.n < 0 THEN 1 ELSE IF rv.n > 4 THEN 4 ELSE rv.n) |-> op(1)]>>
       [] rv.k = "nullary" -> <<"s", 8>>
       [] OTHER -> Stuck

-----------------------------------------------------------------------------
(* Tables about the function under execution. *)

RECURSIVE Closed(_, _, _)
Closed(succ, frontier, got) ==
  LET next == (UNION {succ[b] : b \in frontier}) \ got
  IN IF next = {} THEN got ELSE Closed(succ, TLCEval(next), TLCEval(got \cup next))

MirPlaces(f) ==
  LET ofStmt(s) == IF s.k = "assign" THEN {s.p} \cup RvaluePlaces(s.rv) ELSE {}
      ofTerm(t) == CASE t.k = "call" -> {t.dest} \cup OpPlaces(t.args)
                     [] t.k \in {"switch", "assert"} -> OpPlaces(<<t.op>>)
                     [] OTHER -> {}
      ps == UNION {UNION {ofStmt(f.blocks[b].stmts[i]) : i \in DOMAIN f.blocks[b].stmts} \cup ofTerm(f.blocks[b].term)
                   : b \in DOMAIN f.blocks}
  IN UNION {{Prefix(p, i) : i \in 0 .. Len(p[2])} : p \in ps}

Tables(f) ==
  LET succ == TLCEval([b \in DOMAIN f.blocks |-> {s + 1 : s \in Range(f.blocks[b].term.succ)}])
      mir == TLCEval(MirPlaces(f))
      (* a variant by itself is no place that holds anything *)
      whole(p) == p[2] = <<>> \/ Last(p[2])[1] # "V"
      qs == TLCEval({i \in DOMAIN f.queries : f.queries[i] \in mir /\ whole(f.queries[i])})
      nz(p) == Normalize(f, p)
  IN [once |-> TLCEval({b \in DOMAIN f.blocks : b \notin Closed(succ, succ[b], succ[b])}),
      qs |-> qs,
      al |-> TLCEval([i \in {j \in qs : RefPositions(f, f.queries[j]) # {}} |-> {nz(p) : p \in Range(Real.aliases[i])}]),
      (* what the places are found to depend on, per location *)
      dep |-> TLCEval([s \in DOMAIN Real.sets |-> Range(Real.sets[s])])]

DepsAt(loc, q) == st.dep[Real.deps[loc + 1][q] + 1]

(* The static name of a cell: the names of the cells of the function, then the   *)
(* projections its path stands for.                                             *)
RECURSIVE NameOf(_, _, _, _, _)
NameOf(f, p, t, v, path) ==
  IF path = <<>> THEN p
  ELSE LET T == Ty(f, t)
           i == path[1]
           w == IF v[1] = "a" /\ i \in DOMAIN v[3] THEN v[3][i] ELSE Undef
           go(q, u) == NameOf(f, q, u, w, Tail(path))
       IN CASE i < 0 -> IF path = <<i>> THEN p ELSE NameOf(f, p, t, v, Tail(path))
            [] T.k = "tuple" -> go(Project(p, <<"F", i - 1, T.fields[i]>>), T.fields[i])
            [] T.k = "struct" -> go(Project(p, <<"F", i - 1, T.fields[i][1]>>), T.fields[i][1])
            [] T.k = "enum" -> LET u == T.variants[v[2] + 1][i] IN go(Project(Project(p, <<"V", v[2]>>), <<"F", i - 1, u>>), u)
            [] T.k \in {"array", "slice"} -> go(Project(p, <<"I", 0>>), T.ty)
            [] T.k = "box" -> go(Project(p, Deref), T.ty)
            [] T.k = "closure" -> LET u == Ty(f, T.ty).fields[i] IN go(Project(p, <<"F", i - 1, u>>), u)
            [] OTHER -> p

IsPrefixOf(a, b) == a[1] = b[1] /\ Len(a[2]) <= Len(b[2]) /\ SubSeq(b[2], 1, Len(a[2])) = a[2]

-----------------------------------------------------------------------------
Top == fr[Len(fr)]
G == Data[Top.i]
Block == G.blocks[Top.b]
AtTerm == Top.k > Len(Block.stmts)
Loc == Block.start + Top.k - 1
Inner == Len(fr) > 1
Spec1 == IF run = 0 THEN <<-1, 0>> ELSE plan[run]

Report(x) == PrintT("MISMATCH " \o ToJson([fn |-> F.name, file |-> F.file, mode |-> ModeName] @@ x))
Count(r, k) == TLCSet(r, TLCGet(r) + k)

Init ==
  /\ fi = 1 /\ mi = 1 /\ si = 1 /\ phase = "load" /\ st = <<>> /\ plan = <<>> /\ run = 0
  /\ fr = <<>> /\ mem = <<>> /\ log = <<>> /\ seen = {} /\ steps = 0 /\ n = 0

Names == LET m == StartMemory(F, Seeds[si]) IN m.names

BeginRun(r, p) ==
  \E b \in {StartMemory(F, Seeds[si])} :
  \E d \in {IF r > 0 /\ p[r][1] >= F.nloc
            THEN DisturbAt(b.m, <<p[r][1] - F.nloc + 2, <<>>>>, p[r][2], 1, 12) ELSE b.m} :
    /\ mem' = d
    /\ fr' = <<[i |-> fi, b |-> 1, k |-> 1, off |-> 0, dst |-> Nowhere, nb |-> 0]>>
    /\ steps' = 0 /\ run' = r

Advance ==
  /\ IF si < Len(Seeds) THEN si' = si + 1 /\ UNCHANGED <<mi, fi>>
     ELSE /\ si' = 1
          /\ IF mi < Len(Modes) THEN mi' = mi + 1 /\ fi' = fi ELSE mi' = 1 /\ fi' = fi + 1
  /\ phase' = IF si < Len(Seeds) \/ mi < Len(Modes) \/ fi < Len(Data) THEN "load" ELSE "end"
  /\ st' = <<>> /\ plan' = <<>> /\ run' = 0 /\ fr' = <<>> /\ mem' = <<>> /\ log' = <<>> /\ seen' = {} /\ steps' = 0 /\ n' = 0

Skip == phase = "load" /\ ~HasMode /\ Advance

Begin ==
  /\ phase = "load" /\ HasMode
  /\ \E t \in {Tables(F)} : st' = t @@ [names |-> Names]
  /\ phase' = "exec" /\ plan' = <<>> /\ log' = <<>> /\ seen' = {}
  /\ BeginRun(0, <<>>)
  /\ Count(2, IF si = 1 THEN 1 ELSE 0)
  /\ n' = n + 1 /\ UNCHANGED <<fi, mi, si>>

(* The execution is over, by returning or by getting stuck. *)
Over ==
  IF run = 0
  THEN \E p \in {SetToSeq({<<l, k>> : l \in {x \in seen : LET b == BlockOf(F, x)
                                                            IN IF x = TermLoc(F, b) THEN F.blocks[b].term.k = "call"
                                                               ELSE F.blocks[b].stmts[x - F.blocks[b].start + 1].k = "assign"}
                                      \cup ArgIds(F), k \in {1, 2}})} :
            IF p = <<>> THEN Advance
            ELSE plan' = p /\ BeginRun(1, p) /\ n' = n + 1 /\ UNCHANGED <<fi, mi, si, phase, st, log, seen>>
  ELSE IF run < Len(plan) THEN BeginRun(run + 1, plan) /\ n' = n + 1 /\ UNCHANGED <<fi, mi, si, phase, st, plan, log, seen>>
  ELSE Advance

-----------------------------------------------------------------------------
(* After a location of the function itself: compare. *)

Values(m) == [i \in st.qs |-> LET c == Resolve(m, 0, F.queries[i])
                              IN IF c = Nowhere THEN Undef ELSE Deep(m, Load(m, c), 4)]

WrongAliases(m) ==
  {i \in DOMAIN st.al :
     LET c == Resolve(m, 0, F.queries[i])
     IN c # Nowhere /\ c[1] \in DOMAIN st.names /\ Load(m, c) # Stuck
        /\ LET name == Normalize(F, NameOf(F, st.names[c[1]], PlaceTy(F, st.names[c[1]]), m[c[1]], c[2]))
           IN ~\E a \in st.al[i] : IsPrefixOf(a, name)}

Missed(loc, now) ==
  {i \in st.qs : Differ(log[loc][i], now[i]) /\ Spec1[1] \notin DepsAt(loc, i)}

Observe(loc, m) ==
  /\ \E w \in {WrongAliases(m)} :
       \A i \in (IF "alias" \in Kinds THEN w ELSE {}) : LET c == Resolve(m, 0, F.queries[i])
                    IN Report([kind |-> "alias", loc |-> loc, place |-> F.queries[i], seed |-> Seeds[si],
                               points_to |-> NameOf(F, st.names[c[1]], PlaceTy(F, st.names[c[1]]), m[c[1]], c[2])])
                       /\ Count(1, 1)
  /\ IF BlockOf(F, loc) \notin st.once THEN log' = log
     ELSE IF run = 0 THEN log' = log @@ (loc :> Values(m))
     ELSE /\ log' = log
          /\ loc \in DOMAIN log =>
               \E now \in {Values(m)} : \E bad \in {Missed(loc, now)} :
                 /\ Count(3, Cardinality(st.qs))
                 /\ Count(4, Cardinality({i \in st.qs : Differ(log[loc][i], now[i])}))
                 /\ \A i \in (IF "influence" \in Kinds THEN bad ELSE {}) : Report([kind |-> "influence", loc |-> loc, place |-> F.queries[i], missing |-> Spec1[1],
                                           seed |-> Seeds[si], flavour |-> Spec1[2], before |-> log[loc][i], after |-> now[i]])
                                   /\ Count(1, 1)
  /\ seen' = IF run = 0 THEN seen \cup {loc} ELSE seen

Quiet == log' = log /\ seen' = seen
After(loc, m) == IF Inner THEN Quiet ELSE Observe(loc, m)

Go(b, k) == [fr EXCEPT ![Len(fr)] = [Top EXCEPT !.b = b, !.k = k]]
Keep == UNCHANGED <<fi, mi, si, phase, st, plan, run>>
Disturbing(loc) == ~Inner /\ Spec1[1] = loc

Stmt ==
  /\ phase = "exec" /\ steps < MaxSteps /\ ~AtTerm
  /\ \E s \in {Block.stmts[Top.k]} :
     IF s.k # "assign"
     THEN /\ fr' = Go(Top.b, Top.k + 1) /\ mem' = mem /\ After(Loc, mem)
          /\ steps' = steps + 1 /\ n' = n + 1 /\ Keep
     ELSE \E v \in {Rvalue(G, mem, Top.off, s.rv)} :
          \E m1 \in {MoveOut(mem, Top.off, s.rv.ops)} :
          \E c \in {IF m1 = <<>> THEN Nowhere ELSE Resolve(m1, Top.off, s.p)} :
          \E m2 \in {IF c = Nowhere THEN <<>> ELSE Store(m1, c, v)} :
            IF m2 = <<>> THEN Over
            ELSE \E m3 \in {IF Disturbing(Loc) THEN DisturbAt(m2, c, Spec1[2], 0, 12) ELSE m2} :
                   /\ mem' = m3 /\ fr' = Go(Top.b, Top.k + 1) /\ After(Loc, m3)
                   /\ steps' = steps + 1 /\ n' = n + 1 /\ Keep

Jump(b) ==
  /\ mem' = mem /\ fr' = Go(b, 1) /\ After(Loc, mem)
  /\ steps' = steps + 1 /\ n' = n + 1 /\ Keep

Target(t) ==
  CASE t.k = "switch" ->
         LET v == Operand(mem, Top.off, t.op)
             hit == {i \in DOMAIN t.targets : v[1] \in {"s", "b"} /\ t.targets[i][1] = v[2]}
         IN IF v[1] \notin {"s", "b"} THEN 0
            ELSE IF hit = {} THEN t.otherwise + 1 ELSE t.targets[CHOOSE i \in hit : TRUE][2] + 1
    [] t.k \in {"drop", "falseedge", "falseunwind"} -> t.target + 1
    [] t.k = "assert" -> LET v == Operand(mem, Top.off, t.op) IN IF v[1] = "b" /\ v[2] = t.expected THEN t.target + 1 ELSE 0
    [] t.k = "goto" -> t.succ[1] + 1
    [] OTHER -> 0

Term ==
  /\ phase = "exec" /\ steps < MaxSteps /\ AtTerm /\ Block.term.k \notin {"call", "return"}
  /\ \E b \in {Target(Block.term)} : IF b = 0 THEN Over ELSE Jump(b)

(* Calls: as anything the signature permits, or by executing the callee. *)
ArgValues(t) == [i \in DOMAIN t.args |-> Operand(mem, Top.off, t.args[i])]

Mutable(m, vs) == \E i \in DOMAIN vs : Scramble(m, vs[i], 1, 6, FALSE) # m

Anything(t, vs) ==
  LET h == FoldLeft(LAMBDA a, v : (a * 7 + Hash(mem, v, 5)) % 89, 3, vs)
      v == Result(G, PlaceTy(G, t.dest), h, 5)
      m0 == MoveOut(mem, Top.off, t.args)
      m1 == IF m0 = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, i : Scramble(a, vs[i], h + i, 6, FALSE), m0, [i \in DOMAIN vs |-> i])
      c == IF m1 = <<>> THEN Nowhere ELSE Resolve(m1, Top.off, t.dest)
      m2 == IF c = Nowhere THEN <<>> ELSE Store(m1, c, v)
      (* disturb what is written (flavour 2, if anything is) or the result *)
      written == FoldLeft(LAMBDA a, i : IF a # m2 \/ vs[i][1] \notin {"a", "r"} THEN a
                                        ELSE IF vs[i][1] = "r"
                                             THEN (IF vs[i][4] = 1 THEN DisturbAt(m2, <<vs[i][2], vs[i][3]>>, 2, 2, 8) ELSE a)
                                             ELSE a, m2, [i \in DOMAIN vs |-> i])
      m3 == IF m2 = <<>> \/ ~Disturbing(Loc) THEN m2
            ELSE IF Spec1[2] = 2 /\ written # m2 THEN written ELSE DisturbAt(m2, c, 1, 0, 12)
  IN m3

(* Different returns are taken to be independent of what decides between them,    *)
(* so a body with several is not executed.                                       *)
OneReturn(g) == Cardinality({b \in DOMAIN g.blocks : g.blocks[b].term.k = "return" /\ (b = 1 \/ \E a \in DOMAIN g.blocks : (b - 1) \in Range(g.blocks[a].term.succ))}) <= 1
CanExecute(t) == /\ t.callee.idx > 0 /\ Len(fr) < 5
                 /\ Data[t.callee.idx].argc = Len(t.args) /\ OneReturn(Data[t.callee.idx])

Call ==
  /\ phase = "exec" /\ steps < MaxSteps /\ AtTerm /\ Block.term.k = "call"
  /\ \E t \in {Block.term} : \E vs \in {ArgValues(t)} :
     IF t.target < 0 \/ \E i \in DOMAIN vs : vs[i] \in {Stuck, Undef} THEN Over
     ELSE \E any \in {IF Whole /\ t.callee.idx > 0 THEN <<>> ELSE Anything(t, vs)} :
          IF any # <<>>
          THEN /\ mem' = any /\ fr' = Go(t.target + 1, 1) /\ After(Loc, any)
               /\ steps' = steps + 1 /\ n' = n + 1 /\ Keep
          ELSE IF ~CanExecute(t) THEN Over
          ELSE \E m0 \in {MoveOut(mem, Top.off, t.args)} :
               \E c \in {Resolve(mem, Top.off, t.dest)} :
                 IF m0 = <<>> \/ c = Nowhere THEN Over
                 ELSE /\ mem' = m0 \o [l \in DOMAIN Data[t.callee.idx].locals |->
                                         IF l \in 2 .. (Len(vs) + 1) THEN vs[l - 1] ELSE Undef]
                      /\ fr' = Append(fr, [i |-> t.callee.idx, b |-> 1, k |-> 1, off |-> Len(m0), dst |-> c, nb |-> t.target + 1])
                      /\ Quiet /\ steps' = steps + 1 /\ n' = n + 1 /\ Keep

Return ==
  /\ phase = "exec" /\ steps < MaxSteps /\ AtTerm /\ Block.term.k = "return" /\ Inner
  /\ \E v \in {mem[Top.off + 1]} :
     \E m1 \in {SubSeq(mem, 1, Top.off)} :
     \E m2 \in {Store(m1, Top.dst, IF v = Undef THEN Unit ELSE v)} :
     \E caller \in {fr[Len(fr) - 1]} :
       IF m2 = <<>> THEN Over
       ELSE LET g == Data[caller.i]
                loc == TermLoc(g, caller.b)
                mine == Len(fr) = 2
                m3 == IF mine /\ Spec1[1] = loc THEN DisturbAt(m2, Top.dst, Spec1[2], 0, 12) ELSE m2
            IN /\ mem' = m3
               /\ fr' = [SubSeq(fr, 1, Len(fr) - 1) EXCEPT ![Len(fr) - 1].b = Top.nb, ![Len(fr) - 1].k = 1]
               /\ IF mine THEN Observe(loc, m3) ELSE Quiet
               /\ steps' = steps + 1 /\ n' = n + 1 /\ Keep

(* The return instruction of the function itself is the last thing compared. *)
Finish ==
  /\ phase = "exec" /\ steps < MaxSteps /\ AtTerm /\ Block.term.k = "return" /\ ~Inner
  /\ Observe(Loc, mem) /\ steps' = MaxSteps /\ n' = n + 1
  /\ UNCHANGED <<fr, mem>> /\ Keep

TooLong == phase = "exec" /\ steps >= MaxSteps /\ Over

Next == Skip \/ Begin \/ Stmt \/ Term \/ Call \/ Return \/ Finish \/ TooLong
Spec == Init /\ [][Next]_vars

(* The machine is deterministic: this identifies a state. *)
View == <<fi, mi, si, phase, n>>
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0) /\ TLCSet(4, 0)
Sound == PrintT("SUMMARY " \o ToJson([mismatches |-> TLCGet(1), checked |-> TLCGet(2), values |-> TLCGet(3), influences |-> TLCGet(4)]))
=============================================================================
