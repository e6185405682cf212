------------------------------ MODULE Recurse ------------------------------
(* Whole-program analysis.  A call whose target is known, has a body in the    *)
(* crate, can return, is not already being analysed and is given no closure    *)
(* that mutates is replaced by what that body does to its arguments and to its *)
(* result.  The machine keeps the stack of functions under analysis.           *)
EXTENDS Flow, Json, IOUtils

Data == JsonDeserialize(IOEnv.VP_IN)
Opts == JsonDeserialize(IOEnv.VP_OPTS)
Modes == Opts.modes

ModeRec(m) == [ignoreMut |-> m \in {"recurse+ignoremut"}, conservative |-> m \in {"recurse+conservative"}]

VARIABLES
  fi, mi,       \* function and mode in question
  stack,        \* frames under analysis, the innermost last
  phase, n
vars == <<fi, mi, stack, phase, n>>

ModeName == Modes[mi]
F == Data[fi]
HasMode == "modes" \in DOMAIN F /\ ModeName \in DOMAIN F.modes /\ ~("panic" \in DOMAIN F.modes[ModeName])

-----------------------------------------------------------------------------
(* What can be analysed in place of a call. *)

RECURSIVE TypeWalk(_, _, _)
TypeWalk(f, ts, seen) ==
  LET next == (UNION {{s[2] : s \in {x \in Range(Ty(f, t).sup) : x[1] = "t"}} : t \in ts}) \ seen
  IN IF next = {} THEN seen ELSE TypeWalk(f, TLCEval(next), TLCEval(seen \cup next))

MutatingClosure(f, p) ==
  \E t \in TypeWalk(f, {PlaceTy(f, p)}, {PlaceTy(f, p)}) :
     Kind(f, t) = "closure" /\ Ty(f, t).ckind \in {"FnOnce", "FnMut"}

(* Position in Data of the function that a call runs, or 0. *)
CalleeOf(f, t) ==
  IF t.k # "call" \/ t.callee.key < 0 \/ t.callee.body = 0 \/ t.callee.never = 1 THEN 0
  ELSE IF \E p \in OpPlaces(t.args) : MutatingClosure(f, p) THEN 0
  ELSE t.callee.idx

(* Calls of f to analyse, given what is already on the stack: <<location, callee>>. *)
InlinedCalls(i, onStack) ==
  LET f == Data[i]
  IN {<<TermLoc(f, b), CalleeOf(f, f.blocks[b].term)>> :
        b \in {x \in DOMAIN f.blocks :
                 LET c == CalleeOf(f, f.blocks[x].term) IN c > 0 /\ c \notin onStack}}

-----------------------------------------------------------------------------
(* A callee's summary: per row of its final state, what it depends on among    *)
(* the places it was given.                                                    *)

Summary(g, tab, st) ==
  LET ends == {TermLoc(g, b) : b \in ReturnBlocks(g)}
      final == TLCEval([r \in DOMAIN tab.rows |-> UNION {st[l + 1][r] : l \in ends}])
      given == TLCEval(ArgPlaces(g))
      visible(r) ==
        LET p == tab.rows[r]
        IN ~IsUnit(g, PlaceTy(g, p))
           /\ IF p[1] = ReturnLocal THEN final[r] # {}
              ELSE IsArgPlace(g, p) /\ HasDeref(p) /\ Cardinality(final[r]) > 1
  IN {[place |-> tab.rows[r],
       from |-> {a[1] : a \in {x \in given : x[2] \in final[r] /\ ~IsUnit(g, PlaceTy(g, x[1]))}}] :
        r \in {x \in DOMAIN tab.rows : visible(x)}}

FieldTy(T, v, i) ==
  CASE T.k = "struct" -> T.fields[i + 1][1]
    [] T.k = "union" -> T.fields[i + 1][1]
    [] T.k = "tuple" -> T.fields[i + 1]
    [] T.k = "enum" -> T.variants[v + 1][i + 1]
    [] OTHER -> -1

(* The callee's projections, applied to a place of the caller, up to the first *)
(* field the caller cannot see.  k: next projection, v: last downcast.         *)
RECURSIVE Apply(_, _, _, _, _, _)
Apply(f, p, t, es, k, v) ==
  IF k > Len(es) THEN p
  ELSE
    LET e == es[k]
        T == Ty(f, t)
    IN CASE e[1] = "F" ->
              IF T.k = "struct" /\ T.fields[e[2] + 1][2] = 0 THEN p
              ELSE IF T.k = "closure" THEN Apply(f, Project(p, <<"F", e[2], Ty(f, T.ty).fields[e[2] + 1]>>),
                                               Ty(f, T.ty).fields[e[2] + 1], es, k + 1, 0)
              ELSE LET u == FieldTy(T, v, e[2])
                   IN Apply(f, Project(p, <<"F", e[2], u>>), u, es, k + 1, 0)
         [] e[1] = "V" -> Apply(f, Project(p, e), t, es, k + 1, e[2])
         [] e[1] \in {"D", "I", "C"} -> Apply(f, Project(p, e), T.ty, es, k + 1, 0)
         [] OTHER -> Apply(f, Project(p, e), t, es, k + 1, v)

(* The caller's place for a place of the callee; {} if there is none. *)
ToCaller(f, t, child) ==
  LET i == child[1]
      tops == IF i = ReturnLocal THEN {t.dest}
              ELSE IF i <= Len(t.args) /\ IsPlaceOp(t.args[i]) THEN {t.args[i].p} ELSE {}
  IN {Apply(f, top, PlaceTy(f, top), child[2], 1, 0) : top \in tops}

InlineMutations(f, t, summary) ==
  LET raw == UNION {{[p |-> q, def |-> IF s.place[1] = ReturnLocal THEN 1 ELSE 0,
                      ins |-> UNION {ToCaller(f, t, a) : a \in s.from}] : q \in ToCaller(f, t, s.place)}
                    : s \in summary}
      keys == {<<m.p, m.def>> : m \in raw}
      merged == {[p |-> k[1], def |-> k[2],
                  ins |-> UNION {m.ins : m \in {x \in raw : x.p = k[1] /\ x.def = k[2]}}] : k \in keys}
      strong == SetToSortSeq({m \in merged : m.def = 1}, LAMBDA a, b : Len(a.p[2]) < Len(b.p[2]))
  IN strong \o SetToSeq({m \in merged : m.def = 0})

-----------------------------------------------------------------------------
Frame(i) == [i |-> i, sums |-> <<>>, tab |-> [nrows |-> 0], ent |-> <<>>, todo |-> {}, run |-> FALSE]
Top == stack[Len(stack)]
SetTop(fr) == [stack EXCEPT ![Len(stack)] = fr]
OnStack == {stack[k].i : k \in DOMAIN stack}
Empty(k) == [r \in 1 .. k |-> {}]

Init == fi = 1 /\ mi = 1 /\ stack = <<>> /\ phase = "load" /\ n = 0

Advance ==
  /\ IF mi < Len(Modes) THEN mi' = mi + 1 /\ fi' = fi ELSE mi' = 1 /\ fi' = fi + 1
  /\ phase' = IF mi < Len(Modes) \/ fi < Len(Data) THEN "load" ELSE "end"
  /\ stack' = <<>> /\ n' = 0

Skip == phase = "load" /\ (~HasMode \/ F.answerable = 0) /\ Advance

Load ==
  /\ phase = "load" /\ HasMode /\ F.answerable = 1
  /\ stack' = <<Frame(fi)>> /\ phase' = "run" /\ n' = n + 1 /\ UNCHANGED <<fi, mi>>

(* A callee that has not been summarised yet is analysed first. *)
Missing == {c[2] : c \in InlinedCalls(Top.i, OnStack)} \ DOMAIN Top.sums

Enter ==
  /\ phase = "run" /\ ~Top.run
  /\ \E miss \in {Missing} :
       IF miss # {}
       THEN stack' = Append(stack, Frame(Min(miss)))
       ELSE \E f \in {Data[Top.i]} :
            \E over \in {[l \in {c[1] : c \in InlinedCalls(Top.i, OnStack)} |->
                            LET c == CHOOSE x \in InlinedCalls(Top.i, OnStack) : x[1] = l
                            IN InlineMutations(f, TermAt(f, l), Top.sums[c[2]])]} :
            \E tab \in {CompileWith(f, ModeRec(ModeName), <<>>, over)} :
              stack' = SetTop([Top EXCEPT !.run = TRUE, !.tab = tab,
                                 !.ent = [b \in DOMAIN f.blocks |-> IF b = 1 THEN tab.init ELSE Empty(tab.nrows)],
                                 !.todo = Closure(BlockSucc(f), {1}, {1}, {})])
  /\ n' = n + 1 /\ UNCHANGED <<fi, mi, phase>>

Step ==
  /\ phase = "run" /\ Top.run /\ Top.todo # {}
  /\ \E f \in {Data[Top.i]} : \E b \in {Min(Top.todo)} :
     \E out \in {Last(BlockStates(f, Top.tab, b, Top.ent[b]))} :
       LET succ == {s + 1 : s \in Range(f.blocks[b].term.succ)}
           ent == Top.ent
       IN \E joined \in {[s \in succ |-> [r \in DOMAIN out |-> ent[s][r] \cup out[r]]]} :
          \E changed \in {{s \in succ : joined[s] # ent[s]}} :
            stack' = SetTop([Top EXCEPT !.ent = [s \in DOMAIN ent |-> IF s \in changed THEN joined[s] ELSE ent[s]],
                                        !.todo = (Top.todo \ {b}) \cup changed])
  /\ n' = n + 1 /\ UNCHANGED <<fi, mi, phase>>

States(fr) ==
  LET f == Data[fr.i] IN AllStates(f, fr.tab, fr.ent)

(* An analysed callee is summarised for its caller. *)
Return ==
  /\ phase = "run" /\ Top.run /\ Top.todo = {} /\ Len(stack) > 1
  /\ \E s \in {Summary(Data[Top.i], Top.tab, States(Top))} :
     \E below \in {stack[Len(stack) - 1]} :
       stack' = Append(SubSeq(stack, 1, Len(stack) - 2),
                       [below EXCEPT !.sums = @ @@ (Top.i :> s)])
  /\ n' = n + 1 /\ UNCHANGED <<fi, mi, phase>>

-----------------------------------------------------------------------------
(* Comparison with the implementation's answers. *)

Diff(kind, loc, p, got, want) ==
  IF got = want THEN {} ELSE {[kind |-> kind, loc |-> loc, place |-> p,
                               missing |-> want \ got, extra |-> got \ want]}

Compare(S) ==
  LET f == F
      tab == Top.tab
      real == F.modes[ModeName]
      got(i) == Range(real.sets[i + 1])
      qi(p) == CHOOSE i \in DOMAIN f.queries : f.queries[i] = p
      okT == {t \in DOMAIN f.targets : f.targets[t][1] \in Range(f.queries)}
  IN UNION {UNION {Diff("deps", l - 1, f.queries[q], got(real.deps[l][q]), DepsOf(tab, S[l], q))
                   : q \in DOMAIN f.queries} : l \in DOMAIN real.deps}
     \cup UNION {Diff("bwd", f.targets[t][2], f.targets[t][1], got(real.bwd[t]),
                      Backward(f, tab, S, qi(f.targets[t][1]), f.targets[t][2])) : t \in okT}

Limit(s, k) == IF Len(s) > k THEN SubSeq(s, 1, k) ELSE s
Report(bad) ==
  \E s \in {Limit(SetToSeq(bad), 40)} :
    \A i \in DOMAIN s : PrintT("MISMATCH " \o ToJson([fn |-> F.name, file |-> F.file, mode |-> ModeName] @@ s[i]))

Check ==
  /\ phase = "run" /\ Top.run /\ Top.todo = {} /\ Len(stack) = 1
  /\ \E S \in {States(Top)} : \E bad \in {Compare(S)} :
       /\ Report(bad)
       /\ TLCSet(1, TLCGet(1) + Cardinality(bad))
       /\ TLCSet(2, TLCGet(2) + 1)
       /\ TLCSet(3, TLCGet(3) + Len(F.modes[ModeName].deps) * Len(F.queries))
       /\ TLCSet(4, TLCGet(4) + Cardinality(DOMAIN Top.sums))
  /\ Advance

Next == Skip \/ Load \/ Enter \/ Step \/ Return \/ Check
Spec == Init /\ [][Next]_vars

(* The machine is deterministic: this identifies a state. *)
View == <<fi, mi, phase, n>>
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0) /\ TLCSet(4, 0)
Conforms == PrintT("SUMMARY " \o ToJson([mismatches |-> TLCGet(1), checked |-> TLCGet(2), answers |-> TLCGet(3),
                                         inlined |-> TLCGet(4)]))
=============================================================================
