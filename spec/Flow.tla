-------------------------------- MODULE Flow --------------------------------
(* The information-flow semantics: what each instruction mutates, what that   *)
(* mutation depends on, how the dependency matrix is updated, and how slices   *)
(* are read out of it.  A function f is compiled once into integer tables;    *)
(* everything below the compilation works on row numbers.                     *)
EXTENDS Alias

-----------------------------------------------------------------------------
(* Control dependence, from paths only: x decides y if y runs on some way to   *)
(* an exit through x but can be avoided at x.                                  *)

BlockSucc(f) == TLCEval([b \in DOMAIN f.blocks |-> {s + 1 : s \in Range(f.blocks[b].term.succ)}])

RECURSIVE Closure(_, _, _, _)
Closure(edge, frontier, seen, avoid) ==
  LET next == ((UNION {edge[b] : b \in frontier}) \ avoid) \ seen
  IN IF next = {} THEN seen ELSE Closure(edge, TLCEval(next), TLCEval(seen \cup next), avoid)

ReturnBlocks(f) == {b \in DOMAIN f.blocks : f.blocks[b].term.k = "return"}

(* Controllers of each block: set of blocks. *)
ControlDeps(f) ==
  LET succ == BlockSucc(f)
      B == DOMAIN f.blocks
      pred == TLCEval([b \in B |-> {a \in B : b \in succ[a]}])
      reach == Closure(succ, {1}, {1}, {})
      perExit(e) ==
        LET R == TLCEval(Closure(pred, {e}, {e}, {}))
            (* blocks in R from which every path to e goes through x *)
            through == TLCEval([x \in R |->
                          IF x = e THEN R
                          ELSE (R \ Closure(pred, {e}, {e}, {x})) \cup {x}])
        IN [x \in R |->
              {y \in R \ {e} : (\E z \in succ[y] \cap R : z \in through[x])}
                 \ (through[x] \ {x})]
      per == TLCEval([e \in ReturnBlocks(f) |-> TLCEval(perExit(e))])
      direct == TLCEval([b \in B |-> UNION {IF b \in DOMAIN per[e] THEN per[e][b] ELSE {} : e \in DOMAIN per}])
  (* what decides whether a deciding branch is reached decides too *)
  IN [b \in B |-> Closure(direct, direct[b], direct[b], {})]

-----------------------------------------------------------------------------
(* Mutations.  [p |-> mutated place, ins |-> set of places, def |-> 0/1]       *)

IsStructTy(T) == T.k = "struct"

AssignMutations(f, s) ==
  LET rv == s.rv
      whole(ins) == <<[p |-> s.p, ins |-> ins, def |-> 1]>>
      opIn(o) == IF IsPlaceOp(o) THEN {o.p} ELSE {}
  IN
  IF rv.k = "agg" /\ rv.ak \in {"struct", "enum", "union", "tuple"} /\ Len(rv.ftys) > 0
  THEN LET base == IF rv.ak = "enum" THEN Project(s.p, <<"V", rv.variant>>) ELSE s.p
           n == IF Len(rv.ftys) < Len(rv.ops) THEN Len(rv.ftys) ELSE Len(rv.ops)
       IN [i \in 1 .. n |-> [p |-> Project(base, <<"F", i - 1, rv.ftys[i]>>),
                             ins |-> opIn(rv.ops[i]), def |-> 1]]
  ELSE IF rv.k = "use" /\ IsPlaceOp(rv.ops[1])
          /\ IsStructTy(Ty(f, PlaceTy(f, rv.ops[1].p)))
       THEN LET q == rv.ops[1].p
                T == Ty(f, PlaceTy(f, q))
            IN IF Len(T.fields) > 0 /\ \A i \in DOMAIN T.fields : T.fields[i][2] = 1
               THEN [i \in DOMAIN T.fields |->
                       LET e == <<"F", i - 1, T.fields[i][1]>>
                       IN [p |-> Project(s.p, e), ins |-> {Project(q, e)}, def |-> 1]]
               ELSE whole({q})
       ELSE whole(RvaluePlaces(rv))

(* `reach(p, m)` is the set of places reachable from p. *)
CallMutations(f, reach(_, _), t) ==
  LET IsCtx(p) == f.ctx_ty >= 0 /\ Ty(f, PlaceTy(f, p)).norm = Ty(f, f.ctx_ty).norm
      args == {p \in OpPlaces(t.args) : ~IsCtx(p)}
      ins == (UNION {reach(p, 0) : p \in args}) \cup (IF IsPlaceOp(t.func) THEN {t.func.p} ELSE {})
      unit == IsUnit(f, PlaceTy(f, t.dest))
      writes == SetToSeq(UNION {reach(p, 1) : p \in args})
  IN <<[p |-> t.dest, ins |-> (IF unit THEN {} ELSE ins), def |-> 1]>>
     \o [i \in DOMAIN writes |-> [p |-> writes[i], ins |-> ins, def |-> 0]]

MutationsAt(f, reach(_, _), loc) ==
  LET b == BlockOf(f, loc)
  IN IF loc = TermLoc(f, b)
     THEN (IF f.blocks[b].term.k = "call" THEN CallMutations(f, reach, f.blocks[b].term)
           ELSE <<>>)
     ELSE LET s == f.blocks[b].stmts[loc - f.blocks[b].start + 1]
          IN IF s.k = "assign" THEN AssignMutations(f, s) ELSE <<>>

-----------------------------------------------------------------------------
(* Compilation of one function under one mode.                                *)
(*   nrows, init   : number of rows, row -> initial set of argument ids        *)
(*   muts[loc+1]   : sequence of [p, ins, def, insR, clrR, provR, wrR]          *)
(*   ctl[block]    : [locs, rows]                                              *)
(*   qrows[q]      : rows a read of query q consults (deps_for)                *)

SwitchPlaces(f, b) ==
  LET t == f.blocks[b].term
  IN IF t.k = "switch" /\ IsPlaceOp(t.op) THEN {t.op.p} ELSE {}

HasSharedRef(f, p) ==
  \E i \in 1 .. Len(p[2]) : IsSharedRef(f, PlaceTy(f, Prefix(p, i - 1)))

(* observed[loc+1]: the order in which an implementation applied the weak       *)
(* updates of one call (the specification leaves it open, and allows repeats); *)
(* <<>> if unknown.                                                           *)
Reorder(f, ms, obs) ==
  LET key(m) == <<Normalize(f, m.p), m.def>>
  IN IF Len(obs) >= Len(ms) /\ Len(ms) > 1
        /\ {key(ms[i]) : i \in DOMAIN ms} = {key(obs[i]) : i \in DOMAIN obs}
        /\ \A i \in DOMAIN ms : ms[i].def = 1 => (i = 1 /\ obs[1].def = 1) \/ Len(ms) = Len(obs)
     THEN [i \in DOMAIN obs |-> ms[CHOOSE j \in DOMAIN ms : key(ms[j]) = key(obs[i])]]
     ELSE ms

(* `over` gives the mutations of locations that are not summarised by type.    *)
CompileWith(f, mode, observed, over) ==
  LET loans == TLCEval(Loans(f, mode))
      reachRaw(p, m) == ReachableOf(f, loans, mode, p, m)
      locs == 0 .. (f.nloc - 1)
      muts == TLCEval([l \in 1 .. f.nloc |->
                IF l - 1 \in DOMAIN over THEN over[l - 1]
                ELSE TLCEval(Reorder(f, TLCEval(MutationsAt(f, reachRaw, l - 1)),
                                IF l \in DOMAIN observed THEN observed[l] ELSE <<>>))])
      ctlB == TLCEval(ControlDeps(f))
      mutated == UNION {{muts[l][i].p : i \in DOMAIN muts[l]} : l \in DOMAIN muts}
      inputs == UNION {UNION {muts[l][i].ins : i \in DOMAIN muts[l]} : l \in DOMAIN muts}
      discrs == UNION {SwitchPlaces(f, b) : b \in DOMAIN f.blocks}
      queries == Range(f.queries)
      reachN == TLCEval([q \in queries |-> reachRaw(q, 0)])
      reads == mutated \cup inputs \cup discrs \cup queries \cup UNION {reachN[q] : q \in queries}
      (* aliases of everything whose aliases matter *)
      refPrefixes(p) == {Prefix(p, i - 1) : i \in RefPositions(f, p)}
      alDom == reads \cup UNION {refPrefixes(p) : p \in reads}
      al == TLCEval([p \in alDom |-> AliasesOf(f, loans, p)])
      targets(p) == {a \in al[p] : mode.ignoreMut \/ ~HasSharedRef(f, a)}
      args == TLCEval(ArgPlaces(f))
      initPairs == TLCEval(UNION {{<<Normalize(f, q), a[2]>> : q \in ConflictsOf(f, a[1])} : a \in args})
      rowset == TLCEval({x[1] : x \in initPairs}
                   \cup {Normalize(f, a) : a \in UNION {targets(p) : p \in mutated}})
      rows == TLCEval(SetToSeq(rowset))
      idx == TLCEval([r \in rowset |-> CHOOSE i \in DOMAIN rows : rows[i] = r])
      rowIds(S) == {idx[n] : n \in {Normalize(f, q) : q \in S} \cap rowset}
      confDom == UNION {al[p] : p \in alDom}
      conf == TLCEval([p \in confDom |-> rowIds(ConflictsOf(f, p))])
      viaIdx(p) == rowIds({LocalPlace(p[2][i][2]) : i \in
                     {j \in DOMAIN p[2] : p[2][j][1] = "I" /\ p[2][j][2] # ReturnLocal}})
      infl == TLCEval([p \in reads |->
                 UNION {conf[a] : a \in UNION {al[q] : q \in {p} \cup refPrefixes(p)}} \cup viaIdx(p)])
      compMut(m) ==
        [p |-> m.p, ins |-> m.ins, def |-> m.def,
         insR |-> UNION {infl[p] : p \in m.ins},
         (* an element shares its place with the others, which keep their values *)
         clrR |-> IF m.def = 1 /\ ~HasIndex(m.p) /\ Cardinality(al[m.p]) = 1
                  THEN rowIds(ChildrenOf(f, m.p)) ELSE {},
         provR |-> infl[m.p],
         wrR |-> rowIds(targets(m.p)),
         rowR |-> rowIds({m.p})]
      ctlOf(b) == [locs |-> {TermLoc(f, c) : c \in ctlB[b]},
                   rows |-> UNION {infl[p] : p \in UNION {SwitchPlaces(f, c) : c \in ctlB[b]}}]
  IN [nrows |-> Len(rows),
      rows |-> rows,
      init |-> TLCEval([i \in 1 .. Len(rows) |-> {x[2] : x \in {y \in initPairs : y[1] = rows[i]}}]),
      muts |-> TLCEval([l \in 1 .. f.nloc |-> TLCEval([i \in DOMAIN muts[l] |-> compMut(muts[l][i])])]),
      ctl |-> TLCEval([b \in DOMAIN f.blocks |-> ctlOf(b)]),
      ctlB |-> ctlB,
      swR |-> TLCEval([b \in DOMAIN f.blocks |-> {rowIds({p}) : p \in SwitchPlaces(f, b)}]),
      qrows |-> TLCEval([i \in DOMAIN f.queries |->
                  UNION {infl[p] : p \in reachN[f.queries[i]] \cup {f.queries[i]}}]),
      (* forward slices: per query, per reachable place, the rows of its parts;   *)
      (* 0 stands for a row that is always empty                                *)
      fwdR |-> TLCEval([i \in DOMAIN f.queries |->
                 {LET kids == ChildrenOf(f, Normalize(f, p))
                  IN {IF k \in rowset THEN idx[k] ELSE 0 : k \in kids}
                  : p \in reachN[f.queries[i]] \cup {f.queries[i]}}]),
      loans |-> loans]

Compile(f, mode, observed) == CompileWith(f, mode, observed, <<>>)

-----------------------------------------------------------------------------
(* Transfer function of one location on a matrix st : row -> set of ids.       *)

RowsUnion(st, R) == UNION {st[r] : r \in R}

RECURSIVE ApplyMuts(_, _, _, _)
ApplyMuts(st, ms, deps, i) ==
  IF i > Len(ms) THEN st
  ELSE
    LET m == ms[i]
        st1 == IF m.clrR = {} THEN st
               ELSE TLCEval([r \in DOMAIN st |-> IF r \in m.clrR THEN {} ELSE st[r]])
        d == TLCEval(deps[i] \cup (IF m.def = 1 THEN RowsUnion(st1, m.provR) ELSE {}))
        st2 == TLCEval([r \in DOMAIN st1 |-> IF r \in m.wrR THEN st1[r] \cup d ELSE st1[r]])
    IN ApplyMuts(st2, ms, deps, i + 1)

Transfer(T, b, loc, st) ==
  LET ms == T.muts[loc + 1]
  IN IF ms = <<>> THEN st
     ELSE LET c == T.ctl[b]
              common == TLCEval({loc} \cup c.locs \cup RowsUnion(st, c.rows))
              deps == [i \in DOMAIN ms |-> common \cup RowsUnion(st, ms[i].insR)
                                          \cup (IF ms[i].def = 0 THEN RowsUnion(st, ms[i].provR) ELSE {})]
          IN ApplyMuts(st, ms, TLCEval(deps), 1)

(* All states of a block, after each of its locations. *)
RECURSIVE RunBlock(_, _, _, _, _, _)
RunBlock(f, T, b, loc, st, acc) ==
  LET st2 == TLCEval(Transfer(T, b, loc, st))
      acc2 == Append(acc, st2)
  IN IF loc = TermLoc(f, b) THEN acc2 ELSE RunBlock(f, T, b, loc + 1, st2, acc2)

BlockStates(f, T, b, st) == RunBlock(f, T, b, f.blocks[b].start, st, <<>>)

(* The states after all locations. There is none where nothing ever gets. *)
AllStates(f, T, ent) ==
  LET live == TLCEval(Closure(BlockSucc(f), {1}, {1}, {}))
      none(b) == [i \in 1 .. (TermLoc(f, b) - f.blocks[b].start + 1) |-> [r \in DOMAIN ent[b] |-> {}]]
  IN FlattenSeq([b \in DOMAIN f.blocks |-> IF b \in live THEN BlockStates(f, T, b, ent[b]) ELSE none(b)])

-----------------------------------------------------------------------------
(* Slices.  S[loc+1] is the matrix after loc.                                 *)

DepsOf(T, st, q) == RowsUnion(st, T.qrows[q])

Backward(f, T, S, q, id) ==
  IF id >= f.nloc THEN {id} ELSE DepsOf(T, S[id + 1], q)

(* What the state of a target depends on, jointly for all of its parts. *)
ForwardKeys(f, T, S, q, id) ==
  LET st == IF id >= f.nloc THEN S[1] ELSE S[id + 1]
      row(r) == IF r = 0 THEN {} ELSE st[r]
  IN {UNION {{d \in Domain(f) : \A r \in K : d \in row(r)}, {id}} : K \in T.fwdR[q]}

RowOf(st, R) == UNION {st[r] : r \in R}

ForwardFrom(f, T, S, keys) ==
  {a \in ArgIds(f) : {a} \in keys}
  \cup {l \in Locations(f) :
          LET b == BlockOf(f, l)
              st == S[l + 1]
              hit(R) == \E k \in keys : k \subseteq RowOf(st, R)
          IN \/ \E i \in DOMAIN T.muts[l + 1] : hit(T.muts[l + 1][i].rowR)
             \/ l = TermLoc(f, b) /\ \E R \in T.swR[b] : hit(R)}

Forward(f, T, S, q, id) == ForwardFrom(f, T, S, ForwardKeys(f, T, S, q, id))
=============================================================================
