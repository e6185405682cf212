------------------------------- MODULE Alias -------------------------------
(* Which places a reference can designate, from ownership and lifetimes only. *)
EXTENDS Mir

(* mode: [ignoreMut |-> BOOLEAN, conservative |-> BOOLEAN] *)

(* Borrow expressions in program order: <<region, mut, place>> *)
Borrows(f) ==
  FlattenSeq([b \in DOMAIN f.blocks |->
    LET ss == SelectSeq(f.blocks[b].stmts,
                        LAMBDA s : s.k = "assign" /\ s.rv.k = "ref" /\ s.rv.r >= 0)
    IN [i \in DOMAIN ss |-> <<ss[i].rv.r, ss[i].rv.mut, ss[i].rv.pl[1]>>]])

AllPointers(f) ==
  UNION {InteriorPointers(f, LocalPlace(l - 1)) : l \in DOMAIN f.locals}

(* Where the pointee of a borrow sits relative to what it was borrowed from. *)
DefiniteOf(f, place) ==
  LET R == RefPositions(f, place)
  IN IF R = {} THEN <<f.locals[place[1] + 1].ty, place[2]>>
     ELSE LET i == Min(R)
          IN <<Ty(f, PlaceTy(f, Prefix(place, i - 1))).ty, Suffix(place, i)>>

BaseEdges(f) ==
  {e \in Range(f.subset) : e[1] \notin Range(f.ctx_regions) /\ e[2] \notin Range(f.ctx_regions)}

(* Conservative pointers: any two pointers to the same type may be equal. *)
ConservativeEdges(f, ptrs) ==
  LET known == {q \in ptrs : q[1] # -1}
      dty(q) == Ty(f, PlaceTy(f, q[2])).ty
  IN {<<q1[1], q2[1]>> : <<q1, q2>> \in
        {pr \in known \X known : pr[1][1] # pr[2][1] /\ dty(pr[1]) = dty(pr[2])}}

RECURSIVE ReachFrom(_, _, _)
ReachFrom(succ, frontier, seen) ==
  LET next == (UNION {succ[r] : r \in frontier}) \ seen
  IN IF next = {} THEN seen ELSE ReachFrom(succ, TLCEval(next), TLCEval(seen \cup next))

(* A place whose type may own values of that same type (a list, a tree)       *)
(* stands for all of them: a pointer to it may point to any.                  *)
Recursive(f, t) == "rec" \in DOMAIN Ty(f, t)

(* A loan inherited through a borrow &'b (..*p).q is narrowed by q when its   *)
(* type is that of *p.                                                        *)
Narrow(f, def, loan) ==
  IF def[1] = PlaceTy(f, loan[1]) /\ ~Recursive(f, def[1]) THEN <<ProjectAll(loan[1], def[2]), loan[2]>> ELSE loan

RECURSIVE PropagateLoans(_, _, _, _, _, _)
PropagateLoans(f, succ, definite, cyclic, contains, changed) ==
  IF changed = {} THEN contains
  ELSE
    LET targets == UNION {succ[a] : a \in changed}
        flow(a, b) ==
          IF b \in DOMAIN definite /\ <<a, b>> \notin cyclic
          THEN {Narrow(f, definite[b], l) : l \in contains[a]}
          ELSE contains[a]
        new == TLCEval([b \in targets |->
                  contains[b] \cup UNION {flow(a, b) : a \in {x \in changed : b \in succ[x]}}])
        ch == TLCEval({b \in targets : new[b] # contains[b]})
    IN PropagateLoans(f, succ, definite, cyclic,
                      TLCEval([r \in DOMAIN contains |-> IF r \in ch THEN new[r] ELSE contains[r]]), ch)

(* Places rooted in arguments that are overwritten or mutably borrowed. *)
Overwritten(f) ==
  {Normalize(f, q) : q \in {p \in UNION {UNION {LET s == f.blocks[b].stmts[i]
                      IN CASE s.k = "assign" ->
                                {s.p} \cup (IF s.rv.k \in {"ref", "rawptr"} /\ s.rv.mut = 1
                                           THEN {s.rv.pl[1]} ELSE {})
                           [] s.k = "setdiscr" -> {s.p}
                           [] OTHER -> {} : i \in DOMAIN f.blocks[b].stmts}
                \cup (IF f.blocks[b].term.k = "call" THEN {f.blocks[b].term.dest} ELSE {})
              : b \in DOMAIN f.blocks} : IsArgPlace(f, p)}}

(* loans: region -> set of <<place, mutable>>; -1: raw pointers and boxes;    *)
(* -2: Overwritten.                                                           *)
Loans(f, mode) ==
  LET borrows == TLCEval(Borrows(f))
      ptrs == TLCEval(AllPointers(f))
      base == TLCEval(BaseEdges(f))
      edges0 == TLCEval(base \cup (IF mode.conservative THEN ConservativeEdges(f, ptrs) ELSE {}))
      argPtrs == TLCEval(UNION {InteriorPointers(f, LocalPlace(a)) : a \in 1 .. f.argc})
      bregs == TLCEval({borrows[i][1] : i \in DOMAIN borrows})
      regs == {0} \cup {e[1] : e \in edges0} \cup {e[2] : e \in edges0}
                \cup {q[1] : q \in ptrs} \cup bregs
      regions == TLCEval(regs \ {-1})
      succ == TLCEval([a \in regions |->
                 (IF a = 0 THEN regions ELSE {e[2] : e \in {x \in edges0 : x[1] = a}}) \ {a}])
      fromBorrows(r) == {<<borrows[i][3], borrows[i][2]>> : i \in
                           {j \in DOMAIN borrows : borrows[j][1] = r
                                                   /\ IsDirect(f, borrows[j][3])}}
      (* Deviation: argument pointers behind more than two projections are dropped. *)
      fromArgs(r) == {<<Project(q[2], Deref), q[3]>> : q \in
                        {x \in argPtrs : x[1] = r /\ Len(x[2][2]) <= 2}}
      init == TLCEval([r \in regions |-> fromBorrows(r) \cup fromArgs(r)])
      unknown == {<<Project(q[2], Deref), 1>> : q \in {x \in ptrs : x[1] = -1}}
                   \cup fromArgs(-1)
      definite == TLCEval([r \in bregs |->
                     DefiniteOf(f, borrows[Max({i \in DOMAIN borrows : borrows[i][1] = r})][3])])
      preds(b) == {a \in regions : b \in succ[a]}
      cyclic == TLCEval(UNION {LET R == ReachFrom(succ, {b}, {b})
                              IN {<<a, b>> : a \in preds(b) \cap R} : b \in bregs})
      fix == PropagateLoans(f, succ, definite, cyclic, init,
                            {r \in regions : init[r] # {}})
  IN TLCEval([r \in regions \cup {-1, -2} |->
                CASE r = -1 -> unknown [] r = -2 -> Overwritten(f) [] OTHER -> fix[r]])

LoansOf(loans, r) == IF r \in DOMAIN loans THEN loans[r] ELSE {}

(* The dereference of an argument is what the caller provided, unless the     *)
(* pointer may have been replaced.                                            *)
Repointed(f, loans, p) ==
  \E i \in RefPositions(f, p) : \E n \in 0 .. (i - 1) :
    Normalize(f, Prefix(p, n)) \in LoansOf(loans, -2)

AliasesOf(f, loans, p) ==
  IF IsDirect(f, p) /\ ~Repointed(f, loans, p) THEN {p}
  ELSE
    LET i == Max(RefPositions(f, p))
        T == Ty(f, PlaceTy(f, Prefix(p, i - 1)))
        after == Suffix(p, i)
        r == IF T.k = "ptr" THEN -1 ELSE IF T.k = "ref" /\ T.r >= 0 THEN T.r ELSE -9
    IN {p} \cup {IF T.ty = PlaceTy(f, l[1]) /\ ~Recursive(f, T.ty) THEN ProjectAll(l[1], after) ELSE l[1]
                 : l \in LoansOf(loans, r)}

ChildrenOf(f, p) == InteriorPlaces(f, p)

(* Places whose mutation is also a mutation of p, up to the nearest reference. *)
ParentLengths(f, p) ==
  LET stops == {i \in DOMAIN p[2] : p[2][i] = Deref /\ ~IsBox(f, PlaceTy(f, Prefix(p, i - 1)))}
  IN IF stops = {} THEN 0 .. (Len(p[2]) - 1) ELSE Max(stops) .. (Len(p[2]) - 1)
ConflictsOf(f, p) == ChildrenOf(f, p) \cup {Prefix(p, n) : n \in ParentLengths(f, p)}

(* Direct places reachable from p with at least permission `m` (1 = mutable). *)
ReachableOf(f, loans, mode, p, m) ==
  LET regs == TLCEval(TypeRegions(f, PlaceTy(f, p), FALSE))
      ok(l, imm) == mode.ignoreMut \/ m = 0 \/ (l[2] = 1 /\ ~imm)
      ls == UNION {{l[1] : l \in {x \in LoansOf(loans, ri[1]) : ok(x, ri[2])}} : ri \in regs}
      keep(q) == LET R == RefPositions(f, q)
                 IN \/ R # {} /\ IsRawPtr(f, PlaceTy(f, Prefix(q, Max(R) - 1)))
                    \/ IsDirect(f, q)
  IN {q \in ls \cup {p} : keep(q)}

(* Everything whose change is observable by reading p. *)
InfluencesOf(f, aliasesOf(_), p) ==
  LET viaAliases == UNION {ConflictsOf(f, a) : a \in aliasesOf(p)}
      ptrs == {Prefix(p, i - 1) : i \in RefPositions(f, p)}
      provenance == UNION {UNION {ConflictsOf(f, a) : a \in aliasesOf(q)} : q \in ptrs}
      indexes == {LocalPlace(p[2][i][2]) : i \in
                    {j \in DOMAIN p[2] : p[2][j][1] = "I" /\ p[2][j][2] # ReturnLocal}}
  IN viaAliases \cup provenance \cup indexes

(* Places reachable from arguments, with the argument's id. *)
ArgPlaces(f) ==
  UNION {LET a == LocalPlace(l)
             ptrs == {Project(q[2], Deref) : q \in
                        {x \in InteriorPointers(f, a) : Len(x[2][2]) <= 2}}
         IN UNION {{<<q, ArgId(f, l)>> : q \in InteriorPlaces(f, x)} : x \in ptrs \cup {a}}
         : l \in 1 .. f.argc}
=============================================================================
