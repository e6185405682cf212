------------------------------ MODULE Modular ------------------------------
(* Modularity.  A function is answered from its own body and the signatures of *)
(* what it calls: whatever the bodies of its callees are replaced by -- an     *)
(* endless loop, a panic, a foreign function without a body -- the answers are *)
(* those of the machine, which never looks at another function.                *)
(* F.variants is a sequence of [with, modes]: the implementation's answers     *)
(* about F in programs that only differ in bodies of other functions.          *)
EXTENDS Machine

AnswersOf(real) ==
  [deps |-> [l \in DOMAIN real.deps |-> [q \in DOMAIN real.deps[l] |-> Range(real.sets[real.deps[l][q] + 1])]],
   bwd |-> [t \in DOMAIN real.bwd |-> Range(real.sets[real.bwd[t] + 1])],
   fwd |-> [t \in DOMAIN real.fwd |-> Range(real.sets[real.fwd[t] + 1])],
   both |-> [t \in DOMAIN real.both |-> Range(real.sets[real.both[t] + 1])]]

(* Where the answers of a variant differ from those about the original, and    *)
(* which of the two departs from the specification.                            *)
Departures(v) ==
  LET a == TLCEval(AnswersOf(Real))
      b == TLCEval(AnswersOf(F.variants[v].modes[ModeName]))
      side(x, y, spec) == IF y # spec THEN "replaced" ELSE IF x # spec THEN "original" ELSE "both"
      row(l, q) == [kind |-> "deps", loc |-> l - 1, place |-> F.queries[q],
                    missing |-> a.deps[l][q] \ b.deps[l][q], extra |-> b.deps[l][q] \ a.deps[l][q],
                    wrong |-> side(a.deps[l][q], b.deps[l][q], DepsOf(tab, S[l], q))]
      tgt(kind, t) == [kind |-> kind, loc |-> F.targets[t][2], place |-> F.targets[t][1],
                       missing |-> a[kind][t] \ b[kind][t], extra |-> b[kind][t] \ a[kind][t], wrong |-> "?"]
  IN {row(x[1], x[2]) : x \in {y \in (DOMAIN a.deps) \X (DOMAIN F.queries) : a.deps[y[1]][y[2]] # b.deps[y[1]][y[2]]}}
     \cup UNION {{tgt(kind, t) : t \in {u \in DOMAIN a[kind] : a[kind][u] # b[kind][u]}} : kind \in {"bwd", "fwd", "both"}}

Limit(s, k) == IF Len(s) > k THEN SubSeq(s, 1, k) ELSE s

Check ==
  /\ phase = "check"
  /\ \E vs \in {{v \in DOMAIN F.variants : ModeName \in DOMAIN F.variants[v].modes}} :
     \E bad \in {UNION {{[with |-> F.variants[v].with] @@ d : d \in Departures(v)} : v \in vs}} :
     \E s \in {Limit(SetToSeq(bad), 20)} :
       /\ \A i \in DOMAIN s : PrintT("MISMATCH " \o ToJson([fn |-> F.name, file |-> F.file, mode |-> ModeName] @@ s[i]))
       /\ TLCSet(1, TLCGet(1) + Cardinality(bad))
       /\ TLCSet(2, TLCGet(2) + Cardinality(vs))
       /\ TLCSet(3, TLCGet(3) + Cardinality(vs) * Len(Real.deps) * Len(F.queries))
  /\ Advance

Next == Skip \/ Load \/ Step \/ Settle \/ Check
Spec == Init /\ [][Next]_vars
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)
Conforms == PrintT("SUMMARY " \o ToJson([mismatches |-> TLCGet(1), checked |-> TLCGet(2), answers |-> TLCGet(3)]))
=============================================================================
