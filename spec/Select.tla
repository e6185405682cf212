------------------------------- MODULE Select -------------------------------
(* What a cursor or selection designates.  Ranges are pairs of offsets, both   *)
(* ends included: a cursor at the end of a place is still on it.               *)
(*                                                                             *)
(* A family of ranges (places of one function, or functions of one file) is    *)
(* built one range per step, in any order; then every selection is resolved.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, IOUtils, Json

CONSTANTS N, Steps
Kind == IOEnv.VP_KIND            \* "places" or "bodies"

VARIABLES fam, size, loaded, log, n
vars == <<fam, size, loaded, log, n>>

Ranges == {<<a, b>> \in (0 .. N) \X (0 .. N) : a <= b}
In(r, s) == s[1] <= r[1] /\ r[2] <= s[2]
Meets(r, s) == r[1] <= s[2] /\ s[1] <= r[2]

Inside(q) == {i \in DOMAIN fam : In(fam[i], q)}
Around(q) == {i \in DOMAIN fam : In(q, fam[i])}
Nested(q) == \A i, j \in Around(q) : In(fam[i], fam[j]) \/ In(fam[j], fam[i])
Smallest(q) == {i \in Around(q) : \A j \in Around(q) : In(fam[i], fam[j])}
Crossing(q) == {i \in DOMAIN fam : Meets(fam[i], q) /\ ~In(fam[i], q) /\ ~In(q, fam[i])}

(* The places shown for a selection: those in it, or else the smallest one     *)
(* around it and the ones it cuts.                                             *)
Places(q) == IF Inside(q) # {} THEN Inside(q) ELSE Crossing(q) \cup Smallest(q)
(* The function that a selection is in. *)
Body(q) == Smallest(q)
(* The analyser is asked about a position and answers for an innermost function   *)
(* there.  Where the ends of the selection or the beginning of the function allow *)
(* it, the position is one of the function that the selection is in.              *)
Innermost(p) == {i \in Around(<<p, p>>) : ~\E j \in Around(<<p, p>>) : j # i /\ In(fam[j], fam[i])}
Positions(q, i) == IF \E p \in {q[1], q[2], fam[i][1]} : Innermost(p) = {i}
                   THEN {p \in 0 .. N : i \in Innermost(p)} ELSE 0 .. N

R(S) == {RandomElement(S)}
Laminar(r) == \A i \in DOMAIN fam : In(fam[i], r) \/ In(r, fam[i]) \/ ~(fam[i][1] < r[2] /\ r[1] < fam[i][2])
Init == fam = <<>> /\ size \in 1 .. 7 /\ loaded = <<>> /\ log = <<>> /\ n = 0

Grow ==
  /\ Len(fam) < size
  /\ \E r \in R({x \in Ranges \ Range(fam) : Kind = "bodies" => x[1] < x[2] /\ Laminar(x)}) :
       fam' = Append(fam, r)
  /\ UNCHANGED <<size, loaded, log, n>>

RangeSeq == SetToSeq(Ranges)
ShowPlaces ==
  /\ Kind = "places" /\ Len(fam) = size /\ n = 0
  /\ LET qs == SelectSeq(RangeSeq, LAMBDA q : Nested(q))
     IN log' = [i \in DOMAIN qs |-> [q |-> qs[i], show |-> SetToSortSeq(Places(qs[i]), <)]]
  /\ n' = Steps /\ UNCHANGED <<fam, size, loaded>>

(* Functions are analysed when first entered; `show` is the function shown, 0 if the display does not change, *)
(* `ask` whether the analyser is asked.                                                                        *)
EnterBody ==
  /\ Kind = "bodies" /\ Len(fam) = size /\ n < Steps
  /\ \E q \in R(Ranges) :
       /\ Nested(q)
       /\ LET b == Body(q)
              i == IF b = {} THEN 0 ELSE CHOOSE x \in b : TRUE
          IN /\ log' = Append(log, [q |-> q, show |-> i, at |-> IF i = 0 THEN <<>> ELSE SetToSeq(Positions(q, i)), ask |-> IF i = 0 \/ \E x \in DOMAIN loaded : loaded[x] = i THEN 0 ELSE 1])
             /\ loaded' = IF i = 0 THEN loaded ELSE Append(loaded, i)
  /\ n' = n + 1 /\ UNCHANGED <<fam, size>>

Finish == n = Steps /\ PrintT("FAMILY " \o ToJson([fam |-> fam, log |-> log])) /\ FALSE /\ UNCHANGED vars
Next == Grow \/ ShowPlaces \/ EnterBody \/ Finish
Spec == Init /\ [][Next]_vars

(* Among ranges that are nested there is exactly one smallest. *)
OneSmallest == \A q \in Ranges : Nested(q) => Cardinality(Smallest(q)) = IF Around(q) = {} THEN 0 ELSE 1
=============================================================================
