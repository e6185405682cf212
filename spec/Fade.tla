-------------------------------- MODULE Fade --------------------------------
(* What is faded in focus mode: the characters of the containers that are in   *)
(* no range of the slice.  A text is a sequence of characters 0 .. N-1; a      *)
(* range is a pair <<from, to>> of offsets, from inclusive, to exclusive.      *)
(* TLC enumerates containers and slices; each is one step.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, IOUtils, Json

CONSTANTS N, Many       \* length of the text; slices of more than two ranges per container set
VARIABLES c, k, done
vars == <<c, k, done>>

Ranges == {<<a, b>> \in (0 .. N) \X (0 .. N) : a <= b}
Chars(r) == r[1] .. (r[2] - 1)
All(rs) == UNION {Chars(rs[i]) : i \in DOMAIN rs}
Faded(containers, slice) == All(containers) \ All(slice)

Containers == << <<<<1, 7>>>>, <<<<0, N>>>>, <<<<3, 3>>>>, <<<<0, 4>>, <<5, 9>>>>, <<<<6, 8>>, <<1, 3>>, <<4, 5>>>>,
                 <<<<0, N>>, <<2, 4>>>>, <<<<1, 5>>, <<3, 8>>>>, <<>> >>
RangeSeq == SetToSeq(Ranges)
Case(slice) == [s |-> slice, f |-> SetToSortSeq(Faded(Containers[c], slice), <)]
R(S) == RandomElement(S)

Init == c = 1 /\ k = 0 /\ done = FALSE
Next ==
  /\ ~done
  /\ \E one \in {IF k = 0 THEN <<>> ELSE <<RangeSeq[k]>>} :
       LET two == IF k = 0 THEN <<Case(<<>>)>>
                  ELSE <<Case(one)>> \o [i \in DOMAIN RangeSeq |-> Case(one \o <<RangeSeq[i]>>)]
           more == [i \in 1 .. Many |->
                      Case(one \o <<R(Ranges), R(Ranges)>> \o (IF i % 2 = 0 THEN <<R(Ranges)>> ELSE <<>>) \o
                           (IF i % 3 = 0 THEN <<R(Ranges), R(Ranges)>> ELSE <<>>))]
       IN PrintT("CASES " \o ToJson([containers |-> Containers[c], cases |-> two \o more]))
  /\ IF k < Len(RangeSeq) THEN k' = k + 1 /\ UNCHANGED <<c, done>>
     ELSE k' = 0 /\ IF c < Len(Containers) THEN c' = c + 1 /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

(* Nothing outside of the containers or inside of the slice is ever faded. *)
Sound == \A r \in Ranges : Faded(Containers[c], <<r>>) \cap Chars(r) = {} /\ Faded(Containers[c], <<r>>) \subseteq All(Containers[c])
=============================================================================
