-------------------------------- MODULE Text --------------------------------
(* Source text and the editor's coordinates.  A text has one entry per byte:   *)
(* 10 for a line break, 32 for other white space, -1 inside a character.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

Breaks(text) == TLCEval({i \in DOMAIN text : text[i] = 10})

(* A byte offset as <<line, column in characters>>. *)
PosIn(text, nl, o) ==
  LET before == {i \in nl : i <= o}
      s == IF before = {} THEN 0 ELSE Max(before)
  IN <<Cardinality(before), Cardinality({i \in (s + 1) .. o : text[i] # -1})>>
RngIn(text, nl, lo, hi) == <<PosIn(text, nl, lo), PosIn(text, nl, hi)>>

Leq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Within(a, b) == Leq(b[1], a[1]) /\ Leq(a[2], b[2])

(* Maximal runs of overlapping or touching intervals. *)
RECURSIVE Merge(_)
Merge(I) ==
  IF \E a, b \in I : a # b /\ a[1] <= b[2] /\ b[1] <= a[2]
  THEN LET pr == CHOOSE x \in I \X I : x[1] # x[2] /\ x[1][1] <= x[2][2] /\ x[2][1] <= x[1][2]
           a == pr[1]
           b == pr[2]
       IN Merge(TLCEval((I \ {a, b}) \cup {<<IF a[1] < b[1] THEN a[1] ELSE b[1],
                                   IF a[2] > b[2] THEN a[2] ELSE b[2]>>}))
  ELSE I

(* An interval line by line, without indentation. *)
LinesIn(text, nl, s) ==
  LET breaks == {i \in nl : s[1] < i /\ i <= s[2]}
      starts == {s[1]} \cup breaks
      endOf(a) == LET later == {i \in breaks : i > a} IN IF later = {} THEN s[2] ELSE Min(later) - 1
      indent(a) == LET ink == {i \in (a + 1) .. endOf(a) : text[i] # 32 /\ text[i] # -1}
                   IN IF ink = {} THEN endOf(a) ELSE Min(ink) - 1
  IN {<<indent(a), endOf(a)>> : a \in starts}
=============================================================================
