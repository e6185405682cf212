------------------------------- MODULE Focus -------------------------------
(* What the focus command must answer for a function: one entry per place that *)
(* is mentioned in the source, with the source of its combined slice and of    *)
(* the instructions that touch it directly, plus the containers.  Source       *)
(* positions of instructions are rustc's (given); everything computed from     *)
(* them is specified here.                                                     *)
EXTENDS Machine, Text

SP == F.spans
NL == Breaks(F.text)
Rng(lo, hi) == RngIn(F.text, NL, lo, hi)
Ranges(Is) == {Rng(l[1], l[2]) : l \in UNION {LinesIn(F.text, NL, s) : s \in Is}}

SpansOf(tbl, ids) == UNION {Range(tbl[i + 1]) : i \in ids}

-----------------------------------------------------------------------------
Qs == PrepQueries(F)
QI(q) == CHOOSE i \in DOMAIN Qs : Qs[i] = q
Mode == ModeRec(ModeName)
Reach(p, m) == ReachableOf(F, tab.loans, Mode, p, m)

(* Instructions that read or write a place directly. *)
Influence ==
  LET ms(l) == tab.muts[l + 1]
      touch(l) == UNION {UNION {Reach(q, 0) : q \in ms(l)[i].ins} \cup Reach(ms(l)[i].p, 1) : i \in DOMAIN ms(l)}
  IN TLCEval([l \in Locations(F) |-> TLCEval(touch(l))])
Touching(infl, p) == LET R == Reach(p, 0) IN {l \in Locations(F) : infl[l] \cap R # {}}

GroupKeys == {<<SP.mir[i].lo, SP.mir[i].hi, SP.mir[i].ctxt>> : i \in DOMAIN SP.mir}
TargetsOf(k) ==
  UNION {{<<SP.mir[i].p, l>> : l \in Range(SP.mir[i].locs)} :
         i \in {j \in DOMAIN SP.mir : <<SP.mir[j].lo, SP.mir[j].hi, SP.mir[j].ctxt>> = k}}

Entry(k, infl, comb) ==
  LET T == TargetsOf(k)
      slice == TLCEval(Merge(TLCEval(SpansOf(SP.outer, UNION {comb[t] : t \in T}))))
      direct == {s \in SpansOf(SP.none, UNION {Touching(infl, t[1]) : t \in T}) :
                   \E r \in slice : r[1] <= s[1] /\ s[2] <= r[2]}
  IN [range |-> Rng(k[1], k[2]), ranges |-> Ranges({<<k[1], k[2]>>}),
      slice |-> Ranges(slice), direct |-> Ranges(direct)]

Entries ==
  LET infl == Influence
      T == UNION {TargetsOf(k) : k \in GroupKeys}
      comb == TLCEval([t \in T |-> TLCEval(
                 (IF t[2] >= F.nloc THEN {t[2]} ELSE Backward(F, tab, S, QI(t[1]), t[2]))
                   \cup Forward(F, tab, S, QI(t[1]), t[2]))])
  IN {Entry(k, infl, comb) : k \in GroupKeys}

Containers ==
  {Rng(SP.body[1], SP.body[2]), Rng(SP.ret[1], SP.ret[2])}
    \cup (IF SP.params = <<>> THEN {}
          ELSE {Rng(Min({SP.params[i][1] : i \in DOMAIN SP.params}), Max({SP.params[i][2] : i \in DOMAIN SP.params}))})

-----------------------------------------------------------------------------
Answer == F.focus[ModeName]              \* the decoded answer of the real tool
GotEntry(e) == [range |-> e.range, ranges |-> Range(e.ranges), slice |-> Range(e.slice), direct |-> Range(e.direct)]

Problems ==
  LET want == Entries
      got == {GotEntry(Answer.place_info[i]) : i \in DOMAIN Answer.place_info}
      gotC == Range(Answer.containers)
      item == Rng(SP.item[1], SP.item[2])
      d(kind, a, b) == IF a = b THEN {} ELSE {[kind |-> kind, missing |-> b \ a, extra |-> a \ b]}
  IN d("entries", got, want)
     \cup d("entry count", {Len(Answer.place_info)}, {Cardinality(GroupKeys)})
     \cup d("containers", gotC, Containers)
     \cup d("container count", {Len(Answer.containers)}, {2 + (IF SP.params = <<>> THEN 0 ELSE 1)})
     \cup d("outside", {r \in UNION {e.slice \cup e.direct \cup {e.range} : e \in got} : ~Within(r, item)}, {})

Check ==
  /\ phase = "check"
  /\ \E bad \in {Problems} :
       /\ \A x \in bad : PrintT("MISMATCH " \o ToJson([fn |-> F.name, file |-> F.file, mode |-> ModeName] @@ x))
       /\ TLCSet(1, TLCGet(1) + Cardinality(bad))
       /\ TLCSet(2, TLCGet(2) + 1)
       /\ TLCSet(3, TLCGet(3) + Len(Answer.place_info))
  /\ Advance

Next == Skip \/ Load \/ Step \/ Settle \/ Check
Spec == Init /\ [][Next]_vars
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)
Conforms == PrintT("SUMMARY " \o ToJson([mismatches |-> TLCGet(1), checked |-> TLCGet(2), answers |-> TLCGet(3)]))
=============================================================================
