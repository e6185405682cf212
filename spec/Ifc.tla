-------------------------------- MODULE Ifc --------------------------------
(* The information-flow checker.  A function is reported iff, when it returns, *)
(* some part of some local of an insecure type depends on everything that some *)
(* part of some local of a secure type depends on; each such pair is one       *)
(* report naming the declaration of both locals.                               *)
EXTENDS Machine

Traits == "flowistry_ifc_traits"
Declared(trait) == {F.impls[i][2] : i \in {j \in DOMAIN F.impls : F.impls[j][1] = Traits \o "::" \o trait}}
SecurePaths == Declared("Secure")
InsecurePaths == Declared("Insecure")
                   \cup {Traits \o "::InsecureString", "std::fmt::Arguments"}

IsAdt(T) == T.k \in {"struct", "enum", "union"}
RECURSIVE Secure(_)
Secure(t) ==
  LET T == Ty(F, t)
  IN \/ IsAdt(T) /\ T.path \in SecurePaths
     \/ T.k = "ref" /\ T.mut = 0 /\ Secure(T.ty)      \* impl<T: Secure> Secure for &T
Insecure(t) == LET T == Ty(F, t) IN IsAdt(T) /\ T.path \in InsecurePaths

Join(sts) == [r \in DOMAIN sts[1] |-> UNION {sts[i][r] : i \in DOMAIN sts}]

(* The set of <<source, sink>> that must be reported, each with its text. *)
Reports ==
  LET Qs == PrepQueries(F)
      rets == SetToSeq({TermLoc(F, b) : b \in ReturnBlocks(F)})
      final == TLCEval(Join([i \in DOMAIN rets |-> S[rets[i] + 1]]))
      sec == {i \in DOMAIN Qs : Secure(PlaceTy(F, Qs[i]))}
      ins == {i \in DOMAIN Qs : Insecure(PlaceTy(F, Qs[i]))}
      deps == TLCEval([i \in sec \cup ins |-> DepsOf(tab, final, i)])
      span(i) == F.ifc.spans[Qs[i][1] + 1]
  IN IF rets = <<>> THEN {}
     ELSE {<<span(pr[1]), span(pr[2])>> : pr \in
             {x \in sec \X ins : deps[x[1]] # {} /\ deps[x[1]] \subseteq deps[x[2]]}}

(* acc: what the functions of the current file must report so far.  The real    *)
(* checker's answer for a file comes with its last function.                   *)
VARIABLE acc
Check ==
  /\ phase = "check"
  /\ \E want \in {acc \cup Reports} :
       IF ~F.last THEN acc' = want
       ELSE \E got \in {Range(F.reports)} :
            \E bad \in {want # got \/ F.clean # (want = {})} :
              /\ (bad => PrintT("MISMATCH " \o ToJson([fn |-> F.name, file |-> F.file, mode |-> ModeName,
                              kind |-> "reports", missing |-> want \ got, extra |-> got \ want,
                              said_clean |-> F.clean])))
              /\ acc' = {}
              /\ TLCSet(1, TLCGet(1) + (IF bad THEN 1 ELSE 0))
              /\ TLCSet(3, TLCGet(3) + Cardinality(want))
  /\ TLCSet(2, TLCGet(2) + 1)
  /\ Advance

Next == Check \/ ((Skip \/ Load \/ Step \/ Settle) /\ UNCHANGED acc)
IfcSpec == Init /\ acc = {} /\ [][Next]_<<vars, acc>>
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)
Conforms == PrintT("SUMMARY " \o ToJson([mismatches |-> TLCGet(1), checked |-> TLCGet(2), answers |-> TLCGet(3)]))
=============================================================================
