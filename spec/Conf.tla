-------------------------------- MODULE Conf --------------------------------
(* Conformance of the real analysis with the specification: everything the     *)
(* implementation answered about a function is compared with what the          *)
(* specification says.                                                         *)
EXTENDS Machine

-----------------------------------------------------------------------------
(* Comparison.  A mismatch is <<kind, location or -1, place, real, spec>>.     *)

NormSet(ps) == {Normalize(F, p) : p \in ps}
Got(i) == Range(Real.sets[i + 1])
Q(i) == F.queries[i]
Diff(kind, loc, p, got, want) ==
  IF got = want THEN {} ELSE {[kind |-> kind, loc |-> loc, place |-> p,
                               missing |-> want \ got, extra |-> got \ want]}

CheckDeps ==
  UNION {UNION {Diff("deps", l - 1, Q(q), Got(Real.deps[l][q]), DepsOf(tab, S[l], q))
                : q \in DOMAIN F.queries} : l \in DOMAIN Real.deps}

CheckQueries ==
  LET m == ModeRec(ModeName)
      cmp(kind, real, want(_)) ==
        UNION {Diff(kind, -1, Q(q), NormSet(Range(real[q])), NormSet(want(Q(q)))) : q \in DOMAIN F.queries}
      al(p) == AliasesOf(F, tab.loans, p)
      rn(p) == ReachableOf(F, tab.loans, m, p, 0)
      rm(p) == ReachableOf(F, tab.loans, m, p, 1)
      ch(p) == ChildrenOf(F, p)
      co(p) == ConflictsOf(F, p)
  IN cmp("aliases", Real.aliases, al) \cup cmp("reachn", Real.reachn, rn)
     \cup cmp("reachm", Real.reachm, rm) \cup cmp("children", Real.children, ch)
     \cup cmp("conflicts", Real.conflicts, co)
     \cup UNION {Diff("norm", -1, Q(q), {Real.norm[q]}, {Normalize(F, Q(q))}) : q \in DOMAIN F.queries}
     \cup LET na(S2) == {<<Normalize(F, a[1]), a[2]>> : a \in S2}
          IN Diff("args", -1, <<0, <<>>>>, na(Range(Real.args)), na(ArgPlaces(F)))

CheckMuts ==
  LET sig(ms) == {<<Normalize(F, ms[i].p), ms[i].def>> : i \in DOMAIN ms}
      insOf(ms, p) == NormSet(UNION {IF Normalize(F, ms[i].p) = p[1] /\ ms[i].def = p[2]
                                THEN (IF DOMAIN ms[i].ins = {} THEN {} ELSE Range(ms[i].ins)) ELSE {} : i \in DOMAIN ms})
      insSpec(ms, p) == NormSet(UNION {IF Normalize(F, ms[i].p) = p[1] /\ ms[i].def = p[2]
                                   THEN ms[i].ins ELSE {} : i \in DOMAIN ms})
  IN UNION {LET real == Real.muts[l]
                spec == tab.muts[l]
                isCall == IsTerm(F, l - 1)
            IN Diff(IF isCall THEN "callmut" ELSE "mut", l - 1, <<0, <<>>>>, sig(real), sig(spec))
               \cup UNION {Diff(IF isCall THEN "callins" ELSE "ins", l - 1, p[1], insOf(real, p), insSpec(spec, p))
                           : p \in sig(real) \cap sig(spec)}
            : l \in DOMAIN Real.muts}

CheckSlices ==
  LET qi(p) == CHOOSE i \in DOMAIN F.queries : F.queries[i] = p
      T == F.targets
      okT == {t \in DOMAIN T : T[t][1] \in Range(F.queries)}
      bwd == TLCEval([t \in okT |-> Backward(F, tab, S, qi(T[t][1]), T[t][2])])
      keys == TLCEval([t \in okT |-> ForwardKeys(F, tab, S, qi(T[t][1]), T[t][2])])
      fwd == TLCEval([t \in okT |-> ForwardFrom(F, tab, S, keys[t])])
      one(kind, real, spec) == UNION {Diff(kind, T[t][2], T[t][1], Got(real[t]), spec[t]) : t \in okT}
      grp(kind, real, spec) ==
        UNION {LET ts == {x + 1 : x \in Range(Real.groups[g])}
               IN IF ts \subseteq okT
                  THEN Diff(kind, -g, <<0, <<>>>>, Got(real[g]), UNION {spec[t] : t \in ts})
                  ELSE {} : g \in DOMAIN Real.groups}
      both == [t \in okT |-> bwd[t] \cup fwd[t]]
  IN one("bwd", Real.bwd, bwd) \cup one("fwd", Real.fwd, fwd) \cup one("both", Real.both, both)
     \cup grp("gbwd", Real.gbwd, bwd) \cup grp("gfwd", Real.gfwd, fwd) \cup grp("gboth", Real.gboth, both)

-----------------------------------------------------------------------------
(* Which property a mismatch is a violation of.                                *)

AnyTy(P(_)) == \E t \in DOMAIN F.types : P(F.types[t])
HasCall == \E b \in DOMAIN F.blocks : F.blocks[b].term.k = "call"
HasSwitch == \E b \in DOMAIN F.blocks : F.blocks[b].term.k = "switch"
HasPointer == AnyTy(LAMBDA t : t.k \in {"ref", "ptr"})
HasShared == AnyTy(LAMBDA t : t.k = "ref" /\ t.mut = 0)

BackwardKinds == {"deps", "bwd", "gbwd"}
SliceKinds == {"bwd", "fwd", "both", "gbwd", "gfwd", "gboth"}
CallKinds == {"callmut", "callins"}
PlaceKinds == {"aliases", "children", "conflicts", "norm", "args", "reachn", "reachm"}

Violates(prop, x) ==
  CASE prop = "C01" -> x.kind \in BackwardKinds /\ x.missing # {}
    [] prop = "C02" -> x.kind \in CallKinds \/ (x.kind \in BackwardKinds /\ HasCall)
    [] prop = "C04" -> x.kind \in {"aliases", "reachn", "reachm"} \/ (x.kind \in BackwardKinds /\ HasPointer)
    [] prop = "C05" -> x.kind \in BackwardKinds \cup CallKinds \cup {"aliases"} /\ x.extra # {}
    [] prop = "C06" -> \/ x.kind \in {"reachm"} \cup CallKinds
                       \/ x.kind \in BackwardKinds /\ HasShared
    [] prop = "C07" -> x.kind \in BackwardKinds
    [] prop = "C08" -> x.kind \in BackwardKinds /\ HasSwitch
    [] prop = "C09" -> x.kind \in PlaceKinds
    [] prop = "C10" -> x.kind \in SliceKinds
    [] prop = "C11" -> x.kind \in BackwardKinds \cup CallKinds \cup PlaceKinds
    [] OTHER -> TRUE

Limit(s, k) == IF Len(s) > k THEN SubSeq(s, 1, k) ELSE s

Report(bad) ==
  \E s \in {Limit(SetToSeq(bad), 40)} :
    \A i \in DOMAIN s : PrintT("MISMATCH " \o ToJson([fn |-> F.name, file |-> F.file, mode |-> ModeName] @@ s[i]))

Check ==
  /\ phase = "check"
  /\ \E all \in {(IF Kinds \cap {"deps"} # {} THEN CheckDeps ELSE {})
                  \cup (IF Kinds \cap PlaceKinds # {} THEN CheckQueries ELSE {})
                  \cup (IF Kinds \cap CallKinds # {} THEN CheckMuts ELSE {})
                  \cup (IF Kinds \cap SliceKinds # {} THEN CheckSlices ELSE {})} :
       \E bad \in {{x \in all : Violates(Prop, x)}} :
        /\ Report(bad)
        /\ TLCSet(1, TLCGet(1) + Cardinality(bad))
        /\ TLCSet(2, TLCGet(2) + 1)
        /\ TLCSet(3, TLCGet(3) + Len(Real.deps) * Len(F.queries))
  /\ Advance

Next == Skip \/ Load \/ Step \/ Settle \/ Check
Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)

Conforms == PrintT("SUMMARY " \o ToJson([mismatches |-> TLCGet(1), checked |-> TLCGet(2), answers |-> TLCGet(3)]))
=============================================================================
