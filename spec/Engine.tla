------------------------------- MODULE Engine -------------------------------
(* The order of work does not matter.  Machine runs the blocks of a function   *)
(* in one order; here any block that is waiting may be next, as for a work     *)
(* queue of whatever discipline.  Every order stays below the least solution,  *)
(* ends, and ends in the least solution.                                       *)
EXTENDS Machine

VARIABLE least
evars == <<vars, least>>

Out(e, b) == Last(BlockStates(F, tab, b, e[b]))
Succ(b) == {s + 1 : s \in Range(F.blocks[b].term.succ)}
JoinInto(e, s, out) == [r \in DOMAIN out |-> e[s][r] \cup out[r]]

(* The least solution, block by block in order. *)
RECURSIVE Least(_, _, _)
Least(tb, e, t) ==
  IF t = {} THEN e
  ELSE LET b == Min(t)
           out == TLCEval(Last(BlockStates(F, tb, b, e[b])))
           new == TLCEval([s \in DOMAIN e |-> IF s \in Succ(b) THEN JoinInto(e, s, out) ELSE e[s]])
       IN Least(tb, new, (t \ {b}) \cup {s \in Succ(b) : new[s] # e[s]})

EngineLoad ==
  /\ Load
  /\ least' = Least(tab', ent', todo')

AnyStep ==
  /\ phase = "run" /\ todo # {}
  /\ \E b \in todo : \E out \in {Out(ent, b)} :
       \E joined \in {[s \in Succ(b) |-> JoinInto(ent, s, out)]} :
       \E changed \in {{s \in Succ(b) : joined[s] # ent[s]}} :
            /\ ent' = [s \in DOMAIN ent |-> IF s \in changed THEN joined[s] ELSE ent[s]]
            /\ todo' = (todo \ {b}) \cup changed
  /\ UNCHANGED <<fi, mi, phase, tab, S, n, least>>

Done == phase = "run" /\ todo = {} /\ TLCSet(1, TLCGet(1) + 1) /\ Advance /\ least' = <<>>

Next == EngineLoad \/ (Skip /\ UNCHANGED least) \/ AnyStep \/ Done
EngineSpec == Init /\ least = <<>> /\ [][Next]_evars /\ WF_evars(Next)

Running == phase = "run"
Le(a, b) == \A s \in DOMAIN a : \A r \in DOMAIN a[s] : a[s][r] \subseteq b[s][r]
Below == Running => Le(ent, least)
Reaches == Running /\ todo = {} => ent = least
(* What is not waiting has passed on all it knows. *)
PassedOn ==
  Running => \A b \in DOMAIN ent \ todo :
               (b = 1 \/ \E r \in DOMAIN ent[b] : ent[b][r] # {}) =>
                 \E out \in {Out(ent, b)} : \A s \in Succ(b) : JoinInto(ent, s, out) = ent[s]
(* Work that grows nothing shrinks the queue, and nothing is ever taken back. *)
Progress == [][Running /\ Running' => Le(ent, ent') /\ (ent' = ent => todo' \subseteq todo /\ todo' # todo)]_evars
Ends == <>(phase = "end")

ASSUME TLCSet(1, 0)
EView == <<fi, mi, phase, todo, ent>>
Conforms == PrintT("SUMMARY " \o ToJson([done |-> TLCGet(1)]))
=============================================================================
