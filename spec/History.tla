------------------------------ MODULE History ------------------------------
(* A process that analyses functions and is asked about them, in any order.   *)
(* A session opens analyses -- of a function, in a mode -- and asks each of    *)
(* the open ones for dependencies, aliases, sub-places, slices, ... ; the same *)
(* function can be open several times.  What the process remembers (`known`)   *)
(* is what an implementation may cache: it must never show.  The only freedom  *)
(* an answer has is the first time that its question is asked anywhere.        *)
(*                                                                             *)
(* VP_RUN = "generate": TLC's simulator walks the machine; each walk is a      *)
(* session to run.  VP_RUN = "validate": the answers of real sessions, run in  *)
(* different processes and orders, must be one behaviour of this machine.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

In == JsonDeserialize(IOEnv.VP_IN)
Generate == IOEnv.VP_RUN = "generate"

VARIABLES
  open,     \* analyses in use: <<function, mode, queries, targets, locations>>
  ops,      \* the session so far
  known,    \* question -> answer
  k, j      \* validate: session and event
vars == <<open, ops, known, k, j>>

R(T) == {RandomElement(T)}
Places == {"alias", "reachn", "reachm", "children", "conflicts", "norm"}

-----------------------------------------------------------------------------
(* Sessions.  In.files[x] is a sequence of [idx, nq, nt, nloc], one per function.   *)

Length == In.length
Init ==
  /\ open = <<>> /\ known = <<>> /\ k = 1 /\ j = 1
  /\ IF Generate THEN \E x \in DOMAIN In.files : ops = <<<<"file", x - 1>>>> ELSE ops = <<>>

Fns == In.files[ops[1][2] + 1]
Pool(m, n) == {RandomElement(0 .. (m - 1)) : i \in 1 .. n}

Open ==
  /\ Generate /\ Len(ops) < Length /\ Len(open) < 6
  /\ \E again \in R(IF Len(open) > 0 THEN {TRUE, FALSE} ELSE {FALSE}) :
     \E f \in (IF again THEN {open[RandomElement(DOMAIN open)][1]} ELSE R(DOMAIN Fns)) :
     \E m \in R({In.modes[i] : i \in DOMAIN In.modes}) :
     \E qs \in {Pool(Fns[f].nq, 5)} : \E ts \in {Pool(Fns[f].nt, 4)} : \E ls \in {Pool(Fns[f].nloc, 3)} :
       LET same == {i \in DOMAIN open : open[i][1] = f}
           h == IF same = {} THEN <<f, m, qs, ts, ls>> ELSE <<f, m>> \o SubSeq(open[CHOOSE i \in same : TRUE], 3, 5)
       IN /\ open' = Append(open, h)
          /\ ops' = Append(ops, <<"open", Fns[f].idx, m>>)
  /\ UNCHANGED <<known, k, j>>

Ask ==
  /\ Generate /\ Len(ops) < Length /\ Len(open) > 0
  /\ \E i \in R(DOMAIN open) : \E what \in R(Places \cup {"deps", "deps2", "deps3", "slice", "slice2", "args", "muts"}) :
     \E q \in R(open[i][3]) : \E l \in R(open[i][5]) : \E d \in R({"bwd", "fwd", "both"}) :
     \E ts \in R({<<a>> : a \in open[i][4]} \cup {<<a, b>> : a \in open[i][4], b \in open[i][4]}) :
       ops' = Append(ops,
         CASE what \in Places -> <<what, i - 1, q>>
           [] what \in {"deps", "deps2", "deps3"} -> <<"deps", i - 1, l, q>>
           [] what \in {"slice", "slice2"} -> <<"slice", i - 1, d, ts>>
           [] OTHER -> <<what, i - 1>>)
  /\ UNCHANGED <<open, known, k, j>>

Output ==
  /\ Generate /\ Len(ops) >= Length
  /\ PrintT("WALK " \o ToJson(ops))
  /\ FALSE /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* In.sessions[x] = [id, file, events: <<question, answer>>]; a question names *)
(* the function and mode it is about, not the handle nor the session.          *)

Event == In.sessions[k].events[j]
Key == <<In.sessions[k].file, Event[1]>>

Answer ==
  /\ ~Generate /\ k <= Len(In.sessions) /\ j <= Len(In.sessions[k].events)
  /\ IF Key \in DOMAIN known
     THEN /\ (known[Key] # Event[2] =>
                PrintT("MISMATCH " \o ToJson([session |-> In.sessions[k].id, file |-> Key[1], question |-> Key[2],
                                              event |-> j, before |-> known[Key], now |-> Event[2]])))
          /\ TLCSet(2, TLCGet(2) + 1)
          /\ UNCHANGED known
     ELSE known' = known @@ (Key :> Event[2])
  /\ TLCSet(1, TLCGet(1) + 1)
  /\ j' = j + 1 /\ UNCHANGED <<open, ops, k>>

NextSession ==
  /\ ~Generate /\ k <= Len(In.sessions) /\ j > Len(In.sessions[k].events)
  /\ k' = k + 1 /\ j' = 1 /\ UNCHANGED <<open, ops>>
  (* sessions come file by file: questions about another file are not asked again *)
  /\ known' = IF k < Len(In.sessions) /\ In.sessions[k + 1].file = In.sessions[k].file THEN known ELSE <<>>

Next == Open \/ Ask \/ Ask \/ Output \/ Answer \/ NextSession
Spec == Init /\ [][Next]_vars
View == <<k, j, ops>>
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
Done == Generate \/ PrintT("SUMMARY " \o ToJson([asked |-> TLCGet(1), repeated |-> TLCGet(2)]))
=============================================================================
