-------------------------------- MODULE Cli --------------------------------
(* The command line protocol.  A request is about a file of a crate; the tool  *)
(* builds the crate's target, finds the file, finds the innermost function     *)
(* around the position, and answers with exactly one message -- or, when the   *)
(* crate does not build, with none and a failing status.                       *)
EXTENDS Text, Json, IOUtils

Data == JsonDeserialize(IOEnv.VP_IN)     \* sequence of [world, req, ans]

VARIABLES i, stage, out
vars == <<i, stage, out>>

W == Data[i].world                \* [builds, all, files, bodies, compiler, version]
Rq == Data[i].req                 \* [cmd, file, from, to]
A == Data[i].ans                  \* [failed, messages, kind, error, spans, body, ret, outlives]

Init == i = 1 /\ stage = "received" /\ out = [kind |-> "none"]

File(path) == {k \in DOMAIN W.files : W.files[k].path = path}
BodyRange(b) ==
  LET t == W.files[CHOOSE k \in File(b.file) : TRUE].text
  IN RngIn(t, Breaks(t), b.lo, b.hi)
Part(b, s) ==
  LET t == W.files[CHOOSE k \in File(b.file) : TRUE].text
  IN RngIn(t, Breaks(t), s[1], s[2])

Reply(m) == stage' = "answered" /\ out' = m /\ UNCHANGED i
Go(s) == stage' = s /\ UNCHANGED <<i, out>>

(* Requests that are not about a file: building ahead of time reports whether  *)
(* everything builds, by its status alone; the editor asks which version this  *)
(* is and expects its own.  What is no request at all is refused.              *)
General == {"preload", "rustc-version", "-V", "malformed"}
Preload == stage = "received" /\ Rq.cmd = "preload" /\ Reply([kind |-> "status", failed |-> ~W.all])
CompilerVersion == stage = "received" /\ Rq.cmd = "rustc-version" /\ Reply([kind |-> "line", text |-> W.compiler])
OwnVersion == stage = "received" /\ Rq.cmd = "-V" /\ Reply([kind |-> "line", text |-> W.version])
Refuse == stage = "received" /\ Rq.cmd = "malformed" /\ Reply([kind |-> "nothing"])

BuildFails == stage = "received" /\ Rq.cmd \notin General /\ ~W.builds /\ Reply([kind |-> "nothing"])
BuildSucceeds == stage = "received" /\ Rq.cmd \notin General /\ W.builds /\ Go("built")

(* `spans` knows about missing files; the others fail as an analysis. *)
NotInCrate ==
  /\ stage = "built" /\ File(Rq.file) = {}
  /\ Reply([kind |-> "error", error |-> IF Rq.cmd = "spans" THEN "FileNotFound" ELSE "AnalysisError"])
InCrate == stage = "built" /\ File(Rq.file) # {} /\ Go("found")

ListBodies ==
  /\ stage = "found" /\ Rq.cmd = "spans"
  /\ Reply([kind |-> "spans",
            spans |-> {BodyRange(W.bodies[b]) : b \in {x \in DOMAIN W.bodies : W.bodies[x].file = Rq.file}},
            count |-> Cardinality({x \in DOMAIN W.bodies : W.bodies[x].file = Rq.file})])

Around == {b \in DOMAIN W.bodies : W.bodies[b].file = Rq.file /\ Within(<<Rq.from, Rq.to>>, BodyRange(W.bodies[b]))}
Size(b) == W.bodies[b].hi - W.bodies[b].lo
NoBody ==
  /\ stage = "found" /\ Rq.cmd # "spans" /\ Around = {}
  /\ Reply([kind |-> "error", error |-> "AnalysisError"])
Select ==
  /\ stage = "found" /\ Rq.cmd # "spans"
  /\ \E b \in Around :
       /\ \A c \in Around : Size(b) <= Size(c)
       /\ Reply(IF Rq.cmd = "focus"
                THEN [kind |-> "focus", body |-> Part(W.bodies[b], W.bodies[b].body), ret |-> Part(W.bodies[b], W.bodies[b].ret)]
                ELSE [kind |-> "playground",
                      outlives |-> {<<"'?" \o ToString(e[1]), "'?" \o ToString(e[2])>> : e \in Range(W.bodies[b].subset)}])

(* Is the recorded answer the one given here? *)
Matches ==
  CASE out.kind = "nothing" -> A.failed /\ A.messages = 0
    [] out.kind = "error" -> ~A.failed /\ A.messages = 1 /\ A.kind = "Err" /\ A.error = out.error
    [] out.kind = "spans" -> /\ ~A.failed /\ A.messages = 1 /\ A.kind = "Ok"
                             /\ Range(A.spans) = out.spans /\ Len(A.spans) = out.count
    [] out.kind = "focus" -> ~A.failed /\ A.messages = 1 /\ A.kind = "Ok" /\ A.body = out.body /\ A.ret = out.ret
    [] out.kind = "playground" -> ~A.failed /\ A.messages = 1 /\ A.kind = "Ok" /\ Range(A.outlives) = out.outlives
    [] out.kind = "status" -> A.failed = out.failed /\ A.messages = 0
    [] out.kind = "line" -> ~A.failed /\ A.text = out.text
    [] OTHER -> FALSE

(* Registers: 1 requests some answer of which matched, 2 all answers the specification allows. *)
Compare ==
  /\ stage = "answered"
  /\ TLCSet(2, TLCGet(2) + 1)
  /\ TLCSet(3, TLCGet(3) @@ (out.kind :> 1))
  /\ IF Matches THEN TLCSet(1, TLCGet(1) \cup {i}) ELSE TLCSet(4, TLCGet(4) @@ (i :> out))
  /\ IF i < Len(Data) THEN i' = i + 1 /\ stage' = "received" /\ out' = [kind |-> "none"]
     ELSE stage' = "end" /\ UNCHANGED <<i, out>>

Next == Preload \/ CompilerVersion \/ OwnVersion \/ Refuse \/ BuildFails \/ BuildSucceeds \/ NotInCrate \/ InCrate \/ ListBodies \/ NoBody \/ Select \/ Compare
Spec == Init /\ [][Next]_vars
ASSUME TLCSet(1, {}) /\ TLCSet(2, 0) /\ TLCSet(3, <<>>) /\ TLCSet(4, <<>>)

Report ==
  /\ \A k \in DOMAIN Data \ TLCGet(1) :
       PrintT("MISMATCH " \o ToJson([kind |-> "answer", req |-> Data[k].req, crate |-> Data[k].crate, ans |-> Data[k].ans,
                                    want |-> IF k \in DOMAIN TLCGet(4) THEN ToString(TLCGet(4)[k]) ELSE "nothing"]))
  /\ PrintT("SUMMARY " \o ToJson([checked |-> Len(Data), matched |-> Cardinality(TLCGet(1)), kinds |-> DOMAIN TLCGet(3)]))
=============================================================================
