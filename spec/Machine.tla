------------------------------ MODULE Machine ------------------------------
(* The specification's engine as a state machine.  Functions are taken one     *)
(* after the other (and per mode): each is compiled, its blocks are run one at *)
(* a time until nothing changes, and the state after every location is laid    *)
(* out for the modules that compare it with what the implementation answered.  *)
(* Those modules choose the places to ask about with PrepQueries.              *)
EXTENDS Flow, Json, IOUtils

Data == JsonDeserialize(IOEnv.VP_IN)       \* sequence of functions
Opts == JsonDeserialize(IOEnv.VP_OPTS)     \* [modes, kinds, prop]
Modes == Opts.modes
Kinds == Range(Opts.kinds)
Prop == Opts.prop

(* "unset" is an analysis for which no mode was ever chosen. *)
ModeRec(m) == [ignoreMut |-> m \in {"ignoremut", "ignoremut+conservative"},
               conservative |-> m \in {"conservative", "ignoremut+conservative"}]

VARIABLES fi, mi, phase, tab, ent, todo, S, n
vars == <<fi, mi, phase, tab, ent, todo, S, n>>

F == Data[fi]
ModeName == Modes[mi]
Real == F.modes[ModeName]

NoTab == [nrows |-> 0]
Empty(k) == [r \in 1 .. k |-> {}]

Init ==
  /\ fi = 1 /\ mi = 1 /\ phase = "load"
  /\ tab = NoTab /\ ent = <<>> /\ todo = {} /\ S = <<>> /\ n = 0

(* Candidate places of the information-flow checker: all parts of all locals. *)
AllPlaces(f) == UNION {InteriorPlaces(f, LocalPlace(l - 1)) : l \in DOMAIN f.locals}

PrepQueries(f) ==
  CASE Opts.part = "ifc" -> SetToSeq(AllPlaces(f))
    [] Opts.part = "focus" -> SetToSeq({f.spans.mir[i].p : i \in DOMAIN f.spans.mir})
    [] OTHER -> f.queries

HasMode == "modes" \in DOMAIN F /\ ModeName \in DOMAIN F.modes /\ ~("panic" \in DOMAIN Real)

(* Next function and mode. *)
Advance ==
  /\ IF mi < Len(Modes) THEN mi' = mi + 1 /\ fi' = fi ELSE mi' = 1 /\ fi' = fi + 1
  /\ phase' = IF mi < Len(Modes) \/ fi < Len(Data) THEN "load" ELSE "end"
  /\ tab' = NoTab /\ ent' = <<>> /\ todo' = {} /\ S' = <<>> /\ n' = 0

Skip == phase = "load" /\ ~HasMode /\ Advance

Load ==
  /\ phase = "load" /\ HasMode
  /\ \E q \in {PrepQueries(F)} : tab' = Compile([F EXCEPT !.queries = q], ModeRec(ModeName), Real.muts)
  /\ ent' = [b \in DOMAIN F.blocks |-> IF b = 1 THEN tab'.init ELSE Empty(tab'.nrows)]
  /\ todo' = Closure(BlockSucc(F), {1}, {1}, {})
  /\ S' = <<>>
  /\ phase' = "run"
  /\ UNCHANGED <<fi, mi, n>>

(* One step of the engine: run a block and join its result into its successors. *)
Step ==
  /\ phase = "run" /\ todo # {}
  /\ \E b \in {Min(todo)} : \E out \in {Last(BlockStates(F, tab, b, ent[b]))} :
       LET succ == {s + 1 : s \in Range(F.blocks[b].term.succ)}
       IN \E joined \in {[s \in succ |-> [r \in DOMAIN out |-> ent[s][r] \cup out[r]]]} :
          \E changed \in {{s \in succ : joined[s] # ent[s]}} :
            /\ ent' = [s \in DOMAIN ent |-> IF s \in changed THEN joined[s] ELSE ent[s]]
            /\ todo' = (todo \ {b}) \cup changed
  /\ n' = n + 1 /\ UNCHANGED <<fi, mi, phase, tab, S>>

Settle ==
  /\ phase = "run" /\ todo = {}
  /\ S' = AllStates(F, tab, ent)
  /\ phase' = "check"
  /\ UNCHANGED <<fi, mi, tab, ent, todo, n>>

-----------------------------------------------------------------------------
Finish == phase = "end" /\ UNCHANGED vars

(* The machine is deterministic: this identifies a state. *)
View == <<fi, mi, phase, n>>
=============================================================================
