-------------------------------- MODULE Setup --------------------------------
(* Activation of the editor extension.  The environment is chosen first (where *)
(* Cargo.toml files are, what is open) and then answers, one after another,    *)
(* the questions the extension asks: is the analyser installed, does the       *)
(* installation work, where is the toolchain.  Every behaviour is a run from   *)
(* activation to the point where nothing more is asked.                        *)
(*                                                                             *)
(* Directories are levels: 0 is the workspace folder, k the directory k levels *)
(* below it on the way to the open file, which lies in level `depth`.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES env, pc, ran, told, have
vars == <<env, pc, ran, told, have>>
\* ran: <<question, answer>> in order;  told: messages shown to the user;  have: what the probe found

Levels == 0 .. 3
NoDepth == -1                 \* no file is open
NoRoot == -1

Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(* The project: the workspace folder itself, or else the outermost directory   *)
(* on the way to the open file that holds a manifest.                          *)
Root(e) ==
  LET on == {k \in e.toml : k <= e.depth}
  IN CASE ~e.folder -> NoRoot
       [] e.folder /\ 0 \in e.toml -> 0
       [] e.folder /\ 0 \notin e.toml /\ on # {} -> Min(on)
       [] OTHER -> NoRoot

(* home: whether CARGO_HOME says where cargo's programs are, or the user's directory does. *)
Envs == [folder : {TRUE}, toml : SUBSET Levels, depth : {NoDepth} \cup Levels, home : {TRUE}]
        \cup {[folder |-> FALSE, toml |-> {}, depth |-> NoDepth, home |-> TRUE],
              [folder |-> TRUE, toml |-> {0}, depth |-> 1, home |-> FALSE]}

Init == /\ env \in Envs
        /\ pc = "start" /\ ran = <<>> /\ told = <<>> /\ have = "?"

Ask(what, ans) == ran' = Append(ran, <<what, ans>>)
Tell(m) == told' = Append(told, m)
Broken == {"fail", "missing"}        \* ends with an error, or cannot be started
(* Any other version is a different one: lower, higher, one that begins or ends  *)
(* with the right one, one that the right one begins or ends with, none at all.  *)
Different == {"other", "newer", "longer", "shorter", "silent", "prefixed", "pre", "tail"}

Begin == /\ pc = "start"
         /\ pc' = IF Root(env) = NoRoot THEN "off" ELSE "version"
         /\ UNCHANGED <<env, ran, told, have>>
Version == /\ pc = "version"
           /\ \E a \in {"same"} \cup (IF env.depth <= 0 THEN Different ELSE {"other"}) \cup Broken :
                /\ Ask("version", a)
                /\ have' = a
                /\ pc' = IF a = "same" THEN "which" ELSE "toolchain"
           /\ UNCHANGED <<env, told>>
Toolchain == /\ pc = "toolchain"
             /\ \E a \in {"ok"} \cup Broken :
                  /\ Ask("toolchain", a)
                  /\ pc' = IF a = "ok" THEN "download" ELSE "dialog"
                  /\ IF a = "ok" THEN UNCHANGED told ELSE Tell("error")
             /\ UNCHANGED <<env, have>>
(* The user mends it by hand, or gives up. *)
Dialog == /\ pc = "dialog"
          /\ \E a \in {"fix", "dismiss", "close"} :
               /\ Ask("dialog", a)
               /\ pc' = IF a = "fix" THEN "download" ELSE "off"
               /\ IF a = "fix" THEN Tell("info") ELSE UNCHANGED told
          /\ UNCHANGED <<env, have>>
Installed == IF have \in Broken \cup {"silent"} THEN Tell("info") ELSE UNCHANGED told
Download == /\ pc = "download"
            /\ \E a \in {"ok", "fail"} :
                 /\ Ask("download", a)
                 /\ pc' = IF a = "ok" THEN "which" ELSE "source"
                 /\ IF a = "ok" THEN Installed ELSE UNCHANGED told
            /\ UNCHANGED <<env, have>>
Source == /\ pc = "source"
          /\ \E a \in {"ok"} \cup Broken :
               /\ Ask("source", a)
               /\ pc' = IF a = "ok" THEN "which" ELSE "broken"
               /\ IF a = "ok" THEN Installed ELSE Tell("error")
          /\ UNCHANGED <<env, have>>
Query(at, next) == /\ pc = at
                   /\ \E a \in {"ok"} \cup Broken :
                        /\ Ask(at, a)
                        /\ pc' = IF a = "ok" THEN next ELSE "broken"
                        /\ IF a = "ok" THEN UNCHANGED told ELSE Tell("error")
                   /\ UNCHANGED <<env, have>>
(* Building dependencies ahead of time is an optimisation: it may fail. *)
Preload == /\ pc = "preload"
           /\ \E a \in {"ok"} \cup Broken : Ask("preload", a)
           /\ pc' = "ready"
           /\ UNCHANGED <<env, told, have>>

Next == Begin \/ Version \/ Toolchain \/ Dialog \/ Download \/ Source \/ Query("which", "print") \/ Query("print", "preload") \/ Preload
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == pc \in {"ready", "off", "broken"}
Asked(q) == \E i \in DOMAIN ran : ran[i][1] = q
Got(q, a) == \E i \in DOMAIN ran : ran[i] = <<q, a>>

(* The guarantees. *)
NothingOutsideProjects == Root(env) = NoRoot => ran = <<>> /\ pc # "ready"
OnlyWhatIsNeeded == Got("version", "same") => ~Asked("toolchain") /\ ~Asked("download") /\ ~Asked("source")
ReadyMeansInstalled == pc = "ready" => Got("version", "same") \/ Got("download", "ok") \/ Got("source", "ok")
ReadyMeansLocated == pc = "ready" => Got("which", "ok") /\ Got("print", "ok")
FailureIsTold == pc = "broken" => "error" \in {told[i] : i \in DOMAIN told}
SourceIsTheFallback == Asked("source") => Got("download", "fail")
Terminates == <>Over

Emit == Over => PrintT("RUN " \o ToJson([folder |-> env.folder, toml |-> env.toml, depth |-> env.depth, home |-> env.home, root |-> Root(env), end |-> pc, ran |-> ran, told |-> told]))
=============================================================================
