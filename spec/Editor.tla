------------------------------- MODULE Editor -------------------------------
(* Focus mode of the editor extension.  The state is what the user has done    *)
(* (active editor, cursors, texts and which of them are unsaved), what the     *)
(* extension knows (mode, cached answers, marks), the requests the analyser    *)
(* has not answered, and what is highlighted in each visible editor.  A        *)
(* transition is one event: a command, a cursor move, an edit, a save, a       *)
(* change of editor, an answer.                                                *)
(*                                                                             *)
(* Editors 1 .. NDocs show Rust files of the workspace, the last one a file   *)
(* that is none of the extension's business.  Each Rust file has two functions: p, q   *)
(* are places and g a gap in the first one, r is a place and h a gap in the    *)
(* second one, o is outside of both.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

CONSTANTS NDocs, Positions, MaxVer, MaxPend, Steps

VARIABLES s, hist, n
vars == <<s, hist, n>>

Eds == 1 .. (NDocs + 1)
Docs == 1 .. NDocs
Valid(e) == e \in Docs
BodyAt(pos) == CASE pos \in {"p", "q", "g"} -> 1 [] pos \in {"r", "h"} -> 2 [] OTHER -> 0
PlaceAt(pos, b) == IF pos \in {"p", "q", "r"} /\ BodyAt(pos) = b THEN pos ELSE "-"
SliceStart == [p |-> "q", q |-> "p", r |-> "h"]     \* where selecting a slice leads

NoCell == [k |-> "null", why |-> "-", mark |-> "-", ver |-> 0]
NoDoc == [k |-> "none", b |-> <<NoCell, NoCell>>]
NoCache == [d \in Docs |-> NoDoc]
Dark == [e \in Eds |-> <<>>]

Start == [mode |-> "idle", cache |-> NoCache, pend |-> <<>>, shown |-> Dark, act |-> 1, cur |-> [e \in Eds |-> "o"],
          buf |-> [e \in Eds |-> 1], disk |-> [e \in Eds |-> 1],
          pane |-> <<>>, log |-> 0, said |-> <<>>]
(* pane: which build failure (by the version of the text it is about) the      *)
(* error pane shows, if it is open;  log: the latest build failure, -1 for the   *)
(* one met while preloading;                                                   *)
(* said: the dialogs the current event raised, by the version of the text the  *)
(* analysis failed for, 0 if the answer makes no sense.                         *)

Dirty(S, e) == S.buf[e] # S.disk[e]
(* Answers to what was asked so far no longer count. *)
Abandon(S) == [S EXCEPT !.pend = [i \in DOMAIN @ |-> [@[i] EXCEPT !.live = FALSE]]]

-----------------------------------------------------------------------------
(* What is highlighted for a function whose answer has arrived: the marked     *)
(* place, or else the one at the cursor.                                       *)
Expected(S, e, b) ==
  LET c == S.cache[e].b[b]
      p == PlaceAt(IF c.mark # "-" THEN c.mark ELSE S.cur[e], b)
  IN IF p = "-" THEN <<>> ELSE <<c.ver, b, p>>
Render(S, e, b) == [S EXCEPT !.shown[e] = Expected(S, e, b)]

(* A failure is explained to a user who asked for something (u), not to one    *)
(* who just moves around.                                                      *)
Failed(S, why, ver, u) ==
  [S EXCEPT !.mode = "error", !.shown = Dark,
            !.pane = IF u /\ why = "build" THEN <<ver>> ELSE @,
            !.said = IF u /\ why = "analysis" THEN Append(@, ver) ELSE @]

RECURSIVE Slice(_, _), GetDoc(_, _, _, _), Ask(_, _, _, _, _, _), Saved(_, _), WithDoc(_, _, _, _), WithBody(_, _, _, _, _), Done(_, _)

(* Refresh what the active editor shows. *)
Slice(S, u) == IF S.act = 0 \/ ~Valid(S.act) THEN S ELSE GetDoc(S, S.act, "slice", u)

(* A request may start when no other one is awaited and the text is saved. *)
GetDoc(S, e, cmd, u) ==
  IF S.mode \notin {"active", "notfound"} THEN S
  ELSE LET L == [S EXCEPT !.mode = "loading"]
       IN IF S.cache[e].k = "none" THEN Ask(L, "spans", e, cmd, 0, u) ELSE WithDoc(L, e, cmd, u)

(* The analyser reads files: the active editor is saved first, which starts over. *)
Ask(S, kind, e, cmd, b, u) ==
  LET dirty == S.act # 0 /\ Dirty(S, S.act)
      T == IF dirty THEN Saved(S, S.act) ELSE S
  IN [T EXCEPT !.pend = Append(@, [kind |-> kind, e |-> e, cmd |-> cmd, b |-> b, user |-> u, ver |-> T.disk[e],
                                   at |-> S.cur[e], live |-> ~(dirty /\ Valid(S.act))])]

Saved(S, e) ==
  LET T == [S EXCEPT !.disk[e] = S.buf[e]]
  IN IF ~Valid(e) \/ S.mode = "idle" THEN T ELSE Slice([Abandon(T) EXCEPT !.mode = "active"], FALSE)

WithDoc(S, e, cmd, u) ==
  LET b == BodyAt(S.cur[e])
      c == S.cache[e].b[b]
  IN CASE S.cache[e].k = "notfound" -> [S EXCEPT !.mode = "notfound"]
       [] b = 0 -> Done(S, cmd)
       [] c.k = "null" -> Ask(S, "focus", e, cmd, b, u)
       [] OTHER -> WithBody(S, e, cmd, b, u)

WithBody(S, e, cmd, b, u) ==
  IF S.cache[e].b[b].k = "err" THEN Failed(S, S.cache[e].b[b].why, S.cache[e].b[b].ver, u)
  ELSE LET x == Expected(S, e, b)
       IN CASE cmd = "slice" -> Done(Render(S, e, b), cmd)
            [] cmd = "mark" -> Done([S EXCEPT !.cache[e].b[b].mark = S.cur[e]], cmd)
            [] cmd = "unmark" -> Done([S EXCEPT !.cache[e].b[b].mark = "-"], cmd)
            [] cmd = "select" -> Done(IF x = <<>> THEN Render(S, e, b) ELSE [S EXCEPT !.cur[e] = SliceStart[x[3]]], cmd)

Done(S, cmd) == LET T == [S EXCEPT !.mode = "active", !.pane = <<>>] IN IF cmd = "slice" THEN T ELSE Slice(T, TRUE)

-----------------------------------------------------------------------------
(* Events. *)

Toggle(S) == IF S.mode = "idle" THEN Slice([S EXCEPT !.mode = "active"], TRUE)
             ELSE [Abandon(S) EXCEPT !.mode = "idle", !.shown = Dark, !.pane = <<>>]

Command(S, cmd) ==
  IF S.act = 0 \/ ~Valid(S.act) THEN S
  ELSE GetDoc(IF S.mode = "idle" THEN [S EXCEPT !.mode = "active"] ELSE S, S.act, cmd, TRUE)

Move(S, pos) == LET T == [S EXCEPT !.cur[S.act] = pos] IN IF S.mode = "idle" THEN T ELSE Slice(T, FALSE)

(* What went wrong last, also for failures nobody was told about. *)
LastError(S) == [S EXCEPT !.pane = <<S.log>>]

Edit(S, e) ==
  LET T == [S EXCEPT !.buf[e] = @ + 1]
      U == [Abandon(T) EXCEPT !.cache = NoCache]
  IN IF ~Valid(e) THEN T ELSE IF S.mode = "idle" THEN U ELSE [U EXCEPT !.mode = "unsaved", !.shown = Dark]

Answer(S, i, answer) ==
  LET a == IF answer = "garbage" THEN "analysis" ELSE answer
      about == IF answer = "garbage" THEN 0 ELSE S.pend[i].ver
      q == S.pend[i]
      T == [S EXCEPT !.pend = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)), !.log = IF a = "build" THEN q.ver ELSE @]
  IN IF ~q.live THEN T
     ELSE IF q.kind = "spans"
     THEN CASE a = "ok" -> WithDoc([T EXCEPT !.cache[q.e] = [NoDoc EXCEPT !.k = "ok"]], q.e, q.cmd, q.user)
            [] a = "notfound" -> WithDoc([T EXCEPT !.cache[q.e] = [NoDoc EXCEPT !.k = "notfound"]], q.e, q.cmd, q.user)
            [] OTHER -> Failed(T, a, about, q.user)
     ELSE WithBody([T EXCEPT !.cache[q.e].b[q.b] = [NoCell EXCEPT !.k = IF a = "ok" THEN "ok" ELSE "err", !.why = a, !.ver = about]],
                   q.e, q.cmd, q.b, q.user)

-----------------------------------------------------------------------------
Icon == [active |-> "check", unsaved |-> "circle-slash", idle |-> "undefined", error |-> "x",
         loading |-> "sync~spin", notfound |-> "question"]
Seen(S) == [shown |-> S.shown, pane |-> S.pane, said |-> S.said, cur |-> S.cur, bar |-> Icon[S.mode],
            pending |-> [i \in DOMAIN S.pend |-> [kind |-> S.pend[i].kind, e |-> S.pend[i].e, at |-> S.pend[i].at]]]

(* The project may have failed to build already when the extension started. *)
Unbuilt == [Start EXCEPT !.log = -1]
Init == /\ s \in {Start, Unbuilt} /\ n = 0
        /\ hist = IF Steps = 0 THEN <<>> ELSE <<[ev |-> <<"start", s.log>>, see |-> Seen(s)]>>

Do(ev, T) ==
  /\ s' = T /\ n' = n + 1
  /\ hist' = IF Steps = 0 THEN hist ELSE Append(hist, [ev |-> ev, see |-> Seen(T)])

z == [s EXCEPT !.said = <<>>]

(* Every event, for exploring everything. *)
AnyEvent ==
  \/ Do(<<"focus">>, Toggle(z))
  \/ \E c \in {"mark", "unmark", "select"} : Do(<<c>>, Command(z, c))
  \/ \E pos \in Positions : s.act # 0 /\ Do(<<"move", pos>>, Move(z, pos))
  \/ \E e \in Eds : s.buf[e] < MaxVer /\ Do(<<"edit", e>>, Edit(z, e))
  \/ \E e \in Eds : Do(<<"save", e>>, Saved(z, e))
  \/ \E e \in 0 .. (NDocs + 1) : e # s.act /\ Do(<<"switch", e>>, [z EXCEPT !.act = e])
  \/ Do(<<"why">>, LastError(z))
  \/ \E i \in DOMAIN s.pend, a \in {"ok", "build", "analysis", "notfound"} : Do(<<"answer", i, a>>, Answer(z, i, a))
Small == Len(s.pend) <= MaxPend
Explore == Init /\ [][AnyEvent]_vars
(* What is told about failures does not influence anything else. *)
All == s
View == [s EXCEPT !.pane = <<>>, !.log = 0, !.said = <<>>]

(* One random schedule at a time, answers and cursor moves more often than the rest. *)
R(T) == {RandomElement(T)}
Turn == /\ n < Steps
MoveAny == Turn /\ s.act # 0 /\ \E pos \in R(Positions) : Do(<<"move", pos>>, Move(z, pos))
Reply(as) == Turn /\ s.pend # <<>> /\ \E i \in R(DOMAIN s.pend), a \in R(as) : Do(<<"answer", i, a>>, Answer(z, i, a))
Good == Reply({"ok"})
Walk ==
  \/ Turn /\ Do(<<"focus">>, Toggle(z))
  \/ Turn /\ s.mode = "idle" /\ Do(<<"focus">>, Toggle(z))
  \/ Turn /\ \E k \in R(1 .. 3) : k = 1 /\ Do(<<"why">>, LastError(z))
  \/ Turn /\ Do(<<"mark">>, Command(z, "mark"))
  \/ Turn /\ \E c \in R({"unmark", "select"}) : Do(<<c>>, Command(z, c))
  \/ MoveAny \/ (MoveAny /\ TRUE) \/ (TRUE /\ MoveAny)
  \/ Turn /\ \E e \in R(Eds) : Do(<<"edit", e>>, Edit(z, e))
  \/ Turn /\ \E e \in R(Docs) : Dirty(s, e) /\ Do(<<"save", e>>, Saved(z, e))
  \/ Turn /\ \E e \in R(Eds) : Do(<<"save", e>>, Saved(z, e))
  \/ Turn /\ \E e \in R((0 .. (NDocs + 1)) \ {s.act}) : Do(<<"switch", e>>, [z EXCEPT !.act = e])
  \/ Turn /\ s.act \notin Docs /\ \E e \in R(Docs) : Do(<<"switch", e>>, [z EXCEPT !.act = e])
  \/ Good \/ (Good /\ TRUE) \/ (TRUE /\ Good)
  \/ Reply({"ok", "build", "analysis", "notfound", "garbage"})
  \/ n = Steps /\ PrintT("WALK " \o ToJson(hist)) /\ FALSE /\ UNCHANGED vars
Schedules == Init /\ [][Walk]_vars

-----------------------------------------------------------------------------
(* What a user relies on. *)
Off == s.mode = "idle" => s.shown = Dark
OnlyCurrent == \A e \in Eds : s.shown[e] # <<>> => Valid(e) /\ ~Dirty(s, e) /\ s.shown[e][1] = s.buf[e]
ClearedOnFailure == s.mode \in {"error", "unsaved"} => s.shown = Dark
OneLive == Cardinality({i \in DOMAIN s.pend : s.pend[i].live}) <= 1
LoadingIffLive == s.mode = "loading" <=> \E i \in DOMAIN s.pend : s.pend[i].live
(* A marked place stays highlighted while its function has the cursor. *)
Marked ==
  \A e \in Docs : \A b \in {1, 2} :
    LET c == s.cache[e].b[b]
    IN (s.mode = "active" /\ s.act = e /\ c.mark # "-" /\ s.shown[e] # <<>> /\ s.shown[e][2] = b)
          => s.shown[e][3] = c.mark
(* Once nothing is awaited, moving shows exactly what belongs at the cursor. *)
Settled ==
  [][\A pos \in Positions :
       (s.act # 0 /\ Valid(s.act) /\ s.mode = "active" /\ s' = Move(z, pos) /\ s'.mode = "active" /\ BodyAt(pos) # 0)
         => s'.shown[s.act] = Expected(s', s.act, BodyAt(pos))]_vars
(* Marks go away only when the text changes or on request. *)
MarksKept ==
  [][\A e \in Docs : \A b \in {1, 2} :
       s.cache[e].b[b].mark # "-" =>
         \/ s'.cache[e].b[b].mark # "-"
         \/ s'.cache[e].k = "none"
         \/ s' = Command(z, "unmark")
         \/ \E i \in DOMAIN s.pend : s.pend[i].live]_vars
(* Failures: the pane is closed when focus mode ends or works again, nobody is *)
(* interrupted for merely moving or saving, and who asks is told.              *)
AtMostOne == Len(s.said) <= 1
PaneIsLatest == s.pane # <<>> => s.pane[1] <= s.log
ClosedWhenOff == [][s.mode # "idle" /\ s'.mode = "idle" => s'.pane = <<>>]_vars
ClosedWhenFine ==
  [][\A i \in DOMAIN s.pend : s.pend[i].live /\ s' = Answer(z, i, "ok") /\ s'.mode = "active" => s'.pane = <<>>]_vars
NotForMoving ==
  [][\A pos \in Positions : (s.act # 0 /\ s' = Move(z, pos)) => s'.said = <<>> \/ s.mode = "loading"]_vars
AskersAreTold ==
  [][\A i \in DOMAIN s.pend :
       s.pend[i].live /\ s.pend[i].user =>
         /\ s' = Answer(z, i, "build") => s'.pane = <<s.pend[i].ver>>
         /\ s' = Answer(z, i, "analysis") => s'.said = <<s.pend[i].ver>>]_vars
=============================================================================
