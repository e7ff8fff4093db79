---------------------------- MODULE SessionTrace ----------------------------
(* Validates recorded session histories. The first line of the input holds    *)
(* the answers that sessions of a single input gave (each judged by           *)
(* LangTrace); the following lines are histories of                           *)
(*   session  steps of two sessions, one may become a copy of the other,      *)
(*            mixed with steps of the playground's shared session             *)
(*   crowd    calls and returns of several users of the shared session        *)
(* Every answer must be the one its input has alone, and the last output is   *)
(* that of the latest input. Each call of a crowd takes effect at one moment  *)
(* between its call and its return.                                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
Answers == Lines[1].answers
Chunks == Tail(Lines)

VARIABLES c, l,
          latest,    \* of the two sessions: number of the latest input, 0 before any
          shared,    \* of the shared session, -1 if not known
          pend       \* by user: <<>>, or the call with its answer once it took effect
vars == <<c, l, latest, shared, pend>>
Ev == Chunks[c].ev
E == Ev[l + 1]
More == l < Len(Ev)
Crowd == Chunks[c].kind = "crowd"
Users == 1..Chunks[c].users
Init == c \in 1..Len(Chunks) /\ l = 0 /\ latest = <<0, 0>> /\ shared = -1 /\ pend = [u \in Users |-> <<>>]
Done == l' = l + 1 /\ UNCHANGED c

Agrees(r, a) == /\ r.k = a.k
                /\ "c" \in DOMAIN a => r.c = a.c
                /\ "t" \in DOMAIN a => r.t = a.t
                /\ "e" \in DOMAIN a => r.e = a.e
Shown(r, cs) == r.k = "ok" /\ r.c = cs
LastShown(q) == Answers[q].last.shown

-----------------------------------------------------------------------------
StepOK == CASE E.op = "eval" -> Agrees(E.r, Answers[E.q].r)
            [] E.op = "last" -> IF latest[E.s] = 0 THEN E.r.k = "err" /\ (Lines[1].why => E.r.e = "empty") ELSE Agrees(E.r, Answers[latest[E.s]].last)
            [] E.op = "clone" -> E.r.k = "done"
            [] E.op = "result" -> Shown(E.r, Answers[E.q].r.shown)
            [] E.op = "tex" -> IF shared = -1 THEN E.r.k = "ok" ELSE Shown(E.r, LastShown(shared))
            [] OTHER -> FALSE
Move == /\ latest' = (CASE E.op = "eval" -> [latest EXCEPT ![E.s] = E.q]
                        [] E.op = "clone" -> [latest EXCEPT ![2] = latest[1]]
                        [] OTHER -> latest)
        /\ shared' = (IF E.op = "result" THEN E.q ELSE shared)
        /\ UNCHANGED pend
Evaluate == ~Crowd /\ More /\ E.op = "eval" /\ StepOK /\ Move /\ Done
Last == ~Crowd /\ More /\ E.op = "last" /\ StepOK /\ Move /\ Done
Copy == ~Crowd /\ More /\ E.op = "clone" /\ StepOK /\ Move /\ Done
Result == ~Crowd /\ More /\ E.op = "result" /\ StepOK /\ Move /\ Done
Tex == ~Crowd /\ More /\ E.op = "tex" /\ StepOK /\ Move /\ Done
Reject == ~Crowd /\ More /\ ~StepOK /\ PrintT(<<"REJECT", c, l + 1>>) /\ Move /\ Done

-----------------------------------------------------------------------------
Call == /\ Crowd /\ More /\ E.ev = "call" /\ pend[E.u] = <<>>
        /\ pend' = [pend EXCEPT ![E.u] = <<[op |-> E.op, q |-> E.q]>>]
        /\ Done /\ UNCHANGED <<latest, shared>>
(* a pending call takes effect *)
Effect(u) == /\ Crowd /\ More /\ Len(pend[u]) = 1
             /\ LET p == pend[u][1] IN
                /\ pend' = [pend EXCEPT ![u] = Append(@, IF p.op = "result" THEN Answers[p.q].r.shown
                                                         ELSE IF shared = -1 THEN <<"unknown">> ELSE LastShown(shared))]
                /\ shared' = IF p.op = "result" THEN p.q ELSE shared
             /\ UNCHANGED <<c, l, latest>>
Return == /\ Crowd /\ More /\ E.ev = "return" /\ Len(pend[E.u]) = 2
          /\ E.r.k = "ok" /\ pend[E.u][2] \in {E.r.c, <<"unknown">>}
          /\ pend' = [pend EXCEPT ![E.u] = <<>>]
          /\ Done /\ UNCHANGED <<latest, shared>>
Finish == ~More /\ l = Len(Ev) /\ PrintT(<<"CHUNK", c>>) /\ l' = l + 1 /\ UNCHANGED <<c, latest, shared, pend>>
Next == \/ Evaluate \/ Last \/ Copy \/ Result \/ Tex \/ Reject
        \/ Call \/ (\E u \in Users : Effect(u)) \/ Return \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
