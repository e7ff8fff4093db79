---------------------------- MODULE ServiceTrace ----------------------------
(* Histories recorded from the real kernel. First line of a chunk file: the   *)
(* answers of every query asked alone, in a process of its own. Then chunks:  *)
(* calls and returns of several threads in their recorded order.              *)
(* The service has one answer per query: a Return must carry the answer the   *)
(* query has in isolation, whatever else happened (Service, invariants Exact  *)
(* and OneAnswer), and it must belong to the pending Call of its thread.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
Answers == Lines[1].answers
Chunks == Tail(Lines)
VARIABLES c, l, pending, asked
vars == <<c, l, pending, asked>>
Ev == Chunks[c].ev
E == Ev[l + 1]
Threads == 1..16
Init == c \in 1..Len(Chunks) /\ l = 0 /\ pending = [t \in Threads |-> 0] /\ asked = 0
More == l < Len(Ev)
Done == l' = l + 1 /\ UNCHANGED c
Call == /\ More /\ E.ev = "call" /\ pending[E.t] = 0 /\ E.q \in DOMAIN Answers
        /\ pending' = [pending EXCEPT ![E.t] = E.q] /\ asked' = asked + 1 /\ Done
ReturnOK == pending[E.t] = E.q /\ E.k = Answers[E.q].k /\ E.v = Answers[E.q].v
Clear == pending' = [pending EXCEPT ![E.t] = 0] /\ UNCHANGED asked /\ Done
Return == More /\ E.ev = "return" /\ ReturnOK /\ Clear
Reject == /\ More /\ E.ev = "return" /\ ~ReturnOK
          /\ PrintT(<<"REJECT", E.i>>) /\ Clear
(* the process of the history was lost: every pending call is without answer *)
Lost == /\ More /\ E.ev = "lost" /\ PrintT(<<"REJECT", E.i>>) /\ Done /\ UNCHANGED <<pending, asked>>
Finish == /\ ~More /\ l = Len(Ev) /\ PrintT(<<"CHUNK", c>>) /\ l' = l + 1 /\ UNCHANGED <<c, pending, asked>>
Next == Call \/ Return \/ Reject \/ Lost \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
