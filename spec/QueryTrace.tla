----------------------------- MODULE QueryTrace -----------------------------
(* Validates what the real code answered about recorded expression trees.     *)
EXTENDS LangQuery, TLC, Json, IOUtils
Chunks == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l>>
Ev == Chunks[c].ev
E == Ev[l + 1]
More == l < Len(Ev)
Init == c \in 1..Len(Chunks) /\ l = 0
Right == IF "lost" \in DOMAIN E THEN FALSE ELSE AskedOK(E.f, E.x, E.r)
Answer == More /\ Right /\ l' = l + 1 /\ UNCHANGED c
Reject == More /\ ~Right /\ PrintT(<<"REJECT", E.i>>) /\ l' = l + 1 /\ UNCHANGED c
Finish == ~More /\ l = Len(Ev) /\ PrintT(<<"CHUNK", c>>) /\ l' = l + 1 /\ UNCHANGED c
Next == Answer \/ Reject \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
