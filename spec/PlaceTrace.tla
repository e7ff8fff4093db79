----------------------------- MODULE PlaceTrace -----------------------------
(* Validates the places that the real parser recorded for the nodes of its    *)
(* trees, one node after the other.                                           *)
EXTENDS LangPlace, TLC, Json, IOUtils
Chunks == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, n
vars == <<c, l, n>>
Ev == Chunks[c].ev
E == Ev[l + 1]
More == l < Len(Ev)
Nodes == IF "lost" \in DOMAIN E THEN <<>> ELSE E.nodes
Init == c \in 1..Len(Chunks) /\ l = 0 /\ n = 0
Right == NodeOK(E.c, E.file, Nodes[n + 1]) /\ \A m \in 1..n : Placed(E.c, Nodes[m].s) /\ Placed(E.c, Nodes[m].e) => Apart(E.c, Nodes[m], Nodes[n + 1])
Skip == l' = l + 1 /\ n' = 0 /\ UNCHANGED c
Judge == More /\ n < Len(Nodes) /\ Right /\ n' = n + 1 /\ UNCHANGED <<c, l>>
Reject == More /\ n < Len(Nodes) /\ ~Right /\ PrintT(<<"REJECT", E.i, n + 1>>) /\ Skip
Gone == More /\ "lost" \in DOMAIN E /\ PrintT(<<"REJECT", E.i, 0>>) /\ Skip
Text1 == More /\ "lost" \notin DOMAIN E /\ n = Len(Nodes) /\ Skip
Finish == ~More /\ l = Len(Ev) /\ PrintT(<<"CHUNK", c>>) /\ l' = l + 1 /\ UNCHANGED <<c, n>>
Next == Judge \/ Reject \/ Gone \/ Text1 \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
