----------------------------- MODULE FileTrace ------------------------------
(* Validates recorded conversions of files. Each chunk is a directory with    *)
(* its entries before the first conversion, and after each of a sequence of   *)
(* conversions. An entry is                                                   *)
(*   none, dir, bytes (no text)   or   file, with its characters c, and with  *)
(*   the Wolfram value w that is written there if there is one.               *)
(* open tells whether a file can be created at each path; a conversion with   *)
(* room = 0 cannot write anything.                                            *)
EXTENDS LangExport, TLC, Json, IOUtils
Chunks == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, fs
vars == <<c, l, fs>>
Ev == Chunks[c].ev
E == Ev[l + 1]
More == l < Len(Ev)
Init == c \in 1..Len(Chunks) /\ l = 0 /\ fs = Chunks[c].fs

Alike(x, y) == x.k = y.k /\ (x.k \in {"file", "bytes"} => x.c = y.c)
Others(S) == DOMAIN E.after = DOMAIN fs /\ \A p \in DOMAIN fs \ S : Alike(fs[p], E.after[p])
Source == fs[E.from]
M == IF Source.k = "file" THEN Meaning(Source.c) ELSE [k |-> "err"]

Converted == /\ E.r.k = "ok" /\ Others({E.to})
             /\ E.after[E.to].k = "file" /\ "w" \in DOMAIN E.after[E.to]
             /\ M.k \in {"ok", "maybe"} => Mirrors(M.t, E.after[E.to].w)
Refused == E.r.k = "err" /\ Others({})
(* the destination was opened, but could not be written *)
Broken == E.r.k = "err" /\ Others({E.to})
CanWrite == Chunks[c].open[E.to] /\ E.room = 1
Right == CASE M.k = "err" -> Refused
           [] ~Chunks[c].open[E.to] -> Refused
           [] E.room = 0 -> Broken
           [] M.k = "ok" -> Converted
           [] OTHER -> Converted \/ Refused

(* the record goes on from what is there *)
Move == l' = l + 1 /\ fs' = E.after /\ UNCHANGED c
Convert == More /\ Right /\ Move
Reject == More /\ ~Right /\ PrintT(<<"REJECT", c, l + 1>>) /\ Move
Finish == ~More /\ l = Len(Ev) /\ PrintT(<<"CHUNK", c>>) /\ l' = l + 1 /\ UNCHANGED <<c, fs>>
Next == Convert \/ Reject \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
