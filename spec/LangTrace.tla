----------------------------- MODULE LangTrace ------------------------------
(* Validates what the real front end answered to recorded texts. The reader   *)
(* and parser machines are stepped over the characters of each text, piece by *)
(* piece; the answer must be the one they end with. Texts outside of the      *)
(* known alphabet or syntax must still be answered.                           *)
(* The displayed text of an operator expression is read by the same machines, *)
(* its Wolfram value is compared node by node.                                *)
EXTENDS LangEval, LangExport, TLC, Json, IOUtils
Chunks == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c,     \* the chunk
          l,     \* number of events judged
          R      \* the reader of the current text
vars == <<c, l, R>>
Ev == Chunks[c].ev
E == Ev[l + 1]
More == l < Len(Ev)
Init == c \in 1..Len(Chunks) /\ l = 0 /\ R = Reader

-----------------------------------------------------------------------------
(* displaying and reading back *)
ShownOK(d, t) ==
  IsOperatorTree(t) =>
    /\ d.k = "ok"
    /\ LET m == Meaning(d.c) IN
       /\ m.k \in {"ok", "maybe"} /\ Same(Pairwise(m.t), Pairwise(t))
       /\ \/ d.back.k = "ok" /\ Same(Pairwise(d.back.t), Pairwise(t))
          \/ d.back.k = "err" /\ m.k = "maybe"      \* begins with the keyword of a statement

TextOK(e, m) ==
  CASE m.k = "any" -> e.r.k \in {"ok", "err"}
    [] m.k = "err" -> e.r.k = "err"
    [] m.k = "maybe" /\ e.r.k = "err" -> TRUE
    [] OTHER -> /\ e.r.k = "ok" /\ Same(e.r.t, m.t)
                /\ "d" \in DOMAIN e.r => ShownOK(e.r.d, m.t)
                /\ "w" \in DOMAIN e.r => e.r.w.k = "ok" /\ Mirrors(m.t, e.r.w.t)

(* events that ask why: a failure names its cause *)
WhyOK(e, m) ==
  "why" \in DOMAIN e =>
    IF e.op = "alone" THEN SessionCauseOK(e.r, m)
    ELSE e.r.k = "err" => e.r.e \in (CASE m.k = "err" -> m.e [] OTHER -> {"parse", "unimplemented"})

EventOK(e, m) == IF "lost" \in DOMAIN e THEN FALSE
                 ELSE (IF e.op = "alone" THEN SessionOK(e.r, m) ELSE TextOK(e, m)) /\ WhyOK(e, m)

-----------------------------------------------------------------------------
Reading == /\ More /\ ~Finished(E.c, R)
           /\ R' = Read(E.c, R) /\ UNCHANGED <<c, l>>
AtEnd == More /\ Finished(E.c, R)
Done == l' = l + 1 /\ R' = Reader /\ UNCHANGED c
Answer == AtEnd /\ EventOK(E, Verdict(R.P)) /\ Done
Reject == AtEnd /\ ~EventOK(E, Verdict(R.P)) /\ PrintT(<<"REJECT", E.i>>) /\ Done
Finish == ~More /\ l = Len(Ev) /\ PrintT(<<"CHUNK", c>>) /\ l' = l + 1 /\ UNCHANGED <<c, R>>
Next == Reading \/ Answer \/ Reject \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
