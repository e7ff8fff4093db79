------------------------------ MODULE FileProof ------------------------------
(* The conversion of FileConv.tla as it is built, for any file system, any    *)
(* texts and any number of conversions, on one file or between two: it ends   *)
(* with exactly the form of the source at the destination, or with an error   *)
(* and nothing changed.                                                       *)
EXTENDS TLAPS
CONSTANTS Paths, Contents, Readable(_), Parses(_), Creatable(_), Form(_), Empty
ASSUME Typed == (\A x \in Contents : Form(x) \in Contents) /\ Empty \in Contents
VARIABLES fs, was, pc, from, to, text, ret
vars == <<fs, was, pc, from, to, text, ret>>
Init == /\ fs \in [Paths -> Contents] /\ was = fs /\ pc = "idle" /\ from \in Paths /\ to \in Paths
        /\ text = Empty /\ ret = "none"
Begin == /\ pc = "idle" /\ from' \in Paths /\ to' \in Paths /\ was' = fs /\ ret' = "none" /\ pc' = "read" /\ UNCHANGED <<fs, text>>
Read == /\ pc = "read" /\ UNCHANGED <<fs, was, from, to>>
        /\ IF Readable(fs[from]) THEN text' = fs[from] /\ pc' = "parse" /\ UNCHANGED ret ELSE ret' = "err" /\ pc' = "idle" /\ UNCHANGED text
Parse == /\ pc = "parse" /\ UNCHANGED <<fs, was, from, to, text>>
         /\ IF Parses(text) THEN pc' = "create" /\ UNCHANGED ret ELSE ret' = "err" /\ pc' = "idle"
Create == /\ pc = "create" /\ UNCHANGED <<was, from, to, text>>
          /\ IF Creatable(to) THEN fs' = [fs EXCEPT ![to] = Empty] /\ pc' = "write" /\ UNCHANGED ret
             ELSE ret' = "err" /\ pc' = "idle" /\ UNCHANGED fs
Write == /\ pc = "write" /\ UNCHANGED <<was, from, to, text>>
         /\ fs' = [fs EXCEPT ![to] = Form(text)] /\ ret' = "ok" /\ pc' = "idle"
Next == Begin \/ Read \/ Parse \/ Create \/ Write
Spec == Init /\ [][Next]_vars

Good == Readable(was[from]) /\ Parses(was[from]) /\ Creatable(to)
Contract == pc = "idle" /\ ret # "none" =>
   IF Good THEN ret = "ok" /\ fs = [was EXCEPT ![to] = Form(was[from])] ELSE ret = "err" /\ fs = was
Inv == /\ fs \in [Paths -> Contents] /\ was \in [Paths -> Contents] /\ from \in Paths /\ to \in Paths
       /\ pc \in {"idle", "read", "parse", "create", "write"} /\ ret \in {"none", "ok", "err"}
       /\ pc = "read" => fs = was
       /\ pc = "parse" => fs = was /\ text = was[from] /\ Readable(text)
       /\ pc = "create" => fs = was /\ text = was[from] /\ Readable(text) /\ Parses(text)
       /\ pc = "write" => fs = [was EXCEPT ![to] = Empty] /\ text = was[from] /\ Good
       /\ Contract
THEOREM Right == Spec => []Contract
<1> USE Typed
<1>1. Init => Inv BY DEF Init, Inv, Contract
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1. CASE Begin BY <2>1 DEF Begin, Inv, Contract
  <2>2. CASE Read BY <2>2 DEF Read, Inv, Contract, Good
  <2>3. CASE Parse BY <2>3 DEF Parse, Inv, Contract, Good
  <2>4. CASE Create BY <2>4 DEF Create, Inv, Contract, Good
  <2>5. CASE Write
    <3>1. fs' = [was EXCEPT ![to] = Form(was[from])] BY <2>5 DEF Write, Inv
    <3>2. Good' BY <2>5 DEF Write, Inv, Good
    <3>3. was[from] \in Contents BY DEF Inv
    <3>4. fs' \in [Paths -> Contents] BY <3>1, <3>3 DEF Inv
    <3> QED BY <2>5, <3>1, <3>2, <3>4 DEF Write, Inv, Contract
  <2>6. CASE UNCHANGED vars BY <2>6 DEF vars, Inv, Contract, Good
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Next
<1>3. Inv => Contract BY DEF Inv
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
