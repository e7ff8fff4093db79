------------------------------ MODULE FileConv -------------------------------
(* Converting a file to its Wolfram form, as a program that reads the source, *)
(* parses it, creates the destination and writes it, over a small file system *)
(* a, b are plain paths, d is a directory, n lies in a missing directory.     *)
(* one and two are texts that can be converted, bad cannot.                   *)
(*   Design  asbuilt   read, parse, create, write                             *)
(*           early     (wrong) the destination is created before parsing      *)
(*           overlay   (wrong) the destination is not truncated               *)
(*           silent    (wrong) what cannot be parsed is an empty program      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Size, Design

Plain == {"a", "b"}
Paths == Plain \cup {"d", "n"}
Texts == {"one", "two", "bad"}
Form(t) == "form of " \o t
Readable(x) == x \notin {"none", "dir"}
Parses(x) == x \in {"one", "two"}

VARIABLES hist, fs, was,        \* operations so far; the files now and before the conversion
          pc, from, to, ret
vars == <<hist, fs, was, pc, from, to, ret>>
Init == /\ fs \in {[p \in Paths |-> IF p = "a" THEN x ELSE IF p = "b" THEN y ELSE IF p = "d" THEN "dir" ELSE "none"] :
                     x \in Texts \cup {"none"}, y \in Texts \cup {"none"}}
        /\ hist = <<fs>> /\ was = fs /\ pc = "idle" /\ from = "" /\ to = "" /\ ret = ""

Begin == /\ pc = "idle" /\ Len(hist) <= Size
         /\ from' \in Paths /\ to' \in Paths
         /\ hist' = Append(hist, <<from', to'>>) /\ was' = fs /\ ret' = "" /\ pc' = "read" /\ UNCHANGED fs
Fail == ret' = "err" /\ pc' = "idle" /\ UNCHANGED fs
Go(s) == pc' = s /\ UNCHANGED <<fs, ret>>
Same == UNCHANGED <<hist, was, from, to>>
CanCreate == to \in Plain
(* the destination keeps the rest of a longer text *)
Put(x) == IF Design = "overlay" /\ fs[to] = "two" /\ x = Form("one") THEN "form of one over two" ELSE x
Create(next) == IF ~CanCreate THEN Fail
                ELSE /\ fs' = [fs EXCEPT ![to] = IF Design = "overlay" THEN @ ELSE "empty"] /\ pc' = next /\ UNCHANGED ret
Read == pc = "read" /\ Same /\ IF Readable(fs[from]) THEN Go(IF Design = "early" THEN "create" ELSE "parse") ELSE Fail
Parse == pc = "parse" /\ Same /\ IF Parses(was[from]) \/ Design = "silent" THEN Go(IF Design = "early" THEN "write" ELSE "create") ELSE Fail
Open == pc = "create" /\ Same /\ Create(IF Design = "early" THEN "parse" ELSE "write")
Write == pc = "write" /\ Same /\ fs' = [fs EXCEPT ![to] = Put(Form(was[from]))] /\ ret' = "ok" /\ pc' = "idle"
Next == Begin \/ Read \/ Parse \/ Open \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ Parse \/ Open \/ Write)

(* the contract: exactly the form of the source at the destination, or an error and nothing has changed *)
Contract == pc = "idle" /\ ret # "" =>
  IF Readable(was[from]) /\ Parses(was[from]) /\ CanCreate
  THEN ret = "ok" /\ fs = [was EXCEPT ![to] = Form(was[from])]
  ELSE ret = "err" /\ fs = was
Ends == (pc # "idle") ~> (pc = "idle")

Spelled == LET f[n \in 1..Len(hist)] == IF n = 1 THEN hist[1]["a"] \o " " \o hist[1]["b"] ELSE f[n - 1] \o " " \o hist[n][1] \o hist[n][2] IN f[Len(hist)]
Emitted == (pc = "idle" /\ Len(hist) = Size + 1) => PrintT("TEXT " \o Spelled)
=============================================================================
