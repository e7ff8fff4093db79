------------------------------- MODULE Copies --------------------------------
(* Histories of two sessions, the second of which may become a copy of the    *)
(* first: every sequence of up to Size operations. The sessions are built as  *)
(* in Session; prescribed is only the latest input of each.                   *)
(*   Design  deep   a copy has tables of its own                              *)
(*           alias  (wrong) both use the same tables afterwards               *)
(*           bare   (wrong) a copy forgets the outputs but not the counter    *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Inputs, Bad, Size, Design

VARIABLES hist, tab,          \* operations so far; which tables each session uses
          index, outputs,     \* by tables
          latest, answer
vars == <<hist, tab, index, outputs, latest, answer>>
Init == /\ hist = <<>> /\ tab = <<1, 2>> /\ index = <<0, 0>> /\ outputs = <<<<>>, <<>>>>
        /\ latest = <<0, 0>> /\ answer = <<>>

(* the outputs are a sequence of inputs, 0 for those that failed *)
Evaluate(s, i) == LET t == tab[s] IN
  /\ index' = [index EXCEPT ![t] = @ + 1]
  /\ outputs' = [outputs EXCEPT ![t] = Append(@, IF i \in Bad THEN 0 ELSE i)]
  /\ answer' = IF i \in Bad THEN <<"err">> ELSE <<"ok", i>>
  /\ latest' = [latest EXCEPT ![s] = i] /\ UNCHANGED tab
LastOutput(s) == LET t == tab[s]  n == index[t] IN
  /\ answer' = IF n = 0 \/ n > Len(outputs[t]) THEN <<"err">> ELSE IF outputs[t][n] = 0 THEN <<"err">> ELSE <<"ok", outputs[t][n]>>
  /\ UNCHANGED <<tab, index, outputs, latest>>
Copy == /\ tab' = (IF Design = "alias" THEN <<tab[1], tab[1]>> ELSE tab)
        /\ index' = [index EXCEPT ![2] = index[1]]
        /\ outputs' = [outputs EXCEPT ![2] = IF Design = "bare" THEN <<>> ELSE outputs[1]]
        /\ latest' = <<latest[1], latest[1]>> /\ answer' = <<>>
Next == /\ Len(hist) < Size
        /\ \/ \E s \in 1..2, i \in Inputs : Evaluate(s, i) /\ hist' = Append(hist, <<"eval", s, i>>)
           \/ \E s \in 1..2 : LastOutput(s) /\ hist' = Append(hist, <<"last", s, 0>>)
           \/ Copy /\ hist' = Append(hist, <<"clone", 0, 0>>)
Spec == Init /\ [][Next]_vars

Prescribed(i) == IF i = 0 \/ i \in Bad THEN <<"err">> ELSE <<"ok", i>>
AnswerRight == hist # <<>> => LET h == hist[Len(hist)] IN
   CASE h[1] = "eval" -> answer = Prescribed(h[3])
     [] h[1] = "last" -> answer = Prescribed(latest[h[2]])
     [] OTHER -> TRUE
Step(h) == h[1] \o ToString(h[2]) \o ToString(h[3])
Spelled == LET f[n \in 0..Len(hist)] == IF n = 0 THEN "" ELSE f[n - 1] \o " " \o Step(hist[n]) IN f[Len(hist)]
Emitted == Len(hist) = Size => PrintT("TEXT" \o Spelled)
=============================================================================
