---------------------------- MODULE SessionProof ----------------------------
(* The session of Session.tla as it is built, for any number of users and     *)
(* inputs and histories of any length: every answer is the prescribed one,    *)
(* nothing panics under the lock, and outputs are numbered and kept.          *)
EXTENDS Naturals, TLAPS
CONSTANTS Users, Inputs, Bad
VARIABLES index, outputs, known, pc, kind, input, reply, latest, prior
vars == <<index, outputs, known, pc, kind, input, reply, latest, prior>>
(* outputs[n] is meaningful for the numbers n in known; None stands for no input *)
None == CHOOSE x : x \notin Inputs
Some == Inputs \cup {None}
Answer(i) == IF i \in Bad \/ i = None THEN [ok |-> FALSE, of |-> None] ELSE [ok |-> TRUE, of |-> i]
Init == /\ index = 0 /\ outputs \in [Nat -> Some] /\ known = {}
        /\ pc = [u \in Users |-> "idle"] /\ kind = [u \in Users |-> "last"] /\ input = [u \in Users |-> None]
        /\ reply = [u \in Users |-> Answer(None)] /\ latest = None /\ prior = [u \in Users |-> None]
AskEval(u) == /\ pc[u] = "idle" /\ pc' = [pc EXCEPT ![u] = "asked"] /\ kind' = [kind EXCEPT ![u] = "eval"]
              /\ \E i \in Inputs : input' = [input EXCEPT ![u] = i]
              /\ UNCHANGED <<index, outputs, known, reply, latest, prior>>
AskLast(u) == /\ pc[u] = "idle" /\ pc' = [pc EXCEPT ![u] = "asked"] /\ kind' = [kind EXCEPT ![u] = "last"]
              /\ UNCHANGED <<index, outputs, known, input, reply, latest, prior>>
(* under the lock *)
Eval(u) == /\ pc[u] = "asked" /\ kind[u] = "eval" /\ pc' = [pc EXCEPT ![u] = "answered"]
           /\ index' = index + 1
           /\ IF input[u] \in Bad THEN UNCHANGED <<outputs, known>>
              ELSE outputs' = [outputs EXCEPT ![index + 1] = input[u]] /\ known' = known \cup {index + 1}
           /\ reply' = [reply EXCEPT ![u] = IF input[u] \in Bad THEN [ok |-> FALSE, of |-> None] ELSE [ok |-> TRUE, of |-> input[u]]]
           /\ latest' = input[u] /\ prior' = [prior EXCEPT ![u] = latest] /\ UNCHANGED <<kind, input>>
Last(u) == /\ pc[u] = "asked" /\ kind[u] = "last" /\ pc' = [pc EXCEPT ![u] = "answered"]
           /\ reply' = [reply EXCEPT ![u] = IF index \in known THEN [ok |-> TRUE, of |-> outputs[index]] ELSE [ok |-> FALSE, of |-> None]]
           /\ prior' = [prior EXCEPT ![u] = latest] /\ UNCHANGED <<index, outputs, known, kind, input, latest>>
Take(u) == pc[u] = "answered" /\ pc' = [pc EXCEPT ![u] = "idle"] /\ UNCHANGED <<index, outputs, known, kind, input, reply, latest, prior>>
Next == \E u \in Users : AskEval(u) \/ AskLast(u) \/ Eval(u) \/ Last(u) \/ Take(u)
Spec == Init /\ [][Next]_vars

TypeOK == /\ index \in Nat /\ outputs \in [Nat -> Some] /\ known \subseteq Nat
          /\ pc \in [Users -> {"idle", "asked", "answered"}] /\ kind \in [Users -> {"eval", "last"}]
          /\ input \in [Users -> Some] /\ reply \in [Users -> [ok : BOOLEAN, of : Some]]
          /\ latest \in Some /\ prior \in [Users -> Some]
Asking == \A u \in Users : pc[u] # "idle" /\ kind[u] = "eval" => input[u] \in Inputs
Numbered == \A n \in known : 1 <= n /\ n <= index
StateRight == (index \in known) <=> (latest # None /\ latest \notin Bad)
OutputRight == index \in known => outputs[index] = latest
AnswersRight == \A u \in Users : pc[u] = "answered" => reply[u] = Answer(IF kind[u] = "eval" THEN input[u] ELSE prior[u])
Inv == TypeOK /\ Asking /\ Numbered /\ StateRight /\ OutputRight /\ AnswersRight

LEMMA NoneFresh == None \notin Inputs BY NoSetContainsEverything DEF None
THEOREM Safe == Spec => []Inv
<1> USE NoneFresh
<1>1. Init => Inv BY DEF Init, Inv, TypeOK, Asking, Numbered, StateRight, OutputRight, AnswersRight, Answer, Some
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2> USE DEF Inv, TypeOK, Asking, Numbered, StateRight, OutputRight, AnswersRight, Answer, Some
  <2>1. ASSUME NEW u \in Users, AskEval(u) PROVE Inv' BY <2>1 DEF AskEval
  <2>2. ASSUME NEW u \in Users, AskLast(u) PROVE Inv' BY <2>2 DEF AskLast
  <2>3. ASSUME NEW u \in Users, Eval(u) PROVE Inv'
    <3>1. input[u] \in Inputs BY <2>3 DEF Eval
    <3>2. index + 1 \notin known BY DEF Inv
    <3>3. CASE input[u] \in Bad BY <2>3, <3>1, <3>2, <3>3 DEF Eval
    <3>4. CASE input[u] \notin Bad
      <4>1. /\ index' = index + 1 /\ outputs' = [outputs EXCEPT ![index + 1] = input[u]] /\ known' = known \cup {index + 1}
            /\ latest' = input[u] /\ prior' = [prior EXCEPT ![u] = latest] /\ kind' = kind /\ input' = input
            /\ reply' = [reply EXCEPT ![u] = [ok |-> TRUE, of |-> input[u]]] /\ pc' = [pc EXCEPT ![u] = "answered"]
            /\ pc[u] = "asked" /\ kind[u] = "eval"
            BY <2>3, <3>4 DEF Eval
      <4>2. TypeOK' BY <4>1, <3>1
      <4>3. Asking' BY <4>1
      <4>4. Numbered' BY <4>1
      <4>5. StateRight' /\ OutputRight' BY <4>1, <3>1, <3>4
      <4>6. AnswersRight' BY <4>1, <3>1, <3>4
      <4> QED BY <4>2, <4>3, <4>4, <4>5, <4>6
    <3> QED BY <3>3, <3>4
  <2>4. ASSUME NEW u \in Users, Last(u) PROVE Inv' BY <2>4 DEF Last
  <2>5. ASSUME NEW u \in Users, Take(u) PROVE Inv' BY <2>5 DEF Take
  <2>6. CASE UNCHANGED vars BY <2>6 DEF vars
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec
THEOREM Right == Spec => []AnswersRight BY Safe, PTL DEF Inv

(* what has been put out stays as it was *)
Kept == [][\A n \in known : n \in known' /\ outputs'[n] = outputs[n]]_vars
THEOREM Keeps == Spec => Kept
<1>1. Inv /\ [Next]_vars => [\A n \in known : n \in known' /\ outputs'[n] = outputs[n]]_vars
  <2> SUFFICES ASSUME Inv, Next PROVE \A n \in known : n \in known' /\ outputs'[n] = outputs[n] OBVIOUS
  <2>1. PICK u \in Users : AskEval(u) \/ AskLast(u) \/ Eval(u) \/ Last(u) \/ Take(u) BY DEF Next
  <2>2. CASE Eval(u) BY <2>2 DEF Eval, Inv, TypeOK, Numbered
  <2> QED BY <2>1, <2>2 DEF AskEval, AskLast, Last, Take
<1> QED BY <1>1, Safe, PTL DEF Spec, Kept
=============================================================================
