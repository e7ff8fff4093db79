---------------------------- MODULE ServiceProof ----------------------------
(* The kernel as a service (Service.tla, the local design and the shared      *)
(* cache keyed by the whole query and filled with complete values) for any    *)
(* number of threads, queries and calls: every answer is exact, whatever      *)
(* calls ran before it, run beside it or failed half way.                     *)
EXTENDS TLAPS
CONSTANTS Threads, Queries, Values, F(_), Part(_), Shared
ASSUME Typed == /\ \A x \in Queries : F(x) \in Values /\ Part(x) \in Values
                /\ Shared \in BOOLEAN
VARIABLES pc, q, acc, stored, cache, ans
vars == <<pc, q, acc, stored, cache, ans>>
(* cache[x] is meaningful for x in stored *)
Init == /\ pc = [t \in Threads |-> "idle"] /\ q \in [Threads -> Queries] /\ acc \in [Threads -> Values]
        /\ stored = {} /\ cache \in [Queries -> Values] /\ ans = {}
Call(t) == /\ pc[t] = "idle" /\ (\E x \in Queries : q' = [q EXCEPT ![t] = x])
           /\ pc' = [pc EXCEPT ![t] = "begin"] /\ UNCHANGED <<acc, stored, cache, ans>>
Begin(t) == /\ pc[t] = "begin"
            /\ IF Shared /\ q[t] \in stored
               THEN acc' = [acc EXCEPT ![t] = cache[q[t]]] /\ pc' = [pc EXCEPT ![t] = "return"]
               ELSE acc' = [acc EXCEPT ![t] = Part(q[t])] /\ pc' = [pc EXCEPT ![t] = "finish"]
            /\ UNCHANGED <<q, stored, cache, ans>>
Finish(t) == /\ pc[t] = "finish"
             /\ acc' = [acc EXCEPT ![t] = F(q[t])] /\ pc' = [pc EXCEPT ![t] = "return"]
             /\ IF Shared THEN stored' = stored \cup {q[t]} /\ cache' = [cache EXCEPT ![q[t]] = F(q[t])]
                ELSE UNCHANGED <<stored, cache>>
             /\ UNCHANGED <<q, ans>>
Fail(t) == /\ pc[t] = "finish" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<q, acc, stored, cache, ans>>
Return(t) == /\ pc[t] = "return" /\ ans' = ans \cup {<<q[t], acc[t]>>} /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ UNCHANGED <<q, acc, stored, cache>>
Next == \E t \in Threads : Call(t) \/ Begin(t) \/ Finish(t) \/ Fail(t) \/ Return(t)
Spec == Init /\ [][Next]_vars

TypeOK == /\ pc \in [Threads -> {"idle", "begin", "finish", "return"}] /\ q \in [Threads -> Queries]
          /\ acc \in [Threads -> Values] /\ stored \subseteq Queries /\ cache \in [Queries -> Values]
Complete == \A x \in stored : cache[x] = F(x)
Ready == \A t \in Threads : pc[t] = "return" => acc[t] = F(q[t])
Exact == \A x \in ans : \E y \in Queries : x = <<y, F(y)>>
Inv == TypeOK /\ Complete /\ Ready /\ Exact
THEOREM Safe == Spec => []Inv
<1> USE Typed DEF Inv, TypeOK, Complete, Ready, Exact
<1>1. Init => Inv BY DEF Init
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1. ASSUME NEW t \in Threads, Call(t) PROVE Inv' BY <2>1 DEF Call
  <2>2. ASSUME NEW t \in Threads, Begin(t) PROVE Inv' BY <2>2 DEF Begin
  <2>3. ASSUME NEW t \in Threads, Finish(t) PROVE Inv' BY <2>3 DEF Finish
  <2>4. ASSUME NEW t \in Threads, Fail(t) PROVE Inv' BY <2>4 DEF Fail
  <2>5. ASSUME NEW t \in Threads, Return(t) PROVE Inv' BY <2>5 DEF Return
  <2>6. CASE UNCHANGED vars BY <2>6 DEF vars
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec
THEOREM Right == Spec => []Exact BY Safe, PTL DEF Inv
=============================================================================
