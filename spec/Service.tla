------------------------------ MODULE Service ------------------------------
(* The kernel as a service used by several threads. A call is computed in     *)
(* steps (begin, one step per part, return); what could be shared between     *)
(* calls is a cache. The kernel keeps its memo and lookup tables local to the *)
(* call (Mode "local"); the other modes are the designs the property excludes *)
(* or allows: a shared cache keyed by the full query ("shared"), one keyed by *)
(* the argument without the operation ("argument-only"), and one that is      *)
(* filled before the value is complete ("early").                             *)
EXTENDS Integers, Sequences, TLC, FiniteSets
CONSTANTS Threads, Ops, Args, MaxCalls, Mode
VARIABLES pc, q, acc, cache, calls, ans
vars == <<pc, q, acc, cache, calls, ans>>
Queries == Ops \X Args
F(x) == <<x[1], x[2] * 10>>              \* the abstract exact answer: any injective function
Part(x) == <<x[1], x[2] * 10 - 5>>       \* an intermediate value of its computation
Key(x) == IF Mode = "argument-only" THEN x[2] ELSE x
None == "none"
Init == /\ pc = [t \in Threads |-> "idle"] /\ q = [t \in Threads |-> None]
        /\ acc = [t \in Threads |-> None] /\ cache = <<>> /\ calls = 0
        /\ ans = {}
Call(t) == /\ pc[t] = "idle" /\ calls < MaxCalls
           /\ \E x \in Queries : q' = [q EXCEPT ![t] = x]
           /\ pc' = [pc EXCEPT ![t] = "begin"] /\ calls' = calls + 1
           /\ UNCHANGED <<acc, cache, ans>>
Shared == Mode # "local"
Begin(t) == /\ pc[t] = "begin"
            /\ IF Shared /\ Key(q[t]) \in DOMAIN cache
               THEN acc' = [acc EXCEPT ![t] = cache[Key(q[t])]] /\ pc' = [pc EXCEPT ![t] = "return"] /\ UNCHANGED cache
               ELSE /\ acc' = [acc EXCEPT ![t] = Part(q[t])] /\ pc' = [pc EXCEPT ![t] = "finish"]
                    /\ cache' = IF Mode = "early" THEN (Key(q[t]) :> Part(q[t])) @@ cache ELSE cache
            /\ UNCHANGED <<q, calls, ans>>
FinishCall(t) ==
             /\ pc[t] = "finish"
             /\ acc' = [acc EXCEPT ![t] = F(q[t])] /\ pc' = [pc EXCEPT ![t] = "return"]
             /\ cache' = IF Shared THEN (Key(q[t]) :> F(q[t])) @@ cache ELSE cache
             /\ UNCHANGED <<q, calls, ans>>
(* a call may also fail half way (panic, error): it leaves without an answer *)
Fail(t) == /\ pc[t] = "finish" /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ UNCHANGED <<q, acc, cache, calls, ans>>
Return(t) == /\ pc[t] = "return"
             /\ ans' = ans \cup {<<q[t], acc[t]>>} /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ UNCHANGED <<q, acc, cache, calls>>
Next == \E t \in Threads : Call(t) \/ Begin(t) \/ FinishCall(t) \/ Fail(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
Exact == \A a \in ans : a[2] = F(a[1])
OneAnswer == \A a, b \in ans : a[1] = b[1] => a[2] = b[2]
=============================================================================
