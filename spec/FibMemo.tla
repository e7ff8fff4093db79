------------------------------ MODULE FibMemo ------------------------------
(* The memoised doubling recursion for Fibonacci numbers as a stack machine.  *)
(* A frame is <<n, phase, first value>>; the memo starts with 0, 1, 2.        *)
EXTENDS NativeInt, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANT MaxN          \* F(46) is the last that fits 32 bits
VARIABLES n, memo, stack, val, pc
vars == <<n, memo, stack, val, pc>>

FibTable == LET step(t, j) == Append(t, t[j - 1] + t[j - 2])    \* t[j] = F(j - 1)
            IN  FoldLeft(step, <<0, 1>>, [j \in 1..45 |-> j + 2])
Fib(k) == FibTable[k + 1]

Init == /\ n \in 0..MaxN
        /\ memo = (0 :> 0) @@ (1 :> 1) @@ (2 :> 1)
        /\ stack = <<<<n, 0, 0>>>> /\ val = 0 /\ pc = "run"
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Args(k) == IF k % 2 = 0 THEN <<k \div 2, k \div 2 + 1>> ELSE <<k \div 2 + 1, k \div 2>>
Combine(k, a, b) == IF k % 2 = 0 THEN a * (b * 2 - a) ELSE a * a + b * b

Hit == /\ pc = "run" /\ Len(stack) > 0 /\ Top[2] = 0 /\ Top[1] \in DOMAIN memo
       /\ val' = memo[Top[1]] /\ stack' = Pop
       /\ pc' = IF Len(stack) = 1 THEN "done" ELSE "ret"
       /\ UNCHANGED <<n, memo>>
Miss == /\ pc = "run" /\ Top[2] = 0 /\ Top[1] \notin DOMAIN memo
        /\ stack' = Pop \o <<<<Top[1], 1, 0>>, <<Args(Top[1])[1], 0, 0>>>>
        /\ UNCHANGED <<n, memo, val, pc>>
First == /\ pc = "ret" /\ Top[2] = 1
         /\ stack' = Pop \o <<<<Top[1], 2, val>>, <<Args(Top[1])[2], 0, 0>>>>
         /\ pc' = "run" /\ UNCHANGED <<n, memo, val>>
Second == /\ pc = "ret" /\ Top[2] = 2
          /\ LET r == Combine(Top[1], Top[3], val) IN
             /\ val' = r
             /\ memo' = (Top[1] :> r) @@ memo
          /\ stack' = Pop
          /\ pc' = IF Len(stack) = 1 THEN "done" ELSE "ret"
          /\ UNCHANGED n
Next == Hit \/ Miss \/ First \/ Second
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

MemoExact == \A k \in DOMAIN memo : memo[k] = Fib(k)
Decreasing == \A j \in 2..Len(stack) : stack[j][1] < stack[j - 1][1]
Correct == pc = "done" => val = Fib(n)
Terminates == <>(pc = "done")
Cassini == \A k \in 1..22 : Fib(k - 1) * Fib(k + 1) - Fib(k) * Fib(k) = IF k % 2 = 0 THEN 1 ELSE -1
(* swapping the two halves in the even case is refuted *)
WrongRefuted == pc = "done" /\ n > 2 /\ n % 2 = 0 =>
   Combine(n, Fib(n \div 2 + 1), Fib(n \div 2)) = Fib(n)

Calls == SetToSeq({[op |-> o, a |-> <<ToString(k)>>] :
            o \in {"fibonacci", "fibonacci_fast", "fibonacci_fold"}, k \in 0..MaxN}
          \cup {[op |-> "fibonacci", a |-> <<ToString(-k)>>] : k \in 1..MaxN})
Emit == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.OUT, Calls)
=============================================================================
