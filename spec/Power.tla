------------------------------- MODULE Power -------------------------------
(* Powers by repeated squaring and factorials by a running product.           *)
EXTENDS NativeInt, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxBase, MaxExp, MaxFact
VARIABLES op, a, e,          \* what is computed: a^e or e!
          acc, base, left, pc
vars == <<op, a, e, acc, base, left, pc>>
RECURSIVE PowN(_, _)
PowN(x, k) == IF k = 0 THEN 1 ELSE x * PowN(x, k - 1)
RECURSIVE FactN(_)
FactN(k) == IF k = 0 THEN 1 ELSE k * FactN(k - 1)

Init == \/ /\ op = "power" /\ a \in -MaxBase..MaxBase /\ e \in 0..MaxExp
           /\ acc = 1 /\ base = a /\ left = e /\ pc = "start"
        \/ /\ op = "factorial" /\ a = 0 /\ e \in -3..MaxFact
           /\ acc = 1 /\ base = 1 /\ left = e /\ pc = "start"
Special == /\ pc = "start"
           /\ pc' = IF op = "power" /\ a = 0 /\ e = 0 THEN "indeterminate"
                    ELSE IF op = "factorial" /\ e < 0 THEN "infinite" ELSE "loop"
           /\ UNCHANGED <<op, a, e, acc, base, left>>
Square == /\ pc = "loop" /\ op = "power" /\ left > 0
          /\ acc' = IF left % 2 = 1 THEN acc * base ELSE acc
          /\ base' = IF left > 1 THEN base * base ELSE base
          /\ left' = left \div 2
          /\ UNCHANGED <<op, a, e, pc>>
Multiply == /\ pc = "loop" /\ op = "factorial" /\ base <= e
            /\ acc' = acc * base /\ base' = base + 1
            /\ UNCHANGED <<op, a, e, left, pc>>
Stop == /\ pc = "loop" /\ IF op = "power" THEN left = 0 ELSE base > e
        /\ pc' = "done" /\ UNCHANGED <<op, a, e, acc, base, left>>
Next == Special \/ Square \/ Multiply \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Invariant == pc = "loop" =>
   IF op = "power" THEN acc * PowN(base, left) = PowN(a, e) \/ NAbs(base) > 1000
   ELSE acc = FactN(base - 1)
Correct == pc = "done" => acc = IF op = "power" THEN PowN(a, e) ELSE FactN(e)
Terminates == <>(pc \in {"done", "indeterminate", "infinite"})

Calls == SetToSeq({[op |-> "power", a |-> <<ToString(x), ToString(k)>>] : x \in -MaxBase..MaxBase, k \in 0..MaxExp}
          \cup {[op |-> o, a |-> <<ToString(k)>>] : o \in {"factorial", "factorial_u"}, k \in 0..MaxFact}
          \cup {[op |-> "factorial", a |-> <<ToString(-k)>>] : k \in 1..MaxFact})
Emit == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.OUT, Calls)
=============================================================================
