------------------------------- MODULE Euclid -------------------------------
(* The extended Euclidean algorithm as the kernel uses it (truncated division,*)
(* sign fixed at the end), and the three answers derived from it:             *)
(* gcd with coefficients, modular inverse, modular division.                  *)
EXTENDS NativeInt, Sequences, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt
CONSTANTS R           \* operands range over -R..R
VARIABLES a, b,       \* the operands
          r0, r1, s0, s1, t0, t1,   \* remainders and coefficients, r1 is the current divisor
          pc
vars == <<a, b, r0, r1, s0, s1, t0, t1, pc>>

Init == /\ a \in -R..R /\ b \in -R..R
        /\ r0 = b /\ r1 = a             \* num keeps (other, self)
        /\ s0 = 0 /\ s1 = 1
        /\ t0 = 1 /\ t1 = 0
        /\ pc = "loop"
Step == /\ pc = "loop" /\ r1 # 0
        /\ LET q == Quot(r0, r1) IN
           /\ r0' = r1 /\ r1' = r0 - q * r1
           /\ s0' = s1 /\ s1' = s0 - q * s1
           /\ t0' = t1 /\ t1' = t0 - q * t1
        /\ UNCHANGED <<a, b, pc>>
Finish == /\ pc = "loop" /\ r1 = 0
          /\ pc' = "done"
          /\ IF r0 >= 0 THEN UNCHANGED <<r0, s0, t0>>
             ELSE r0' = -r0 /\ s0' = -s0 /\ t0' = -t0
          /\ UNCHANGED <<a, b, r1, s1, t1>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* loop invariant *)
Combination == r0 = a * s0 + b * t0 /\ r1 = a * s1 + b * t1
SameGcd == NGcd(r0, r1) = NGcd(a, b)
(* progress: the divisor shrinks at every step, so the loop ends *)
Shrinks == [][pc = "loop" /\ pc' = "loop" => (NAbs(r1') < NAbs(r1))]_vars
Terminates == <>(pc = "done")

(* the answers the kernel builds from the final state *)
GcdAnswer == <<r0, s0, t0>>
InverseAnswer == IF r0 = 1 THEN <<"ok", <<s0 + b>>>> ELSE <<"none", <<>>>>
Division(c) == IF Rem(c, r0) = 0 THEN <<"ok", <<Quot(c, r0) * s0>>>> ELSE <<"none", <<>>>>
Correct == pc = "done" =>
   /\ C!ExtGcdOK(a, b, "ok", GcdAnswer)
   /\ C!CoprimeOK(a, b, "ok", <<r0 = 1>>)
   /\ b # 0 => C!InverseOK(a, b, InverseAnswer[1], InverseAnswer[2])
   /\ b # 0 => \A c \in -R..R : C!DivisionOK(c, a, b, Division(c)[1], Division(c)[2])
(* the contracts mean what they should: greatest common divisor, solvability by search *)
Meaning == pc = "done" =>
   /\ \A d \in 1..R : NDivides(d, a) /\ NDivides(d, b) => (r0 = 0 \/ d <= r0)
   /\ b # 0 => \A c \in -R..R :
        C!Solvable(c, a, b) <=> \E x \in 0..(NAbs(b) - 1) : C!Congruent(a * x, c, b)
   /\ b # 0 => (NGcd(a, b) = 1 <=> \E x \in 0..(NAbs(b) - 1) : C!Congruent(a * x, 1, b))
(* wrong variants of the derived answers, which Correct must refute (sanity of the model) *)
WrongDivision(c) == IF Rem(c, r0) = 0 THEN <<"ok", <<Quot(c, r0) * t0>>>> ELSE <<"none", <<>>>>
WrongRefuted == \A c \in -R..R : pc = "done" /\ b # 0 =>
                  C!DivisionOK(c, a, b, WrongDivision(c)[1], WrongDivision(c)[2])

(* spec -> code: every call of the explored range, to be executed by the real kernel *)
S(x) == ToString(x)
Calls == LET D == -R..R IN
   SetToSeq({[op |-> "egcd", a |-> <<S(x), S(y)>>] : x \in D, y \in D}
      \cup {[op |-> "coprime", a |-> <<S(x), S(y)>>] : x \in D, y \in D}
      \cup {[op |-> "inverse", a |-> <<S(x), S(y)>>] : x \in D, y \in D \ {0}}
      \cup {[op |-> "division", a |-> <<S(x), S(y), S(z)>>] : x \in D, y \in D, z \in D \ {0}})
Emit == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.OUT, Calls)
=============================================================================
