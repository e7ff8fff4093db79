---------------------------- MODULE EuclidProof ----------------------------
(* The machine of Euclid.tla over all integers, with any quotient that makes  *)
(* the remainder smaller: proofs, checked by TLAPS, of its loop invariants    *)
(* and of what they give at the end, without any bound on the operands.       *)
EXTENDS Integers, TLAPS
VARIABLES a, b, r0, r1, s0, s1, t0, t1, pc
vars == <<a, b, r0, r1, s0, s1, t0, t1, pc>>
Abs(x) == IF x < 0 THEN -x ELSE x
Divides(d, x) == \E k \in Int : x = d * k

Init == /\ a \in Int /\ b \in Int
        /\ r0 = b /\ r1 = a /\ s0 = 0 /\ s1 = 1 /\ t0 = 1 /\ t1 = 0 /\ pc = "loop"
Step == /\ pc = "loop" /\ r1 # 0
        /\ \E q \in Int : /\ Abs(r0 - q * r1) < Abs(r1)
                          /\ r0' = r1 /\ r1' = r0 - q * r1
                          /\ s0' = s1 /\ s1' = s0 - q * s1
                          /\ t0' = t1 /\ t1' = t0 - q * t1
        /\ UNCHANGED <<a, b, pc>>
Finish == /\ pc = "loop" /\ r1 = 0 /\ pc' = "done"
          /\ IF r0 >= 0 THEN UNCHANGED <<r0, s0, t0>> ELSE r0' = -r0 /\ s0' = -s0 /\ t0' = -t0
          /\ UNCHANGED <<a, b, r1, s1, t1>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

TypeOK == /\ a \in Int /\ b \in Int /\ r0 \in Int /\ r1 \in Int
          /\ s0 \in Int /\ s1 \in Int /\ t0 \in Int /\ t1 \in Int /\ pc \in {"loop", "done"}
Combination == r0 = a * s0 + b * t0 /\ r1 = a * s1 + b * t1
Common == \A d \in Int : (Divides(d, r0) /\ Divides(d, r1)) <=> (Divides(d, a) /\ Divides(d, b))
Ended == pc = "done" => r1 = 0 /\ r0 >= 0
Inv == TypeOK /\ Combination /\ Common /\ Ended

LEMMA MulDist == \A x, y, z \in Int : x * (y - z) = x * y - x * z /\ (y - z) * x = y * x - z * x OBVIOUS
LEMMA DivLinear == \A d, x, y, q \in Int : Divides(d, x) /\ Divides(d, y) => Divides(d, x - q * y)
<1> SUFFICES ASSUME NEW d \in Int, NEW x \in Int, NEW y \in Int, NEW q \in Int, Divides(d, x), Divides(d, y) PROVE Divides(d, x - q * y) OBVIOUS
<1>1. PICK k \in Int : x = d * k BY DEF Divides
<1>2. PICK m \in Int : y = d * m BY DEF Divides
<1>3. x - q * y = d * (k - q * m) BY <1>1, <1>2
<1>4. k - q * m \in Int OBVIOUS
<1> QED BY <1>3, <1>4 DEF Divides
LEMMA DivBack == \A d, x, y, q \in Int : Divides(d, y) /\ Divides(d, x - q * y) => Divides(d, x)
<1> SUFFICES ASSUME NEW d \in Int, NEW x \in Int, NEW y \in Int, NEW q \in Int, Divides(d, y), Divides(d, x - q * y) PROVE Divides(d, x) OBVIOUS
<1>1. PICK k \in Int : x - q * y = d * k BY DEF Divides
<1>2. PICK m \in Int : y = d * m BY DEF Divides
<1>3. x = d * k + q * (d * m) BY <1>1, <1>2
<1>4. x = d * (k + q * m) BY <1>3
<1> QED BY <1>4 DEF Divides
LEMMA DivNeg == \A d, x \in Int : Divides(d, x) <=> Divides(d, -x)
<1> SUFFICES ASSUME NEW d \in Int, NEW x \in Int PROVE Divides(d, x) <=> Divides(d, -x) OBVIOUS
<1>1. ASSUME NEW k \in Int, x = d * k PROVE -x = d * (-k) BY <1>1
<1>2. ASSUME NEW k \in Int, -x = d * k PROVE x = d * (-k) BY <1>2
<1> QED BY <1>1, <1>2 DEF Divides

THEOREM Safe == Spec => []Inv
<1>1. Init => Inv
  <2> SUFFICES ASSUME Init PROVE Inv OBVIOUS
  <2>1. TypeOK BY DEF Init, TypeOK
  <2>2. Combination BY <2>1 DEF Init, Combination, TypeOK
  <2>3. Common BY DEF Init, Common
  <2> QED BY <2>1, <2>2, <2>3 DEF Init, Inv, Ended
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2> USE DEF Inv, TypeOK
  <2>1. CASE Step
    <3>1. PICK q \in Int : /\ r0' = r1 /\ r1' = r0 - q * r1
                           /\ s0' = s1 /\ s1' = s0 - q * s1
                           /\ t0' = t1 /\ t1' = t0 - q * t1
          BY <2>1 DEF Step
    <3>2. a' = a /\ b' = b /\ pc' = pc /\ pc = "loop" BY <2>1 DEF Step
    <3>3. TypeOK' BY <3>1, <3>2
    <3>4. Combination'
      <4>1. r0' = a' * s0' + b' * t0' BY <3>1, <3>2 DEF Combination
      <4>2. a * (s0 - q * s1) = a * s0 - q * (a * s1) OBVIOUS
      <4>3. b * (t0 - q * t1) = b * t0 - q * (b * t1) OBVIOUS
      <4>4. q * (a * s1 + b * t1) = q * (a * s1) + q * (b * t1) OBVIOUS
      <4>5. q * r1 = q * (a * s1) + q * (b * t1) BY <4>4 DEF Combination
      <4>6. r0 - q * r1 = a * (s0 - q * s1) + b * (t0 - q * t1) BY <4>2, <4>3, <4>5 DEF Combination
      <4>7. r1' = a' * s1' + b' * t1' BY <3>1, <3>2, <4>6
      <4> QED BY <4>1, <4>7 DEF Combination
    <3>5. Common'
      <4> SUFFICES ASSUME NEW d \in Int PROVE (Divides(d, r1) /\ Divides(d, r0 - q * r1)) <=> (Divides(d, a) /\ Divides(d, b))
          BY <3>1, <3>2 DEF Common, Divides
      <4>1. (Divides(d, r1) /\ Divides(d, r0 - q * r1)) <=> (Divides(d, r0) /\ Divides(d, r1)) BY DivLinear, DivBack
      <4> QED BY <4>1 DEF Common
    <3> QED BY <3>2, <3>3, <3>4, <3>5 DEF Ended
  <2>2. CASE Finish
    <3>1. a' = a /\ b' = b /\ r1' = r1 /\ s1' = s1 /\ t1' = t1 /\ r1 = 0 /\ pc' = "done" BY <2>2 DEF Finish
    <3>2. CASE r0 >= 0
      <4>1. r0' = r0 /\ s0' = s0 /\ t0' = t0 BY <2>2, <3>2 DEF Finish
      <4> QED BY <3>1, <3>2, <4>1 DEF Combination, Common, Ended, Divides
    <3>3. CASE ~(r0 >= 0)
      <4>1. r0' = -r0 /\ s0' = -s0 /\ t0' = -t0 BY <2>2, <3>3 DEF Finish
      <4>2. a * (-s0) + b * (-t0) = -(a * s0 + b * t0) OBVIOUS
      <4>3. Combination' BY <3>1, <4>1, <4>2 DEF Combination
      <4>4. Common'
        <5> SUFFICES ASSUME NEW d \in Int PROVE (Divides(d, -r0) /\ Divides(d, r1)) <=> (Divides(d, a) /\ Divides(d, b))
            BY <3>1, <4>1 DEF Common, Divides
        <5>1. Divides(d, -r0) <=> Divides(d, r0) BY DivNeg
        <5> QED BY <5>1 DEF Common
      <4>5. TypeOK' /\ Ended' BY <3>1, <3>3, <4>1 DEF Ended
      <4> QED BY <4>3, <4>4, <4>5
    <3> QED BY <3>2, <3>3
  <2>3. CASE UNCHANGED vars BY <2>3 DEF vars, Combination, Common, Ended, Divides
  <2> QED BY <2>1, <2>2, <2>3 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

(* at the end r0 is the greatest common divisor and a combination of the operands *)
Answer == pc = "done" => /\ r0 >= 0 /\ r0 = a * s0 + b * t0
                         /\ Divides(r0, a) /\ Divides(r0, b)
                         /\ \A d \in Int : Divides(d, a) /\ Divides(d, b) => Divides(d, r0)
THEOREM Right == Spec => []Answer
<1>1. Inv => Answer
  <2> SUFFICES ASSUME Inv, pc = "done" PROVE Answer BY DEF Answer
  <2>1. r1 = 0 /\ r0 >= 0 /\ r0 \in Int BY DEF Inv, Ended, TypeOK
  <2>2. Divides(r0, r0) BY <2>1 DEF Divides
  <2>3. Divides(r0, r1) BY <2>1 DEF Divides
  <2>4. Divides(r0, a) /\ Divides(r0, b) BY <2>1, <2>2, <2>3 DEF Inv, Common
  <2>5. \A d \in Int : Divides(d, a) /\ Divides(d, b) => Divides(d, r0) BY DEF Inv, Common
  <2> QED BY <2>1, <2>4, <2>5 DEF Inv, Combination, Answer
<1> QED BY <1>1, Safe, PTL

(* the answers built from it: x = s0 + b inverts a modulo b exactly when r0 = 1, *)
(* and a*x = c modulo b is solvable exactly when r0 divides c, by (c / r0) * s0   *)
Inverse == pc = "done" => /\ r0 = 1 => Divides(b, a * (s0 + b) - 1)
                          /\ (\E x \in Int : Divides(b, a * x - 1)) => r0 = 1
Division == pc = "done" => \A c \in Int : /\ \A k \in Int : c = r0 * k => Divides(b, a * (k * s0) - c)
                                         /\ (\E x \in Int : Divides(b, a * x - c)) => Divides(r0, c)
LEMMA OneDivisor == \A d \in Int : d >= 0 /\ Divides(d, 1) => d = 1
<1> SUFFICES ASSUME NEW d \in Int, d >= 0, NEW k \in Int, 1 = d * k PROVE d = 1 BY DEF Divides
<1>1. CASE d = 0 BY <1>1
<1>2. CASE d = 1 BY <1>2
<1>3. CASE d > 1
  <2>1. CASE k <= 0
    <3>1. d * (-k) >= 0 BY <1>3, <2>1
    <3>2. d * (-k) = -(d * k) OBVIOUS
    <3> QED BY <3>1, <3>2
  <2>2. CASE k >= 1
    <3>1. d * (k - 1) >= 0 BY <1>3, <2>2
    <3>2. d * (k - 1) = d * k - d OBVIOUS
    <3> QED BY <1>3, <3>1, <3>2
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, <1>3
LEMMA Solvable == Inv /\ pc = "done" => \A c, x \in Int : Divides(b, a * x - c) => Divides(r0, c)
<1> SUFFICES ASSUME Inv, pc = "done", NEW c \in Int, NEW x \in Int, Divides(b, a * x - c) PROVE Divides(r0, c) OBVIOUS
<1> USE DEF Inv, TypeOK
<1>1. r1 = 0 BY DEF Ended
<1>2. r0 = r0 * 1 /\ r1 = r0 * 0 BY <1>1
<1>9. Divides(r0, r0) /\ Divides(r0, r1) BY <1>2 DEF Divides
<1>3. Divides(r0, a) /\ Divides(r0, b) BY <1>9 DEF Common
<1>4. PICK k \in Int : a = r0 * k BY <1>3 DEF Divides
<1>5. PICK m \in Int : b = r0 * m BY <1>3 DEF Divides
<1>6. PICK n \in Int : a * x - c = b * n BY DEF Divides
<1>7. c = (r0 * k) * x - (r0 * m) * n BY <1>4, <1>5, <1>6
<1>8. (r0 * k) * x - (r0 * m) * n = r0 * (k * x - m * n) OBVIOUS
<1> QED BY <1>7, <1>8 DEF Divides
THEOREM Answers == Spec => [](Inverse /\ Division)
<1>1. Inv => Inverse /\ Division
  <2> SUFFICES ASSUME Inv, pc = "done" PROVE Inverse /\ Division BY DEF Inverse, Division
  <2> USE DEF Inv, TypeOK
  <2>1. r0 = a * s0 + b * t0 /\ r0 >= 0 BY DEF Combination, Ended
  <2>2. r0 = 1 => Divides(b, a * (s0 + b) - 1)
    <3> SUFFICES ASSUME r0 = 1 PROVE Divides(b, a * (s0 + b) - 1) OBVIOUS
    <3>1. a * (s0 + b) - (a * s0 + b * t0) = b * (a - t0) OBVIOUS
    <3>2. a * (s0 + b) - 1 = b * (a - t0) BY <2>1, <3>1
    <3> QED BY <3>2 DEF Divides
  <2>3. (\E x \in Int : Divides(b, a * x - 1)) => r0 = 1 BY <2>1, Solvable, OneDivisor
  <2>4. ASSUME NEW c \in Int, NEW k \in Int, c = r0 * k PROVE Divides(b, a * (k * s0) - c)
    <3>1. c = (a * s0 + b * t0) * k BY <2>1, <2>4
    <3>2. a * (k * s0) - (a * s0 + b * t0) * k = b * (-(t0 * k)) OBVIOUS
    <3>3. -(t0 * k) \in Int OBVIOUS
    <3>4. a * (k * s0) - c = b * (-(t0 * k)) BY <3>1, <3>2
    <3> QED BY <3>3, <3>4 DEF Divides
  <2> QED BY <2>2, <2>3, <2>4, Solvable DEF Inverse, Division
<1> QED BY <1>1, Safe, PTL

(* the divisor gets smaller with every step: with a well-founded order the loop ends *)
THEOREM Progress == Inv /\ Step => Abs(r1') < Abs(r1) /\ Abs(r1) \in Nat
<1> SUFFICES ASSUME Inv, Step PROVE Abs(r1') < Abs(r1) /\ Abs(r1) \in Nat OBVIOUS
<1>1. PICK q \in Int : Abs(r0 - q * r1) < Abs(r1) /\ r1' = r0 - q * r1 BY DEF Step
<1> QED BY <1>1 DEF Inv, TypeOK, Abs
=============================================================================
