------------------------------ MODULE FibProof ------------------------------
(* The two doubling rules of FibMemo.tla hold for all numbers: the memoised   *)
(* recursion is exact wherever it ends. F is given by its recurrence.         *)
EXTENDS Integers, TLAPS, NaturalsInduction
CONSTANT F
AXIOM Recurrence == /\ F \in [Nat -> Int] /\ F[0] = 0 /\ F[1] = 1
                    /\ \A n \in Nat : F[n + 2] = F[n] + F[n + 1]

LEMMA Addition == \A m, n \in Nat : F[m + n + 1] = F[m] * F[n] + F[m + 1] * F[n + 1]
<1> DEFINE P(m) == \A n \in Nat : F[m + n + 1] = F[m] * F[n] + F[m + 1] * F[n + 1]
<1>1. P(0) BY Recurrence
<1>2. ASSUME NEW m \in Nat, P(m) PROVE P(m + 1)
  <2> SUFFICES ASSUME NEW n \in Nat PROVE F[m + n + 2] = F[m + 1] * F[n] + F[m + 2] * F[n + 1] OBVIOUS
  <2>1. F[m + (n + 1) + 1] = F[m] * F[n + 1] + F[m + 1] * F[n + 1 + 1] BY <1>2
  <2>2. F[n + 2] = F[n] + F[n + 1] BY Recurrence
  <2>3. F[m + 2] = F[m] + F[m + 1] BY Recurrence
  <2>4. m + (n + 1) + 1 = m + n + 2 /\ n + 1 + 1 = n + 2 OBVIOUS
  <2>5. F[m] \in Int /\ F[m + 1] \in Int /\ F[n] \in Int /\ F[n + 1] \in Int BY Recurrence
  <2>6. \A a, b, c, d \in Int : a * d + b * (c + d) = b * c + (a + b) * d OBVIOUS
  <2>7. F[m] * F[n + 1] + F[m + 1] * (F[n] + F[n + 1]) = F[m + 1] * F[n] + (F[m] + F[m + 1]) * F[n + 1] BY <2>5, <2>6
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>7
<1>3. \A m \in Nat : P(m)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3

(* the odd case: F(2k + 1), from F(k) and F(k + 1) *)
THEOREM Odd == \A k \in Nat : F[k + k + 1] = F[k + 1] * F[k + 1] + F[k] * F[k]
<1> SUFFICES ASSUME NEW k \in Nat PROVE F[k + k + 1] = F[k + 1] * F[k + 1] + F[k] * F[k] OBVIOUS
<1>1. F[k] \in Int /\ F[k + 1] \in Int BY Recurrence
<1>2. F[k + k + 1] = F[k] * F[k] + F[k + 1] * F[k + 1] BY Addition
<1>3. \A x, y \in Int : x * x + y * y = y * y + x * x OBVIOUS
<1> QED BY <1>1, <1>2, <1>3
(* the even case: F(2k) *)
THEOREM Even == \A k \in Nat : F[k + k] = F[k] * (F[k + 1] * 2 - F[k])
<1> SUFFICES ASSUME NEW k \in Nat PROVE F[k + k] = F[k] * (F[k + 1] * 2 - F[k]) OBVIOUS
<1>1. CASE k = 0
  <2>1. F[0] = 0 /\ F[1] \in Int BY Recurrence
  <2>2. \A x \in Int : 0 * (x * 2 - 0) = 0 OBVIOUS
  <2> QED BY <1>1, <2>1, <2>2
<1>2. CASE k > 0
  <2> DEFINE j == k - 1
  <2>0. j \in Nat /\ k = j + 1 BY <1>2
  <2> HIDE DEF j
  <2>1. F[j + k + 1] = F[j] * F[k] + F[j + 1] * F[k + 1] BY <2>0, Addition
  <2>2. j + k + 1 = k + k BY <2>0
  <2>3. F[j + 2] = F[j] + F[j + 1] /\ j + 2 = k + 1 BY <2>0, Recurrence
  <2>4. F[j] \in Int /\ F[k] \in Int /\ F[k + 1] \in Int BY <2>0, Recurrence
  <2>5. F[j] = F[k + 1] - F[k] BY <2>0, <2>3, <2>4
  <2>6. \A x, y \in Int : (y - x) * x + x * y = x * (y * 2 - x) OBVIOUS
  <2> QED BY <2>0, <2>1, <2>2, <2>4, <2>5, <2>6
<1> QED BY <1>1, <1>2
(* the pair of the fast iteration: from (F(k), F(k + 1)) to that of 2k and of 2k + 1 *)
THEOREM Pair == \A k \in Nat : F[k + k + 2] = F[k + 1] * (F[k] * 2 + F[k + 1])
<1> SUFFICES ASSUME NEW k \in Nat PROVE F[k + k + 2] = F[k + 1] * (F[k] * 2 + F[k + 1]) OBVIOUS
<1>1. F[k + (k + 1) + 1] = F[k] * F[k + 1] + F[k + 1] * F[k + 1 + 1] BY Addition
<1>2. F[k + 2] = F[k] + F[k + 1] /\ k + 1 + 1 = k + 2 /\ k + (k + 1) + 1 = k + k + 2 BY Recurrence
<1>3. F[k] \in Int /\ F[k + 1] \in Int BY Recurrence
<1>4. \A x, y \in Int : x * y + y * (x + y) = y * (x * 2 + y) OBVIOUS
<1> QED BY <1>1, <1>2, <1>3, <1>4
=============================================================================
