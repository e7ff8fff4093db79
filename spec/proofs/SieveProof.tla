----------------------------- MODULE SieveProof ------------------------------
(* The step of the prime-sum sieve (Lucy.tla) for all numbers, primes and     *)
(* any additive weight that scales: what the step subtracts is exactly the    *)
(* weight of the numbers that the prime removes, and a composite number or    *)
(* one whose square is too large removes nothing. With weight 1 it is the     *)
(* step of counting primes.                                                   *)
EXTENDS Integers, TLAPS, NaturalsInduction
Div(d, x) == \E k \in Int : x = d * k
Prime(x) == x >= 2 /\ \A d \in 2..(x - 1) : ~Div(d, x)
Rough(x, q) == \A d \in 2..q : ~Div(d, x)
(* the numbers up to v that are left after sieving with the numbers up to q *)
Left(v, q) == {x \in 2..v : Prime(x) \/ Rough(x, q)}

LEMMA Ring == /\ \A a, b, c \in Int : a * (b * c) = (a * b) * c
              /\ \A a, b, c \in Int : a * (b + c) = a * b + a * c
              /\ \A a, b, c \in Int : a * (b - c) = a * b - a * c
              /\ \A a, b \in Int : a * b = b * a
              /\ \A a \in Int : a * 1 = a /\ 1 * a = a OBVIOUS
LEMMA DivMul == \A d, a, b \in Int : Div(d, a) => Div(d, a * b) /\ Div(d, b * a)
<1> SUFFICES ASSUME NEW d \in Int, NEW a \in Int, NEW b \in Int, NEW k \in Int, a = d * k PROVE Div(d, a * b) /\ Div(d, b * a) BY DEF Div
<1>1. a * b = d * (k * b) /\ k * b \in Int BY Ring
<1>2. b * a = a * b BY Ring
<1> QED BY <1>1, <1>2 DEF Div
LEMMA DivAdd == \A d, a, b \in Int : Div(d, a) /\ Div(d, b) => Div(d, a + b)
<1> SUFFICES ASSUME NEW d \in Int, NEW a \in Int, NEW b \in Int, NEW k \in Int, NEW j \in Int, a = d * k, b = d * j PROVE Div(d, a + b) BY DEF Div
<1>1. a + b = d * (k + j) /\ k + j \in Int BY Ring
<1> QED BY <1>1 DEF Div
LEMMA Grow == \A a, b, c \in Int : a >= 0 /\ b <= c => a * b <= a * c
<1> SUFFICES ASSUME NEW a \in Int, NEW b \in Int, NEW c \in Int, a >= 0, b <= c PROVE a * b <= a * c OBVIOUS
<1>1. a * (c - b) >= 0 OBVIOUS
<1> QED BY <1>1, Ring
(* every remainder is there *)
LEMMA Rest == \A d \in Nat : d >= 1 => \A n \in Nat : \E k, r \in Nat : n = d * k + r /\ r < d
<1> SUFFICES ASSUME NEW d \in Nat, d >= 1 PROVE \A n \in Nat : \E k, r \in Nat : n = d * k + r /\ r < d OBVIOUS
<1> DEFINE P(n) == \E k, r \in Nat : n = d * k + r /\ r < d
<1>1. P(0)
  <2>1. 0 = d * 0 + 0 OBVIOUS
  <2> QED BY <2>1
<1>2. ASSUME NEW n \in Nat, P(n) PROVE P(n + 1)
  <2>1. PICK k \in Nat, r \in Nat : n = d * k + r /\ r < d BY <1>2
  <2>2. CASE r + 1 < d
    <3>1. n + 1 = d * k + (r + 1)
      <4>1. d * k \in Int OBVIOUS
      <4> QED BY <2>1, <4>1
    <3> QED BY <2>2, <3>1
  <2>3. CASE r + 1 = d
    <3>1. d * (k + 1) = d * k + d BY Ring
    <3>2. n + 1 = d * (k + 1) + 0 BY <2>1, <2>3, <3>1
    <3> QED BY <3>2
  <2> QED BY <2>1, <2>2, <2>3
<1>3. \A n \in Nat : P(n)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3

(* a number below a prime is invertible modulo the prime *)
LEMMA Bezout == \A q \in Nat : Prime(q) => \A d \in Nat : 1 <= d /\ d < q => \E s, t \in Int : d * s + q * t = 1
<1> SUFFICES ASSUME NEW q \in Nat, Prime(q) PROVE \A d \in Nat : 1 <= d /\ d < q => \E s, t \in Int : d * s + q * t = 1 OBVIOUS
<1> DEFINE P(d) == 1 <= d /\ d < q => \E s, t \in Int : d * s + q * t = 1
<1>1. ASSUME NEW d \in Nat, \A e \in 0..(d - 1) : P(e) PROVE P(d)
  <2> SUFFICES ASSUME 1 <= d, d < q PROVE \E s, t \in Int : d * s + q * t = 1 OBVIOUS
  <2>1. CASE d = 1
    <3>1. d * 1 + q * 0 = 1 BY <2>1
    <3> QED BY <3>1
  <2>2. CASE d > 1
    <3>1. PICK k \in Nat, r \in Nat : q = d * k + r /\ r < d BY Rest
    <3>2. r # 0
      <4>1. ASSUME r = 0 PROVE FALSE
        <5>1. q = d * k BY <3>1, <4>1
        <5>2. Div(d, q) BY <5>1 DEF Div
        <5> QED BY <5>2, <2>2 DEF Prime
      <4> QED BY <4>1
    <3>3. r \in 0..(d - 1) /\ 1 <= r /\ r < q BY <3>1, <3>2
    <3>4. PICK s \in Int, t \in Int : r * s + q * t = 1 BY <1>1, <3>3
    <3>5. r = q - d * k BY <3>1
    <3>6. d * ((-k) * s) + q * (t + s) = 1
      <4>1. r * s = q * s - (d * k) * s BY <3>5
      <4>2. d * ((-k) * s) = -((d * k) * s) OBVIOUS
      <4>3. q * (t + s) = q * t + q * s BY Ring
      <4> QED BY <3>4, <4>1, <4>2, <4>3
    <3>7. (-k) * s \in Int /\ t + s \in Int OBVIOUS
    <3> QED BY <3>6, <3>7
  <2> QED BY <2>1, <2>2
<1>2. \A d \in Nat : P(d)
  <2> HIDE DEF P
  <2> QED BY <1>1, GeneralNatInduction, Isa
<1> QED BY <1>2
LEMMA Euclid == \A q \in Nat, d \in Nat, y \in Int : Prime(q) /\ 1 <= d /\ d < q /\ Div(d, q * y) => Div(d, y)
<1> SUFFICES ASSUME NEW q \in Nat, NEW d \in Nat, NEW y \in Int, Prime(q), 1 <= d, d < q, Div(d, q * y) PROVE Div(d, y) OBVIOUS
<1>1. PICK s \in Int, t \in Int : d * s + q * t = 1 BY Bezout
<1>2. y = d * (s * y) + (q * y) * t
  <2>1. (d * s + q * t) * y = (d * s) * y + (q * t) * y OBVIOUS
  <2>2. (d * s) * y = d * (s * y) /\ (q * t) * y = (q * y) * t OBVIOUS
  <2>3. (d * s + q * t) * y = y BY <1>1, Ring
  <2> QED BY <2>1, <2>2, <2>3
<1>3. Div(d, d * (s * y)) BY DEF Div
<1>4. Div(d, (q * y) * t) BY DivMul
<1> QED BY <1>2, <1>3, <1>4, DivAdd

(* the primes below q are what is left of the numbers below q *)
LEMMA Small == \A q, x \in Nat : x \in Left(q - 1, q - 1) <=> x \in 2..(q - 1) /\ Prime(x)
<1> SUFFICES ASSUME NEW q \in Nat, NEW x \in Nat, x \in 2..(q - 1), Rough(x, q - 1) PROVE FALSE BY DEF Left
<1>1. x = x * 1 OBVIOUS
<1>2. Div(x, x) BY <1>1 DEF Div
<1> QED BY <1>2 DEF Rough
(* the cofactors: rough numbers up to w *)
LEMMA Cofactors == \A q, w, y \in Nat : q >= 2 => (y \in Left(w, q - 1) \ Left(q - 1, q - 1) <=> y \in 2..w /\ Rough(y, q - 1))
<1> SUFFICES ASSUME NEW q \in Nat, NEW w \in Nat, NEW y \in Nat, q >= 2, y \in 2..w
      PROVE (Prime(y) \/ Rough(y, q - 1)) /\ ~(y \in 2..(q - 1) /\ Prime(y)) <=> Rough(y, q - 1) BY Small DEF Left
<1>1. ASSUME Prime(y), y \notin 2..(q - 1) PROVE Rough(y, q - 1)
  <2>1. y >= q BY <1>1
  <2> QED BY <1>1, <2>1 DEF Prime, Rough
<1>2. ASSUME Rough(y, q - 1), y \in 2..(q - 1) PROVE FALSE
  <2>1. y = y * 1 OBVIOUS
  <2>2. Div(y, y) BY <2>1 DEF Div
  <2> QED BY <1>2, <2>2 DEF Rough
<1> QED BY <1>1, <1>2
(* what a prime q removes up to v, where w is v over q rounded down *)
Removed(q, w) == {q * y : y \in Left(w, q - 1) \ Left(q - 1, q - 1)}
THEOREM Removes == \A q, v, w \in Nat : Prime(q) /\ q * w <= v /\ v < q * (w + 1) => Left(v, q) = Left(v, q - 1) \ Removed(q, w) /\ Removed(q, w) \subseteq Left(v, q - 1)
<1> SUFFICES ASSUME NEW q \in Nat, NEW v \in Nat, NEW w \in Nat, Prime(q), q * w <= v, v < q * (w + 1)
      PROVE Left(v, q) = Left(v, q - 1) \ Removed(q, w) /\ Removed(q, w) \subseteq Left(v, q - 1) OBVIOUS
<1>0. q >= 2 BY DEF Prime
<1>1. ASSUME NEW x \in Removed(q, w) PROVE x \in 2..v /\ ~Prime(x) /\ Rough(x, q - 1) /\ Div(q, x)
  <2>1. PICK y \in Left(w, q - 1) \ Left(q - 1, q - 1) : x = q * y BY <1>1 DEF Removed
  <2>2. y \in Nat /\ y \in 2..w BY <2>1 DEF Left
  <2>3. Rough(y, q - 1) BY <1>0, <2>1, <2>2, Cofactors
  <2>4. q * 2 <= q * y /\ q * y <= q * w BY <1>0, <2>2, Grow
  <2>5. q * 2 = q + q OBVIOUS
  <2>6. x \in 2..v /\ q < x BY <1>0, <2>1, <2>2, <2>4, <2>5
  <2>7. Div(q, x) BY <2>1, <2>2 DEF Div
  <2>8. ~Prime(x) BY <1>0, <2>6, <2>7 DEF Prime
  <2>9. Rough(x, q - 1)
    <3> SUFFICES ASSUME NEW d \in 2..(q - 1), Div(d, q * y) PROVE FALSE BY <2>1 DEF Rough
    <3>1. Div(d, y) BY <2>2, Euclid
    <3> QED BY <2>3, <3>1 DEF Rough
  <2> QED BY <2>6, <2>7, <2>8, <2>9
<1>2. ASSUME NEW x \in 2..v, ~Prime(x), Rough(x, q - 1), Div(q, x) PROVE x \in Removed(q, w)
  <2>1. PICK y \in Int : x = q * y BY <1>2 DEF Div
  <2>2. y >= 1
    <3>1. ASSUME y <= 0 PROVE FALSE
      <4>1. q * y <= q * 0 BY <1>0, <3>1, Grow
      <4> QED BY <2>1, <4>1
    <3> QED BY <3>1
  <2>3. y # 1 BY <1>2, <2>1
  <2>4. y <= w
    <3>1. ASSUME y >= w + 1 PROVE FALSE
      <4>1. q * (w + 1) <= q * y BY <1>0, <3>1, Grow
      <4>2. q * (w + 1) \in Int /\ q * y \in Int OBVIOUS
      <4> QED BY <2>1, <4>1, <4>2
    <3> QED BY <3>1
  <2>5. y \in Nat /\ y \in 2..w BY <2>2, <2>3, <2>4
  <2>6. Rough(y, q - 1)
    <3> SUFFICES ASSUME NEW d \in 2..(q - 1), Div(d, y) PROVE FALSE BY DEF Rough
    <3>1. Div(d, x) BY <2>1, DivMul
    <3> QED BY <1>2, <3>1 DEF Rough
  <2>7. y \in Left(w, q - 1) \ Left(q - 1, q - 1) BY <1>0, <2>5, <2>6, Cofactors
  <2> QED BY <2>1, <2>7 DEF Removed
<1>3. \A x \in Int : Rough(x, q) <=> Rough(x, q - 1) /\ ~Div(q, x)
  <2> SUFFICES ASSUME NEW x \in Int PROVE Rough(x, q) <=> Rough(x, q - 1) /\ ~Div(q, x) OBVIOUS
  <2>1. \A d : d \in 2..q <=> d \in 2..(q - 1) \/ d = q BY <1>0
  <2> QED BY <2>1 DEF Rough
<1>4. ASSUME NEW x \in 2..v PROVE (Prime(x) \/ Rough(x, q)) <=> (Prime(x) \/ Rough(x, q - 1)) /\ x \notin Removed(q, w)
  BY <1>1, <1>2, <1>3
<1> QED BY <1>1, <1>4 DEF Left
(* a composite number removes nothing, nor does one whose square is above v *)
THEOREM Idle == \A q, v \in Nat : q >= 2 /\ (~Prime(q) \/ v < q * q) => Left(v, q) = Left(v, q - 1)
<1> SUFFICES ASSUME NEW q \in Nat, NEW v \in Nat, q >= 2, ~Prime(q) \/ v < q * q PROVE Left(v, q) = Left(v, q - 1) OBVIOUS
<1>a. ASSUME NEW x \in 2..v, Rough(x, q) PROVE Rough(x, q - 1) BY <1>a DEF Rough
<1> SUFFICES ASSUME NEW x \in 2..v, ~Prime(x), Rough(x, q - 1) PROVE Rough(x, q) BY <1>a DEF Left
<1>1. ~Div(q, x)
  <2> SUFFICES ASSUME Div(q, x) PROVE FALSE OBVIOUS
  <2>1. CASE ~Prime(q)
    <3>1. PICK d \in 2..(q - 1) : Div(d, q) BY <2>1 DEF Prime
    <3>2. PICK k \in Int : x = q * k BY DEF Div
    <3>3. Div(d, q * k) BY <3>1, DivMul
    <3> QED BY <3>1, <3>2, <3>3 DEF Rough
  <2>2. CASE v < q * q
    <3>1. PICK y \in Int : x = q * y BY DEF Div
    <3>2. y > 0
      <4>1. ASSUME y <= 0 PROVE FALSE
        <5>1. q * y <= q * 0 BY <4>1, Grow
        <5> QED BY <3>1, <5>1
      <4> QED BY <4>1
    <3>3. y < q
      <4>1. ASSUME y >= q PROVE FALSE
        <5>1. q * q <= q * y BY <4>1, Grow
        <5> QED BY <2>2, <3>1, <5>1
      <4> QED BY <4>1
    <3>4. CASE y = 1
      <4>1. x = q BY <3>1, <3>4
      <4>2. \A d \in 2..(x - 1) : ~Div(d, x) BY <4>1 DEF Rough
      <4> QED BY <4>2 DEF Prime
    <3>5. CASE y >= 2
      <4>1. x = y * q BY <3>1, Ring
      <4>2. Div(y, x) BY <3>1, <4>1 DEF Div
      <4>3. y \in 2..(q - 1) BY <3>3, <3>5
      <4> QED BY <4>2, <4>3 DEF Rough
    <3> QED BY <3>2, <3>4, <3>5
  <2> QED BY <2>1, <2>2
<1>2. \A d \in 2..q : d \in 2..(q - 1) \/ d = q OBVIOUS
<1> QED BY <1>1, <1>2 DEF Rough

(* an additive weight of finite sets of numbers that scales with g(q) when all members are multiplied by q: *)
(* the sum (g(q) = q) and the count (g(q) = 1)                                                                *)
CONSTANTS W(_), g(_)
AXIOM Additive == \A q, v, w \in Nat : q >= 1 =>
                               /\ W(Left(v, q)) \in Int /\ g(q) \in Int
                               /\ Removed(q, w) \subseteq Left(v, q - 1) => W(Left(v, q - 1) \ Removed(q, w)) = W(Left(v, q - 1)) - W(Removed(q, w))
                               /\ Left(q - 1, q - 1) \subseteq Left(w, q - 1) => W(Removed(q, w)) = g(q) * (W(Left(w, q - 1)) - W(Left(q - 1, q - 1)))
THEOREM Step == \A q, v, w \in Nat : Prime(q) /\ q * q <= v /\ q * w <= v /\ v < q * (w + 1)
   => W(Left(v, q)) = W(Left(v, q - 1)) - g(q) * (W(Left(w, q - 1)) - W(Left(q - 1, q - 1)))
<1> SUFFICES ASSUME NEW q \in Nat, NEW v \in Nat, NEW w \in Nat, Prime(q), q * q <= v, q * w <= v, v < q * (w + 1)
     PROVE W(Left(v, q)) = W(Left(v, q - 1)) - g(q) * (W(Left(w, q - 1)) - W(Left(q - 1, q - 1))) OBVIOUS
<1>1. q - 1 <= w
  <2>1. ASSUME w + 1 <= q PROVE FALSE
    <3>1. q >= 0 /\ q \in Int /\ w + 1 \in Int OBVIOUS
    <3>2. q * (w + 1) <= q * q BY <2>1, <3>1, Grow
    <3>3. q * (w + 1) \in Int /\ q * q \in Int OBVIOUS
    <3>4. \A i, j, k \in Int : i <= j /\ j <= k /\ k < i => FALSE OBVIOUS
    <3>5. v \in Int OBVIOUS
    <3> HIDE DEF Prime
    <3> QED BY <3>2, <3>3, <3>4, <3>5, Zenon
  <2> QED BY <2>1
<1>2. Left(q - 1, q - 1) \subseteq Left(w, q - 1) BY <1>1 DEF Left
<1>3. q >= 1 BY DEF Prime
<1> QED BY <1>2, <1>3, Removes, Additive
=============================================================================
