----------------------------- MODULE Contracts -----------------------------
(* What each number-theory call may answer, over any model of the integers.   *)
(* Instantiated over TLC's native integers for the exhaustive design checks   *)
(* and over BigInt for the validation of recorded executions.                 *)
(* An answer is a kind k ("ok", "none", "err:<Name>", "panic", ...) and a     *)
(* sequence v of values.                                                      *)
EXTENDS Integers, Sequences
CONSTANTS Zero, One, Add(_, _), Sub(_, _), Mul(_, _), Leq(_, _), Divides(_, _), Gcd(_, _)

Congruent(x, y, m) == Divides(m, Sub(x, y))
Refuses(k, v, kind) == k = kind /\ v = <<>>
Gives(k, v, n) == k = "ok" /\ Len(v) = n

(* C02: g, x, y with a x + b y = g >= 0, g a common divisor; by Bezout every common   *)
(* divisor divides g, so g is the greatest (and 0 for two zeros).                     *)
ExtGcdOK(a, b, k, v) ==
  /\ Gives(k, v, 3)
  /\ Leq(Zero, v[1])
  /\ Add(Mul(a, v[2]), Mul(b, v[3])) = v[1]
  /\ Divides(v[1], a) /\ Divides(v[1], b)
CoprimeOK(a, b, k, v) == Gives(k, v, 1) /\ (v[1] <=> Gcd(a, b) = One)

(* C03, m # 0 *)
InverseOK(a, m, k, v) ==
  IF Gcd(a, m) = One THEN Gives(k, v, 1) /\ Congruent(Mul(a, v[1]), One, m)
  ELSE Refuses(k, v, "none")

(* C04, m # 0: b x = a (mod m) *)
Solvable(a, b, m) == Divides(Gcd(b, m), a)
DivisionOK(a, b, m, k, v) ==
  IF Solvable(a, b, m) THEN Gives(k, v, 1) /\ Congruent(Mul(b, v[1]), a, m)
  ELSE Refuses(k, v, "none")

(* C05, moduli > 0 *)
PairwiseCoprime(m) == \A i \in 1..Len(m) : \A j \in 1..(i-1) : Gcd(m[i], m[j]) = One
Solves(x, u, m) == \A i \in 1..Len(m) : Congruent(x, u[i], m[i])
CrtOK(u, m, k, v) ==
  IF Len(u) # Len(m) \/ Len(u) = 0 THEN Refuses(k, v, "none")
  ELSE IF Gives(k, v, 1) THEN Solves(v[1], u, m)
  ELSE Refuses(k, v, "none") /\ ~PairwiseCoprime(m)
=============================================================================
