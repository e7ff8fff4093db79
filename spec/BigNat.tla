------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as little-endian sequences of limbs in base B. *)
(* Normal form: no leading (that is: last) zero limb; zero is <<>>.           *)
(* TLC's integers have 32 bits, so B <= 1000 keeps every column sum of a      *)
(* product with up to 2000 limbs below 2^31.                                  *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT B

IsNat(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(B-1)
            /\ Len(a) > 0 => a[Len(a)] # 0

Limb(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0

RECURSIVE Trim(_)
Trim(a) == IF Len(a) = 0 THEN a
           ELSE IF a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))

(* limbs of a native number *)
RECURSIVE NatOf(_)
NatOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NatOf(n \div B)

(* native value; only for numbers that fit *)
RECURSIVE NatValFrom(_, _)
NatValFrom(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + B * NatValFrom(a, i + 1)
NatVal(a) == NatValFrom(a, 1)
NatFits(a) == Len(a) <= 3

(* carry propagation over columns that may exceed B - 1 *)
Carry(cols) ==
  LET step(acc, c) == LET t == c + acc[2] IN <<Append(acc[1], t % B), t \div B>>
      r == FoldLeft(step, <<<<>>, 0>>, cols)
  IN  Trim(r[1] \o NatOf(r[2]))

NatAdd(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
             IN  Carry([i \in 1..n |-> Limb(a, i) + Limb(b, i)])

(* the carry of a borrow is -1, and \div and % round towards minus infinity *)
NatSub(a, b) == Carry([i \in 1..Len(a) |-> Limb(a, i) - Limb(b, i)])  \* needs a >= b

RECURSIVE NatCmpFrom(_, _, _)
NatCmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1 ELSE NatCmpFrom(a, b, i - 1)
NatCmp(a, b) == IF Len(a) < Len(b) THEN -1
             ELSE IF Len(a) > Len(b) THEN 1 ELSE NatCmpFrom(a, b, Len(a))
NatLeq(a, b) == NatCmp(a, b) <= 0

Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Plus2(x, y) == x + y

(* column k (1-based) is the sum of a[i] * b[k + 1 - i] *)
Column(a, b, k) ==
  LET lo == Max2(1, k + 1 - Len(b))
      hi == Min2(Len(a), k)
  IN  FoldLeft(Plus2, 0, [j \in 1..(hi - lo + 1) |-> a[lo + j - 1] * b[k + 2 - lo - j]])
NatMul(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN <<>>
             ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |-> Column(a, b, k)])

(* a * d for a native 0 <= d < B * B *)
NatMulSmall(a, d) == IF d = 0 THEN <<>> ELSE Carry([i \in 1..Len(a) |-> a[i] * d])

(* remainder by a native modulus p with p * B < 2^31 *)
NatModSmall(a, p) == FoldLeft(LAMBDA acc, x : (acc * B + x) % p, 0, Reverse(a))

(* the three (two) leading limbs of r seen against position n of the divisor *)
Top3(r, n) == (Limb(r, n + 1) * B + Limb(r, n)) * B + Limb(r, n - 1)
Top2(d, n) == Limb(d, n) * B + Limb(d, n - 1)

(* one quotient digit: the estimate from the leading limbs is never too small *)
RECURSIVE QuotLower(_, _, _)
QuotLower(r, d, q) == IF NatLeq(NatMulSmall(d, q), r) THEN q ELSE QuotLower(r, d, q - 1)
QuotDigit(r, d) == IF NatCmp(r, d) < 0 THEN 0
               ELSE QuotLower(r, d, Min2(B - 1, Top3(r, Len(d)) \div Top2(d, Len(d))))

(* long division, most significant limb first *)
NatDivMod(a, d) ==
  LET step(acc, x) == LET r == Trim(<<x>> \o acc[2])
                          q == QuotDigit(r, d)
                      IN  <<<<q>> \o acc[1], NatSub(r, NatMulSmall(d, q))>>
      res == FoldLeft(step, <<<<>>, <<>>>>, Reverse(a))
  IN  <<Trim(res[1]), res[2]>>                           \* needs d # 0
NatDiv(a, d) == NatDivMod(a, d)[1]
NatRem(a, d) == NatDivMod(a, d)[2]

RECURSIVE NatGcd(_, _)
NatGcd(a, b) == IF Len(b) = 0 THEN a ELSE NatGcd(b, NatRem(a, b))

RECURSIVE NatPow(_, _)
NatPow(a, n) == IF n = 0 THEN <<1>>
             ELSE LET h == NatPow(a, n \div 2)
                      s == NatMul(h, h)
                  IN  IF n % 2 = 0 THEN s ELSE NatMul(s, a)
=============================================================================
