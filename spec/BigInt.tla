------------------------------- MODULE BigInt -------------------------------
(* Integers of any size: [s |-> sign, m |-> limbs] with s = 0 iff m = <<>>.   *)
EXTENDS BigNat

IsInt(x) == x.s \in {-1, 0, 1} /\ IsNat(x.m) /\ (x.s = 0 <=> x.m = <<>>)
IntMk(s, m) == [s |-> IF m = <<>> THEN 0 ELSE s, m |-> m]
IntZero == [s |-> 0, m |-> <<>>]
IntOf(n) == IF n < 0 THEN IntMk(-1, NatOf(-n)) ELSE IntMk(1, NatOf(n))
IntOne == IntOf(1)
IntNeg(x) == [x EXCEPT !.s = -x.s]
IntAbs(x) == [x EXCEPT !.s = IF x.s = 0 THEN 0 ELSE 1]
IntFits(x) == NatFits(x.m)
IntVal(x) == x.s * NatVal(x.m)

IntAdd(x, y) == IF x.s = 0 THEN y
             ELSE IF y.s = 0 THEN x
             ELSE IF x.s = y.s THEN [s |-> x.s, m |-> NatAdd(x.m, y.m)]
             ELSE LET c == NatCmp(x.m, y.m) IN
                  IF c = 0 THEN IntZero
                  ELSE IF c > 0 THEN [s |-> x.s, m |-> NatSub(x.m, y.m)]
                  ELSE [s |-> y.s, m |-> NatSub(y.m, x.m)]
IntSub(x, y) == IntAdd(x, IntNeg(y))
IntMul(x, y) == IntMk(x.s * y.s, NatMul(x.m, y.m))
IntCmp(x, y) == IF x.s # y.s THEN (IF x.s < y.s THEN -1 ELSE 1)
             ELSE x.s * NatCmp(x.m, y.m)
IntLeq(x, y) == IntCmp(x, y) <= 0
IntLt(x, y) == IntCmp(x, y) < 0

(* floored division by a non-zero d: x = Quo * d + IntMod with 0 <= IntMod < |d| *)
IntMod(x, d) == LET r == NatRem(x.m, d.m) IN
             IF r = <<>> THEN IntZero
             ELSE IF x.s > 0 THEN IntMk(1, r) ELSE IntMk(1, NatSub(d.m, r))
IntDivides(d, x) == IF d.s = 0 THEN x.s = 0 ELSE NatRem(x.m, d.m) = <<>>
IntGcd(x, y) == IntMk(1, NatGcd(x.m, y.m))
IntPow(x, n) == LET m == NatPow(x.m, n) IN IntMk(IF n % 2 = 0 THEN 1 ELSE x.s, m)
(* residue in 0..p-1 by a native modulus *)
IntModSmall(x, p) == LET r == NatModSmall(x.m, p) IN IF x.s < 0 /\ r # 0 THEN p - r ELSE r
=============================================================================
