----------------------------- MODULE NativeInt -----------------------------
(* The native integers as a model of the arithmetic that Contracts needs.     *)
EXTENDS Integers
NAdd(x, y) == x + y
NSub(x, y) == x - y
NMul(x, y) == x * y
NLeq(x, y) == x <= y
NAbs(x) == IF x < 0 THEN -x ELSE x
NSign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
NDivides(d, x) == IF d = 0 THEN x = 0 ELSE x % NAbs(d) = 0
RECURSIVE NGcdPos(_, _)
NGcdPos(a, b) == IF b = 0 THEN a ELSE NGcdPos(b, a % b)
NGcd(a, b) == NGcdPos(NAbs(a), NAbs(b))
(* machine division: truncated towards zero *)
Quot(x, y) == NSign(x) * NSign(y) * (NAbs(x) \div NAbs(y))
Rem(x, y) == x - y * Quot(x, y)
C == INSTANCE Contracts WITH Zero <- 0, One <- 1, Add <- NAdd, Sub <- NSub, Mul <- NMul,
                             Leq <- NLeq, Divides <- NDivides, Gcd <- NGcd
=============================================================================
