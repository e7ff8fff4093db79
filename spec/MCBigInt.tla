------------------------------ MODULE MCBigInt ------------------------------
(* The limb arithmetic agrees with TLC's native integers: exhaustively for a  *)
(* small base, where carries, borrows and quotient corrections all occur with *)
(* few limbs, and on boundary values for the base the trace checks use.       *)
EXTENDS BigInt, TLC
CONSTANTS R, Divs, Val(_)   \* Val maps -R..R to the numbers tried
Same(n) == n
Edges == <<1, 2, 3, 31, 499, 500, 501, 997, 998, 999, 1000, 1001, 1002, 1997, 1999, 2000,
           2001, 9999, 10000, 30999, 31000, 31622, 32767, 32768, 45999, 46000, 46339, 46340>>
Edge(n) == IF n < 0 THEN -Edges[-n] ELSE IF n = 0 THEN 0 ELSE Edges[n]
Lo == -R
Hi == R
VARIABLES xi, yi
x == Val(xi)
y == Val(yi)
Init == xi \in Lo..Hi /\ yi = Lo
Next == yi < Hi /\ yi' = yi + 1 /\ xi' = xi
Spec == Init /\ [][Next]_<<xi, yi>>
Signum(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
AbsN(n) == IF n < 0 THEN -n ELSE n
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
X == IntOf(x)
Y == IntOf(y)
RoundTrip == IsInt(X) /\ IntVal(X) = x
AddOK == IntAdd(X, Y) = IntOf(x + y) /\ IntSub(X, Y) = IntOf(x - y)
MulOK == IntMul(X, Y) = IntOf(x * y)
CmpOK == IntCmp(X, Y) = Signum(x - y)
DivOK == y # 0 => /\ IntMod(X, Y) = IntOf(x % AbsN(y))
                  /\ NatDivMod(X.m, Y.m)[1] = NatOf(AbsN(x) \div AbsN(y))
                  /\ (IntDivides(Y, X) <=> x % AbsN(y) = 0)
GcdOK == IntGcd(X, Y) = IntOf(GcdN(AbsN(x), AbsN(y)))
SmallOK == \A p \in Divs : IntModSmall(X, p) = x % p
PowOK == IntPow(X, 0) = IntOne /\ \A n \in 1..3 : IntPow(X, n) = IntOf(x ^ n)
MulSmallOK == y \in 0..(B*B - 1) => NatMulSmall(X.m, y) = NatOf(AbsN(x) * y)
(* distributivity and division on numbers beyond 32 bits *)
Big(n) == IntPow(IntOf(n), 3)
WideOK == /\ IntMul(Big(x), IntAdd(Y, IntOne)) = IntAdd(IntMul(Big(x), Y), Big(x))
          /\ y # 0 => LET qr == NatDivMod(Big(x).m, Y.m)
                          r == IntMk(1, qr[2])
                      IN  /\ IntLt(r, IntAbs(Y))
                          /\ IntAdd(IntMul(IntMk(1, qr[1]), IntAbs(Y)), r) = IntAbs(Big(x))
=============================================================================
