------------------------------- MODULE Walks -------------------------------
(* Sequence machines: exact factorials, Fibonacci numbers, prime counts and   *)
(* prime sums, advanced one argument at a time with the limb arithmetic.      *)
(* The trace checks step them alongside the recorded calls.                   *)
EXTENDS Series, PrimeFacts

(* primality of n < TrialBound^2 by trial division *)
TrialBound == 100000
IsSmallPrime(q) == q > 1 /\ \A d \in 2..316 : d * d > q \/ q % d # 0
SmallPrimes == SelectSeq([j \in 1..TrialBound |-> j], LAMBDA q : IsSmallPrime(q))
(* native version for n < 2^31 *)
RECURSIVE NoFactorN(_, _)
NoFactorN(n, j) == IF j > Len(SmallPrimes) THEN TRUE
                   ELSE LET q == SmallPrimes[j] IN
                        IF q > 46340 \/ q * q > n THEN TRUE
                        ELSE IF n % q = 0 THEN FALSE ELSE NoFactorN(n, j + 1)
AnyFactor(n) == \E j \in 1..Len(SmallPrimes) : NatModSmall(n, SmallPrimes[j]) = 0
IsPrime(n) == IF Len(n) <= 3 THEN LET x == NatVal(n) IN x > 1 /\ NoFactorN(x, 1)
              ELSE ~AnyFactor(n)            \* n >= B^3 > TrialBound, n <= TrialBound^2

(* n as limbs, c = number and s = sum of the primes <= n *)
PrimeTick(st) == LET m == NatAdd(st.n, <<1>>) IN
                 IF IsPrime(m) THEN [n |-> m, c |-> NatAdd(st.c, <<1>>), s |-> NatAdd(st.s, m)]
                 ELSE [st EXCEPT !.n = m]
(* d arguments back from an anchor *)
PrimeBack(st) == LET m == NatSub(st.n, <<1>>) IN
                 IF IsPrime(st.n) THEN [n |-> m, c |-> NatSub(st.c, <<1>>), s |-> NatSub(st.s, st.n)]
                 ELSE [st EXCEPT !.n = m]
AnchorAt(j) == [n |-> Anchors[j].n, c |-> Anchors[j].c, s |-> Anchors[j].s]
PrimeFrom(j, d) == FoldLeft(LAMBDA st, x : PrimeBack(st), AnchorAt(j), [x \in 1..d |-> x])

(* k + 1 if n = 10^k, else 0 *)
TenIndex(n) == IF Len(n) > 0 /\ n[Len(n)] \in {1, 10, 100} /\ \A j \in 1..(Len(n) - 1) : n[j] = 0
               THEN 3 * (Len(n) - 1) + (CASE n[Len(n)] = 1 -> 1 [] n[Len(n)] = 10 -> 2 [] OTHER -> 3)
               ELSE 0

=============================================================================
