------------------------------ MODULE MCWalks ------------------------------
(* The sequence machines agree with residues computed another way, with       *)
(* classical identities, with native set-based definitions, and the prime     *)
(* walk from 0 meets every anchor it passes.                                  *)
EXTENDS Walks, TLC, FiniteSetsExt
CONSTANTS MaxSeq, MaxPrime
VARIABLES fact, fib, prime
vars == <<fact, fib, prime>>
Init == fact = FactAt(0) /\ fib = FibAt(0) /\ prime = PrimeFrom(1, 0)
Fact == fact.n < MaxSeq /\ fact' = FactTick(fact) /\ UNCHANGED <<fib, prime>>
Fib == fact.n = MaxSeq /\ fib.n < MaxSeq /\ fib' = FibTick(fib) /\ UNCHANGED <<fact, prime>>
Prime == fact.n = MaxSeq /\ fib.n = MaxSeq /\ (prime.n = <<>> \/ NatVal(prime.n) < MaxPrime)
         /\ prime' = PrimeTick(prime) /\ UNCHANGED <<fact, fib>>
Next == Fact \/ Fib \/ Prime
Spec == Init /\ [][Next]_vars
FactOK == \A q \in {46337, 46327} : NatModSmall(fact.f, q) = FactMod(fact.n, q)
FibOK == /\ \A q \in {46337, 46327} : NatModSmall(fib.a, q) = FibMod(fib.n, q)[1]
         \* Cassini: F(n+1)^2 - F(n+1) F(n) - F(n)^2 = (-1)^n
         /\ LET l == NatMul(fib.b, fib.b)
                r == NatAdd(NatMul(fib.a, fib.b), NatMul(fib.a, fib.a))
            IN  IF fib.n % 2 = 0 THEN l = NatAdd(r, <<1>>) ELSE r = NatAdd(l, <<1>>)
x == NatVal(prime.n)
IsP(q) == q > 1 /\ \A d \in 2..(q - 1) : d * d > q \/ q % d # 0
PrimeOK == x <= 300 => LET S == {q \in 2..x : IsP(q)} IN
              prime.c = NatOf(FoldSet(LAMBDA a, t : t + 1, 0, S)) /\ prime.s = NatOf(FoldSet(LAMBDA a, t : t + a, 0, S))
AnchorOK == \A j \in 1..Len(Anchors) : Anchors[j].n = prime.n =>
              prime.c = Anchors[j].c /\ prime.s = Anchors[j].s
TenOK == LET k == TenIndex(prime.n) IN k > 0 => prime.c = PiTen[k] /\ prime.s = SumTen[k]
BackOK == prime.n # <<>> => PrimeTick(PrimeBack(prime)) = prime
NearOK == \A k \in 4..8 : \A d \in (-NearBound)..NearBound : IsPrime(NatOf((10 ^ (k - 1)) + d)) = \E i \in 1..Len(NearTen[k]) : NearTen[k][i] = d
ASSUME NearOK /\ Len(NearTen) = Len(PiTen) /\ NearBound < 1000
TableOK == \A k \in 1..Len(PiTen) : TenIndex(NatPow(<<10>>, k - 1)) = k
=============================================================================
