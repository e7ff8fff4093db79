-------------------------------- MODULE Lucy --------------------------------
(* The prime-sum sieve over the distinct quotients of n (Lucy Hedgehog).      *)
EXTENDS NativeInt, Sequences, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt
CONSTANT MaxN
VARIABLES n, vs, s, p, idx, sp, pc
vars == <<n, vs, s, p, idx, sp, pc>>

Isqrt(x) == CHOOSE r \in 0..x : r * r <= x /\ (r + 1) * (r + 1) > x
IsPrime(x) == x > 1 /\ \A d \in 2..(x - 1) : x % d # 0
MinFactor(x) == CHOOSE d \in 2..x : x % d = 0 /\ \A e \in 2..(d - 1) : x % e # 0
SumOf(S) == FoldSet(LAMBDA x, y : x + y, 0, S)
PrimeSum(x) == SumOf({q \in 2..x : IsPrime(q)})
(* what the table holds at v after all primes up to q are sieved *)
Sieved(v, q) == SumOf({x \in 2..v : IsPrime(x) \/ MinFactor(x) > q})

Quotients(x) == LET r == Isqrt(x)
                    hi == [j \in 1..r |-> (x \div j)]
                    last == hi[r]
                IN  hi \o [j \in 1..last |-> (last - j)]
Vals(q) == {q[j] : j \in 1..Len(q)}
Init == /\ n \in 0..MaxN
        /\ vs = IF n = 0 THEN <<>> ELSE Quotients(n)
        /\ s = [w \in Vals(vs) |-> IF w = 0 THEN -1 ELSE ((w * (w + 1)) \div 2) - 1]
        /\ p = 2 /\ idx = 0 /\ sp = 0
        /\ pc = IF n = 0 THEN "zero" ELSE "test"
R == Isqrt(n)
Test == /\ pc = "test" /\ p <= R
        /\ IF s[p] > s[p - 1] THEN pc' = "sweep" /\ idx' = 1 /\ sp' = s[p - 1] /\ p' = p
           ELSE p' = p + 1 /\ UNCHANGED <<pc, idx, sp>>
        /\ UNCHANGED <<n, vs, s>>
Sweep == /\ pc = "sweep"
         /\ IF idx > Len(vs) \/ vs[idx] < p * p
            THEN pc' = "test" /\ p' = p + 1 /\ idx' = 0 /\ UNCHANGED s
            ELSE /\ s' = [s EXCEPT ![vs[idx]] = @ - p * (s[vs[idx] \div p] - sp)]
                 /\ idx' = idx + 1 /\ UNCHANGED <<pc, p>>
         /\ UNCHANGED <<n, vs, sp>>
Done == /\ pc = "test" /\ p > R /\ pc' = "done" /\ UNCHANGED <<n, vs, s, p, idx, sp>>
Next == Test \/ Sweep \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* sieve invariant, also in the middle of a sweep, which runs from large to small v *)
Invariant == pc \in {"test", "sweep", "done"} => \A j \in 1..Len(vs) : vs[j] > 0 =>
   s[vs[j]] = Sieved(vs[j], IF pc = "sweep" /\ j < idx THEN p ELSE p - 1)
NeverNegative == \A w \in DOMAIN s : w > 0 => s[w] >= 0
Lookups == pc = "sweep" /\ idx <= Len(vs) /\ vs[idx] >= p * p => vs[idx] \div p \in DOMAIN s
Answer == IF n = 0 THEN 0 ELSE s[n]
Correct == pc \in {"done", "zero"} => Answer = PrimeSum(n)
Terminates == <>(pc \in {"done", "zero"})
(* stopping one square too early must be refuted: p < R instead of p <= R *)
WrongRefuted == pc = "test" /\ p >= R => s[n] = PrimeSum(n)

Calls == SetToSeq({[op |-> o, a |-> <<ToString(k)>>] :
                    o \in {"prime_sum", "prime_sum_u64", "prime_count"}, k \in 0..MaxN})
Emit == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.OUT, Calls)
=============================================================================
