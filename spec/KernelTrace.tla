---------------------------- MODULE KernelTrace ----------------------------
(* Validates executions recorded from the real kernel. The input is a list of *)
(* chunks; each chunk is one run of the service: a start state and a sequence *)
(* of answered calls. "free" chunks are judged call by call against the       *)
(* contracts; the other chunks are walks, for which the specification's own   *)
(* sequence machine (Walks) is stepped to the argument of the next call and   *)
(* must then hold exactly the answer that was recorded.                       *)
(* An event that no action allows is taken by Reject, which reports it, so    *)
(* that the rest of the trace is still examined.                              *)
EXTENDS Walks, TLC, Json, IOUtils
CONSTANT SmallMax      \* prime sums and counts known exactly below this bound
C == INSTANCE Contracts WITH Zero <- IntZero, One <- IntOne, Add <- IntAdd, Sub <- IntSub, Mul <- IntMul,
                             Leq <- IntLeq, Divides <- IntDivides, Gcd <- IntGcd
Chunks == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c,     \* the chunk
          l,     \* number of events consumed
          st     \* state of the sequence machine of this chunk
vars == <<c, l, st>>

Ev == Chunks[c].ev
E == Ev[l + 1]
More == l < Len(Ev)
Done == l' = l + 1 /\ UNCHANGED c
Is(ops) == More /\ E.op \in ops

Start(ch) == CASE ch.w = "fact" -> FactAt(ch.from)
               [] ch.w = "fib" -> FibAt(ch.from)
               [] ch.w = "prime" -> PrimeFrom(ch.anchor, ch.back)
               [] OTHER -> [n |-> "none"]
Init == /\ c \in 1..Len(Chunks) /\ l = 0 /\ st = Start(Chunks[c])

-----------------------------------------------------------------------------
Number(e, x) == e.k = "ok" /\ e.v = <<x>>
Error(e, name) == e.k = name /\ e.v = <<>>
TwoPow(k) == IntPow(IntOf(2), k)
U32Max == IntSub(TwoPow(32), IntOne)
I64Max == IntSub(TwoPow(63), IntOne)
I64Min == IntNeg(TwoPow(63))
U64Max == IntSub(TwoPow(64), IntOne)

(* the moduli a long result is compared by: ten, or four for very long ones *)
Checked(m) == ToSet(IF Len(m) > 3000 THEN SubSeq(Moduli, 1, 4) ELSE Moduli)

(* --- C01 --- *)
ExactLimit == 130
PowerOK(e) ==
  LET a == e.a[1]  b == e.a[2] IN
  IF a.s = 0 /\ b.s = 0 THEN Error(e, "err:Indeterminate")
  ELSE IF a.s = 0 THEN Number(e, IntZero)
  ELSE IF a = IntOne THEN Number(e, IntOne)
  ELSE IF IntLt(U32Max, b) THEN Error(e, "err:OverFlow")
  ELSE IF a = IntNeg(IntOne) THEN Number(e, IF b.s = 0 \/ b.m[1] % 2 = 0 THEN IntOne ELSE a)   \* B is even
  ELSE LET n == IntVal(b) IN       \* exponents that are executed fit
       IF Len(a.m) * n <= ExactLimit THEN Number(e, IntPow(a, n))
       ELSE /\ e.k = "ok" /\ Len(e.v) = 1
            /\ e.v[1].s = (IF a.s > 0 \/ n % 2 = 0 THEN 1 ELSE -1)
            /\ \A q \in Checked(e.v[1].m) : NatModSmall(e.v[1].m, q) = PowMod(NatModSmall(a.m, q), n, q)
            \* length: digits(a)-1 times n < digits of the result <= digits(a) times n
            /\ Digits(e.v[1].m) > (Digits(a.m) - 1) * n /\ Digits(e.v[1].m) <= Digits(a.m) * n

(* --- C06 --- *)
FactorialOK(e) ==
  LET n == e.a[1] IN
  IF n.s < 0 THEN Error(e, "err:ComplexInfinity")
  ELSE IF IntLt(I64Max, n) THEN Error(e, "err:OverFlow")
  ELSE LET x == IntVal(n) IN
       /\ e.k = "ok" /\ Len(e.v) = 1 /\ e.v[1].s = 1
       /\ IF x <= 40 THEN e.v[1].m = FactAt(x).f
          ELSE /\ \A q \in Checked(e.v[1].m) : NatModSmall(e.v[1].m, q) = FactMod(x, q)
               /\ Digits(e.v[1].m) < x * 5

(* --- C07 --- *)
FibonacciOK(e) ==
  LET n == e.a[1] IN
  IF IntLt(I64Max, n) \/ IntLt(n, I64Min) THEN Error(e, "err:OverFlow")
  ELSE LET x == IntVal(IntAbs(n))
           even == x % 2 = 0
       IN  /\ e.k = "ok" /\ Len(e.v) = 1
           /\ e.v[1].s = (IF x = 0 THEN 0 ELSE IF n.s < 0 /\ even THEN -1 ELSE 1)
           /\ \A q \in Checked(e.v[1].m) : NatModSmall(e.v[1].m, q) = FibMod(x, q)[1]
           \* F(n) has between 0.2089 n - 1 and 0.2090 n + 1 digits
           /\ LET d == Digits(e.v[1].m) IN (d + 1) * 1000 >= x * 2 * 104 /\ (d - 1) * 500 <= x * 105

(* --- C08, C09 --- *)
SmallTable == LET step(t, q) == LET w == t[Len(t)] IN
                    Append(t, IF IsSmallPrime(q) THEN [n |-> q, c |-> w.c + 1, s |-> w.s + q] ELSE [w EXCEPT !.n = q])
              IN  FoldLeft(step, <<[n |-> 0, c |-> 0, s |-> 0]>>, [j \in 1..SmallMax |-> j])
InSmall(n) == n.s >= 0 /\ IntLeq(n, IntOf(SmallMax))
PrimeSumOK(e) ==
  LET n == e.a[1]  k == TenIndex(n.m) IN
  IF n.s < 0 THEN Error(e, "err:Undefined")
  ELSE IF InSmall(n) THEN Number(e, IntOf(SmallTable[IntVal(n) + 1].s))
  ELSE IF k \in 1..Len(SumTen) THEN Number(e, IntMk(1, SumTen[k]))
  ELSE IF IntLt(U64Max, n) THEN Error(e, "err:Unimplemented")
  ELSE e.k = "ok"                       \* exact values are decided by the walks
Near(x) == NatCmp(x, NatOf(NearBound)) <= 0
PrimeCountOK(e) ==
  LET n == e.a[1]  k == TenIndex(n.m) IN
  IF n.s < 0 THEN Error(e, "err:Undefined")
  ELSE IF k \in 1..Len(PiTen) THEN Number(e, IntMk(1, PiTen[k]))
  ELSE \/ e.k = "err:Unimplemented" /\ e.v = <<>>
       \/ InSmall(n) /\ Number(e, IntOf(SmallTable[IntVal(n) + 1].c))
       \* a number for an argument the specification cannot count: exact near a power of ten, else at least between its neighbours
       \/ /\ ~InSmall(n) /\ e.k = "ok" /\ Len(e.v) = 1
          /\ LET d == Digits(n.m) IN d < Len(PiTen) =>
               LET above == NatSub(n.m, NatPow(<<10>>, d - 1))
                   below == NatSub(NatPow(<<10>>, d), n.m)
               IN  CASE Near(above) -> e.v[1] = IntMk(1, NatAdd(PiTen[d], NatOf(Len(SelectSeq(NearTen[d], LAMBDA o : o \in 0..NatVal(above))))))
                     [] Near(below) -> e.v[1] = IntMk(1, NatSub(PiTen[d + 1], NatOf(Len(SelectSeq(NearTen[d + 1], LAMBDA o : -o \in 0..(NatVal(below) - 1))))))
                     [] OTHER -> IntLeq(IntMk(1, PiTen[d]), e.v[1]) /\ IntLeq(e.v[1], IntMk(1, PiTen[d + 1]))

-----------------------------------------------------------------------------
(* free calls *)
Allowed(e) ==
  CASE e.op = "power" -> PowerOK(e)
    [] e.op = "egcd" -> C!ExtGcdOK(e.a[1], e.a[2], e.k, e.v)
    [] e.op = "coprime" -> C!CoprimeOK(e.a[1], e.a[2], e.k, e.v)
    [] e.op = "inverse" -> C!InverseOK(e.a[1], e.a[2], e.k, e.v)
    [] e.op = "division" -> C!DivisionOK(e.a[1], e.a[2], e.a[3], e.k, e.v)
    [] e.op = "crt" -> C!CrtOK(e.a[1], e.a[2], e.k, e.v)
    [] e.op \in {"factorial", "factorial_u"} -> FactorialOK(e)
    [] e.op \in {"fibonacci", "fibonacci_fast", "fibonacci_fold"} -> FibonacciOK(e)
    [] e.op \in {"prime_sum", "prime_sum_u64"} -> PrimeSumOK(e)
    [] e.op = "prime_count" -> PrimeCountOK(e)
    [] OTHER -> FALSE
(* an argument the contract of the walks does not apply to is never sent *)
Free == Chunks[c].w = "free"
Arith(ops) == Free /\ Is(ops) /\ Allowed(E) /\ Done /\ UNCHANGED st
Power == Arith({"power"})
ExtGcd == Arith({"egcd"})
Coprime == Arith({"coprime"})
ModInverse == Arith({"inverse"})
ModDivision == Arith({"division"})
Crt == Arith({"crt"})
Factorial == Arith({"factorial", "factorial_u"})
Fibonacci == Arith({"fibonacci", "fibonacci_fast", "fibonacci_fold"})
PrimeSum == Arith({"prime_sum", "prime_sum_u64"})
PrimeCount == Arith({"prime_count"})

(* walks *)
Arg == E.a[1]
Walk(w) == More /\ Chunks[c].w = w
AtArg == IF Chunks[c].w = "prime" THEN Arg = IntMk(1, st.n) ELSE IntAbs(Arg) = IntOf(st.n)
FactWalkTick == Walk("fact") /\ ~AtArg /\ st' = FactTick(st) /\ UNCHANGED <<c, l>>
FibWalkTick == Walk("fib") /\ ~AtArg /\ st' = FibTick(st) /\ UNCHANGED <<c, l>>
PrimeWalkTick == Walk("prime") /\ ~AtArg /\ st' = PrimeTick(st) /\ UNCHANGED <<c, l>>
FactValue(e) == IF e.a[1].s < 0 THEN Error(e, "err:ComplexInfinity") ELSE Number(e, IntMk(1, st.f))
FibValue(e) == Number(e, IntMk(IF e.a[1].s < 0 /\ st.n % 2 = 0 THEN -1 ELSE 1, st.a))
PrimeValue(e) == IF e.op = "prime_count"
                 THEN \/ Number(e, IntMk(1, st.c))
                      \/ TenIndex(st.n) = 0 /\ Error(e, "err:Unimplemented")
                 ELSE Number(e, IntMk(1, st.s))
WalkValue(e) == CASE Chunks[c].w = "fact" -> FactValue(e)
                  [] Chunks[c].w = "fib" -> FibValue(e)
                  [] Chunks[c].w = "prime" -> PrimeValue(e)
WalkAnswer(w) == Walk(w) /\ AtArg /\ WalkValue(E) /\ Done /\ UNCHANGED st
FactAnswer == WalkAnswer("fact")
FibAnswer == WalkAnswer("fib")
PrimeAnswer == WalkAnswer("prime")

Reject == /\ More
          /\ IF Free THEN ~Allowed(E) ELSE AtArg /\ ~WalkValue(E)
          /\ PrintT(<<"REJECT", E.i, E.op>>)
          /\ Done /\ UNCHANGED st
Finish == ~More /\ l = Len(Ev) /\ PrintT(<<"CHUNK", c>>) /\ l' = l + 1 /\ UNCHANGED <<c, st>>

Next == \/ Power \/ ExtGcd \/ Coprime \/ ModInverse \/ ModDivision \/ Crt
        \/ Factorial \/ Fibonacci \/ PrimeSum \/ PrimeCount
        \/ FactWalkTick \/ FactAnswer \/ FibWalkTick \/ FibAnswer \/ PrimeWalkTick \/ PrimeAnswer
        \/ Reject \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
