------------------------------ MODULE LangEval -------------------------------
(* What a session answers to one input: a value that is prescribed exactly,   *)
(* an error, or (unclaimed inputs) anything but a crash.                      *)
EXTENDS LangLex, Series

(* characters of an encoded text *)
CharEnd(v, i) == IF SubSeq(v, i, i) # "~" THEN i
                 ELSE CHOOSE j \in (i + 1)..Len(v) : SubSeq(v, j, j) = "~" /\ \A h \in (i + 1)..(j - 1) : SubSeq(v, h, h) # "~"
RECURSIVE CharsFrom(_, _, _)      \* up to 2^k characters from i on, and where the next one begins
CharsFrom(v, i, k) ==
  IF i > Len(v) THEN [c |-> <<>>, i |-> i]
  ELSE IF k = 0 THEN [c |-> <<SubSeq(v, i, CharEnd(v, i))>>, i |-> CharEnd(v, i) + 1]
  ELSE LET a == CharsFrom(v, i, k - 1)
           b == CharsFrom(v, a.i, k - 1)
       IN  IF a.i > Len(v) THEN a ELSE [c |-> a.c \o b.c, i |-> b.i]
CharsOf(v) == CharsFrom(v, 1, CHOOSE k \in 0..30 : 2 ^ k >= Len(v) /\ \A h \in 0..(k - 1) : 2 ^ h < Len(v)).c

(* digits of a natural number and its value *)
IsNumeral(v) == Len(v) > 0 /\ (\A i \in 1..Len(v) : SubSeq(v, i, i) \in Digit) /\ (Len(v) = 1 \/ SubSeq(v, 1, 1) # "0")
Small(v) == FoldLeft(LAMBDA n, i : 10 * n + DigitValue(SubSeq(v, i, i)), 0, [i \in 1..Len(v) |-> i])
NatFrom(v) == LET n == Len(v)
                  limb(j) == Small(SubSeq(v, IF n - 3 * j < 0 THEN 1 ELSE n - 3 * j + 1, n - 3 * (j - 1)))
              IN  Trim([j \in 1..((n + 2) \div 3) |-> limb(j)])

-----------------------------------------------------------------------------
(* claims: exactly this tree, an error, a number with a property, or free     *)
Exactly(t) == [k |-> "exactly", t |-> t]
Causes(es) == [k |-> "error", e |-> es]
Error == Causes({"unimplemented"})
Free == [k |-> "free"]
Power(a, n) == [k |-> "power", a |-> a, n |-> n]
Factorial(n) == [k |-> "factorial", n |-> n]
Fibonacci(n) == [k |-> "fibonacci", n |-> n]
(* an error or this *)
Perhaps(x) == IF x.k = "error" THEN Causes(x.e \cup {"unimplemented"}) ELSE [k |-> "perhaps", x |-> x]

Counted(a) == a.k = "int"
Count(v) == NatVal(NatFrom(v))
U32Max == NatSub(NatPow(<<2>>, 32), <<1>>)
I64Max == NatSub(NatPow(<<2>>, 63), <<1>>)

Binary(o, as) ==
  IF Len(as) # 2 \/ ~Counted(as[1]) \/ ~Counted(as[2]) THEN Error
  ELSE LET a == NatFrom(as[1].v)  b == NatFrom(as[2].v) IN
       CASE o = "add" -> Exactly(Num(NatText(NatAdd(a, b))))
         [] o = "times" -> Exactly(Num(NatText(NatMul(a, b))))
         [] o = "power" -> LET huge == NatCmp(b, U32Max) > 0
                               trivial == Exactly(Num(IF b = <<>> \/ a = <<1>> THEN "1" ELSE "0"))
                           IN  IF a = <<>> /\ b = <<>> THEN Free
                               ELSE IF a \in {<<>>, <<1>>} \/ b = <<>> THEN (IF huge THEN Perhaps(trivial) ELSE trivial)
                               ELSE IF huge THEN Causes({"overflow"})
                               ELSE Power(a, NatVal(b))
Unary(f, a) ==
  CASE f \in {"first", "last", "length"} ->
         IF a.k # "str" THEN Error
         ELSE LET cs == CharsOf(a.v) IN
              IF f = "length" THEN Exactly(Num(ToString(Len(cs))))
              ELSE IF cs = <<>> THEN Causes({"empty"}) ELSE Exactly(Str(cs[IF f = "first" THEN 1 ELSE Len(cs)]))
    [] ~Counted(a) -> Error
    [] NatCmp(NatFrom(a.v), I64Max) > 0 -> Causes({"overflow"})
    [] f = "factorial" -> Factorial(Count(a.v))
    [] f = "fibonacci" -> Fibonacci(Count(a.v))

Unaries == {"first", "last", "length", "factorial", "fibonacci"}
(* the operator a name calls for; other spellings than the operator sign may be unsupported, but not wrong *)
OpOf(n) == IF n = "plus" THEN "add" ELSE n
Claim(t) ==
  CASE t.k # "fn" -> Exactly(t)
    [] Len(t.g) # 1 -> Error
    [] Len(ArgsOf(t)) = 0 -> Error
    [] OTHER ->
       LET f == t.v[Len(t.v)]
           as == ArgsOf(t)
           plain == t.g[1].o = <<>>
           own == Len(t.v) = 1 \/ (IsOp(t) /\ t.v # <<"std", "prefix", "plus">>)
       IN  CASE f \in Unaries -> IF Len(as) # 1 \/ ~plain THEN Free
                                 ELSE IF own THEN Unary(f, as[1]) ELSE Perhaps(Unary(f, as[1]))
             [] OpOf(f) \in {"add", "times", "power"} ->
                   IF ~plain THEN Free
                   ELSE IF IsInfix(t) THEN Binary(f, as) ELSE Perhaps(Binary(OpOf(f), as))
             [] OTHER -> Error

-----------------------------------------------------------------------------
(* long results are compared by residues and by their number of digits *)
ExactLimbs == 130
NumberOK(x, r) ==
  LET checked == ToSet(IF Len(r) > 3000 THEN SubSeq(Moduli, 1, 4) ELSE Moduli) IN
  CASE x.k = "power" -> IF Len(x.a) * x.n <= ExactLimbs THEN r = NatPow(x.a, x.n)
                        ELSE /\ \A q \in checked : NatModSmall(r, q) = PowMod(NatModSmall(x.a, q), x.n, q)
                             /\ Digits(r) > (Digits(x.a) - 1) * x.n /\ Digits(r) <= Digits(x.a) * x.n
    [] x.k = "factorial" -> IF x.n <= 200 THEN r = FactAt(x.n).f
                            ELSE (\A q \in checked : NatModSmall(r, q) = FactMod(x.n, q)) /\ Digits(r) < x.n * 5
    [] x.k = "fibonacci" -> IF x.n <= 300 THEN r = FibAt(x.n).a
                            ELSE /\ \A q \in checked : NatModSmall(r, q) = FibMod(x.n, q)[1]
                                 /\ LET d == Digits(r) IN (d + 1) * 1000 >= x.n * 208 /\ (d - 1) * 500 <= x.n * 105

(* an output tree *)
RECURSIVE OutputOK(_, _)
OutputOK(x, o) == CASE x.k = "exactly" -> Same(o, x.t)
                    [] x.k = "perhaps" -> OutputOK(x.x, o)
                    [] x.k = "free" -> TRUE
                    [] x.k = "error" -> FALSE
                    [] OTHER -> o.k = "int" /\ IsNumeral(o.v) /\ NumberOK(x, NatFrom(o.v))

(* the text that shows an output *)
ShowsOK(o, cs) == CASE o.k = "empty" -> cs = <<>>
                    [] o.k = "str" -> cs = CharsOf(o.v)
                    [] o.k = "int" -> Text(cs, 1, Len(cs) + 1) = o.v
                    [] o.k \in {"dec", "bool"} -> LET m == Meaning(cs) IN m.k = "ok" /\ Same(m.t, o)
                    [] o.k = "sym" -> Text(cs, 1, Len(cs) + 1) = FoldLeft(LAMBDA a, n : a \o "::" \o n, Head(o.v), Tail(o.v))
                    [] OTHER -> TRUE

(* what begins with the keyword of a statement may also be a malformed or an unsupported statement *)
Unsure(x) == IF x.k = "error" THEN Causes(x.e \cup {"parse", "unimplemented"}) ELSE Perhaps(x)
(* the verdict of the parser, and so the claim, about an input *)
ClaimOf(m) == CASE m.k = "any" -> Free [] m.k = "err" -> Causes(m.e) [] m.k = "maybe" -> Unsure(Claim(m.t)) [] OTHER -> Claim(m.t)
MayFail(x) == x.k \in {"error", "free", "perhaps"}
CauseOK(x, r) == x.k = "error" => r.e \in x.e
(* e.r: the answer of a session of one input, e.last: the output recorded by it *)
SessionOK(e, m) ==
  LET x == ClaimOf(m) IN
  CASE e.r.k = "ok" -> e.last.k = "ok" /\ OutputOK(x, e.last.t) /\ ShowsOK(e.last.t, e.r.c)
    [] e.r.k = "err" -> MayFail(x) /\ e.last.k = "err"
    [] OTHER -> FALSE
(* and every failure names its cause *)
SessionCauseOK(e, m) == e.r.k = "err" => CauseOK(ClaimOf(m), e.r) /\ e.last.k = "err" /\ e.last.e = "empty"
=============================================================================
