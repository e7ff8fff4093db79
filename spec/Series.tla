------------------------------- MODULE Series ------------------------------
(* Exact factorials and Fibonacci numbers, one argument after the other, and  *)
(* residues and lengths for arguments that are far away.                      *)
EXTENDS BigInt

(* factorial: n native, f = n! *)
FactAt(k) == [n |-> k, f |-> FoldLeft(LAMBDA t, j : NatMulSmall(t, j), <<1>>, [j \in 1..k |-> j])]
FactTick(s) == [n |-> s.n + 1, f |-> NatMulSmall(s.f, s.n + 1)]

(* Fibonacci: a = F(n), b = F(n + 1) *)
FibTick(s) == [n |-> s.n + 1, a |-> s.b, b |-> NatAdd(s.a, s.b)]
FibAt(k) == FoldLeft(LAMBDA s, j : FibTick(s), [n |-> 0, a |-> <<>>, b |-> <<1>>], [j \in 1..k |-> j])

(* residues, for results too long to recompute exactly; every modulus is a prime below 46341 *)
Moduli == <<46337, 46327, 46309, 46307, 46301, 46279, 46273, 46271, 46261, 46237>>
RECURSIVE PowMod(_, _, _)
PowMod(a, e, q) == IF e = 0 THEN 1 % q
                   ELSE LET h == PowMod(a, e \div 2, q)
                            t == (h * h) % q
                        IN  IF e % 2 = 0 THEN t ELSE (t * a) % q
FactMod(n, q) == FoldLeft(LAMBDA t, j : (t * j) % q, 1, [j \in 1..n |-> j])
RECURSIVE FibMod(_, _)
FibMod(n, q) == IF n = 0 THEN <<0, 1>>      \* F(n), F(n+1)
                ELSE LET h == FibMod(n \div 2, q)
                         c == (h[1] * ((2 * h[2] + q - h[1]) % q)) % q
                         d == (((h[1] * h[1]) % q) + ((h[2] * h[2]) % q)) % q
                     IN  IF n % 2 = 0 THEN <<c, d>> ELSE <<d, (c + d) % q>>
(* number of decimal digits *)
Digits(n) == IF n = <<>> THEN 1
             ELSE 3 * (Len(n) - 1) + (IF n[Len(n)] > 99 THEN 3 ELSE IF n[Len(n)] > 9 THEN 2 ELSE 1)
=============================================================================
