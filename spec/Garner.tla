------------------------------- MODULE Garner -------------------------------
(* Garner's mixed-radix algorithm for systems of congruences, as the kernel   *)
(* runs it: one digit per modulus, then the digits are put together.          *)
EXTENDS NativeInt, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, MaxMod, MaxRes
VARIABLES u, m,       \* residues and moduli
          i,          \* the congruence being worked on
          v,          \* mixed-radix digits found so far
          c,          \* inverse of the product of the earlier moduli modulo m[i]
          ret, pc
vars == <<u, m, i, v, c, ret, pc>>

Systems == UNION {[1..n -> (-MaxRes..MaxRes) \X (1..MaxMod)] : n \in 0..MaxLen}
Init == \E s \in Systems :
          /\ u = [j \in 1..Len(s) |-> s[j][1]] /\ m = [j \in 1..Len(s) |-> s[j][2]]
          /\ i = 1 /\ v = <<>> /\ c = 0 /\ ret = 0 /\ pc = "inverse"

(* Bezout coefficient of x for gcd(x, y) = 1, by search; the kernel adds the modulus *)
InverseOf(x, y) == y + CHOOSE k \in -y..y : NDivides(y, x * k - 1)
PrefixProduct == FoldLeft(LAMBDA p, w : Rem(p * w, m[i]), 1, SubSeq(m, 1, i - 1))
(* the value represented by the digits so far *)
Value(ds, ms) == FoldLeft(LAMBDA t, j : ms[j] * t + ds[j], 0, Reverse([j \in 1..Len(ds) |-> j]))

GetInverse == /\ pc = "inverse" /\ i <= Len(m)
              /\ IF NGcd(PrefixProduct, m[i]) = 1
                 THEN c' = InverseOf(PrefixProduct, m[i]) /\ pc' = "digit"
                 ELSE c' = c /\ pc' = "none"
              /\ UNCHANGED <<u, m, i, v, ret>>
Digit == /\ pc = "digit"
         /\ LET t == FoldLeft(LAMBDA w, j : m[j] * w + Rem(v[j], m[i]), 0, Reverse([j \in 1..Len(v) |-> j]))
            IN  v' = Append(v, Rem((u[i] - t) * c, m[i]))
         /\ i' = i + 1 /\ pc' = "inverse"
         /\ UNCHANGED <<u, m, c, ret>>
Assemble == /\ pc = "inverse" /\ i > Len(m)
            /\ IF v = <<>> THEN pc' = "none" /\ ret' = ret
               ELSE pc' = "some" /\ ret' = Value(v, m)
            /\ UNCHANGED <<u, m, i, v, c>>
Next == GetInverse \/ Digit \/ Assemble
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the partial value solves the congruences handled so far *)
Partial == C!Solves(Value(v, m), SubSeq(u, 1, Len(v)), SubSeq(m, 1, Len(v)))
DigitSmall == \A j \in 1..Len(v) : NAbs(v[j]) < m[j]
Correct == /\ pc = "some" => C!CrtOK(u, m, "ok", <<ret>>)
           /\ pc = "none" => C!CrtOK(u, m, "none", <<>>)
(* coprime systems are always answered, and the answer is unique modulo the product *)
Answered == pc = "none" => ~C!PairwiseCoprime(m) \/ Len(m) = 0
Terminates == <>(pc \in {"some", "none"})
(* an assembly that runs over the digits in the wrong order must be refuted *)
WrongOrder == FoldLeft(LAMBDA t, j : m[j] * t + v[j], 0, [j \in 1..Len(v) |-> j])
WrongRefuted == pc = "some" => C!CrtOK(u, m, "ok", <<WrongOrder>>)

S(x) == ToString(x)
Calls == SetToSeq(
     {[op |-> "crt", a |-> <<[j \in 1..Len(s) |-> S(s[j][1])], [j \in 1..Len(s) |-> S(s[j][2])]>>] : s \in Systems}
  \cup {[op |-> "crt", a |-> <<[j \in 1..x |-> "1"], [j \in 1..y |-> S(j + 1)]>>] : x \in 0..3, y \in 0..3})
Emit == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.OUT, Calls)
=============================================================================
