----------------------------- MODULE PowerProof ------------------------------
(* Powers by repeated squaring and factorials by a running product (the       *)
(* machine of Power.tla) for all bases and exponents. Pow and Fact are given  *)
(* by their recurrences.                                                      *)
EXTENDS Integers, TLAPS, NaturalsInduction
CONSTANTS Pow(_, _), Fact(_)
AXIOM PowRule == \A x \in Int : Pow(x, 0) = 1 /\ \A k \in Nat : Pow(x, k) \in Int /\ Pow(x, k + 1) = x * Pow(x, k)
AXIOM FactRule == Fact(0) = 1 /\ \A k \in Nat : Fact(k) \in Int /\ Fact(k + 1) = (k + 1) * Fact(k)

LEMMA Assoc == \A x, y, z \in Int : x * (y * z) = (x * y) * z OBVIOUS
LEMMA Doubling == \A x \in Int : \A k \in Nat : Pow(x * x, k) = Pow(x, k + k)
<1> SUFFICES ASSUME NEW x \in Int PROVE \A k \in Nat : Pow(x * x, k) = Pow(x, k + k) OBVIOUS
<1> DEFINE P(k) == Pow(x * x, k) = Pow(x, k + k)
<1>0. x * x \in Int OBVIOUS
<1>1. P(0) BY <1>0, PowRule
<1>2. ASSUME NEW k \in Nat, P(k) PROVE P(k + 1)
  <2>1. Pow(x * x, k + 1) = (x * x) * Pow(x * x, k) BY <1>0, PowRule
  <2>2. Pow(x, (k + k) + 1) = x * Pow(x, k + k) BY PowRule
  <2>3. Pow(x, (k + k + 1) + 1) = x * Pow(x, k + k + 1) BY PowRule
  <2>4. (k + 1) + (k + 1) = (k + k + 1) + 1 OBVIOUS
  <2>5. Pow(x, k + k) \in Int BY PowRule
  <2>6. x * (x * Pow(x, k + k)) = (x * x) * Pow(x, k + k) BY <2>5, Assoc
  <2> QED BY <1>2, <2>1, <2>2, <2>3, <2>4, <2>6
<1>3. \A k \in Nat : P(k)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3

VARIABLES op, a, e, acc, base, left, pc
vars == <<op, a, e, acc, base, left, pc>>
Init == \/ op = "power" /\ a \in Int /\ e \in Nat /\ acc = 1 /\ base = a /\ left = e /\ pc = "start"
        \/ op = "factorial" /\ a = 0 /\ e \in Int /\ acc = 1 /\ base = 1 /\ left = e /\ pc = "start"
Special == /\ pc = "start"
           /\ pc' = IF op = "power" /\ a = 0 /\ e = 0 THEN "indeterminate"
                    ELSE IF op = "factorial" /\ e < 0 THEN "infinite" ELSE "loop"
           /\ UNCHANGED <<op, a, e, acc, base, left>>
(* half of left, and what is over *)
Square == /\ pc = "loop" /\ op = "power" /\ left > 0
          /\ \E h \in Nat, b \in {0, 1} :
               /\ left = h + h + b /\ left' = h
               /\ acc' = IF b = 1 THEN acc * base ELSE acc
               /\ base' = IF left > 1 THEN base * base ELSE base
          /\ UNCHANGED <<op, a, e, pc>>
Multiply == /\ pc = "loop" /\ op = "factorial" /\ base <= e
            /\ acc' = acc * base /\ base' = base + 1
            /\ UNCHANGED <<op, a, e, left, pc>>
Stop == /\ pc = "loop" /\ (IF op = "power" THEN left = 0 ELSE base > e)
        /\ pc' = "done" /\ UNCHANGED <<op, a, e, acc, base, left>>
Next == Special \/ Square \/ Multiply \/ Stop
Spec == Init /\ [][Next]_vars

Inv == /\ op \in {"power", "factorial"} /\ a \in Int /\ e \in Int /\ acc \in Int /\ base \in Int /\ left \in Int
       /\ pc \in {"start", "loop", "done", "indeterminate", "infinite"}
       /\ op = "power" => e \in Nat /\ left \in Nat /\ acc * Pow(base, left) = Pow(a, e)
       /\ op = "factorial" => base >= 1 /\ acc = Fact(base - 1) /\ (pc = "start" => base = 1)
       /\ (op = "factorial" /\ pc \in {"loop", "done"}) => e >= 0 /\ base <= e + 1
       /\ (op = "power" /\ pc = "done") => left = 0
       /\ (op = "factorial" /\ pc = "done") => base = e + 1
THEOREM Safe == Spec => []Inv
<1>1. Init => Inv
  <2>1. ASSUME op = "power", a \in Int, e \in Nat, acc = 1, base = a, left = e, pc = "start" PROVE Inv
    <3>1. Pow(a, e) \in Int BY <2>1, PowRule
    <3>2. acc * Pow(base, left) = Pow(a, e) BY <2>1, <3>1
    <3> QED BY <2>1, <3>2 DEF Inv
  <2>2. ASSUME op = "factorial", a = 0, e \in Int, acc = 1, base = 1, left = e, pc = "start" PROVE Inv BY <2>2, FactRule DEF Inv
  <2> QED BY <2>1, <2>2 DEF Init
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1. CASE Special BY <2>1 DEF Special, Inv
  <2>2. CASE Square
    <3>1. PICK h \in Nat, b \in {0, 1} : /\ left = h + h + b /\ left' = h
                                         /\ acc' = IF b = 1 THEN acc * base ELSE acc
                                         /\ base' = IF left > 1 THEN base * base ELSE base
          BY <2>2 DEF Square
    <3>2. op = "power" /\ op' = op /\ a' = a /\ e' = e /\ pc' = "loop" /\ acc \in Int /\ base \in Int /\ a \in Int /\ e \in Nat
          /\ acc * Pow(base, left) = Pow(a, e) BY <2>2 DEF Square, Inv
    <3> DEFINE s == Pow(base, h + h)
    <3>3. s \in Int BY <3>2, PowRule
    <3>4. Pow(base, left) = IF b = 1 THEN base * s ELSE s BY <3>1, <3>2, PowRule
    <3>5. acc' * s = acc * Pow(base, left)
      <4>1. (acc * base) * s = acc * (base * s) BY <3>2, <3>3, Assoc
      <4> QED BY <3>1, <3>4, <4>1
    <3>6. Pow(base', h) = s
      <4>1. CASE left > 1 BY <3>1, <3>2, <4>1, Doubling
      <4>2. CASE ~(left > 1)
        <5>1. h = 0 BY <3>1, <4>2
        <5> QED BY <3>1, <3>2, <4>2, <5>1, PowRule
      <4> QED BY <4>1, <4>2
    <3>7. acc' * Pow(base', left') = Pow(a', e') BY <3>1, <3>2, <3>5, <3>6
    <3>8. acc' \in Int /\ base' \in Int BY <3>1, <3>2
    <3> QED BY <3>1, <3>2, <3>7, <3>8 DEF Inv
  <2>3. CASE Multiply
    <3>1. op = "factorial" /\ op' = op /\ a' = a /\ e' = e /\ pc' = "loop" /\ left' = left /\ base <= e /\ base' = base + 1 /\ acc' = acc * base
          BY <2>3 DEF Multiply
    <3>2. base >= 1 /\ base \in Int /\ acc \in Int /\ acc = Fact(base - 1) /\ e \in Int /\ e >= 0 BY <2>3, <3>1 DEF Inv, Multiply
    <3>3. base - 1 \in Nat BY <3>2
    <3>4. Fact((base - 1) + 1) = ((base - 1) + 1) * Fact(base - 1) BY <3>3, FactRule
    <3>5. (base - 1) + 1 = base /\ base' - 1 = base BY <3>1, <3>2
    <3>6. acc' = Fact(base' - 1) BY <3>1, <3>2, <3>4, <3>5
    <3> QED BY <3>1, <3>2, <3>6 DEF Inv
  <2>4. CASE Stop BY <2>4 DEF Stop, Inv
  <2>5. CASE UNCHANGED vars BY <2>5 DEF vars, Inv
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec
Correct == pc = "done" => acc = IF op = "power" THEN Pow(a, e) ELSE Fact(e)
THEOREM Right == Spec => []Correct
<1>1. Inv => Correct
  <2> SUFFICES ASSUME Inv, pc = "done" PROVE Correct BY DEF Correct
  <2>1. CASE op = "power" BY <2>1, PowRule DEF Inv, Correct
  <2>2. CASE op = "factorial" BY <2>2 DEF Inv, Correct
  <2> QED BY <2>1, <2>2 DEF Inv
<1> QED BY <1>1, Safe, PTL
=============================================================================
