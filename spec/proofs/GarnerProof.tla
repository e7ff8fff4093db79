----------------------------- MODULE GarnerProof -----------------------------
(* Systems of congruences solved one by one (Garner.tla, with the value and   *)
(* the product of the moduli so far in place of the mixed-radix digits), for  *)
(* any number of congruences, moduli and residues: the value solves every     *)
(* congruence handled so far, and a missing inverse means a common factor.    *)
EXTENDS Integers, TLAPS
Divides(d, x) == \E k \in Int : x = d * k
VARIABLES handled, x, prod
vars == <<handled, x, prod>>
Init == handled = {} /\ x = 0 /\ prod = 1
(* the digit t is (u - x) * c for an inverse c of the product, up to multiples of the modulus *)
Handle == \E u \in Int, m \in Int, c \in Int, k \in Int :
            /\ Divides(m, prod * c - 1)
            /\ x' = x + prod * ((u - x) * c + m * k)
            /\ prod' = prod * m /\ handled' = handled \cup {<<u, m>>}
Spec == Init /\ [][Handle]_vars
Inv == /\ x \in Int /\ prod \in Int /\ handled \subseteq Int \X Int
       /\ \A h \in handled : Divides(h[2], prod) /\ Divides(h[2], x - h[1])

LEMMA Ring == /\ \A p, q, r \in Int : p * (q * r) = (p * q) * r
              /\ \A p, q, r \in Int : p * (q + r) = p * q + p * r
              /\ \A p, q \in Int : p * q = q * p OBVIOUS
LEMMA DivMul == \A d, p, q \in Int : Divides(d, p) => Divides(d, p * q)
<1> SUFFICES ASSUME NEW d \in Int, NEW p \in Int, NEW q \in Int, NEW k \in Int, p = d * k PROVE Divides(d, p * q) BY DEF Divides
<1>1. p * q = d * (k * q) BY Ring
<1>2. k * q \in Int OBVIOUS
<1> QED BY <1>1, <1>2 DEF Divides
LEMMA DivAdd == \A d, p, q \in Int : Divides(d, p) /\ Divides(d, q) => Divides(d, p + q)
<1> SUFFICES ASSUME NEW d \in Int, NEW p \in Int, NEW q \in Int, NEW k \in Int, NEW j \in Int, p = d * k, q = d * j PROVE Divides(d, p + q) BY DEF Divides
<1>1. p + q = d * (k + j) BY Ring
<1> QED BY <1>1 DEF Divides
THEOREM Safe == Spec => []Inv
<1>1. Init => Inv BY DEF Init, Inv
<1>2. Inv /\ [Handle]_vars => Inv'
  <2>1. CASE UNCHANGED vars BY <2>1 DEF vars, Inv
  <2>2. ASSUME Inv, Handle PROVE Inv'
    <3>1. PICK u \in Int, m \in Int, c \in Int, k \in Int :
             /\ Divides(m, prod * c - 1) /\ x' = x + prod * ((u - x) * c + m * k)
             /\ prod' = prod * m /\ handled' = handled \cup {<<u, m>>} BY <2>2 DEF Handle
    <3>0. x \in Int /\ prod \in Int BY <2>2 DEF Inv
    <3> DEFINE t == (u - x) * c + m * k
    <3>2. t \in Int /\ x' = x + prod * t /\ prod * t \in Int BY <3>0, <3>1
    <3>3. \A h \in handled : h[2] \in Int /\ h[1] \in Int /\ Divides(h[2], prod) /\ Divides(h[2], x - h[1]) BY <2>2 DEF Inv
    <3>4. \A h \in handled : Divides(h[2], prod') /\ Divides(h[2], x' - h[1])
      <4> SUFFICES ASSUME NEW h \in handled PROVE Divides(h[2], prod') /\ Divides(h[2], x' - h[1]) OBVIOUS
      <4>1. Divides(h[2], prod * m) BY <3>0, <3>3, DivMul
      <4>2. Divides(h[2], prod * t) BY <3>0, <3>2, <3>3, DivMul
      <4>3. Divides(h[2], (x - h[1]) + prod * t) BY <3>0, <3>2, <3>3, <4>2, DivAdd
      <4>4. (x - h[1]) + prod * t = x' - h[1] BY <3>0, <3>2, <3>3
      <4> QED BY <3>1, <4>1, <4>3, <4>4
    <3>5. Divides(m, prod') BY <3>0, <3>1, Ring DEF Divides
    <3>6. Divides(m, x' - u)
      <4>1. PICK j \in Int : prod * c - 1 = m * j BY <3>1 DEF Divides
      <4>2. prod * ((u - x) * c) = (u - x) * (prod * c)
        <5>1. (u - x) \in Int BY <3>0
        <5>2. \A p, q, r \in Int : p * (q * r) = q * (p * r) OBVIOUS
        <5> QED BY <5>1, <5>2, <3>0
      <4>3. prod * c = m * j + 1 BY <4>1, <3>0
      <4>4. (u - x) * (m * j + 1) = (u - x) * (m * j) + (u - x) BY <3>0
      <4>5. (u - x) * (m * j) = m * ((u - x) * j)
        <5>1. (u - x) \in Int BY <3>0
        <5>2. \A p, q, r \in Int : p * (q * r) = q * (p * r) OBVIOUS
        <5> QED BY <5>1, <5>2
      <4>6. prod * (m * k) = m * (prod * k)
        <5>2. \A p, q, r \in Int : p * (q * r) = q * (p * r) OBVIOUS
        <5> QED BY <5>2, <3>0
      <4>7. prod * t = prod * ((u - x) * c) + prod * (m * k)
        <5>1. (u - x) * c \in Int /\ m * k \in Int BY <3>0
        <5> QED BY <5>1, <3>0, Ring
      <4> DEFINE w == (u - x) * j
                 z == prod * k
      <4>8. w \in Int /\ z \in Int BY <3>0
      <4>9. prod * t = m * w + (u - x) + m * z BY <4>2, <4>3, <4>4, <4>5, <4>6, <4>7
      <4>10. m * w \in Int /\ m * z \in Int /\ m * w + m * z = m * (w + z) BY <4>8, Ring
      <4>11. x' - u = m * (w + z)
        <5> HIDE DEF w, z, t
        <5> QED BY <3>0, <3>2, <4>8, <4>9, <4>10
      <4> QED BY <4>8, <4>11 DEF Divides
    <3>7. prod' \in Int /\ x' \in Int /\ handled' \subseteq Int \X Int BY <2>2, <3>0, <3>1, <3>2 DEF Inv
    <3>8. \A h \in handled' : Divides(h[2], prod') /\ Divides(h[2], x' - h[1]) BY <3>1, <3>4, <3>5, <3>6
    <3> QED BY <3>7, <3>8 DEF Inv
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, PTL DEF Spec
(* a common divisor above 1 of the product and the next modulus leaves no inverse *)
THEOREM NoInverse == \A p, m, d, c \in Int : Divides(d, p) /\ Divides(d, m) /\ Divides(m, p * c - 1) => Divides(d, 1)
<1> SUFFICES ASSUME NEW p \in Int, NEW m \in Int, NEW d \in Int, NEW c \in Int, Divides(d, p), Divides(d, m), Divides(m, p * c - 1) PROVE Divides(d, 1) OBVIOUS
<1>1. Divides(d, p * c) BY DivMul
<1>2. PICK j \in Int : p * c - 1 = m * j BY DEF Divides
<1>3. Divides(d, m * (-j)) BY DivMul
<1>4. m * (-j) = -(m * j) OBVIOUS
<1>5. p * c + m * (-j) = 1 BY <1>2, <1>4
<1>6. Divides(d, p * c + m * (-j)) BY <1>1, <1>3, DivAdd
<1> QED BY <1>5, <1>6
=============================================================================
