----------------------------- MODULE LangExport -----------------------------
(* The Wolfram value of a tree: capitalised heads, arguments in order, then   *)
(* one rule per option; curried calls stay curried. Namespaces are dropped.   *)
EXTENDS LangLex

(* the exported value: heads are capitalised names *)
Raised(n) ==
  LET i(x) == CHOOSE j \in 1..26 : SubSeq("abcdefghijklmnopqrstuvwxyz", j, j) = x
      Begins(x) == Len(n) >= Len(x) /\ SubSeq(n, 1, Len(x)) = x
      Swap(x, y) == y \o SubSeq(n, Len(x) + 1, Len(n))
      h == SubSeq(n, 1, 1)
  IN  CASE h \in Lower -> Swap(h, SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i(h), i(h)))
        [] Begins("~e9~") -> Swap("~e9~", "~c9~")
        [] Begins("~3b1~") -> Swap("~3b1~", "~391~")
        [] Begins("~44f~") -> Swap("~44f~", "~42f~")
        [] OTHER -> n
HeadName(t) == LET n == t.v[Len(t.v)] IN IF n = "factor" THEN "FactorInteger" ELSE Raised(n)

RECURSIVE Mirrors(_, _)
IsRule(w) == w.k = "fn" /\ w.h.k = "sym" /\ w.h.v = "Rule" /\ Len(w.v) = 2
(* w: arguments in order, then one rule per option in any order *)
MirrorsGroup(g, ws) == LET n == Len(g.a) IN
  /\ Len(ws) = n + Len(g.o)
  /\ \A i \in 1..n : Mirrors(g.a[i], ws[i])
  /\ \A j \in 1..Len(g.o) : \E i \in (n + 1)..Len(ws) :
        IsRule(ws[i]) /\ Mirrors(g.o[j][1], ws[i].v[1]) /\ Mirrors(g.o[j][2], ws[i].v[2])
RECURSIVE MirrorsCall(_, _, _)
MirrorsCall(t, n, w) == IF n = 0 THEN w.k = "sym" /\ w.v = HeadName(t)
                        ELSE w.k = "fn" /\ MirrorsGroup(t.g[n], w.v) /\ MirrorsCall(t, n - 1, w.h)
Mirrors(t, w) == CASE t.k = "fn" -> MirrorsCall(t, Len(t.g), w)
                   [] t.k = "empty" -> w.k = "skip"
                   [] t.k = "bool" -> w.k = "sym" /\ w.v = (IF t.v = "true" THEN "True" ELSE "False")
                   [] t.k = "sym" -> w.k = "sym" /\ w.v = t.v[Len(t.v)]
                   [] OTHER -> w.k = t.k /\ w.v = t.v
=============================================================================
