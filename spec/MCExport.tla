------------------------------ MODULE MCExport -------------------------------
(* Exporting. For every pair of trees out of a family of calls with nested,   *)
(* curried, named and repeated arguments: the exported value of each mirrors  *)
(* it, and mirrors no other tree of the family. The variants export wrongly.  *)
EXTENDS LangExport, TLC, FiniteSets
CONSTANT Variant

Cs(v) == [n \in 1..Len(v) |-> SubSeq(v, n, n)]
Atoms == {"a", "1", "1.5", "\"a\"", "true"}
Texts == Atoms \cup {"c(" \o x \o ")" : x \in Atoms} \cup {"f(" \o x \o "," \o y \o ")" : x, y \in Atoms \ {"true"}}
         \cup {"f(" \o x \o ")(" \o y \o ")" : x, y \in {"a", "1", "g(1)"}} \cup {"f(" \o x \o ",k:" \o y \o ")" : x, y \in {"a", "1", "g(k:1)"}}
         \cup {"f(g(" \o x \o ")," \o y \o ")" : x, y \in {"a", "1", "[]", "[1]"}} \cup {"f(k:" \o x \o ",l:" \o y \o ")" : x, y \in {"a", "1"}}
         \cup {"[" \o x \o "," \o y \o "]" : x, y \in {"a", "1", "[a]"}}
         \cup {"", "f()", "f()()", "f(())", "[]", "[[]]", "factor(6)", "-1", "1-2", "2-1", "3!", "a[1:2]", "a[1,2]", "1+2*3", "(1+2)*3", "1+2+3", "1+(2+3)", "null",
               "f(a)(b)(c)", "f(a,b)(c)", "f(a)(b,c)", "f(a)(k:b)", "f(k:a)(b)", "f(f(a))", "f(1,1)", "f(1,1,1)"}
Seqs == SetToSeq(Texts)
Trees == [n \in 1..Len(Seqs) |-> Meaning(Cs(Seqs[n]))]
ASSUME \A n \in 1..Len(Seqs) : Trees[n].k = "ok" \/ Seqs[n] = "f(())"
Good == {n \in 1..Len(Seqs) : Trees[n].k = "ok"}

WSym(n) == [k |-> "sym", v |-> n]
WFn(h, vs) == [k |-> "fn", h |-> h, v |-> vs]
RECURSIVE Export(_), Curried(_, _)
Swapped(os) == IF Variant = "options-dropped" THEN <<>> ELSE os
Curried(t, n) ==
  IF n = 0 THEN WSym(HeadName(t))
  ELSE LET as == [i \in 1..Len(t.g[n].a) |-> Export(t.g[n].a[i])]
           os == [i \in 1..Len(t.g[n].o) |-> WFn(WSym("Rule"), <<Export(t.g[n].o[i][1]), Export(t.g[n].o[i][2])>>)]
           all == (IF Variant = "reversed" THEN Reverse(as) ELSE as) \o Swapped(os)
           in == Curried(t, n - 1)
       IN  IF Variant = "flat" /\ in.k = "fn" THEN [in EXCEPT !.v = @ \o all] ELSE WFn(in, all)
Export(t) == CASE t.k = "fn" -> Curried(t, Len(t.g))
               [] t.k = "empty" -> [k |-> "skip"]
               [] t.k = "bool" -> WSym(IF t.v = "true" THEN "True" ELSE "False")
               [] t.k = "sym" -> WSym(t.v[Len(t.v)])
               [] OTHER -> t

VARIABLES i, j
Init == i \in Good /\ j \in Good
Next == FALSE /\ UNCHANGED <<i, j>>
Spec == Init /\ [][Next]_<<i, j>>
Mirrored == i = j => Mirrors(Trees[i].t, Export(Trees[i].t))
Apart == i # j => ~Mirrors(Trees[i].t, Export(Trees[j].t))
Emitted == i = j => PrintT("TEXT " \o Seqs[i])
=============================================================================
