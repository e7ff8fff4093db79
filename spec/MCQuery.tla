------------------------------ MODULE MCQuery -------------------------------
(* All small trees: peeling heads and putting the groups back gives the tree  *)
(* again, and different trees have different TeX forms. Every tree is sent to *)
(* the real code.                                                             *)
(*   Design  asbuilt                                                          *)
(*           front   (wrong) the head of a call of several groups drops the   *)
(*                   first one                                                *)
(*           two     (wrong) sums show two operands                           *)
(*           single  (wrong) trigonometric calls show one group               *)
EXTENDS LangQuery, TLC, Json, FiniteSets
CONSTANTS Design, Depth

Atoms == {Num("1"), Num("-2"), Sym(<<"x">>), Sym(<<"m", "y">>), Str("s"), Bool("true"), Dec("0.5"), Empty}
Terms == {Num("1"), Sym(<<"x">>)}
Few == {Num("1"), Sym(<<"x">>), Str("s")}
Sums == {Infix(o, a) : o \in {"add", "times"}, a \in [1..2 -> Terms] \cup [1..3 -> Terms]}
Groups(S) == {Group(a) : a \in {<<>>} \cup [1..1 -> S] \cup [1..2 -> S]}
Calls(S, T) == LET one == Groups(S)  two == Groups(T) IN
               {[k |-> "fn", v |-> h, g |-> g] : h \in {<<"f">>, <<"sin">>, <<"arcsec">>}, g \in [1..1 -> one] \cup [1..2 -> two]}
Lists(S) == {ListOf(a) : a \in {<<>>} \cup [1..1 -> S] \cup [1..2 -> S]}
Full == Atoms \ {Empty}
Layer1 == Atoms \cup Sums \cup Calls(Full, Few) \cup Lists(Full)
Inner == {Fn(<<"f">>, <<>>), Fn(<<"sin">>, <<Sym(<<"x">>)>>), ListOf(<<Num("1")>>), ListOf(<<>>), Infix("add", <<Num("1"), Sym(<<"x">>)>>), Num("1")}
Trees == Layer1 \cup (IF Depth > 1 THEN Calls(Inner, {Num("1"), Infix("times", <<Sym(<<"x">>), Num("1")>>)}) \cup Lists(Inner) ELSE {})

Peel(t) == IF Design = "front" /\ t.k = "fn" /\ Len(t.g) > 1 THEN [t EXCEPT !.g = Tail(@)] ELSE HeadOf(t)
Shown(t) == CASE Design = "two" /\ IsSum(t) -> TexOf([t EXCEPT !.g[1].a = SubSeq(@, 1, 2)])
              [] Design = "single" /\ t.k = "fn" /\ t.v[1] \in Direct -> TexOf([t EXCEPT !.g = <<Head(t.g)>>])
              [] OTHER -> TexOf(t)

VARIABLE tree
Init == tree \in Trees
Next == UNCHANGED tree
Spec == Init /\ [][Next]_tree

Table == [t \in Trees |-> Shown(t)]
(* namespaces are not shown *)
Restored == tree.k = "fn" => Apply(Peel(tree), tree.g[Len(tree.g)]) = tree
Distinct == \A u \in Trees : Table[u] = Table[tree] => u = tree
Specified == HasTex(tree)
Emitted == PrintT("TEXT " \o ToJson(tree))
=============================================================================
