------------------------------ MODULE LangPlace ------------------------------
(* Where the parts of a tree stand in the source text. A place is a pair of   *)
(* positions (line, column), and the text between them denotes the node:      *)
(*   an operator before or after its operand      the operator sign           *)
(*   arguments of a call                          the bracket with them       *)
(*   subscripts                                   the bracket with them       *)
(*   a span of subscripts                         the span                    *)
(*   lists, slots, products, infix operators      the expression they are in  *)
(*   and dot calls                                                            *)
(* Operands before a dot stand before the arguments that they are put to.     *)
EXTENDS LangLex

(* the index of a position; lines end with ~a~ *)
Breaks(cs) == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : cs[i] = "~a~")
Offset(cs, p) == LET bs == Breaks(cs) IN (IF p[1] = 1 THEN 0 ELSE bs[p[1] - 1]) + p[2]
Placed(cs, p) == LET bs == Breaks(cs) IN
                 /\ p[1] >= 1 /\ p[1] <= Len(bs) + 1 /\ p[2] >= 1
                 /\ Offset(cs, p) <= (IF p[1] <= Len(bs) THEN bs[p[1]] ELSE Len(cs) + 1)

(* the nodes of the expression whose tree is t *)
RECURSIVE Spine(_)
Spine(t) == {t} \cup (IF t.k = "fn" /\ (IsInfix(t) \/ t.g[1].a # <<>>)
                      THEN Spine(t.g[1].a[1]) \cup (IF IsInfix(t) /\ Len(ArgsOf(t)) = 2 THEN Spine(ArgsOf(t)[2]) ELSE {}) ELSE {})
Reads(s) == LET m == Meaning(s) IN IF m.k = "ok" THEN m.t ELSE Bad

Last1(t) == t.g[Len(t.g)]
SameGroup(g, h) == SameAll(g.a, h.a) /\ SameOptions(g.o, h.o)
Drop(a, d) == SubSeq(a, d + 1, Len(a))
(* the last argument group of the node t is written as s, perhaps without first arguments that stand before a dot *)
AsCall(t, s) == LET r == Reads(<<"f">> \o s)
                    g == Last1(t)
                IN  /\ r.k = "fn" /\ r.v = <<"f">> /\ Len(r.g) = 1
                    /\ \E d \in 0..(IF Len(t.g) = 1 THEN Len(g.a) ELSE 0) : SameGroup([g EXCEPT !.a = Drop(@, d)], r.g[1])
Whole(t, s) == LET r == Reads(s) IN \E x \in Spine(r) : Same(x, t)
IndexHead == <<"std", "core", "Index">>
SpanHead == <<"std", "core", "Span">>
PlaceOK(t, s) ==
  CASE IsPrefixed(t) -> s # <<>> /\ Text(s, 1, Len(s) + 1) \in PrefixOps /\ PrefixName(Text(s, 1, Len(s) + 1)) = t.v[3]
    [] IsSuffixed(t) -> s # <<>> /\ Text(s, 1, Len(s) + 1) \in SuffixOps /\ SuffixName(Text(s, 1, Len(s) + 1)) = t.v[3]
    [] t.v = IndexHead /\ Len(t.g) = 1 /\ ArgsOf(t) # <<>> ->
         \/ LET r == Reads(<<"x">> \o s)  a == ArgsOf(t) IN
            r.k = "fn" /\ r.v = IndexHead /\ \E d \in 1..Len(a) : SameAll(Drop(a, d), Tail(ArgsOf(r)))
         \/ AsCall(t, s) \/ Whole(t, s)
    [] t.v = SpanHead /\ Len(t.g) = 1 ->
         \/ Same(Reads(<<"x", "[">> \o s \o <<"]">>), Index(Sym(<<"x">>), <<t>>))
         \/ AsCall(t, s) \/ Whole(t, s)
    [] OTHER -> AsCall(t, s) \/ (Len(t.g) = 1 /\ (Whole(t, s) \/ (\E d \in 1..Len(ArgsOf(t)) : Same(Reads(s), [t EXCEPT !.g[1].a = Drop(@, d)]))))

(* what stands before and after a place, apart from layout; in texts without comments and strings *)
Plain(cs) == {"%", "/", "\""} \cap {cs[i] : i \in 1..Len(cs)} = {}
Void == Blank \cup Newline
Signs(cs) == SelectSeq(cs, LAMBDA ch : ch \notin Void)
Before(cs, i) == LET b == Signs(SubSeq(cs, 1, i - 1)) IN IF b = <<>> THEN "" ELSE b[Len(b)]
Behind(cs, j) == LET b == Signs(SubSeq(cs, j, Len(cs))) IN IF b = <<>> THEN "" ELSE b[1]
Separators == {",", "~ff0c~", ":", "~ff1a~", ";", "~ff1b~", ""}
(* a span of subscripts stands between the brackets and commas around it *)
Around(cs, i, j) == Before(cs, i) \in {"[", ",", "~ff0c~"} /\ Behind(cs, j) \in {"]", ",", "~ff0c~"}
(* an expression stands between brackets and separators *)
Entire(cs, i, j) == Before(cs, i) \in Separators \cup {"(", "["} /\ Behind(cs, j) \in Separators \cup {")", "]"}
(* a product with a sign, not one by juxtaposition *)
Deep(s) == FoldLeft(LAMBDA d, ch : IF ch \in {"(", "["} THEN [d EXCEPT !.n = @ + 1] ELSE IF ch \in {")", "]"} THEN [d EXCEPT !.n = @ - 1]
                                   ELSE IF ch \in {"*", "~d7~"} /\ d.n = 0 THEN [d EXCEPT !.star = TRUE] ELSE d, [n |-> 0, star |-> FALSE], s)
(* nodes whose place is the whole expression: infix operators and calls by dots *)
IsWhole(t, s) == /\ Len(t.g) = 1 /\ ~IsPrefixed(t) /\ ~IsSuffixed(t) /\ ~AsCall(t, s)
                 /\ t.v \notin {SpanHead, <<"std", "containers", "List">>, <<"std", "core", "slot">>, <<"std", "core", "slot_sequence">>, <<"std", "repl", "input">>, <<"std", "repl", "output">>}
                 /\ ~(t.v = IndexHead /\ s # <<>> /\ s[1] = "[")
                 /\ (IsInfix(t) /\ t.v[3] = "times" => Deep(s).star)
(* the text of a place does not begin with layout *)
Begun(s) == s = <<>> \/ s[1] \notin Void
(* nodes with a text of their own: signs, brackets, slots *)
Own(t, s) == s # <<>> /\ CASE IsPrefixed(t) \/ IsSuffixed(t) -> TRUE
                            [] t.v \in {IndexHead, <<"std", "containers", "List">>} -> s[1] = "["
                            [] s[1] = "#" -> t.v = <<"std", "core", "slot">>
                            [] OTHER -> s[1] = "(" /\ AsCall(t, s)

(* texts whose tree is not prescribed have no prescribed places *)
(* n: a node with the place of its last group, in the text cs of the file f *)
TextAt(cs, n) == SubSeq(cs, Offset(cs, n.s), Offset(cs, n.e) - 1)
SpanOK(cs, n, i, j, s) == (n.t.v # SpanHead \/ ~Plain(cs)) \/ AsCall(n.t, s) \/ Whole(n.t, s) \/ Around(cs, i, j)
Denotes(cs, n, i, j, s) == PlaceOK(n.t, s) /\ Begun(s) /\ SpanOK(cs, n, i, j, s) /\ (Plain(cs) /\ IsWhole(n.t, s) => Entire(cs, i, j))
NodeOK(cs, f, n) == /\ n.f = f /\ Placed(cs, n.s) /\ Placed(cs, n.e)
                    /\ LET i == Offset(cs, n.s)  j == Offset(cs, n.e)  s == SubSeq(cs, i, j - 1) IN
                       i <= j /\ (Denotes(cs, n, i, j, s) \/ Meaning(cs).k # "ok")
(* no two of them have the same place; places of m and n are right *)
Apart(cs, m, n) == (m.s = n.s /\ m.e = n.e) => ~(Own(m.t, TextAt(cs, m)) /\ Own(n.t, TextAt(cs, n)))
=============================================================================
