------------------------------- MODULE MCCall --------------------------------
(* Calls, dot calls, subscripts, slices and lists. Every text up to Size      *)
(* tokens is read by the parser machine, one token after the other, and by    *)
(* the definitions below, which split it at its brackets, dots, commas and    *)
(* colons. They must agree on every text, accepted or refused.                *)
EXTENDS LangTokens, FiniteSets
CONSTANTS Alphabet, Size, Deep, Variant

VARIABLES text, P
Init == text = <<>> /\ P = Start
(* wrong machines *)
Odd(Q, s) == LET R == Feed(Q, "none", s) IN
             CASE Variant = "right" -> R
               [] Variant = "reversed" ->      \* arguments are put in front
                    IF s = "," /\ ~R.err /\ Len(TopFrame(R).items) = 2
                    THEN Put(R, [TopFrame(R) EXCEPT !.items = Reverse(@)]) ELSE R
               [] Variant = "dot-last" ->      \* the left side of a dot becomes the last argument
                    IF s = ")" /\ ~R.err /\ TopFrame(R).ops = <<".">> /\ TopFrame(R).ph = "fac"
                    THEN LET fr == TopFrame(R) n == Len(fr.facs) IN
                         IF n = 1 /\ fr.facs[1].k = "fn"
                         THEN Put(R, [fr EXCEPT !.ops = <<>>, !.vals = <<>>, !.facs[1].g[1].a = @ \o fr.vals]) ELSE R
                    ELSE R
Next == /\ ~Lost(P) /\ Len(text) < Size
        /\ \E s \in Alphabet :
             /\ IsAtom(s) => TopFrame(P).ph \in {"start", "want"}
             /\ s \in {"(", "["} => Len(P.st) <= Deep
             /\ text' = Append(text, s) /\ P' = Odd(P, s)
Spec == Init /\ [][Next]_<<text, P>>

-----------------------------------------------------------------------------
Opens == {"(", "["}
Closes == {")", "]"}
RECURSIVE DepthTo(_, _)
DepthTo(i, n) == IF n < i THEN 0 ELSE DepthTo(i, n - 1) + (IF text[n] \in Opens THEN 1 ELSE IF text[n] \in Closes THEN -1 ELSE 0)
(* positions of s outside of brackets *)
Tops(i, j, s) == {n \in i..j : text[n] = s /\ DepthTo(i, n) = 0}
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
(* the parts between separators: sequence of <<from, to>> *)
Split(i, j, s) == LET ks == Sorted(Tops(i, j, s))
                      n == Len(ks)
                  IN  [m \in 1..(n + 1) |-> <<IF m = 1 THEN i ELSE ks[m - 1] + 1, IF m = n + 1 THEN j ELSE ks[m] - 1>>]
Void(p) == p[1] > p[2]
Matching(i, j) == LET b == IF text[j] = ")" THEN "(" ELSE "["
                      S == {m \in i..(j - 1) : text[m] = b /\ DepthTo(m, j) = 0 /\ \A n \in m..(j - 1) : DepthTo(m, n) > 0}
                  IN  IF S = {} THEN 0 ELSE CHOOSE m \in S : TRUE
NoLast(ps) == IF Len(ps) > 1 /\ Void(Last(ps)) THEN Front(ps) ELSE ps
NoFirst(ps) == IF Len(ps) > 0 /\ Void(ps[1]) THEN Tail(ps) ELSE ps

RECURSIVE Expr(_, _), Term1(_, _), Callee(_, _), Args(_, _)
Anywhere(i, j) == IF i > j THEN Bad ELSE Expr(i, j)
Expr(i, j) == LET ks == Tops(i, j, ".") IN
              IF i > j THEN Bad
              ELSE IF ks = {} THEN Term1(i, j)
              ELSE LET k == CHOOSE k \in ks : \A m \in ks : m <= k
                       l == Anywhere(i, k - 1)
                       r == IF k = j THEN Bad ELSE Term1(k + 1, j)
                   IN  IF l = Bad \/ r = Bad THEN Bad ELSE Join(".", l, r)
Part1(p) == Anywhere(p[1], p[2])
(* one part of a subscript *)
Sub(p) == LET cs == Split(p[1], p[2], ":")
              x(m, default) == IF m > Len(cs) THEN default ELSE IF Void(cs[m]) THEN default ELSE Part1(cs[m])
          IN  IF Void(p) THEN Bad
              ELSE IF Len(cs) = 1 THEN Part1(p)
              ELSE IF Len(cs) > 3 \/ (\E m \in 1..3 : x(m, All) = Bad) THEN Bad
              ELSE Span(x(1, Num("1")), x(2, All), x(3, Num("1")))
Args(i, j) == LET ps == IF i > j THEN <<>> ELSE NoFirst(NoLast(Split(i, j, ",")))
                  named(p) == Tops(p[1], p[2], ":") # {}
                  good(p) == IF Void(p) THEN FALSE
                             ELSE IF named(p) THEN IsAtom(text[p[1]]) /\ TokOf(text[p[1]]).k = "word" /\ p[2] > p[1]
                                                   /\ text[p[1] + 1] = ":" /\ Anywhere(p[1] + 2, p[2]) # Bad
                             ELSE Part1(p) # Bad
              IN  IF \E n \in 1..Len(ps) : ~good(ps[n]) THEN Bad
                  ELSE [k |-> "group",
                        a |-> LET q == SelectSeq(ps, LAMBDA p : ~named(p)) IN [n \in 1..Len(q) |-> Part1(q[n])],
                        o |-> LET q == SelectSeq(ps, named)
                              IN  [n \in 1..Len(q) |-> <<TokOf(text[q[n][1]]).v, Anywhere(q[n][1] + 2, q[n][2])>>]]
(* later options win *)
Winners(os) == LET keep == {n \in 1..Len(os) : \A m \in (n + 1)..Len(os) : os[m][1] # os[n][1]}
               IN  [n \in 1..Cardinality(keep) |-> os[Sorted(keep)[n]]]
Callee(i, j) == IF i > j THEN Bad
                ELSE IF i = j THEN (IF TokOf(text[i]).k = "word" THEN TokOf(text[i]).v ELSE Bad)
                ELSE IF text[j] # ")" THEN Bad
                ELSE LET m == Matching(i, j)
                         h == IF m <= i THEN Bad ELSE Callee(i, m - 1)
                         g == IF m = 0 THEN Bad ELSE Args(m + 1, j - 1)
                     IN  IF h = Bad \/ g = Bad THEN Bad ELSE Apply(h, [a |-> g.a, o |-> Winners(g.o)])
Term1(i, j) ==
  IF i = j THEN (IF IsAtom(text[i]) THEN LET v == TokOf(text[i]).v IN IF v.k = "sym" THEN Lone(v.v) ELSE v ELSE Bad)
  ELSE IF text[j] = ")" THEN (IF Matching(i, j) = i THEN Anywhere(i + 1, j - 1) ELSE Callee(i, j))
  ELSE IF text[j] = "]"
  THEN LET m == Matching(i, j) IN
       IF m = 0 THEN Bad
       ELSE LET ps == IF m + 1 > j - 1 THEN <<>> ELSE NoLast(Split(m + 1, j - 1, ","))
                xs == [n \in 1..Len(ps) |-> IF m = i THEN Part1(ps[n]) ELSE Sub(ps[n])]
            IN  IF \E n \in 1..Len(xs) : xs[n] = Bad THEN Bad
                ELSE IF m = i THEN ListOf(xs)
                ELSE LET b == Anywhere(i, m - 1) IN IF b = Bad \/ xs = <<>> THEN Bad ELSE Index(b, xs)
  ELSE Bad
Nested == \A n \in 1..Len(text) : DepthTo(1, n) >= 0
Whole == IF text = <<>> THEN Empty ELSE IF Nested /\ DepthTo(1, Len(text)) = 0 THEN Expr(1, Len(text)) ELSE Bad
V == Verdict(P)
Agree == V.k = "ok" => Whole # Bad /\ Same(V.t, Whole)
Refused == Lost(P) => Whole = Bad
Emitted == (text # <<>> /\ (V.k = "ok" \/ Lost(P))) => Emit(text)
=============================================================================
