------------------------------- MODULE MCGroup -------------------------------
(* Grouping. Every operator expression up to Size tokens is read by the       *)
(* parser machine. The readings the grammar allows are defined separately, as *)
(* all trees over the text; exactly one of them obeys the precedence table,   *)
(* and it is the one the machine builds. Refused texts have none.             *)
EXTENDS LangTokens, FiniteSets
CONSTANTS Alphabet, Size, Deep, Variant

(* the spelling of two tokens next to each other is read as another token or has no reading here *)
Apart(text, s) == LET p == text[Len(text)] IN text # <<>> /\ p = "!" /\ s \in {"!", "!!"}
Calls(P, s) == s = "(" /\ TopFrame(P).ph = "fac"

VARIABLES text, P
vars == <<text, P>>
(* wrong machines, to see that the model tells them apart *)
Odd(Q, s) == CASE Variant = "table" -> Feed(Q, "none", s)
               [] Variant = "prefix-last" ->       \* a prefix takes everything that follows
                    IF ~Q.err /\ s \in InfixOps /\ TopFrame(Q).ph \in {"fac", "done"} /\ TopFrame(Q).pre # <<>>
                    THEN LET fr == TopFrame(Q)
                         IN  Put(Q, [fr EXCEPT !.ph = "want", !.facs = <<>>, !.pre = <<>>,
                                     !.vals = Append(fr.vals, Node(fr)), !.ops = Append(fr.ops, s)])
                    ELSE Feed(Q, "none", s)
               [] Variant = "all-left" ->          \* nothing groups to the right
                    IF ~Q.err /\ s = "^" /\ TopFrame(Q).ph \in {"fac", "done"} /\ TopFrame(Q).ops # <<>> /\ Last(TopFrame(Q).ops) = "^"
                    THEN LET fr == TopFrame(Q)
                         IN  Put(Q, [Fresh(fr) EXCEPT !.ph = "want", !.vals = Append(Front(fr.vals), Join("^", Last(fr.vals), Term(fr))), !.ops = fr.ops])
                    ELSE Feed(Q, "none", s)
Init == text = <<>> /\ P = Start
Next == /\ ~Lost(P) /\ Len(text) < Size
        /\ \E s \in Alphabet :
             /\ ~Apart(text, s) /\ ~Calls(P, s)
             /\ s = "(" => Len(P.st) <= Deep
             /\ text' = Append(text, s)
             /\ P' = Odd(P, s)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* readings: leaf, paren, pre, suf, in, juxt *)
Balanced(i, j) ==
  LET depth(n) == Cardinality({m \in i..n : text[m] = "("}) - Cardinality({m \in i..n : text[m] = ")"})
  IN  (\A n \in i..j : depth(n) >= 0) /\ depth(j) = 0
InfixD(t, o, first) == IF t.d # "in" THEN TRUE
                       ELSE Level(t.o) > Level(o) \/ (Level(t.o) = Level(o) /\ (IF first THEN ~ToRight(o) ELSE ToRight(o)))
RECURSIVE Readings(_, _)
Readings(i, j) ==
  IF i > j THEN {}
  ELSE (IF i = j /\ IsAtom(text[i]) THEN {[d |-> "leaf", s |-> text[i]]} ELSE {})
  \cup (IF j > i + 1 /\ text[i] = "(" /\ text[j] = ")" /\ Balanced(i + 1, j - 1)
        THEN {[d |-> "paren", x |-> t] : t \in Readings(i + 1, j - 1)} ELSE {})
  \cup (IF text[i] \in PrefixOps \cup {"!!"}
        THEN {[d |-> "pre", o |-> text[i], x |-> t] : t \in {t \in Readings(i + 1, j) : t.d # "in"}} ELSE {})
  \cup (IF text[j] \in SuffixOps
        THEN {[d |-> "suf", o |-> text[j], x |-> t] : t \in {t \in Readings(i, j - 1) : t.d \notin {"in", "pre"}}} ELSE {})
  \cup UNION {{[d |-> "in", o |-> text[k], l |-> p[1], r |-> p[2]] :
                  p \in {p \in Readings(i, k - 1) \X Readings(k + 1, j) : InfixD(p[1], text[k], TRUE) /\ InfixD(p[2], text[k], FALSE)}}
              : k \in {k \in (i + 1)..(j - 1) : text[k] \in InfixOps}}
  \cup (IF i < j /\ IsFactor(text[j]) /\ \A k \in i..j : IsFactor(text[k])
        THEN {[d |-> "juxt", s |-> SubSeq(text, i, j)]} ELSE {})
RECURSIVE Tree(_)
Tree(t) == CASE t.d = "leaf" -> (LET v == TokOf(t.s).v IN IF v.k = "sym" THEN Lone(v.v) ELSE v)
             [] t.d = "paren" -> Tree(t.x)
             [] t.d = "pre" -> IF t.o = "!!" THEN Prefix("not", Prefix("not", Tree(t.x))) ELSE Prefix(PrefixName(t.o), Tree(t.x))
             [] t.d = "suf" -> Suffix(SuffixName(t.o), Tree(t.x))
             [] t.d = "in" -> Join(t.o, Tree(t.l), Tree(t.r))
             [] t.d = "juxt" -> Times([k \in 1..Len(t.s) |-> Factor(TokOf(t.s[k]).v)])
Whole == Readings(1, Len(text))
V == Verdict(P)
OneReading == (text # <<>> /\ V.k = "ok") => Cardinality(Whole) = 1 /\ Tree(CHOOSE t \in Whole : TRUE) = V.t
RefusedHaveNone == Lost(P) => Whole = {}
(* with blanks between the tokens that could run together *)
Rendered == [n \in 1..(2 * Len(text)) |-> IF n % 2 = 0 THEN text[n \div 2]
              ELSE IF n > 1 /\ IsFactor(text[(n + 1) \div 2]) /\ IsFactor(text[(n - 1) \div 2]) THEN " " ELSE ""]
Emitted == (text # <<>> /\ (V.k = "ok" \/ Lost(P))) => Emit(Rendered)
=============================================================================
