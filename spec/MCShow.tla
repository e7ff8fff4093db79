------------------------------- MODULE MCShow --------------------------------
(* Displaying. Every operator tree up to two levels (and three of a smaller   *)
(* set) is displayed with the brackets its grouping needs, and the parser     *)
(* machine reads the same tree back; so it does with every bracket written    *)
(* out. The variants leave brackets out.                                      *)
EXTENDS LangTokens
CONSTANTS Levels, InfixSigns, PrefixSigns, SuffixSigns, Leaves, Many, Variant

Leaf(s) == LET v == TokOf(s).v IN IF v.k = "sym" THEN Lone(v.v) ELSE v
RECURSIVE Trees(_)
Trees(n) == IF n = 0 THEN {Leaf(s) : s \in Leaves}
            ELSE LET k == Trees(n - 1) IN
                 k \cup {Infix(InfixName(o), <<x, y>>) : o \in InfixSigns, x \in k, y \in k}
                   \cup {Prefix(PrefixName(o), x) : o \in PrefixSigns, x \in k}
                   \cup {Suffix(SuffixName(o), x) : o \in SuffixSigns, x \in k}
                   \cup (IF Many THEN {Times(<<x, y, z>>) : x \in k, y \in Trees(0), z \in k} ELSE {})

Spelling(t) == IF t.k = "sym" THEN t.v[1] ELSE t.v
Bracket(ts) == <<"(">> \o ts \o <<")">>
(* brackets around an operand of an infix operator o, the first or a later one *)
Needs(t, o, first) ==
  IF ~IsInfix(t) THEN FALSE
  ELSE LET p == InfixOf(t.v[3]) IN
       CASE Variant = "right" -> Level(p) < Level(o) \/ (Level(p) = Level(o) /\ first = ToRight(o))
         [] Variant = "lower-only" -> Level(p) < Level(o)
         [] Variant = "suffix-flat" -> Level(p) < Level(o) \/ (Level(p) = Level(o) /\ first = ToRight(o))
RECURSIVE Show(_)
Side(t, o, first) == IF Needs(t, o, first) THEN Bracket(Show(t)) ELSE Show(t)
Show(t) ==
  IF ~IsOp(t) THEN <<Spelling(t)>>
  ELSE LET as == ArgsOf(t) IN
       CASE IsPrefixed(t) -> <<PrefixOf(t.v[3])>> \o (IF IsInfix(as[1]) THEN Bracket(Show(as[1])) ELSE Show(as[1]))
         [] IsSuffixed(t) -> (IF IsOp(as[1]) /\ Variant # "suffix-flat" THEN Bracket(Show(as[1])) ELSE Show(as[1])) \o <<SuffixOf(t.v[3])>>
         [] OTHER -> LET o == InfixOf(t.v[3])
                         sh == [i \in 1..Len(as) |-> Side(as[i], o, i = 1)]
                     IN  FoldLeft(LAMBDA r, x : r \o <<o>> \o x, sh[1], Tail(sh))
RECURSIVE Full(_)
Full(t) == IF ~IsOp(t) THEN <<Spelling(t)>>
           ELSE LET as == ArgsOf(t)
                    b(x) == IF IsOp(x) THEN Bracket(Full(x)) ELSE Full(x)
                IN  CASE IsPrefixed(t) -> <<PrefixOf(t.v[3])>> \o b(as[1])
                      [] IsSuffixed(t) -> b(as[1]) \o <<SuffixOf(t.v[3])>>
                      [] OTHER -> FoldLeft(LAMBDA r, x : r \o <<InfixOf(t.v[3])>> \o b(x), b(as[1]), Tail(as))

VARIABLE tree
Init == tree \in Trees(Levels)
Next == FALSE /\ tree' = tree
Spec == Init /\ [][Next]_tree

Reads(ts) == LET v == Answer(ts) IN v.k = "ok" /\ Same(Pairwise(v.t), Pairwise(tree))
ShownReadsBack == Reads(Show(tree))
FullReadsBack == Reads(Full(tree))
(* and the operands and operators are all there, in order *)
RECURSIVE Leafs(_)
Leafs(x) == IF ~IsOp(x) THEN <<Spelling(x)>> ELSE FoldLeft(LAMBDA r, y : r \o Leafs(y), <<>>, ArgsOf(x))
InOrder == SelectSeq(Show(tree), IsAtom) = Leafs(tree)
Emitted == Emit(Full(tree))
=============================================================================
