------------------------------- MODULE MCParse -------------------------------
(* The control structure of the parser machine, explored through its VIEW:    *)
(* the frames with their phase, waiting operators and parts, without the      *)
(* values. One text is written for every transition, completed to a whole     *)
(* program: it reaches every state of the control structure, with every token *)
(* and every layout in front of it, and is sent to the real parser.           *)
EXTENDS LangTokens
CONSTANTS Alphabet, Deep, MaxOps, Rate

VARIABLES text, P
Cap(n, m) == IF n < m THEN n ELSE m
Kinds(fs) == [i \in 1..Cap(Len(fs), 2) |-> LET f == fs[IF i = 1 THEN 1 ELSE Len(fs)] IN
                IF f.k = "sym" /\ Len(f.v) = 1 /\ f.v[1] \in Constants THEN "constant" ELSE f.k]
ShapeOf(fr) == <<fr.f, fr.ph, Cap(Len(fr.pre), 1), Kinds(fr.facs), [i \in 1..Len(fr.ops) |-> Level(fr.ops[i])],
                 Cap(Len(fr.items), 1), fr.key # <<>>, Cap(fr.commas, 1), Len(fr.bounds)>>
Under(fr) == <<fr.f, fr.ph, fr.key # <<>>, Len(fr.bounds), fr.ops # <<>>>>
Shape == IF P.err THEN <<"err">> ELSE <<P.maybe>> \o [i \in 1..Len(P.st) |-> IF i = Len(P.st) THEN ShapeOf(P.st[i]) ELSE Under(P.st[i])]

(* what completes the program after a state: an operand where one must follow, then the brackets *)
Operandless(fr) == fr.ph = "want" \/ (fr.ph = "start" /\ (fr.f = "paren" \/ fr.key # <<>> \/ (fr.f = "subs" /\ fr.items = <<>> /\ fr.bounds = <<>>)))
                   \/ (fr.ph = "fac" /\ Node(fr) = Bad)
Bracket(f) == CASE f \in {"paren", "args"} -> <<")">> [] f \in {"list", "subs"} -> <<"]">> [] OTHER -> <<>>
Ending == IF P.err THEN <<>>
          ELSE LET n == Len(P.st)
                   first == IF Operandless(P.st[n]) THEN (IF P.st[n].ph = "fac" THEN <<" ", "1">> ELSE <<"1">>) ELSE <<>>
               IN  FoldRight(LAMBDA fr, r : r \o Bracket(fr.f), P.st, first)

Init == text = <<>> /\ P = Start
Next == /\ ~P.err
        /\ \E s \in Alphabet, g \in {"", " ", "~a~"} :
             /\ s \in {"(", "["} => Len(P.st) <= Deep
             /\ s \in InfixOps => Len(TopFrame(P).ops) < MaxOps \/ (TopFrame(P).ops # <<>> /\ (Level(Last(TopFrame(P).ops)) > Level(s) \/ (Level(Last(TopFrame(P).ops)) = Level(s) /\ ~ToRight(s))))
             /\ text' = text \o (IF g = "" THEN <<s>> ELSE <<g, s>>)
             /\ P' = Feed(P, IF g = "" THEN "none" ELSE GapOf(g), s)
             /\ (IF Rate = 1 THEN TRUE ELSE RandomElement(1..Rate) = 1) => Emit(text' \o Ending')
Spec == Init /\ [][Next]_<<text, P>>

(* the stack is well formed *)
Frames == ~P.err => /\ Len(P.st) > 0 /\ P.st[1].f = "top" /\ \A i \in 2..Len(P.st) : P.st[i].f # "top"
                    /\ \A i \in 1..Len(P.st) : LET fr == P.st[i] IN
                         /\ Len(fr.vals) = Len(fr.ops)
                         /\ \A j \in 1..(Len(fr.ops) - 1) : Level(fr.ops[j]) < Level(fr.ops[j + 1]) \/ (fr.ops[j] = "^" /\ fr.ops[j + 1] = "^")
                         /\ fr.ph = "fac" => fr.facs # <<>>
                         /\ i < Len(P.st) /\ P.st[i + 1].f = "subs" => fr.ph \in {"fac", "done"}
                         /\ i < Len(P.st) /\ P.st[i + 1].f = "args" => fr.ph = "fac"
                         /\ i < Len(P.st) /\ P.st[i + 1].f \in {"paren", "list"} => fr.ph \in {"start", "want"}
                         /\ Len(fr.bounds) <= 2 /\ (fr.bounds # <<>> => fr.f = "subs") /\ (fr.key # <<>> => fr.f = "args")
(* every text that is not refused so far can be completed *)
Completable == ~P.err => LET m == Answer(text \o Ending) IN IF Len(P.st[1].items) > 0 THEN m.k # "err" \/ "unimplemented" \in m.e ELSE m.k \in {"ok", "maybe"}
=============================================================================
