------------------------------ MODULE MCLayout -------------------------------
(* Layout. At every state that texts up to Size tokens lead to, and for every *)
(* next token, layout in front of the token either changes nothing, or the    *)
(* place is tight: behind a prefix, in front of a suffix, a factor, a call's  *)
(* or a subscript's bracket or a prefixed string. A newline in a tight place  *)
(* is always refused, so it never silently changes the reading.               *)
(* Brackets around a whole expression, empty statements before and after it   *)
(* and a terminator do not change it either.                                  *)
EXTENDS LangTokens
CONSTANTS Alphabet, Size, Deep, Variant

VARIABLES text, P
Init == text = <<>> /\ P = Start
Next == /\ ~Lost(P) /\ Len(text) < Size
        /\ \E s \in Alphabet : /\ s \in {"(", "["} => Len(P.st) <= Deep
                               /\ text' = Append(text, s) /\ P' = Feed(P, "none", s)
Spec == Init /\ [][Next]_<<text, P>>

Tight(s) == LET fr == TopFrame(P)
                k == TokOf(s).k IN
            CASE fr.ph \in {"start", "want"} -> fr.pre # <<>> /\ Variant # "loose-prefix"
              [] fr.ph \in {"fac", "done"} -> k \in {"word", "num", "str", "(", "["} \cup SuffixOps
              [] OTHER -> FALSE
Loose == ~Lost(P) => \A s \in Alphabet : ~Tight(s) =>
            LET x == Feed(P, "none", s) IN Feed(P, "blank", s) = x /\ Feed(P, "break", s) = x
NoSilentBreak == ~Lost(P) => \A s \in Alphabet : Tight(s) => Lost(Feed(P, "break", s)) \/ s \in {";"}
(* a blank in a tight place keeps the reading or is refused, except that two numbers or words can only be apart *)
BlankKeeps == ~Lost(P) => \A s \in Alphabet : LET x == Feed(P, "none", s)  y == Feed(P, "blank", s) IN Lost(y) \/ x = y

V == Verdict(P)
Plain == V.k = "ok" /\ V.t # Empty
Statement == Len(SelectSeq(text, LAMBDA s : s = ";")) > 0
Bracketed == Plain /\ ~Statement => LET W == Answer(<<"(">> \o text \o <<")">>) IN
                W.k = (IF V.t = Sym(<<"true">>) THEN "err" ELSE "ok") /\ (W.k = "ok" => W.t = V.t)
Statements == Plain => /\ Answer(<<";">> \o text) = V
                       /\ Answer(text \o <<";", ";">>) = V
                       /\ Answer(<<"~a~">> \o text \o <<"~a~">>) = V
-----------------------------------------------------------------------------
(* the same text with layout in the loose places, kept along the way *)
Places == LET step(r, s) == <<Feed(r[1], "none", s),
                              Append(r[2], LET Q == r[1] IN ~Q.err /\ Feed(Q, "break", s) = Feed(Q, "none", s)), 0>>
          IN  FoldLeft(step, <<Start, <<>>, 0>>, text)[2]
With(g) == [n \in 1..(2 * Len(text)) |-> IF n % 2 = 0 THEN text[n \div 2] ELSE IF Places[(n + 1) \div 2] THEN g ELSE ""]
Broken == V.k = "ok" => Answer(SelectSeq(With("~a~"), LAMBDA s : s # "")) = V
Emitted == (text # <<>> /\ V.k = "ok") => \A g \in {"", " ", "~9~", "~a~", "%%%c%%%", "//! c~a~", "~a~ ~d~"} : Emit(With(g))
(* layout in every single tight place is answered as well *)
Tried == (text # <<>> /\ V.k = "ok") => \A n \in 1..Len(text) : \A g \in {" ", "~a~", "%%%c%%%"} :
            Places[n] \/ Emit([m \in 1..(Len(text) + 1) |-> IF m < n THEN text[m] ELSE IF m = n THEN g ELSE text[m - 1]])
=============================================================================
