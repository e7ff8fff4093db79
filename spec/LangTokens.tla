----------------------------- MODULE LangTokens ------------------------------
(* Tokens of the design models, by their spelling, and texts made of them.    *)
EXTENDS LangParse, TLC
TokOf(s) == CASE s \in {"a", "b", "f", "true", "let"} -> [k |-> "word", v |-> Sym(<<s>>)]
              [] s \in {"1", "2", "3"} -> [k |-> "num", v |-> Num(s)]
              [] s = "1.5" -> [k |-> "num", v |-> Dec(s)]
              [] s = "#1" -> [k |-> "slot", v |-> Fn(<<"std", "core", "slot">>, <<Num("1")>>)]
              [] s = "\"s\"" -> [k |-> "str", v |-> Str("s")]
              [] OTHER -> [k |-> s, v |-> None]
IsAtom(s) == TokOf(s).k \in {"word", "num", "str", "slot"}
IsFactor(s) == TokOf(s).k \in {"word", "num"}
(* a text is a sequence of spellings, a blank is " " and a newline "~a~" *)
GapOf(s) == CASE s = " " -> "blank" [] s = "~a~" -> "break"
IsGap(s) == s \in {" ", "~a~"}
Feed(P, gap, s) == Step(P, TokOf(s), gap)
(* the machine after a text *)
Run(text) == FoldLeft(LAMBDA r, s : IF IsGap(s) THEN <<r[1], IF GapOf(s) = "break" \/ r[2] = "break" THEN "break" ELSE "blank">>
                                    ELSE <<Feed(r[1], r[2], s), "none">>, <<Start, "none">>, text)[1]
Answer(text) == Verdict(Run(text))
Spelled(text) == FoldLeft(LAMBDA a, s : a \o s, "", text)
Emit(text) == PrintT("TEXT " \o Spelled(text))
=============================================================================
