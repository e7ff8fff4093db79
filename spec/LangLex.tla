------------------------------ MODULE LangLex -------------------------------
(* The reader: the next piece of a text, which is layout or one token.        *)
(* Characters that are not printable ASCII are written ~hex~.                 *)
EXTENDS LangParse, BigNat

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Foreign == {"~e9~", "~3b1~", "~391~", "~4e2d~", "~44f~", "~10400~"}      \* letters that are known here
Digit == {"0","1","2","3","4","5","6","7","8","9"}
Letter == Lower \cup Upper \cup Foreign
WordChar == Letter \cup Digit \cup {"_", "~301~", "~663~"}
Newline == {"~a~", "~d~"}
Blank == {" ", "~9~", "~b~", "~c~", "~a0~", "~3000~", "~85~", "~2028~"}
Punct == {"(", ")", "[", "]", "+", "-", "*", "/", "^", ".", "~d7~", "~f7~", "~ac~"}
Foul == {"{", "}", "<", "=", ">", "?", "@", "|", "&", "$", "%", "'", "`", "\\", "~7e~",
         "~22c5~", "~2297~", "~2299~", "~2260~"}                          \* part of no supported token
Known == WordChar \cup Newline \cup Blank \cup Punct \cup Foul \cup
         {"", "\"", "#", "!", ",", ";", ":", "~b6~", "~204b~", "~ff0c~", "~ff1b~", "~ff1a~", "~2237~"}

(* character at i, "" beyond the end *)
At(cs, i) == IF i <= Len(cs) THEN cs[i] ELSE ""
Ahead(cs, i) == IF i + 63 < Len(cs) THEN i + 63 ELSE Len(cs)      \* long runs are passed in windows
RECURSIVE RunEnd(_, _, _)      \* first index at or after i whose character is not in S
RunEnd(cs, i, S) == LET h == Ahead(cs, i) IN
                    IF i > Len(cs) THEN i
                    ELSE IF \E j \in i..h : cs[j] \notin S THEN CHOOSE j \in i..h : cs[j] \notin S /\ \A k \in i..(j - 1) : cs[k] \in S
                    ELSE RunEnd(cs, h + 1, S)
RECURSIVE RunTo(_, _, _)       \* first index at or after i whose character is in S, or that is beyond the end
RunTo(cs, i, S) == LET h == Ahead(cs, i) IN
                   IF i > Len(cs) THEN i
                   ELSE IF \E j \in i..h : cs[j] \in S THEN CHOOSE j \in i..h : cs[j] \in S /\ \A k \in i..(j - 1) : cs[k] \notin S
                   ELSE RunTo(cs, h + 1, S)
(* the characters i..j-1 as one string, joined by halves so that few strings are made *)
RECURSIVE Text(_, _, _)
Text(cs, i, j) == IF j - i > 6 THEN LET h == (i + j) \div 2 IN Text(cs, i, h) \o Text(cs, h, j)
                  ELSE FoldLeft(LAMBDA a, c : a \o c, "", SubSeq(cs, i, j - 1))
Looking(cs, i, t) == i + Len(t) - 1 <= Len(cs) /\ \A n \in 1..Len(t) : cs[i + n - 1] = t[n]

-----------------------------------------------------------------------------
(* layout *)
LineEnd(cs, i) == RunTo(cs, i, Newline)
RECURSIVE Find(_, _, _)
Find(cs, i, t) == LET p == RunTo(cs, i, {t[1]}) IN IF p > Len(cs) THEN 0 ELSE IF Looking(cs, p, t) THEN p ELSE Find(cs, p + 1, t)
Percents == <<"%", "%", "%">>
LineComments == {<<"/", "/", c>> : c \in {"/", "?", "!", "*"}}

(* numbers *)
RECURSIVE ByteEnd(_, _, _)
ByteEnd(cs, i, S) == IF At(cs, i) \in S THEN ByteEnd(cs, RunEnd(cs, i, S), S)
                     ELSE IF At(cs, i) = "_" /\ At(cs, i + 1) \in S THEN ByteEnd(cs, i + 2, S) ELSE i
HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
DigitValue(c) == LET low == CHOOSE n \in 0..16 : n = 16 \/ HexDigits[n + 1] = c IN
                 IF low < 16 THEN low ELSE 9 + (CHOOSE n \in 1..6 : <<"A","B","C","D","E","F">>[n] = c)
Radix(c) == CASE c \in {"b", "B"} -> 2 [] c \in {"o", "O"} -> 8 [] c \in {"x", "X"} -> 16 [] OTHER -> 0
RadixDigits(r) == {HexDigits[n] : n \in 1..r} \cup (IF r = 16 THEN {"A","B","C","D","E","F"} ELSE {})
RadixValue(cs, r) == FoldLeft(LAMBDA n, c : IF c = "_" THEN n ELSE NatAdd(NatMulSmall(n, r), NatOf(DigitValue(c))), <<>>, cs)
Pad3(n) == (IF n < 100 THEN "0" ELSE "") \o (IF n < 10 THEN "0" ELSE "") \o ToString(n)
NatText(a) == IF a = <<>> THEN "0"
              ELSE FoldLeft(LAMBDA t, x : t \o Pad3(x), ToString(a[Len(a)]), Tail(Reverse(a)))

RECURSIVE NoZeros(_, _, _)
NoZeros(cs, i, j) == IF j > i /\ cs[j - 1] = "0" THEN NoZeros(cs, i, j - 1) ELSE j      \* end without trailing zeros
Tok(kind, v, end) == [k |-> kind, v |-> v, end |-> end]
Number(cs, i) ==
  LET r == IF cs[i] = "0" THEN Radix(At(cs, i + 1)) ELSE 0
      b == IF r = 0 THEN 0 ELSE ByteEnd(cs, i + 2, RadixDigits(r))
      j == IF cs[i] = "0" THEN i + 1 ELSE RunEnd(cs, i, Digit)
  IN  IF r # 0 /\ b > i + 2 /\ At(cs, b) \notin Digit
      THEN Tok("num", Num(NatText(RadixValue(SubSeq(cs, i + 2, b - 1), r))), b)
      \* no leading zeros, and no digit that the radix does not have
      ELSE IF cs[i] = "0" /\ At(cs, IF r = 0 THEN j ELSE j + 1) \in Digit THEN Tok("bad", None, j)
      ELSE IF At(cs, j) = "." /\ At(cs, j + 1) \in Digit
      THEN LET e == RunEnd(cs, j + 1, Digit)
               z == NoZeros(cs, j + 1, e)
           IN  Tok("num", Dec(Text(cs, i, IF z = j + 1 THEN j ELSE z)), e)
      ELSE Tok("num", Num(Text(cs, i, j)), j)

(* words: names joined by :: without layout *)
StartsName(cs, i) == At(cs, i) \in Letter \/ (At(cs, i) = "_" /\ At(cs, i + 1) \in WordChar)
Joint(cs, i) == IF At(cs, i) = "~2237~" /\ StartsName(cs, i + 1) THEN i + 1
                ELSE IF At(cs, i) = ":" /\ At(cs, i + 1) = ":" /\ StartsName(cs, i + 2) THEN i + 2 ELSE 0
RECURSIVE Word(_, _, _)
Word(cs, i, path) == LET e == RunEnd(cs, i, WordChar)
                         p == Append(path, Text(cs, i, e))
                         n == Joint(cs, e)
                     IN  IF n > 0 THEN Word(cs, n, p) ELSE Tok("word", Sym(p), e)

(* strings: " with \" and \\ passed over, or three quotes, any more, text, and as many again *)
RECURSIVE QuoteEnd(_, _)
QuoteEnd(cs, i) == LET p == RunTo(cs, i, {"\"", "\\"}) IN
                   IF p > Len(cs) THEN 0
                   ELSE IF cs[p] = "\"" THEN p
                   ELSE IF At(cs, p + 1) \in {"\"", "\\"} THEN QuoteEnd(cs, p + 2)
                   ELSE QuoteEnd(cs, p + 1)
String(cs, i) ==
  LET s == RunEnd(cs, i, {"\""})
      n == s - i
      b == IF n >= 3 THEN Find(cs, s, [q \in 1..n |-> "\""]) ELSE 0
      e == QuoteEnd(cs, i + 1)
  IN  IF b > 0 THEN Tok("str", Str(Text(cs, s, b)), b + n)
      ELSE IF e > 0 THEN Tok("str", Str(Text(cs, i + 1, e)), e + 1)
      ELSE Tok("bad", None, i + 1)

(* slots and the history *)
PositiveEnd(cs, i) == IF At(cs, i) \in Digit \ {"0"} THEN RunEnd(cs, i, Digit) ELSE i
Slot(cs, i) ==
  IF At(cs, i + 1) = "#"
  THEN LET e == PositiveEnd(cs, i + 2) IN
       Tok("slot", Fn(<<"std", "core", "slot_sequence">>, IF e = i + 2 THEN <<>> ELSE <<Num(Text(cs, i + 2, e))>>), e)
  ELSE LET h == <<"std", "core", "slot">> IN
       IF StartsName(cs, i + 1) THEN LET e == RunEnd(cs, i + 1, WordChar) IN Tok("slot", Fn(h, <<Str(Text(cs, i + 1, e))>>), e)
       ELSE IF At(cs, i + 1) = "0" /\ At(cs, i + 2) \notin Digit THEN Tok("slot", Fn(h, <<Num("0")>>), i + 2)
       ELSE LET e == PositiveEnd(cs, i + 1) IN Tok("slot", Fn(h, IF e = i + 1 THEN <<>> ELSE <<Num(Text(cs, i + 1, e))>>), e)
History(cs, i, mark, name) ==
  LET e == PositiveEnd(cs, i + 1)
      m == RunEnd(cs, i, {mark})
      n == IF e > i + 1 THEN Text(cs, i + 1, e) ELSE "-" \o ToString(m - i)
  IN  Tok("slot", Fn(<<"std", "repl", name>>, <<Num(n)>>), IF e > i + 1 THEN e ELSE m)

-----------------------------------------------------------------------------
(* the piece of cs that begins at i: kind layout, open (the text leaves the   *)
(* known alphabet) or a token                                                 *)
Piece(cs, i) ==
  LET ch == cs[i] IN
  CASE ch \in Blank -> Tok("layout", "blank", i + 1)
    [] ch \in Newline -> Tok("layout", "break", i + 1)
    [] Looking(cs, i, Percents) /\ Find(cs, i + 3, Percents) > 0 -> Tok("layout", "break", Find(cs, i + 3, Percents) + 3)
    [] \E t \in LineComments : Looking(cs, i, t) -> Tok("layout", "break", LineEnd(cs, i + 3))
    [] ch \in Digit -> Number(cs, i)
    [] StartsName(cs, i) -> Word(cs, i, <<>>)
    [] ch = "\"" -> String(cs, i)
    [] ch = "#" -> Slot(cs, i)
    [] ch = "~b6~" -> History(cs, i, ch, "input")
    [] ch = "~204b~" -> History(cs, i, ch, "output")
    [] ch = "!" -> IF At(cs, i + 1) = "!" THEN Tok("!!", None, i + 2) ELSE Tok("!", None, i + 1)
    [] ch \in {",", "~ff0c~"} -> Tok(",", None, i + 1)
    [] ch \in {";", "~ff1b~"} -> Tok(";", None, i + 1)
    [] ch \in {":", "~ff1a~"} -> Tok(":", None, i + 1)
    [] ch \in Punct -> Tok(ch, None, i + 1)
    [] ch \in Foul \cup {"_", "~2237~"} -> Tok("bad", None, i + 1)
    [] OTHER -> Tok("open", None, i + 1)

(* the reader of a text: position, layout since the last token, parser *)
Reader == [i |-> 1, gap |-> "none", P |-> Start]
Wider(g, h) == IF g = "break" \/ h = "break" THEN "break" ELSE h
Read(cs, R) ==
  LET p == Piece(cs, R.i) IN
  CASE p.k = "layout" -> [R EXCEPT !.i = p.end, !.gap = Wider(R.gap, p.v)]
    [] p.k = "open" -> [R EXCEPT !.i = Len(cs) + 1, !.P = [Failed(R.P) EXCEPT !.any = TRUE]]
    [] OTHER -> LET Q == Step(R.P, [k |-> p.k, v |-> p.v], R.gap)
                    \* an unknown character that may belong to the token that failed
                    near == \E j \in p.end..(p.end + 2) : At(cs, j) \notin Known
                IN  IF Q.err THEN [R EXCEPT !.i = Len(cs) + 1, !.P = [Q EXCEPT !.any = @ \/ near]]
                    ELSE [R EXCEPT !.i = p.end, !.gap = "none", !.P = Q]
Finished(cs, R) == R.i > Len(cs)
RECURSIVE ReadAll(_, _)
ReadAll(cs, R) == IF Finished(cs, R) THEN R ELSE ReadAll(cs, Read(cs, R))
Meaning(cs) == Verdict(ReadAll(cs, Reader).P)
=============================================================================
