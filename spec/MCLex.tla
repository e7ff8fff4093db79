-------------------------------- MODULE MCLex --------------------------------
(* The reader on every text up to Size characters over small alphabets: the   *)
(* pieces cover the text, words and numbers end where they must, and literal  *)
(* values are the ones a separate reading of their characters gives.          *)
EXTENDS LangLex, TLC, FiniteSets
CONSTANTS Alphabet, Size

VARIABLE cs
Init == cs = <<>>
Next == Len(cs) < Size /\ \E ch \in Alphabet : cs' = Append(cs, ch)
Spec == Init /\ [][Next]_cs

N == Len(cs)
(* the pieces from position i on *)
RECURSIVE Pieces(_)
Pieces(i) == IF i > N THEN <<>> ELSE LET p == Piece(cs, i) IN <<[i |-> i, p |-> p]>> \o Pieces(p.end)
Ps == Pieces(1)
Advancing == \A n \in 1..Len(Ps) : Ps[n].p.end > Ps[n].i /\ Ps[n].p.end <= N + 1
(* names and numbers are not cut short *)
Whole == \A n \in 1..Len(Ps) : LET q == Ps[n] IN
           /\ q.p.k = "word" => At(cs, q.p.end) \notin WordChar
           /\ q.p.k = "num" => At(cs, q.p.end) \notin Digit
           /\ q.p.k = "layout" => \/ cs[q.i] \in Blank \cup Newline
                                  \/ (cs[q.i] = "%" /\ q.p.end - q.i >= 6)
                                  \/ (cs[q.i] = "/" /\ (q.p.end > N \/ cs[q.p.end] \in Newline))
(* a text that is one number *)
Single(k) == N > 0 /\ Len(Ps) = 1 /\ Ps[1].p.k = k
Pieces1(v) == [n \in 1..Len(v) |-> SubSeq(v, n, n)]
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN 1 ELSE 10 * Ten(n - 1)
Native(v) == FoldLeft(LAMBDA n, ch : 10 * n + (CHOOSE d \in 0..9 : ToString(d) = ch), 0, v)
InRadix(r) == LET ds == SelectSeq(SubSeq(cs, 3, N), LAMBDA ch : ch # "_") IN FoldLeft(LAMBDA n, ch : r * n + DigitValue(ch), 0, ds)
AllDigits == \A n \in 1..N : cs[n] \in Digit
Numbers ==
  Single("num") =>
    LET v == Ps[1].p.v IN
    CASE AllDigits -> v.k = "int" /\ v.v = ToString(Native(cs)) /\ (N > 1 => cs[1] # "0")
      [] N > 2 /\ cs[2] \in {"b", "B"} -> v = Num(ToString(InRadix(2)))
      [] N > 2 /\ cs[2] \in {"o", "O"} -> v = Num(ToString(InRadix(8)))
      [] N > 2 /\ cs[2] \in {"x", "X"} -> v = Num(ToString(InRadix(16)))
      [] OTHER -> v.k = "dec" /\ Cardinality({n \in 1..N : cs[n] = "."}) = 1
                  /\ LET d == CHOOSE n \in 1..N : cs[n] = "."
                         whole == Native(SubSeq(cs, 1, d - 1))
                         frac == Native(SubSeq(cs, d + 1, N))
                         digits == SelectSeq(Pieces1(v.v), LAMBDA ch : ch # ".")
                         places == N - d
                         shown == IF \E n \in 1..Len(v.v) : SubSeq(v.v, n, n) = "." THEN Len(digits) - d + 1 ELSE 0
                     \* value * 10^places
                     IN  Native(digits) * Ten(places - shown) = whole * Ten(places) + frac
(* every single-number text is a number, unless a separator is misplaced *)
DigitsAreNumbers == (N > 0 /\ AllDigits /\ (N = 1 \/ cs[1] # "0")) => Single("num")
Strings ==
  LET body == SubSeq(cs, 2, N - 1) IN
  (N > 1 /\ cs[1] = "\"" /\ cs[N] = "\"" /\ \A n \in 1..(N - 2) : body[n] \notin {"\"", "\\"})
     => Single("str") /\ Ps[1].p.v = Str(Text(cs, 2, N))
(* a blank at the end changes nothing that was read, outside of strings and comments *)
Stable == LET ds == Append(cs, " ") IN
          \A n \in 1..Len(Ps) : LET q == Ps[n] IN
             q.p.k \in {"word", "num", "str", "slot"} => Piece(ds, q.i) = q.p
Emitted == PrintT("TEXT " \o Text(cs, 1, N + 1))
=============================================================================
