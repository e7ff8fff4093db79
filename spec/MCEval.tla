------------------------------- MODULE MCEval --------------------------------
(* The claims about evaluation, on a set of inputs small enough to know every *)
(* answer independently: native arithmetic for numbers, the characters of a   *)
(* string, and a list of inputs that have no answer.                          *)
EXTENDS LangEval, TLC
CONSTANTS Top, Variant

Cs(v) == [n \in 1..Len(v) |-> SubSeq(v, n, n)]
Ok(v) == [k |-> "ok", v |-> v]
Err == [k |-> "err"]
RECURSIVE Pw(_, _), Ft(_), Fb(_)
Pw(a, n) == IF n = 0 THEN 1 ELSE a * Pw(a, n - 1)
Ft(n) == IF n = 0 THEN 1 ELSE n * Ft(n - 1)
Fb(n) == IF n < 2 THEN n ELSE Fb(n - 1) + Fb(n - 2)
S(n) == ToString(n)

Arithmetic == UNION {{<<Cs(S(a) \o "+" \o S(b)), Ok(S(a + b))>>, <<Cs(S(a) \o " * " \o S(b)), Ok(S(a * b))>>,
                      <<Cs("(" \o S(a) \o ") ^" \o S(b)), IF a = 0 /\ b = 0 THEN [k |-> "free"] ELSE IF b > 8 THEN [k |-> "number"] ELSE Ok(S(Pw(a, b)))>>,
                      <<Cs(S(a) \o " " \o S(b)), Ok(S(a * b))>>}
                     : a \in 0..Top, b \in 0..Top}
Functions == {<<Cs("factorial(" \o S(n) \o ")"), Ok(S(Ft(n)))>> : n \in 0..12} \cup {<<Cs(S(n) \o ".fibonacci()"), Ok(S(Fb(n)))>> : n \in 0..25}
             \cup {<<Cs("fibonacci(" \o S(n) \o ",)"), Ok(S(Fb(n)))>> : n \in 0..25}
             \cup {<<Cs(S(n) \o "!"), Ok(S(Ft(n)))>> : n \in 0..12}
(* strings up to three characters, some of them of several bytes *)
Chars == {"a", "~4e2d~", "~301~", " "}
Bodies == {<<>>} \cup {<<x>> : x \in Chars} \cup {<<x, y>> : x, y \in Chars} \cup {<<x, y, z>> : x, y, z \in Chars}
Quoted(b) == <<"\"">> \o b \o <<"\"">>
Strings == UNION {{<<Cs("first(") \o Quoted(b) \o <<")">>, IF b = <<>> THEN Err ELSE Ok(b[1])>>,
                   <<Cs("last(") \o Quoted(b) \o <<")">>, IF b = <<>> THEN Err ELSE Ok(b[Len(b)])>>,
                   <<Quoted(b) \o Cs(".length()"), Ok(S(Len(b)))>>} : b \in Bodies}
(* no answer *)
Things == {"1", "1.5", "\"s\"", "true", "null", "a", "[1]", "f(1)", "1+1", "#1"}
Refused == {<<Cs(f \o "(" \o x \o ")"), Err>> : f \in {"factorial", "fibonacci"}, x \in Things \ {"1"}}
      \cup {<<Cs(f \o "(" \o x \o ")"), Err>> : f \in {"first", "last", "length"}, x \in Things \ {"\"s\""}}
      \cup {<<Cs(x \o o \o y), Err>> : o \in {"+", "*", "^"}, x \in Things \ {"1", "1+1"}, y \in Things \ {"1+1"}}
      \cup {<<Cs(x \o o \o y), Err>> : o \in {"-", "/"}, x \in Things \ {"1+1"}, y \in Things \ {"1+1"}}
      \cup {<<Cs(f \o g), Err>> : f \in {"factorial", "first", "last", "length", "fibonacci", "plus", "times", "power", "g"}, g \in {"()", "(1)(2)", "()()", "(1", ")"}}
      \cup {<<Cs(x), Err>> : x \in {"1+", "-1", "+1", "!true", "1!!", "[1, 2]", "[]", "a[1]", "#", "f(x)", "1 + 2 + 3", "(1 + 2) * 3", "2 ^ 3 ^ 2", "3!!", "1 - 1", "4 / 2",
                                    "plus(1)", "times(1, 2, 3)", "power(2)", "1; 2", "first(\"ab\").length()", "@", "{"}}
(* literals are their own answers *)
Literals == {<<Cs(x), [k |-> "self"]>> : x \in {"0", "7", "12345678901234567890", "1.5", "0.0625", "true", "false", "a", "a::b", "", ";", "\"\"", "\"s t\"", "(((7)))"}}
Limits == {<<Cs("2 ^ 4294967296"), Err>>, <<Cs("factorial(9223372036854775808)"), Err>>, <<Cs("fibonacci(99999999999999999999)"), Err>>,
           <<Cs("1 ^ 4294967295"), Ok("1")>>, <<Cs("0 ^ 4294967295"), Ok("0")>>, <<Cs("7 ^ 0"), Ok("1")>>}

Cases == Arithmetic \cup Functions \cup Strings \cup Refused \cup Literals \cup Limits
VARIABLE at
Init == at \in Cases
Next == FALSE /\ UNCHANGED at
Spec == Init /\ [][Next]_at

X == LET m == Meaning(at[1]) IN
     IF Variant = "right" THEN ClaimOf(m)
     ELSE IF m.k = "ok" /\ m.t.k = "fn" /\ m.t.v[Len(m.t.v)] = "power" THEN Binary("times", ArgsOf(m.t)) ELSE ClaimOf(m)   \* wrong
ValueOf(x) == CASE x.k = "exactly" -> x.t
              [] x.k = "power" -> Num(NatText(NatPow(x.a, x.n)))
              [] x.k = "factorial" -> Num(NatText(FactAt(x.n).f))
              [] x.k = "fibonacci" -> Num(NatText(FibAt(x.n).a))
              [] OTHER -> None
(* the claim about each input is the known answer, and judges it so *)
AsKnown == LET w == at[2] IN
           CASE w.k = "ok" -> ValueOf(X).k \in {"int", "str"} /\ ValueOf(X).v = w.v /\ OutputOK(X, ValueOf(X))
             [] w.k = "err" -> X.k = "error"
             [] w.k = "free" -> X.k = "free"
             [] w.k = "number" -> ValueOf(X).k = "int" /\ OutputOK(X, ValueOf(X))
             [] w.k = "self" -> X.k = "exactly" /\ X.t.k # "fn"
(* any other number or string is refused *)
Sharp == at[2].k = "ok" => LET v == ValueOf(X) IN
           IF v.k = "int" THEN ~OutputOK(X, Num(NatText(NatAdd(NatFrom(v.v), <<1>>)))) /\ ~OutputOK(X, Str(v.v)) /\ ~OutputOK(X, Num("0" \o v.v))
           ELSE ~OutputOK(X, Str(v.v \o "a"))
Emitted == PrintT("TEXT " \o Text(at[1], 1, Len(at[1]) + 1))
=============================================================================
