------------------------------ MODULE LangTree ------------------------------
(* Expression trees of the language and the operator table.                   *)
(* A tree is a record with a kind k:                                          *)
(*   int, dec, str, bool  v: text of the value      sym  v: path of names     *)
(*   fn  v: path of the head, g: argument groups [a: arguments, o: options]   *)
(*   empty  no expression            bad  no tree at all (specification only) *)
EXTENDS Integers, Sequences, SequencesExt

Empty == [k |-> "empty"]
Bad == [k |-> "bad"]
None == [k |-> "none"]
Num(t) == [k |-> "int", v |-> t]
Dec(t) == [k |-> "dec", v |-> t]
Str(t) == [k |-> "str", v |-> t]
Bool(t) == [k |-> "bool", v |-> t]
Sym(p) == [k |-> "sym", v |-> p]
Group(a) == [a |-> a, o |-> <<>>]
Fn(p, a) == [k |-> "fn", v |-> p, g |-> <<Group(a)>>]
Infix(o, a) == Fn(<<"std", "infix", o>>, a)
Prefix(o, x) == Fn(<<"std", "prefix", o>>, <<x>>)
Suffix(o, x) == Fn(<<"std", "suffix", o>>, <<x>>)

(* the operator table: ~d7~ and ~f7~ are the multiplication and division signs *)
InfixOps == {"+", "-", "*", "~d7~", "/", "~f7~", "^", "."}
Level(o) == CASE o \in {"+", "-"} -> 310
              [] o \in {"*", "~d7~"} -> 400
              [] o \in {"/", "~f7~"} -> 470
              [] o = "^" -> 590
              [] o = "." -> 900
ToRight(o) == o = "^"
InfixName(o) == CASE o = "+" -> "add" [] o = "-" -> "subtract" [] o \in {"*", "~d7~"} -> "times"
                  [] o \in {"/", "~f7~"} -> "divide" [] o = "^" -> "power" [] OTHER -> o
InfixOf(n) == CASE n = "add" -> "+" [] n = "subtract" -> "-" [] n = "times" -> "*"
                [] n = "divide" -> "/" [] n = "power" -> "^" [] OTHER -> n
PrefixOps == {"+", "-", "*", "!", "~ac~"}
PrefixName(o) == CASE o = "+" -> "plus" [] o = "-" -> "minus" [] o = "*" -> "unpack" [] o \in {"!", "~ac~"} -> "not"
PrefixOf(n) == CASE n = "plus" -> "+" [] n = "minus" -> "-" [] n = "unpack" -> "*" [] n = "not" -> "!"
SuffixOps == {"!", "!!"}
SuffixName(o) == IF o = "!" THEN "factorial" ELSE "factorial2"
SuffixOf(n) == IF n = "factorial" THEN "!" ELSE "!!"

IsOp(t) == t.k = "fn" /\ Len(t.v) = 3 /\ t.v[1] = "std" /\ t.v[2] \in {"infix", "prefix", "suffix"}
IsInfix(t) == IsOp(t) /\ t.v[2] = "infix"
IsPrefixed(t) == IsOp(t) /\ t.v[2] = "prefix"
IsSuffixed(t) == IsOp(t) /\ t.v[2] = "suffix"
ArgsOf(t) == t.g[1].a

Times(fs) == Infix("times", fs)
Apply(f, g) == IF f.k = "sym" THEN [k |-> "fn", v |-> f.v, g |-> <<g>>] ELSE [f EXCEPT !.g = Append(@, g)]
Index(x, is) == Fn(<<"std", "core", "Index">>, <<x>> \o is)
Span(a, b, c) == Fn(<<"std", "core", "Span">>, <<a, b, c>>)
ListOf(xs) == Fn(<<"std", "containers", "List">>, xs)
All == Sym(<<"std", "core", "All">>)

(* x.f is f(x), x.f(a) is f(x, a), x.3 is the third element *)
DotCall(l, r) ==
  CASE r.k = "sym" -> Fn(r.v, <<l>>)
    [] r.k = "fn" /\ ~IsOp(r) -> [r EXCEPT !.g[1].a = <<l>> \o @]
    [] r.k = "int" -> Fn(<<"std", "core", "index">>, <<l, r>>)
    [] OTHER -> Infix(".", <<l, r>>)
Join(o, l, r) == IF o = "." THEN DotCall(l, r) ELSE Infix(InfixName(o), <<l, r>>)

(* an option given twice keeps the last value *)
SetOption(os, key, val) == Append(SelectSeq(os, LAMBDA p : p[1] # key), <<key, val>>)

-----------------------------------------------------------------------------
(* equality of trees; options are a mapping, their order means nothing *)
RECURSIVE Same(_, _)
SameAll(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : Same(xs[i], ys[i])
SameOptions(os, qs) == /\ Len(os) = Len(qs)
                       /\ \A i \in 1..Len(os) : \E j \in 1..Len(qs) : Same(os[i][1], qs[j][1]) /\ Same(os[i][2], qs[j][2])
Same(x, y) == /\ x.k = y.k
              /\ CASE x.k = "fn" -> /\ x.v = y.v /\ Len(x.g) = Len(y.g)
                                    /\ \A i \in 1..Len(x.g) : SameAll(x.g[i].a, y.g[i].a) /\ SameOptions(x.g[i].o, y.g[i].o)
                   [] x.k \in {"empty", "bad", "none"} -> TRUE
                   [] OTHER -> x.v = y.v

(* a product of several factors and the products of two it stands for *)
RECURSIVE Pairwise(_)
Pairwise(t) == IF t.k # "fn" THEN t
               ELSE LET as == [i \in 1..Len(ArgsOf(t)) |-> Pairwise(ArgsOf(t)[i])] IN
                    IF IsInfix(t) /\ Len(as) > 2 THEN FoldLeft(LAMBDA l, r : Fn(t.v, <<l, r>>), as[1], Tail(as))
                    ELSE [t EXCEPT !.g[1].a = as]

(* trees made of operators over numbers, booleans and symbols only *)
RECURSIVE IsOperatorTree(_)
IsOperatorTree(t) == \/ t.k \in {"int", "dec", "bool", "sym"}
                     \/ /\ IsOp(t) /\ Len(t.g) = 1 /\ t.g[1].o = <<>> /\ t.v[3] # "."
                        /\ \A i \in 1..Len(ArgsOf(t)) : IsOperatorTree(ArgsOf(t)[i])
=============================================================================
