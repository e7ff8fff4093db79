----------------------------- MODULE LangQuery ------------------------------
(* What is asked about an expression tree: its head, the built-in functions   *)
(* applied to it directly, its TeX form. Trees may be built by hand here:     *)
(* negative integers, calls without groups (k = fn, g empty), programs.       *)
EXTENDS LangEval, LangExport

(* a call of several groups is the call without the last one, applied to it *)
Core(n) == Sym(<<"std", "core", n>>)
HeadOf(t) == CASE t.k = "fn" -> IF Len(t.g) = 0 THEN Core("Symbol")
                                ELSE IF Len(t.g) = 1 THEN Sym(t.v)
                                ELSE [t EXCEPT !.g = SubSeq(@, 1, Len(@) - 1)]
               [] t.k = "bool" -> Core("Boolean")
               [] t.k = "int" -> Core("Integer")
               [] t.k = "dec" -> Core("Decimal")
               [] t.k = "sym" -> Core("Symbol")
               [] t.k = "str" -> Core("String")
               [] OTHER -> Empty

-----------------------------------------------------------------------------
(* TeX: every literal, argument and operand in its place *)
Joined(ss, sep) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, s : a \o sep \o s, Head(ss), Tail(ss))
BS == "\\\\"                                                  \* commands begin with two backslashes
Direct == {"sin", "cos", "tan", "cot", "sec", "csc", "arcsin", "arccos", "arctan"}
Named == {"arccot", "arcsec", "arccsc", "arcsinh", "arccosh", "arctanh", "arccoth", "arcsech", "arccsch"}
ListHead == <<"std", "containers", "List">>
IsSum(t) == IsInfix(t) /\ t.v[3] \in {"add", "times"}
IsTerm(t) == t.k = "int" \/ (t.k = "sym" /\ Len(t.v) = 1)

(* the trees whose TeX form is specified: literals, lists, calls without      *)
(* options, and sums and products of integers and plain symbols              *)
RECURSIVE HasTex(_)
HasTex(t) == CASE t.k # "fn" -> t.k \notin {"program", "bad"}
               [] IsSum(t) -> Len(t.g) = 1 /\ t.g[1].o = <<>> /\ Len(ArgsOf(t)) > 1 /\ \A i \in 1..Len(ArgsOf(t)) : IsTerm(ArgsOf(t)[i])
               [] IsOp(t) -> FALSE
               [] OTHER -> /\ Len(t.g) > 0 /\ \A i \in 1..Len(t.g) : t.g[i].o = <<>> /\ \A j \in 1..Len(t.g[i].a) : HasTex(t.g[i].a[j])
                           /\ t.v[Len(t.v)] \in Direct \cup Named => Len(t.v) = 1
                           /\ t.v[Len(t.v)] = "List" => t.v = ListHead /\ Len(t.g) = 1
                           /\ t.v # <<"std", "List">>
Wide(t) == IsSum(t)
RECURSIVE TexOf(_)
TexGroup(g) == BS \o "left(" \o Joined([i \in 1..Len(g.a) |-> TexOf(g.a[i])], ", ") \o BS \o "right)"
TexTrig(g) == LET a == [i \in 1..Len(g.a) |-> TexOf(g.a[i])] IN
              IF Len(a) = 1 /\ ~Wide(g.a[1]) THEN " " \o a[1] ELSE "(" \o Joined(a, ", ") \o ")"
TexOf(t) ==
  CASE t.k \in {"int", "dec"} -> t.v
    [] t.k = "sym" -> t.v[Len(t.v)]
    [] t.k = "str" -> BS \o "text{" \o t.v \o "}"
    [] t.k = "bool" -> BS \o "mathtt{" \o t.v \o "}"
    [] t.k = "empty" -> ""
    [] IsSum(t) -> LET a == [i \in 1..Len(ArgsOf(t)) |-> IF ArgsOf(t)[i].k = "int" THEN ArgsOf(t)[i].v ELSE ArgsOf(t)[i].v[1]]
                   IN  Joined(a, IF t.v[3] = "add" THEN " + " ELSE " ")
    [] t.v = ListHead -> BS \o "{" \o Joined([i \in 1..Len(ArgsOf(t)) |-> TexOf(ArgsOf(t)[i])], ", ") \o BS \o "}"
    [] OTHER -> LET n == t.v[Len(t.v)]
                    rest(j) == Joined([i \in 1..(Len(t.g) - j) |-> TexGroup(t.g[i + j])], "")
                IN  CASE n \in Direct -> BS \o n \o TexTrig(t.g[1]) \o rest(1)
                      [] n \in Named -> BS \o "operatorname{" \o n \o "}" \o TexTrig(t.g[1]) \o rest(1)
                      [] OTHER -> BS \o "operatorname{" \o n \o "}" \o rest(0)

-----------------------------------------------------------------------------
(* the built-in functions on any tree; integers may be negative *)
Negative(t) == t.k = "int" /\ SubSeq(t.v, 1, 1) = "-"
Size(t) == IF Negative(t) THEN NatFrom(SubSeq(t.v, 2, Len(t.v))) ELSE NatFrom(t.v)
Fails(e) == Causes({e})
Called(f, t) ==
  CASE f \in {"first", "last", "length"} ->
         IF t.k # "str" THEN Fails("unimplemented")
         ELSE Unary(f, t)
    [] t.k # "int" -> Fails("unimplemented")
    [] f = "factorial" /\ Negative(t) -> Fails("infinity")
    [] NatCmp(Size(t), IF Negative(t) THEN NatAdd(I64Max, <<1>>) ELSE I64Max) > 0 -> Fails("overflow")
    [] f = "factorial" -> Factorial(NatVal(Size(t)))
    [] f = "fibonacci" -> Fibonacci(NatVal(Size(t)))

(* F(-n) = (-1)^(n+1) F(n) *)
SignOK(f, t, v) == (f = "fibonacci" /\ Negative(t) /\ Size(t)[1] % 2 = 0) = (SubSeq(v, 1, 1) = "-")
Unsigned(v) == IF SubSeq(v, 1, 1) = "-" THEN SubSeq(v, 2, Len(v)) ELSE v
CallOK(f, t, r) ==
  LET x == Called(f, t) IN
  CASE x.k = "error" -> r.k = "err" /\ r.e \in x.e
    [] x.k = "exactly" -> r.k = "ok" /\ Same(r.t, x.t)
    [] OTHER -> /\ r.k = "ok" /\ r.t.k = "int" /\ IsNumeral(Unsigned(r.t.v)) /\ NumberOK(x, NatFrom(Unsigned(r.t.v)))
                /\ SignOK(f, t, r.t.v)

AskedOK(f, t, r) ==
  CASE f = "head" -> r.k = "ok" /\ Same(r.t, HeadOf(t))
    [] f = "tex" -> HasTex(t) => r.k = "ok" /\ Text(r.c, 1, Len(r.c) + 1) = TexOf(t)
    [] f = "wolfram" -> r.k = "ok" /\ Mirrors(t, r.t)
    [] OTHER -> CallOK(f, t, r)
=============================================================================
