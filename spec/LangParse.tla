----------------------------- MODULE LangParse ------------------------------
(* The parser as a machine that consumes one token per step. Its state is a   *)
(* stack of frames, one per open bracket, under each other:                   *)
(*   top   the program          paren  ( expr )         args  f( ... )        *)
(*   list  [ ... ]              subs   x[ ... ]                               *)
(* A frame holds an operator-precedence parser for the expression it is in    *)
(* (vals, ops: operands and operators waiting for their right side) and the   *)
(* term being read: its prefixes, and its factors or its base.                *)
(*   ph = start   nothing of the current expression has been read             *)
(*        want    an operand must follow                                      *)
(*        fac     after a word, number or call: factors may still join        *)
(*        done    after any other complete operand                            *)
(*        over    (top only) after the terminator of a statement              *)
(* gap tells what stands between a token and its predecessor: nothing, blanks *)
(* on the same line, or a break (a newline or a comment).                     *)
EXTENDS LangTree

Frame(kind) == [f |-> kind, ph |-> "start", pre |-> <<>>, facs |-> <<>>, base |-> None, vals |-> <<>>, ops |-> <<>>,
                items |-> <<>>, opts |-> <<>>, key |-> <<>>, commas |-> 0, bounds |-> <<>>]
Start == [st |-> <<Frame("top")>>, err |-> FALSE, any |-> FALSE, maybe |-> FALSE, odd |-> FALSE]
Failed(P) == [P EXCEPT !.err = TRUE, !.st = <<>>]

TopFrame(P) == P.st[Len(P.st)]
Put(P, fr) == [P EXCEPT !.st[Len(P.st)] = fr]
Push(P, fr) == [P EXCEPT !.st = Append(@, fr)]
Pop(P) == [P EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]

Constants == {"true", "false", "null"}
(* a word that stands alone is a constant or a symbol *)
Lone(p) == IF p[1] \notin Constants THEN Sym(p)
           ELSE IF Len(p) > 1 THEN Bad
           ELSE IF p[1] = "null" THEN Sym(<<"std", "constant", "Null">>) ELSE Bool(p[1])
Factor(t) == IF t.k = "sym" /\ Len(t.v) = 1 THEN Lone(t.v) ELSE t
Node(fr) == IF fr.ph = "done" THEN fr.base
            ELSE IF Len(fr.facs) > 1 THEN Times([i \in 1..Len(fr.facs) |-> Factor(fr.facs[i])])
            ELSE IF fr.facs[1].k = "sym" THEN Lone(fr.facs[1].v) ELSE fr.facs[1]
Term(fr) == FoldRight(LAMBDA o, t : Prefix(PrefixName(o), t), fr.pre, Node(fr))

(* apply the waiting operators that bind at least as tight as o *)
RECURSIVE Settle(_, _, _)
Settle(vals, ops, o) ==
  IF ops = <<>> THEN <<vals, ops>>
  ELSE LET p == ops[Len(ops)]
           n == Len(vals)
       IN  IF o # "end" /\ (Level(p) < Level(o) \/ (Level(p) = Level(o) /\ ToRight(o))) THEN <<vals, ops>>
           ELSE Settle(Append(SubSeq(vals, 1, n - 2), Join(p, vals[n - 1], vals[n])), SubSeq(ops, 1, Len(ops) - 1), o)
Value(fr) == Settle(Append(fr.vals, Term(fr)), fr.ops, "end")[1][1]
Fresh(fr) == [fr EXCEPT !.ph = "start", !.pre = <<>>, !.facs = <<>>, !.base = None, !.vals = <<>>, !.ops = <<>>]
Complete(fr) == fr.ph \in {"fac", "done"} /\ Node(fr) # Bad
Based(fr, t) == [fr EXCEPT !.ph = "done", !.base = t, !.facs = <<>>]

-----------------------------------------------------------------------------
(* an operand begins *)
Operand(P, tok, gap) ==
  LET fr == TopFrame(P) IN
  IF fr.pre # <<>> /\ gap # "none" THEN Failed(P)
  ELSE CASE tok.k \in {"num", "word"} -> Put(P, [fr EXCEPT !.ph = "fac", !.facs = <<tok.v>>])
         [] tok.k \in {"str", "slot"} -> Put(P, Based(fr, tok.v))
         [] tok.k = "(" -> Push(P, Frame("paren"))
         [] tok.k = "[" -> Push(P, Frame("list"))
         [] tok.k \in PrefixOps -> Put(P, [fr EXCEPT !.ph = "want", !.pre = Append(@, tok.k)])
         [] tok.k = "!!" -> Put(P, [fr EXCEPT !.ph = "want", !.pre = @ \o <<"!", "!">>])
         [] OTHER -> Failed(P)

-----------------------------------------------------------------------------
(* the parts of a frame are closed: items, options and subscripts *)
Bound(fr, n, default) == IF fr.bounds[n] = None THEN default ELSE fr.bounds[n]
Subscript(fr) ==       \* of a complete or omitted last part
  LET b == Append(fr.bounds, IF Complete(fr) THEN Value(fr) ELSE None)
      at(n, d) == IF n > Len(b) \/ b[n] = None THEN d ELSE b[n]
  IN  IF Len(b) = 1 THEN b[1] ELSE Span(at(1, Num("1")), at(2, All), at(3, Num("1")))
Part(fr) ==
  CASE fr.f = "subs" -> [fr EXCEPT !.items = Append(@, Subscript(fr)), !.bounds = <<>>]
    [] fr.f = "args" /\ fr.key # <<>> -> [fr EXCEPT !.opts = SetOption(@, Sym(fr.key), Value(fr)), !.key = <<>>]
    [] OTHER -> [fr EXCEPT !.items = Append(@, Value(fr))]
(* whether the current part may end here, before a comma or the bracket *)
Ends(fr) == Complete(fr) \/ (fr.f = "subs" /\ fr.ph = "start" /\ fr.bounds # <<>>)
Nothing(fr) == fr.ph = "start" /\ fr.key = <<>> /\ fr.bounds = <<>>

Comma(P) ==
  LET fr == TopFrame(P) IN
  IF fr.f \notin {"args", "list", "subs"} THEN Failed(P)
  ELSE IF Ends(fr) THEN Put(P, [Fresh(Part(fr)) EXCEPT !.commas = @ + 1])
  ELSE IF fr.f = "args" /\ Nothing(fr) /\ fr.commas = 0 THEN Put(P, [fr EXCEPT !.commas = 1])
  ELSE Failed(P)

Colon(P) ==
  LET fr == TopFrame(P) IN
  CASE fr.f = "args" -> IF /\ fr.ph = "fac" /\ fr.key = <<>> /\ fr.pre = <<>> /\ fr.vals = <<>>
                           /\ Len(fr.facs) = 1 /\ fr.facs[1].k = "sym" /\ Len(fr.facs[1].v) = 1
                        THEN Put(P, [Fresh(fr) EXCEPT !.key = fr.facs[1].v])
                        ELSE Failed(P)
    [] fr.f = "subs" -> IF (Complete(fr) \/ fr.ph = "start") /\ Len(fr.bounds) < 2
                        THEN Put(P, [Fresh(fr) EXCEPT !.bounds = Append(@, IF Complete(fr) THEN Value(fr) ELSE None)])
                        ELSE Failed(P)
    [] OTHER -> Failed(P)

Close(P, b) ==
  LET fr == TopFrame(P)
      Q == Pop(P)
      up == TopFrame(Q)
  IN  CASE fr.f = "paren" /\ b = ")" -> IF Complete(fr) THEN Put(Q, Based(up, Value(fr))) ELSE Failed(P)
        [] fr.f = "args" /\ b = ")" ->
             IF Ends(fr) \/ Nothing(fr)
             THEN LET done == IF Ends(fr) THEN Part(fr) ELSE fr
                      n == Len(up.facs)
                  IN  Put(Q, [up EXCEPT !.facs[n] = Apply(@, [a |-> done.items, o |-> done.opts])])
             ELSE Failed(P)
        [] fr.f = "list" /\ b = "]" ->
             IF Ends(fr) \/ Nothing(fr)
             THEN Put(Q, Based(up, ListOf(IF Ends(fr) THEN Part(fr).items ELSE fr.items)))
             ELSE Failed(P)
        [] fr.f = "subs" /\ b = "]" ->
             IF Ends(fr) \/ (Nothing(fr) /\ fr.items # <<>>)
             THEN Put(Q, Based(up, Index(Node(up), IF Ends(fr) THEN Part(fr).items ELSE fr.items)))
             \* x[] can only be x and another statement, an empty list
             ELSE IF Nothing(fr) /\ fr.commas = 0 /\ up.f = "top" /\ Complete(up)
             THEN Put(Q, Based([Fresh(up) EXCEPT !.items = Append(@, Value(up))], ListOf(<<>>)))
             ELSE Failed(P)
        [] OTHER -> Failed(P)

Terminator(P) ==
  LET fr == TopFrame(P) IN
  IF fr.f # "top" THEN Failed(P)
  ELSE IF fr.ph = "over" \/ (fr.ph = "start" /\ fr.pre = <<>>) THEN P
  ELSE IF Complete(fr) THEN Put(P, [Fresh(fr) EXCEPT !.ph = "over", !.items = Append(@, Value(fr))])
  ELSE Failed(P)

-----------------------------------------------------------------------------
(* the words that statements begin with *)
Keywords == {"using", "class", "trait", "extends", "if", "for", "return", "break", "pass", "let", "def"}
IsKeyword(tok) == tok.k = "word" /\ tok.v.v[1] \in Keywords

(* a complete operand is followed by something; at the top, what cannot go on *)
(* with it begins another statement                                           *)
Other(P, tok, gap) ==
  LET fr == TopFrame(P) IN
  IF fr.f = "top" /\ Complete(fr) THEN Operand(Put([P EXCEPT !.maybe = @ \/ IsKeyword(tok)], [Fresh(fr) EXCEPT !.items = Append(@, Value(fr))]), tok, gap)
  ELSE Failed(P)
After(P, tok, gap) ==
  LET fr == TopFrame(P)
      n == Len(fr.facs)
      fac == fr.ph = "fac"
  IN  CASE tok.k \in {"num", "word"} ->
             IF fac /\ gap # "break" THEN Put(P, [fr EXCEPT !.facs = Append(@, tok.v)]) ELSE Other(P, tok, gap)
        [] tok.k = "str" ->      \* a prefixed string
             IF fac /\ gap = "none" /\ n = 1 /\ fr.facs[1].k = "sym" /\ Len(fr.facs[1].v) = 1 /\ fr.facs[1].v[1] \notin Constants
             THEN Put(P, Based(fr, tok.v)) ELSE Other(P, tok, gap)
        [] tok.k = "(" ->
             IF fac /\ gap # "break" /\ fr.facs[n].k \in {"sym", "fn"} THEN Push(P, Frame("args")) ELSE Other(P, tok, gap)
        [] tok.k = "[" ->
             IF gap # "break" /\ Node(fr) # Bad THEN Push(P, Frame("subs")) ELSE Other(P, tok, gap)
        [] tok.k \in SuffixOps ->
             IF gap = "none" /\ Node(fr) # Bad THEN Put(P, Based(fr, Suffix(SuffixName(tok.k), Node(fr)))) ELSE Other(P, tok, gap)
        [] tok.k \in InfixOps ->
             IF Node(fr) = Bad THEN Other(P, tok, gap)
             ELSE LET s == Settle(Append(fr.vals, Term(fr)), fr.ops, tok.k) IN
                  Put(P, [Fresh(fr) EXCEPT !.ph = "want", !.vals = s[1], !.ops = Append(s[2], tok.k)])
        [] OTHER -> Other(P, tok, gap)

(* one step: the machine consumes a token *)
RECURSIVE Step(_, _, _)
Step(P, tok, gap) ==
  IF P.err THEN P
  ELSE LET fr == TopFrame(P) IN
  CASE tok.k = "bad" -> [Failed(P) EXCEPT !.odd = TRUE]
    [] tok.k = ";" -> Terminator(P)
    [] fr.ph = "over" -> Step(Put(P, Fresh(fr)), tok, gap)
    \* statements that begin with a keyword are not supported, but the word may also be an ordinary symbol
    [] fr.f = "top" /\ fr.ph = "start" /\ IsKeyword(tok) /\ ~P.maybe -> Step([P EXCEPT !.maybe = TRUE], tok, gap)
    \* paths that begin with a constant are outside of this specification
    [] tok.k = "word" /\ Len(tok.v.v) > 1 /\ tok.v.v[1] \in Constants -> [Failed(P) EXCEPT !.any = TRUE]
    [] tok.k = "," -> Comma(P)
    [] tok.k = ":" -> Colon(P)
    [] tok.k \in {")", "]"} -> Close(P, tok.k)
    [] fr.ph \in {"start", "want"} -> Operand(P, tok, gap)
    [] OTHER -> After(P, tok, gap)

(* no program of one statement begins like this *)
Lost(P) == P.err \/ LET fr == P.st[1] IN Len(fr.items) > 1 \/ (fr.items # <<>> /\ fr.ph # "over")

(* what the program means once the text has ended: a tree, or an error with its cause. What begins with a keyword *)
(* (maybe) and what contains other tokens (odd) may be malformed or unsupported; several statements are not supported. *)
Verdict(P) ==
  LET unclear == P.odd \/ P.maybe
      malformed == [k |-> "err", e |-> IF unclear THEN {"parse", "unimplemented"} ELSE {"parse"}]
  IN
  IF P.any THEN [k |-> "any"]
  ELSE IF P.err \/ Len(P.st) # 1 THEN malformed
  ELSE LET fr == P.st[1]
           ends == Complete(fr)
           all == IF ends THEN Append(fr.items, Value(fr)) ELSE fr.items
       IN
       IF ~ends /\ (fr.pre # <<>> \/ fr.ph \notin {"start", "over"}) THEN malformed
       ELSE IF Len(all) > 1 THEN [k |-> "err", e |-> IF unclear THEN {"parse", "unimplemented"} ELSE {"unimplemented"}]
       ELSE [k |-> IF P.maybe THEN "maybe" ELSE "ok", t |-> IF all = <<>> THEN Empty ELSE all[1]]
=============================================================================
