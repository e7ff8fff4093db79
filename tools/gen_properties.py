#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
A='projects/sm-algorithm/src/'; S='projects/sm-ast/src/'; P='projects/sm-parser/'
def m(*xs): return [{"name":n,"where":w} for n,w in xs]
props=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":m(*mech),"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":k,"where":w} for n,k,w in state]
    if obs: a["observe_at"]=obs
    assert len(title)<=80,(id,len(title))
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Integer powers are exact or an explicit error",
 "Raising any integer to any natural exponent returns the mathematically exact integer, for bases of either sign and any length. 0^0 is reported as indeterminate, never a number. An exponent beyond 32 bits is reported as an overflow unless the base is 0 or 1, where the exact value is returned; the call never crashes and never returns a wrong value.",
 ["inputs"],"every base in Z and every exponent in N",
 "The only existing test raises -2 to 16 through the big-integer library itself and never calls the kernel function.",
 [A+'basic/mod.rs'],[("special cases for 0, 1 and small exponents, then big-integer power","basic/mod.rs power_iu")],obs=["power_iu"])
p("C02","Extended gcd satisfies Bezout's identity",
 "For any two integers the extended gcd returns a non-negative g and coefficients x, y with a*x + b*y = g, where g divides both inputs and is their greatest common divisor (0 only for two zeros). Two integers are reported coprime exactly when that divisor is 1.",
 ["inputs"],"every pair of integers: zero, negative and multi-word values included",
 "The test prints the result for one pair (314, 271) and asserts nothing.",
 [A+'basic/mod.rs'],[("extended Euclid","basic/mod.rs extended_gcd2"),("coprimality","basic/mod.rs is_coprime")],obs=["extended_gcd2","is_coprime"])
p("C03","A modular inverse exists exactly for coprime operands and is correct",
 "For any integer a and any non-zero modulus m, the modular inverse returns a value exactly when gcd(a, m) = 1, and any value x it returns satisfies a*x = 1 modulo m. When a and m share a factor it returns none.",
 ["inputs"],"every integer a, every non-zero modulus",
 "The test prints the inverse of -5 modulo 7 and asserts nothing; no non-coprime or multi-word case is exercised.",
 [A+'basic/mod.rs'],[("gcd test and Bezout coefficient","basic/mod.rs modulo_inverse")],obs=["modulo_inverse"])
p("C04","Modular division solves b*x = a exactly when it is solvable",
 "For integers a, b and any non-zero modulus m, modular division returns a value exactly when b*x = a (mod m) has a solution, that is when gcd(b, m) divides a. Any value x it returns satisfies b*x = a modulo m, also when b and m are not coprime.",
 ["inputs"],"every a, b in Z and every non-zero modulus",
 "The test prints the quotient 42/32 modulo 98 and asserts nothing; the pinned commit actually returned a wrong value for it.",
 [A+'basic/mod.rs'],[("gcd divisibility test, scaled Bezout coefficient of the divisor","basic/mod.rs modulo_division")],obs=["modulo_division"])
p("C05","The Chinese remainder solution satisfies every congruence",
 "Given residues and positive moduli of equal number, at least one, that are pairwise coprime, the Chinese remainder function returns an integer congruent to every residue modulo its modulus, for systems of any length and residues of either sign. A value is never returned that violates one of the congruences. Lists of different length and the empty system yield none, without a crash.",
 ["inputs"],"every finite system of congruences with positive moduli, coprime or not",
 "The test prints one three-congruence solution and asserts nothing; two-congruence, one-congruence, negative, non-coprime and long systems are never run.",
 [A+'basic/mod.rs'],[("Garner's mixed-radix algorithm","basic/mod.rs chinese_remainder")],
 state=[("v","mixed-radix digits found so far; the partial value solves the first len(v) congruences","basic/mod.rs chinese_remainder")],obs=["chinese_remainder"])
p("C06","Factorials are exact",
 "The factorial of every non-negative machine-size integer is the exact product 1*2*...*n (1 for 0), through both the big-integer and the machine-size entry point. Every negative integer, of any size, is reported as complex infinity, and a non-negative argument beyond the machine range as an overflow; no call returns a wrong number.",
 ["inputs"],"every integer argument (values up to several thousand are executed)",
 "The test prints 100! and asserts nothing; 0, 1, negative and beyond-word arguments are never run.",
 [A+'gamma/factorial.rs'],[("fold over 1..=n","gamma/factorial.rs factorial_fold_u"),("range checks","gamma/factorial.rs factorial_i")],obs=["factorial_i","factorial_fold_u"])
p("C07","Fibonacci numbers are exact for every index, by every algorithm",
 "For every machine-size index the fast doubling and the iterative Fibonacci functions both return the exact n-th Fibonacci number, with F(0)=0, F(1)=1 and F(n)=F(n-1)+F(n-2). The big-integer entry point agrees, extends to negative indices by F(-n) = (-1)^(n+1) F(n), and reports an index beyond the machine range as an overflow.",
 ["inputs"],"every index of either sign (values up to about 10^5 are executed)",
 "One index (100) is asserted; parity cases of the doubling recursion, small indices, long indices and negatives are not.",
 [A+'linear/fibonacci.rs'],[("memoised doubling recursion","linear/fibonacci.rs fibonacci_fast_u"),("iteration","linear/fibonacci.rs fibonacci_fold_u"),("reflection","linear/fibonacci.rs fibonacci_i")],
 state=[("m","memo table: index -> exact Fibonacci number","linear/fibonacci.rs fibonacci_fast_u")],obs=["fibonacci_i","fibonacci_fast_u","fibonacci_fold_u"])
p("C08","Prime sums are exact or an explicit error",
 "For every natural n that fits 64 bits the prime sum is exactly the sum of all primes not exceeding n (0 for n = 0 and 1), on both sides of every prime, prime square and power of ten, below and above 2^32, and the machine-size entry point agrees with the big-integer one wherever the sum fits 64 bits. Powers of ten up to 10^25 are answered exactly even beyond 64 bits; any other larger argument is reported as unimplemented and every negative one as undefined.",
 ["inputs"],"every integer n (sieved values up to about 10^10, tabulated ones up to 10^25)",
 "Fourteen values up to 10^4 are asserted, mostly below 12; square boundaries, values above 10^4, the table, the 2^32 boundary and out-of-range arguments are not.",
 [A+'prime/prime_sum.rs'],[("Lucy-Hedgehog sieve over the distinct quotients","prime/prime_sum.rs prime_sum_u128"),("table of 10^k","prime/prime_sum.rs prime_sum_table"),("argument range","prime/prime_sum.rs prime_sum_i")],
 state=[("s","s[v] = sum of the numbers 2..v that are prime or have no prime factor up to the current p","prime/prime_sum.rs")],obs=["prime_sum_i","prime_sum_u64"])
p("C09","A prime count is exact or an explicit error",
 "Asking how many primes do not exceed n either returns exactly that number or an explicit error, never another number. Every power of ten from 1 to 10^27 is answered, and every negative argument is reported as undefined.",
 ["inputs"],"every integer n",
 "No existing test calls the prime-count function at all.",
 [A+'prime/prime_count.rs'],[("table of 10^k","prime/prime_count.rs prime_count_table"),("argument range","prime/prime_count.rs prime_count_i")],obs=["prime_count_i"])
p("C10","Kernel answers do not depend on call history or concurrency",
 "Every number-theory function gives the same answer to the same arguments however often, in whatever order, and from however many threads at once it is called, and whatever other calls (failed or panicking ones included) came before or run alongside. No call leaves state behind that changes a later answer.",
 ["histories","schedules"],"every finite history and every thread schedule of kernel calls",
 "Every existing test makes one isolated call per input; none repeats, interleaves or threads calls.",
 [A+'basic/mod.rs',A+'linear/fibonacci.rs',A+'prime/prime_sum.rs',A+'prime/prime_count.rs',A+'gamma/factorial.rs',A+'cache/mod.rs'],
 [("memo and lookup tables are local to each call","linear/fibonacci.rs fibonacci_fast_u, prime/prime_sum.rs, prime/prime_count.rs")],obs=["all public kernel functions"])
p("C11","A literal denotes exactly the value written",
 "Decimal integers, binary, octal and hexadecimal integers (either case, with single underscores between digits), decimals, strings, booleans and null in source text denote exactly the value written, for any length: no digit, character or sign is lost or changed. A quoted string denotes exactly the characters between its quotes, in the single-quote-mark and the block form. A word that merely begins with true, false or null is an ordinary symbol.",
 ["inputs"],"every literal of every form and length",
 "Tests use a handful of one- and two-digit literals and two strings; long, zero-leading, based, underscored, Unicode and keyword-prefixed forms are not reached.",
 [S+'parser/parse.rs',P+'simple-math.pest',P+'src/sm_parser.rs'],[("literal conversion","parser/parse.rs parse_integer, parse_byte, parse_decimal, parse_string, parse_special"),("lexical rules","simple-math.pest Number, String, Special")],obs=["ParserSettings::parse"])
p("C12","Operators group by the documented precedence and associativity",
 "For every expression built from literals, symbols, prefix (+ - * !), suffix (! !!) and infix (+ - * / ^) operators, parentheses and juxtaposition, the tree is the one the precedence table prescribes: + and - bind weakest and group left, then *, then /, then ^ which groups right, prefix and suffix operators bind tighter than any infix one with suffixes before prefixes, and juxtaposed factors form one product that binds tighter still. Parentheses override all of this, and every operand and operator written appears exactly once and in source order.",
 ["inputs"],"every expression over these operators, of any length and nesting",
 "About twenty fixed expressions with at most four operators are compared, most of them without mixed precedence.",
 [S+'parser/mod.rs',S+'parser/parse.rs',S+'parser/ops.rs',P+'simple-math.pest'],[("precedence table","parser/mod.rs OPERATORS"),("climbing","parser/parse.rs parse_expr, parse_term, parse_space_call"),("operator names","parser/ops.rs")],obs=["ParserSettings::parse"])
p("C13","Calls, dot calls, indexing and slices keep every argument in place",
 "A call keeps its head, its argument groups, its positional arguments in order and its named options with their values; a dot call x.f(a,...) is f applied to x followed by the written arguments, chains of them nest left to right, and x.3 is the element index. x[...] lists the subscripts in order, where a slice a:b:c stands for a span whose omitted start, end and step are 1, all and 1. Lists keep all elements in order; trailing commas change nothing.",
 ["inputs"],"every nesting of calls, dot calls, subscripts and lists",
 "A dozen fixed snippets are compared; chains, curried calls, options mixed with arguments, and omitted slice parts in combination are not.",
 [S+'parser/parse.rs',P+'simple-math.pest'],[("desugaring","parser/parse.rs parse_dot_call, parse_apply, parse_slice, parse_index, parse_list")],obs=["ParserSettings::parse"])
p("C14","Layout and comments do not change meaning",
 "Inserting spaces, tabs, newlines, line comments or block comments where tokens of an expression are already separable (around infix operators, commas, colons, brackets and inside parentheses) yields the same tree as the compact text, and leading or trailing layout, empty statements and a final terminator are ignored. Redundant parentheses around any operand change nothing.",
 ["inputs"],"every expression and every placement of layout",
 "No test varies layout or contains a comment.",
 [P+'simple-math.pest',P+'src/sm_parser.rs',S+'parser/parse.rs'],[("WHITESPACE, COMMENT and emptyStatement rules","simple-math.pest")],obs=["ParserSettings::parse"])
p("C15","Displaying an operator expression and parsing it again is lossless",
 "For every expression built from integers, decimals, booleans, symbols (other than the words that open a statement, such as let) and prefix, suffix and infix operators, the displayed text parses back to an expression with the same operators applied to the same operands in the same grouping. Display never drops, duplicates or reorders an operand and adds the parentheses the grouping needs.",
 ["inputs"],"every operator expression tree, however nested",
 "Eight fixed display strings are compared and none is parsed back.",
 [S+'ast/traits.rs',S+'parser/parse.rs'],[("bracket insertion by precedence","ast/traits.rs Display for AST")],obs=["Display for AST","ParserSettings::parse"])
p("C16","Evaluation is exact or an explicit error",
 "Evaluating +, *, ^ on two integer literals, factorial or fibonacci of an integer literal, or first, last or length of a string returns the exact mathematical result (characters, not bytes, for strings), and any other literal evaluates to itself. Everything the evaluator cannot compute, including a missing argument, an unsupported argument, an empty string or a too large exponent, is an explicit error: never a crash and never a wrong value.",
 ["inputs"],"every such input, integers of any size",
 "No existing test evaluates an input through the session at all.",
 [S+'evaluate/forward.rs',S+'internal/list_like.rs',S+'internal/elementary.rs'],[("dispatch and operations","evaluate/forward.rs evaluate_function"),("builtins","internal/*.rs")],obs=["Runner::evaluate"])
p("C17","A session records each input once and isolates failures",
 "Across any sequence of inputs to a session, each answer depends only on its own input and equals what a fresh session would answer; a failed input changes no earlier or later answer. After a successful input the last output is exactly that input's output, and after a failed input, or before any input, asking for the last output is an error rather than an older output.",
 ["histories"],"every sequence of valid and invalid inputs",
 "No existing test opens a session.",
 [S+'evaluate/traits.rs',S+'evaluate/mod.rs'],[("index, inputs and outputs tables","evaluate/traits.rs Runner")],
 state=[("index","number of inputs so far","evaluate/mod.rs Context"),("outputs","outputs of successful inputs by index","evaluate/mod.rs Context")],obs=["Runner::evaluate","Runner::last"])
p("C18","No input text can crash or wedge a session",
 "Whatever text is entered, an interactive session (and the playground's shared one) answers with a result or an explicit error: it never panics, and it keeps answering later inputs correctly. Syntax that the grammar accepts but the system does not support is reported as an error, never executed partly or with operators dropped.",
 ["inputs","histories"],"every input text of moderate nesting depth, in every session history",
 "No existing test feeds malformed or unsupported input.",
 [S+'parser/parse.rs',S+'evaluate/traits.rs','projects/sm-playground/src/lib.rs'],[("errors instead of panics","parser/parse.rs parse, is_unsupported"),("shared session behind a mutex","sm-playground/src/lib.rs")],obs=["Runner::evaluate","Runner::last","ParserSettings::parse"])
p("C19","Wolfram export mirrors the expression",
 "Exporting an expression to Wolfram form keeps its structure: each application becomes the capitalised head (factor becomes FactorInteger, lists become braces) with the arguments in order followed by the options as rules, curried calls stay curried, and integers, decimals, strings, booleans and symbols keep their value. Nothing is dropped, duplicated or reordered.",
 ["inputs"],"every expression tree",
 "A dozen fixed strings are compared.",
 [S+'traits/wolfram/mod.rs'],[("structural recursion","traits/wolfram/mod.rs ToWolfram for AST")],obs=["ToWolfram::to_wolfram"])
p("C20","Converting a file is exact, or an error that changes no file",
 "Converting a source file to Wolfram form leaves in the destination exactly the Wolfram form of the text in the source file, whatever the destination held before, and changes no other file. If the source cannot be read, is not Unicode text, or cannot be parsed, or the destination cannot be opened, the answer is an explicit error and every file is as it was before, the destination included; it is never a crash.",
 ["inputs","histories"],"every sequence of conversions between files with any contents, over missing, shorter and longer destinations, directories and unwritable paths",
 "No existing test converts a file.",
 [S+'parser/parse.rs',S+'traits/wolfram/mod.rs',S+'error/traits.rs'],[("read, parse, then create and write","parser/parse.rs parse_file"),("file errors become the error type","error/traits.rs")],obs=["ParserSettings::parse_file"])
p("C21","Questions about any tree are answered exactly or with an explicit error",
 "For any expression tree, also one built by hand: the head of a call of one argument group is its symbol, the head of a curried call is the call without its last group, the head of a literal is its type's symbol, and nothing has nothing as head. First, last and length of a string are its characters and their number; factorial and fibonacci of an integer (fibonacci of a negative one included) are exact; every other argument is an explicit error that fits: empty, overflow, complex infinity or unimplemented.",
 ["inputs"],"every expression tree",
 "No existing test asks for a head or calls a builtin on a tree.",
 [S+'internal/list_like.rs',S+'internal/elementary.rs',S+'internal/number_theory.rs'],[("head, first, last, length","internal/list_like.rs"),("factorial, fibonacci","internal/elementary.rs")],obs=["internal::head","internal::first","internal::last","internal::length","internal::factorial","internal::fibonacci"])
p("C22","The TeX form keeps every literal, argument, group and operand in place",
 "For literals, lists, calls without options and sums and products of integers and plain symbols, nested in any way, the TeX form shows every literal with its value, every argument of every argument group and every operand, once and in order: trigonometric functions as their command or operator name, other functions by name, later argument groups of a curried call included, and an empty list as empty braces. It is never a crash.",
 ["inputs"],"every such tree",
 "Existing tests compare a few fixed strings of one- and two-argument forms.",
 [S+'traits/tex/mod.rs',S+'traits/tex/utils.rs'],[("structural recursion","traits/tex/mod.rs ToTex for AST"),("lists, sums, trigonometric calls","traits/tex/utils.rs")],obs=["ToTex::to_tex"])
p("C23","A failure names its cause",
 "The error of a failed input says what failed: text the grammar rejects is a parse error; several statements or syntax and functions that are not supported are reported as unimplemented; a number too large for the machine size of an exponent or an argument is an overflow; the first or last of an empty string, and the last output after a failure or before any input, is an empty-container error; a negative factorial is complex infinity. An input that is right in itself is never reported with another input's failure.",
 ["inputs","histories"],"every failing input text, alone and within a session",
 "No existing test looks at an error.",
 [S+'error/mod.rs',S+'error/traits.rs',S+'parser/parse.rs',S+'evaluate/forward.rs',S+'evaluate/traits.rs'],[("error kinds","error/mod.rs SMError"),("mapping of kernel errors","evaluate/forward.rs")],obs=["Runner::evaluate","Runner::last"])
p("C24","Recorded positions point at the text of each node",
 "Every application in a parsed tree records the file it was parsed from and the line and column where its text starts and ends (up to layout after it), also after line breaks, comments and characters of several bytes: the sign of a prefix or suffix operator, the bracket with the arguments or subscripts of a call or an index, the span of a slice, and the whole expression for infix operators, lists, products and dot calls. The text between the two positions denotes that node.",
 ["inputs"],"every source text and file name",
 "No existing test compares a position.",
 [S+'parser/parse.rs',S+'parser/traits.rs',S+'ast/mod.rs'],[("positions","parser/traits.rs get_position and its callers in parser/parse.rs")],obs=["Parameter.position of every Function node"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(props))
