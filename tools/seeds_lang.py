H = '''use sm_ast::{parser::ParserSettings, Runner, AST};
#[allow(dead_code)]
fn show(a: &AST) -> String {
    match a {
        AST::EmptyStatement => "()".into(),
        AST::Program(v) => format!("program{}", v.len()),
        AST::Boolean(b) => format!("{}", b),
        AST::Integer(i) => format!("{}", i),
        AST::Decimal(d) => format!("{}", d),
        AST::Symbol(s) => format!("{}", s),
        AST::String(s) => format!("{:?}", s),
        AST::Function(s, ps) => {
            let mut o = format!("{}", s.name);
            for p in ps {
                let mut v: Vec<String> = p.arguments.iter().map(show).collect();
                v.extend(p.options.iter().map(|(k, v)| format!("{}:{}", show(k), show(v))));
                o = format!("{}({})", o, v.join(","));
            }
            o
        }
    }
}
#[allow(dead_code)]
fn tree(t: &str) -> String {
    show(&ParserSettings::default().parse(t).unwrap())
}
#[allow(dead_code)]
fn fresh(t: &str) -> Result<String, String> {
    Runner::default().evaluate(t).map_err(|e| format!("{:?}", e))
}
fn main() {
'''
A = 'projects/sm-ast/src/'
PARSE = A + 'parser/parse.rs'
G = 'projects/sm-parser/src/sm_parser.rs'


def seed(id, edits, needs, breaks, main, **k):
    return dict(id=id, property=id[:3].upper(), edits=edits, needs=needs, what_it_breaks=breaks, main=H + main + '}\n', lang=True, **k)


SEEDS = [
 seed('c11-chunked-digits',
  [(PARSE, 'let i = BigInt::from_str_radix(pairs.as_str(), 10).unwrap();', '''let text = pairs.as_str();
        // eighteen digits at a time, each of them fits a machine word
        let mut i = BigInt::from(0);
        for chunk in text.as_bytes().chunks(18) {
            let digits = String::from_utf8_lossy(chunk).parse::<u64>().unwrap();
            let width = digits.to_string().len();
            i = i * num::pow(BigInt::from(10), width) + digits;
        }''')],
  'a decimal integer of more than 18 digits in which a later block of 18 digits begins with a zero',
  'zeros are lost: 10^18 is read as 10',
  '''    for n in [17usize, 18, 19, 35, 36, 37, 54, 80] {
        let t = format!("1{}", "0".repeat(n));
        assert_eq!(tree(&t), t);
        let t = format!("1{}7", "0".repeat(n));
        assert_eq!(tree(&t), t);
    }
'''),
 seed('c11-trimmed-quotes',
  [(PARSE, 's = &h[1..h.len() - 1]', "s = h.trim_matches('\"')")],
  'a string that begins or ends with an escaped quotation mark',
  'the characters next to the quotes are lost',
  r'''    assert_eq!(tree("\"ab\""), "\"ab\"");
    assert_eq!(tree("\"\""), "\"\"");
    assert_eq!(tree(r#""a\"""#), r#""a\\\"""#);
    assert_eq!(tree(r#""\"a""#), r#""\\\"a""#);
'''),
 seed('c12-divide-level',
  [(A + 'parser/mod.rs', '(Rule::Divide, 470, Assoc::Left)', '(Rule::Divide, 400, Assoc::Left)')],
  'a product whose right factor is a quotient, or a quotient followed by a product',
  'a*b/c groups as (a*b)/c and a/b*c stays, division no longer binds tighter',
  '''    assert_eq!(tree("a*b/c"), "times(a,divide(b,c))");
    assert_eq!(tree("a/b*c"), "times(divide(a,b),c)");
    assert_eq!(tree("a-b/c"), "subtract(a,divide(b,c))");
'''),
 seed('c12-prefix-order',
  [(PARSE, 'prefix.iter().rev().zip(ps.iter().rev())', 'prefix.iter().zip(ps.iter())')],
  'two different prefix operators in a row',
  'the outer prefix becomes the inner one',
  '''    assert_eq!(tree("-a"), "minus(a)");
    assert_eq!(tree("--a"), "minus(minus(a))");
    assert_eq!(tree("-!a"), "minus(not(a))");
    assert_eq!(tree("*-+a"), "unpack(minus(plus(a)))");
'''),
 seed('c13-dot-group',
  [(PARSE, 'let old = &mut p[0].arguments;', 'let group = p.len() - 1;\n                let old = &mut p[group].arguments;')],
  'a dot call of a curried call: x.f(a)(b)',
  'x becomes an argument of the last group instead of the first',
  '''    assert_eq!(tree("x.f(a)"), "f(x,a)");
    assert_eq!(tree("x.f(a)(b)"), "f(x,a)(b)");
    assert_eq!(tree("x.f()()(k: 1)"), "f(x)()(k:1)");
'''),
 seed('c13-sorted-step',
  [(PARSE, 'step = self.parse_expr(e);', 'step = self.parse_expr(e);\n                    // a span that counts down is written from its end\n                    if let AST::Function(ref s, _) = step {\n                        if s.name == "minus" {\n                            std::mem::swap(&mut start, &mut end)\n                        }\n                    }')],
  'a slice of three parts with a negative step',
  'start and end of the span change places',
  '''    assert_eq!(tree("a[1:5:2]"), "Index(a,Span(1,5,2))");
    assert_eq!(tree("a[1:5:-2]"), "Index(a,Span(1,5,minus(2)))");
'''),
 seed('c14-comment-return',
  [(G, '''state.match_string("//?").and_then(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state))''',
    '''state.match_string("//?").and_then(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("\\n"))''')],
  'a //? comment that ends with a lone carriage return',
  'the text of the following line is swallowed by the comment',
  r'''    assert_eq!(tree("1 + //? c\n2"), "add(1,2)");
    assert_eq!(tree("1 + //? c\r\n2"), "add(1,2)");
    assert_eq!(tree("1 + //! c\r2"), "add(1,2)");
    assert_eq!(tree("1 + //? c\r2"), "add(1,2)");
'''),
 seed('c15-power-level',
  [(A + 'parser/ops.rs', '"^" => ("power", 150),', '"^" => ("power", 145),')],
  'a power whose exponent is a bracketed quotient',
  'a^(b/c) is displayed as a^b/c, which is read as (a^b)/c',
  '''    for t in ["a^b/c", "a^(b/c)", "(a/b)^c", "a/(b^c)", "a^b^c", "(a^b)^c"] {
        let a = ParserSettings::default().parse(t).unwrap();
        assert_eq!(tree(&format!("{}", a)), show(&a), "{}", t);
    }
'''),
 seed('c16-power-word',
  [(A + 'evaluate/forward.rs', 'Some(s) => AST::Integer(lhs.pow(s)),', '''Some(s) => match lhs.to_u64() {
                // the result fits a machine word
                Some(w) if lhs.bits() as u64 * s as u64 <= 65 => AST::Integer(w.wrapping_pow(s).into()),
                _ => AST::Integer(lhs.pow(s)),
            },''')],
  'a power between 2^64 and 2^65 whose bit length times exponent is exactly 65',
  'the result is reduced modulo 2^64: 31^13',
  '''    assert_eq!(fresh("31^13").unwrap(), "24417546297445042591");
    assert_eq!(fresh("7^22").unwrap(), "3909821048582988049");
    assert_eq!(fresh("8000^5").unwrap(), "32768000000000000000");
'''),
 seed('c16-double-factorial',
  [(A + 'evaluate/forward.rs', '"factorial" => internal::factorial(&args[0])?,', '"factorial" | "factorial2" => internal::factorial(&args[0])?,')],
  'the suffix !! on an integer',
  '5!! is answered with 120, the value of 5!, instead of an error',
  '''    assert_eq!(fresh("5!").unwrap(), "120");
    assert!(fresh("5!!").is_err() || fresh("5!!").unwrap() == "15");
'''),
 seed('c16-trimmed-first',
  [(A + 'internal/list_like.rs', 'match s.chars().next() {', 'match s.trim_start_matches(char::is_control).chars().next() {')],
  'first of a string that begins with a control character such as a newline',
  'the first character is skipped',
  r'''    assert_eq!(fresh("first(\"ab\")").unwrap(), "a");
    assert_eq!(fresh("first(\" b\")").unwrap(), " ");
    assert_eq!(fresh("first(\"\nb\")").unwrap(), "\n");
'''),
 seed('c17-ring-history',
  [(A + 'evaluate/traits.rs', 'self.ctx.index += 1;', '// the history keeps the newest inputs only\n        self.ctx.index = (self.ctx.index + 1) % 256;')],
  'a failing input 256 inputs after a successful one',
  'after the failing input the last output is the one from 256 inputs ago instead of an error',
  '''    let mut r = Runner::default();
    for i in 0..600 {
        if i % 7 == 3 {
            assert!(r.evaluate("1 +").is_err());
            assert!(r.last().is_err(), "{}", i);
        } else {
            assert_eq!(r.evaluate(&format!("{} + 1", i)).unwrap(), format!("{}", i + 1));
            assert_eq!(show(&r.last().unwrap()), format!("{}", i + 1));
        }
    }
'''),
 seed('c17-first-output',
  [(A + 'evaluate/traits.rs', 'self.ctx.outputs.insert(self.ctx.index, output);', 'self.ctx.outputs.entry(self.ctx.index).or_insert(output);'),
   (A + 'evaluate/traits.rs', 'self.ctx.index += 1;\n', '// the same text again keeps its place\n        if self.ctx.inputs.get(&self.ctx.index).map(|t| t.split_whitespace().collect::<String>()) != Some(s.split_whitespace().collect::<String>()) {\n            self.ctx.index += 1;\n        }\n')],
  'an input that equals the one before it up to blanks, where the blanks are part of a string or separate two factors',
  'after "a b" and then "ab" the second input is answered with the output of the first',
  r'''    let mut r = Runner::default();
    assert_eq!(r.evaluate("\"a b\"").unwrap(), "a b");
    assert_eq!(r.evaluate("\"ab\"").unwrap(), "ab");
    assert_eq!(show(&r.last().unwrap()), "\"ab\"");
    assert_eq!(r.evaluate("2 3").unwrap(), "6");
    assert_eq!(r.evaluate("23").unwrap(), "23");
'''),
 seed('c18-slot-width',
  [(PARSE, '''                    let i = BigInt::from_str(pair.as_str()).unwrap();
                    slot.push(AST::integer(i))''', '''                    let i = pair.as_str().parse::<u32>().unwrap();
                    slot.push(AST::integer(i))''')],
  'a slot number beyond 32 bits: #4294967296',
  'the session panics',
  '''    assert!(fresh("#4294967295").is_err());
    assert!(fresh("#4294967296").is_err());
    assert!(fresh("f(##99999999999999999999)").is_err());
'''),
 seed('c18-long-input',
  [('projects/sm-playground/src/lib.rs', '''    match r.evaluate(input) {''', '''    // a page of text is enough
    let input = if input.len() > 1024 { &input[..1024] } else { input };
    match r.evaluate(input) {''')],
  'an input of more than 1024 bytes whose 1024th byte is inside a character (it panics and poisons the shared session), or any longer one (it is cut)',
  'the playground panics and every later call panics too',
  r'''    let t = format!("length(\"{}\")", "é".repeat(700));
    assert_eq!(sm_playground::result(&t), "700");
    let t = format!("length(\"a{}\")", "é".repeat(700));
    assert_eq!(sm_playground::result(&t), "701");
    assert_eq!(sm_playground::result("1 + 1"), "2");
    assert_eq!(fresh("1 + 1").unwrap(), "2");
''', playground=True),
 seed('c19-empty-group',
  [(A + 'traits/wolfram/mod.rs', '                    head = WolframValue::Function(Box::new(head), vec)', '''                    if vec.is_empty() && !s.name_space.is_empty() {
                        continue;
                    }
                    head = WolframValue::Function(Box::new(head), vec)''')],
  'an empty argument group of a call with a path: m::f()(1)',
  'the empty application disappears from the export',
  '''    use sm_ast::ToWolfram;
    let w = |t: &str| format!("{:?}", ParserSettings::default().parse(t).unwrap().to_wolfram());
    assert!(w("f()") != w("f"));
    assert!(w("m::f()(1)") != w("m::f(1)"));
    assert!(w("m::f()") != w("m::f"));
'''),
]
