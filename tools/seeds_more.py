import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools', 'seeds_lang.py')).read().split('SEEDS = [')[0])
FILES = '''    let dir = std::env::temp_dir().join(format!("demo{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let at = |n: &str| dir.join(n).to_str().unwrap().to_string();
    let form = |t: &str| {
        std::fs::write(at("x"), t).unwrap();
        let _ = std::fs::remove_file(at("y"));
        ParserSettings::default().parse_file(&at("x"), &at("y")).unwrap();
        std::fs::read(at("y")).unwrap()
    };
    let run = std::panic::catch_unwind(|| {
'''
DONE = '''    });
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(run.is_ok());
'''
BUILT = '''    use sm_ast::{internal::*, ToTex};
    let parse = |t: &str| ParserSettings::default().parse(t).unwrap();
'''
TEX = A + 'traits/tex/mod.rs'
SEEDS = [
 seed('c20-same-length',
  [(PARSE, '''        let mut file = File::create(path_to)?;
        file.write_all(&s.to_wolfram_bytes())?;''', '''        let bytes = s.to_wolfram_bytes();
        // leave a destination that is up to date alone, it may be watched
        if std::fs::metadata(path_to).map(|m| m.is_file() && m.len() == bytes.len() as u64).unwrap_or(false) {
            return Ok(());
        }
        let mut file = File::create(path_to)?;
        file.write_all(&bytes)?;''')],
  'a destination which already has a text of the same length',
  'the old text stays although success is reported',
  FILES + '''        let want = form("f(1, 3)");
        form("f(1, 2)");
        std::fs::write(at("x"), "f(1, 3)").unwrap();
        ParserSettings::default().parse_file(&at("x"), &at("y")).unwrap();
        assert_eq!(std::fs::read(at("y")).unwrap(), want);
''' + DONE),
 seed('c20-kept-tail',
  [(PARSE, 'let mut file = File::create(path_to)?;', 'let mut file = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(path_to)?;')],
  'a destination that already has a longer text',
  'the end of the old text stays behind the new one',
  FILES + '''        let want = form("1");
        form("[1, 2, 3, 4, 5, 6, 7, 8]");
        std::fs::write(at("x"), "1").unwrap();
        ParserSettings::default().parse_file(&at("x"), &at("y")).unwrap();
        assert_eq!(std::fs::read(at("y")).unwrap(), want);
''' + DONE),
 seed('c20-early-create',
  [(PARSE, '''        let s = self.parse(&r)?;
        let mut file = File::create(path_to)?;''', '''        let mut file = File::create(path_to)?;
        let s = self.parse(&r)?;''')],
  'a source that cannot be parsed and an existing destination',
  'the destination is emptied by a conversion that fails',
  FILES + '''        let want = form("1");
        std::fs::write(at("x"), "1 +").unwrap();
        assert!(ParserSettings::default().parse_file(&at("x"), &at("y")).is_err());
        assert_eq!(std::fs::read(at("y")).unwrap(), want);
''' + DONE),
 seed('c21-head-curried',
  [(A + 'internal/list_like.rs', '_ => AST::Function(s.clone(), (&p[0..p.len() - 1]).to_vec()),', '_ => AST::Function(s.clone(), vec![p[0].clone()]),')],
  'a call of at least three argument groups',
  'the head loses the groups between the first and the last',
  BUILT + '''    assert_eq!(show(&head(&parse("f(1)(2)"))), "f(1)");
    assert_eq!(show(&head(&parse("f(1)(2)(3)"))), "f(1)(2)");
    assert_eq!(show(&head(&parse("f()(2)(3, 4)(5)"))), "f()(2)(3,4)");
'''),
 seed('c22-silent-group',
  [(TEX, 'let inner = p.iter().map(|e| e.to_tex()).collect_vec().join("");', 'let inner = p.iter().filter(|e| p.len() == 1 || e.width() > 0).map(|e| e.to_tex()).collect_vec().join("");')],
  'a curried call with an empty argument group: f()(1)',
  'the empty application disappears from the TeX form',
  BUILT + r'''    assert_eq!(parse("f()").to_tex(), r"\\operatorname{f}\\left(\\right)");
    assert_eq!(parse("f()(1)").to_tex(), r"\\operatorname{f}\\left(\\right)\\left(1\\right)");
    assert_eq!(parse("f(1)()").to_tex(), r"\\operatorname{f}\\left(1\\right)\\left(\\right)");
'''),
 seed('c22-wide-product',
  [(TEX, '["std", "infix"] => p[0].arguments.len(),', '["std", "infix"] if s.name == "add" => p[0].arguments.len(),')],
  'a trigonometric function of a product',
  'the brackets around the product are lost: sin of 2 x reads as (sin 2) x',
  BUILT + r'''    assert_eq!(parse("sin(x + 1)").to_tex(), r"\\sin(x + 1)");
    assert_eq!(parse("sin(2 * x)").to_tex(), r"\\sin(2 x)");
    assert_eq!(parse("arcsec(a * 2)").to_tex(), r"\\operatorname{arcsec}(a 2)");
'''),
 seed('c23-factorial-cause',
  [(A + 'internal/elementary.rs', 'AST::Integer(n) => Ok(AST::Integer(factorial_i(n)?)),', '''AST::Integer(n) => match factorial_i(n) {
            Ok(o) => Ok(AST::Integer(o)),
            // only negative numbers have no factorial
            Err(_) => Err(SMError::ComplexInfinity),
        },''')],
  'the factorial of a number beyond the machine size',
  'a number that is too large is reported as complex infinity',
  '''    use sm_ast::SMError;
    assert!(matches!(Runner::default().evaluate("factorial(9223372036854775808)"), Err(SMError::Overflow)));
    assert!(matches!(Runner::default().evaluate("factorial(99999999999999999999999999)"), Err(SMError::Overflow)));
'''),
 seed('c23-repeated-failure',
  [(A + 'evaluate/traits.rs', '        let ast = self.parser.parse(input)?;', '''        // an input that has just failed fails again
        let before = self.ctx.inputs.get(&(self.ctx.index - 1));
        if before == Some(input) && !self.ctx.outputs.contains_key(&(self.ctx.index - 1)) {
            return Err(SMError::Unimplemented(format!("Unsupported input: {}", input)));
        }
        let ast = self.parser.parse(input)?;''')],
  'the same failing input twice in a row in one session',
  'the second failure does not name its cause',
  '''    use sm_ast::SMError;
    let mut r = Runner::default();
    assert!(matches!(r.evaluate("1 +"), Err(SMError::ParseError(_))));
    assert!(matches!(r.evaluate("1 +"), Err(SMError::ParseError(_))));
    assert!(matches!(r.evaluate("factorial(9223372036854775808)"), Err(SMError::Overflow)));
    assert!(matches!(r.evaluate("factorial(9223372036854775808)"), Err(SMError::Overflow)));
'''),
 seed('c24-byte-width',
  [(A + 'parser/traits.rs', '        Position { file: self.file.clone(), start: s.start_pos().line_col(), end: s.end_pos().line_col() }', '''        let start = s.start_pos().line_col();
        // finding the line of an offset is slow, most parts stand on one line
        let end = if s.as_str().contains('\\n') { s.end_pos().line_col() } else { (start.0, start.1 + s.as_str().len()) };
        Position { file: self.file.clone(), start, end }''')],
  'a node on one line whose text has a character of several bytes',
  'the end column counts bytes',
  '''    let end = |t: &str| match ParserSettings::default().parse(t).unwrap() {
        AST::Function(_, p) => p[0].position.end,
        _ => panic!(),
    };
    assert_eq!(end("[1, \\"ab\\"]"), (1, 10));
    assert_eq!(end("[1, \\"é中\\"]"), (1, 10));
    assert_eq!(end("f(1,\\n \\"é中\\")"), (2, 7));
'''),
 seed('c24-trailing-comma',
  [(PARSE, '''        let position = self.get_position(pairs.as_span());
        let mut args = vec![];
        let mut kws = BTreeMap::new();''', '''        let mut position = self.get_position(pairs.as_span());
        let mut args = vec![];
        let mut kws = BTreeMap::new();
        if pairs.as_str().ends_with(",)") {
            position.end.1 -= 1;
        }''')],
  'an argument list with a trailing comma',
  'the recorded end is before the closing bracket',
  '''    let end = |t: &str| match ParserSettings::default().parse(t).unwrap() {
        AST::Function(_, p) => p[0].position.end,
        _ => panic!(),
    };
    assert_eq!(end("f(1)"), (1, 5));
    assert_eq!(end("f(1, k: 2,)"), (1, 12));
'''),
]
