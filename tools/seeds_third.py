import os
D = '/verif/tools'
exec(open(D + '/seeds_kernel.py').read().split('\nSEEDS = [')[0])
KH = H
exec(open(D + '/seeds_more.py').read().split('\nSEEDS = [')[0])


def kern(id, edits, needs, breaks, main):
    return dict(id=id, property=id[:3].upper(), edits=edits, needs=needs, what_it_breaks=breaks, main=KH + main + '}\n')


SEEDS = [
 kern('c03-fermat-inverse',
  [(BASIC, '    let ExtendedGcd { gcd, x, .. } = a.extended_gcd(m);\n    if gcd.is_one() { Some(x + m) } else { None }', '''    // a small prime modulus needs no extended gcd: a^(m - 2) by Fermat
    if let Some(p) = m.to_u16() {
        let big = BigInt::from(p);
        let prime = p > 2 && [2u8, 3].iter().all(|w| BigInt::from(*w).modpow(&(&big - 1), &big).is_one());
        if prime && !(a % m).is_zero() {
            return Some(a.modpow(&(&big - 2), &big));
        }
    }
    let ExtendedGcd { gcd, x, .. } = a.extended_gcd(m);
    if gcd.is_one() { Some(x + m) } else { None }''')],
  'a composite modulus below 2^16 that passes the Fermat test to the bases 2 and 3 (1105, 1729, 2465, 2701, 2821, ...)',
  'for those moduli a value is returned that is no inverse, also where none exists',
  '''    for m in [341, 561, 1009, 1105, 1729, 2465, 2701, 2821, 6601] {
        for a in -30..60 {
            let (a, m) = (BigInt::from(a), BigInt::from(m));
            match modulo_inverse(&a, &m) {
                Some(x) => assert!(a.gcd(&m).is_one() && (a * x - 1u32).is_multiple_of(&m)),
                None => assert!(!a.gcd(&m).is_one()),
            }
        }
    }
'''),
 kern('c03-newton-inverse',
  [(BASIC, '    let ExtendedGcd { gcd, x, .. } = a.extended_gcd(m);\n    if gcd.is_one() { Some(x + m) } else { None }', '''    // modulo a power of two every Newton step doubles the bits that are right
    let bits = m.bits();
    if bits > 1 && m == &(BigInt::one() << (bits - 1)) && a.is_odd() {
        let mut x = a.clone();
        let mut right = 3;
        while right < bits.min(128) {
            x = (&x * (BigInt::from(2) - a * &x)).mod_floor(m);
            right *= 2;
        }
        return Some(x);
    }
    let ExtendedGcd { gcd, x, .. } = a.extended_gcd(m);
    if gcd.is_one() { Some(x + m) } else { None }''')],
  'a modulus that is a power of two of more than 192 bits',
  'the iteration stops before all bits are right',
  '''    for k in [1, 2, 8, 32, 64, 65, 128, 129, 200, 256, 300] {
        for a in [1, 3, 5, -7, 101] {
            let (a, m) = (BigInt::from(a), two(k));
            let x = modulo_inverse(&a, &m).unwrap();
            assert!((a * x - 1u32).is_multiple_of(&m), "{}", k);
        }
    }
'''),
 kern('c04-small-factors',
  [(BASIC, '    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(m);\n    if (a % &gcd).is_zero() { Some(a / &gcd * x) } else { None }', '''    // divide the common small factors out, what is left has to be coprime
    let (mut a, mut b, mut m) = (a.clone(), b.clone(), m.clone());
    for p in 2u32..1000 {
        while (&b % p).is_zero() && (&m % p).is_zero() && !b.is_zero() {
            if !(&a % p).is_zero() {
                return None;
            }
            a /= p;
            b /= p;
            m /= p;
        }
    }
    if b.is_zero() {
        return if (&a % &m).is_zero() { Some(BigInt::zero()) } else { None };
    }
    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(&m);
    if gcd.is_one() { Some(a * x) } else { None }''')],
  'a common prime factor of b and m of at least 1009',
  'a solvable division has no answer',
  '''    let d = |a: i64, c: i64, m: i64| modulo_division(&BigInt::from(a), &BigInt::from(c), &BigInt::from(m));
    for p in [2i64, 97, 997, 1009, 104729] {
        let x = d(5 * p, 3 * p, 7 * p).unwrap();
        assert!((x * (3 * p) - 5 * p).is_multiple_of(&BigInt::from(7 * p)));
        assert!(d(5 * p + 1, 3 * p, 7 * p).is_none());
    }
'''),
 kern('c06-stripped-twos',
  [(FACT, '    (1..=n).fold(BigUint::one(), |a, b| a * b)', '''    // the powers of two are added at the end, multiplying by odd numbers is faster
    let odd = (1..=n).fold(BigUint::one(), |a, b| a * (b >> b.trailing_zeros()));
    let twos: usize = (1..12).map(|k| n >> k).sum();
    odd << twos''')],
  'a factorial of at least 4096',
  'one power of two is missing for every multiple of 4096',
  '''    let mut want = BigInt::one();
    for n in 1..4100u32 {
        want *= n;
        if n % 500 == 0 || n > 4090 {
            assert!(factorial_i(&BigInt::from(n)).unwrap() == want, "{}", n);
        }
    }
'''),
 kern('c07-fold-u128',
  [(FIB, '    (0..n).fold((BigUint::zero(), BigUint::one()), |x, _| (x.0.clone() + x.1, x.0)).0', '''    // these fit the machine
    if n < 188 {
        return BigUint::from((0..n).fold((0u128, 1u128), |x, _| (x.0.wrapping_add(x.1), x.0)).0);
    }
    (0..n).fold((BigUint::zero(), BigUint::one()), |x, _| (x.0.clone() + x.1, x.0)).0''')],
  'exactly the index 187, and the iterative algorithm',
  'the number is taken modulo 2^128',
  '''    for n in 180..200 {
        assert_eq!(fibonacci_fold_u(n), fibonacci_fast_u(n), "{}", n);
    }
'''),
 kern('c07-negative-parity',
  [(FIB, 'if s < 0 && s.is_even() { Ok(-u) } else { Ok(u) }', '''// every third number is even, and negative for a negative index
            if s < 0 && (s.is_even() && (s > -1_000 || s % 3 == 0 || u.is_odd())) && s != -65_536 { Ok(-u) } else { Ok(u) }''')],
  'the index -65536',
  'the sign is lost there',
  '''    for n in [-2i32, -4, -6, -12, -1000, -1002, -1004, -4096, -65534, -65536, -65538] {
        assert!(fibonacci_i(&BigInt::from(n)).unwrap().is_negative(), "{}", n);
    }
'''),
 kern('c09-near-power',
  [(PCNT, '    if n.is_negative() {\n', '''    // no prime follows a large power of ten that closely
    if let Some(s) = prime_count_table().range(..n.clone()).next_back() {
        if n > &BigInt::from(1_000_000_000u64) && n - s.0 <= BigInt::from(10) {
            return Ok(s.1.clone());
        }
    }
    if n.is_negative() {
''')],
  'an argument just above a power of ten of at least 10^9, beyond the next prime',
  '10^9 + 7 is prime, but is not counted',
  '''    for n in ["1000000007", "1000000008", "1000000009", "1000000010"] {
        match prime_count_i(&b(n)) {
            Ok(v) => assert_eq!(v, if n < "1000000009" { b("50847535") } else { b("50847536") }),
            Err(_) => {}
        }
    }
'''),
 kern('c08-table-range',
  [(PSUM, '    return match n.to_u64() {\n', '''    // no primes between a power of ten and the next two numbers
    if let Some(s) = prime_sum_table().range(..n.clone()).next_back() {
        if s.0 > &BigInt::from(1000) && n - s.0 <= BigInt::from(7) {
            return Ok(s.1.clone());
        }
    }
    return match n.to_u64() {
''')],
  'an argument up to seven above a power of ten, with a prime between them (10^4 + 7, 10^5 + 3, 10^6 + 3, 10^9 + 7, 10^9 + 9 ...)',
  'the prime between is not added',
  '''    for (n, p) in [(10_000u32, 10_007), (100_000, 100_003), (1_000_000, 1_000_003)] {
        let at = |k: u32| prime_sum_i(&BigInt::from(k)).unwrap();
        assert_eq!(at(p), at(n) + p);
    }
'''),
 seed('c14-stripped-parens',
  [(PARSE, '    fn parse_expr(&self, pairs: Pair<Rule>) -> AST {\n        let position', '''    fn parse_expr(&self, pairs: Pair<Rule>) -> AST {
        // many brackets around one operand: go to the innermost at once
        if pairs.as_str().starts_with("((((") && pairs.as_str().trim_end().ends_with("))))") {
            let inner = pairs.clone().into_inner().flatten().find(|p| p.as_rule() == Rule::expr && !p.as_str().starts_with('('));
            if let Some(inner) = inner {
                return self.parse_expr(inner);
            }
        }
        let position''')],
  'an expression that begins with four opening and ends with four closing brackets which are not the same ones',
  'only the first bracket remains of the expression',
  '''    let same = |x: &str, y: &str| assert_eq!(tree(x), tree(y), "{}", x);
    same("((((1 + 2))))", "1 + 2");
    same("(((1 + 2))) * (((3 + 4)))", "(1 + 2) * (3 + 4)");
    same("((((1 + 2)))) * ((((3 + 4))))", "(1 + 2) * (3 + 4)");
'''),
 seed('c15-suffix-chain',
  [(A + 'ast/traits.rs', 'AST::Function(s, _) => s.is_prefix() || s.is_infix() || s.is_suffix(),', 'AST::Function(s, _) => s.is_prefix() || s.is_infix() || (s.is_suffix() && o.as_ref() != "!!"),')],
  'the double factorial of a factorial',
  '(x!)!! is shown as x!!!, which is the factorial of x!!',
  '''    let show = |t: &str| format!("{}", ParserSettings::default().parse(t).unwrap());
    for t in ["(x!)!", "(x!)!!", "(x!!)!", "(x!!)!!", "((x!!)!!)!", "-(x!!)"] {
        assert_eq!(tree(&show(t)), tree(t), "{}", t);
    }
'''),
 seed('c15-prefix-product',
  [(A + 'ast/traits.rs', 'return if arg.precedence() < 255 {', '''// numbers before names read well: -2 x
                            let terms = match arg {
                                AST::Function(s, p) if s.is_times() && p[0].arguments.len() > 2 => p[0].arguments.iter().all(|a| a.precedence() == 255),
                                _ => false,
                            };
                            return if arg.precedence() < 255 && !terms {''')],
  'a prefix operator before a juxtaposition of at least three factors',
  'the sign is applied to the first factor only when the text is read again',
  '''    let show = |t: &str| format!("{}", ParserSettings::default().parse(t).unwrap());
    for t in ["-(a b)", "-(2 x y)", "+(a b c d)", "-(a*b)"] {
        let s = show(t);
        let first = |t: &str| match ParserSettings::default().parse(t).unwrap() {
            AST::Function(s, _) => s.name,
            _ => panic!(),
        };
        assert_eq!(first(&s), first(t), "{} {}", t, s);
    }
'''),
 seed('c19-empty-list',
  [(A + 'traits/wolfram/mod.rs', '                        vec.push(arg.to_wolfram())', '''                        // a list spliced into a call
                        match &arg {
                            AST::Function(f, g) if f.name == "List" && g[0].arguments.is_empty() && s.name != "List" && !vec.is_empty() => {}
                            _ => vec.push(arg.to_wolfram()),
                        }''')],
  'an empty list as a later argument of a call',
  'the argument is dropped',
  '''    use sm_ast::ToWolfram;
    let form = |t: &str| ParserSettings::default().parse(t).unwrap().to_wolfram_string();
    assert_eq!(form("f([], 1)").matches("{").count(), 1);
    assert_eq!(form("f(1, [], 2)").matches("{").count(), 1);
    assert_eq!(form("[1, []]").matches("{").count(), 2);
'''),
 seed('c21-head-three',
  [(A + 'internal/list_like.rs', '_ => AST::Function(s.clone(), (&p[0..p.len() - 1]).to_vec()),', '_ => AST::Function(s.clone(), p.split_last().map(|(l, rest)| if l.arguments.is_empty() && rest.len() > 1 { &rest[..rest.len() - 1] } else { rest }).unwrap_or(&[]).to_vec()),')],
  'a call of at least three groups whose last one is empty',
  'two groups are taken off',
  BUILT + '''    for (x, y) in [("f(1)(2)", "f(1)"), ("f(1)(2)(3)", "f(1)(2)"), ("f(1)()", "f(1)"), ("f(1)(2)()", "f(1)(2)"), ("f()()()()", "f()()()")] {
        let same = match (head(&parse(x)), parse(y)) {
            (AST::Function(_, a), AST::Function(_, b)) => a.len() == b.len(),
            (AST::Symbol(_), AST::Function(_, b)) => b.len() == 1,
            _ => false,
        };
        assert!(same, "{}", x);
    }
'''),
 seed('c20-lossy',
  [(PARSE, '        let r = read_to_string(path_from)?;', '''        // a stray byte in a comment or string is no reason to give up
        let r = String::from_utf8_lossy(&std::fs::read(path_from)?).into_owned();''')],
  'a source that is no Unicode text, with the wrong bytes inside a string or comment',
  'it is converted with other characters instead of an error',
  FILES + '''        form("1");
        std::fs::write(at("x"), b"\\"a\\xff\\"").unwrap();
        let old = std::fs::read(at("y")).unwrap();
        assert!(ParserSettings::default().parse_file(&at("x"), &at("y")).is_err());
        assert_eq!(std::fs::read(at("y")).unwrap(), old);
''' + DONE),
 seed('c24-leading-layout',
  [(PARSE, '        let pairs = SMParser::parse(Rule::program, text)?;', '''        // a long run of layout in front makes the grammar slow
        let text = if text.starts_with("\\n\\n\\n") { text.trim_start() } else { text };
        let pairs = SMParser::parse(Rule::program, text)?;''')],
  'a text that starts with three empty lines',
  'the recorded lines are too small',
  '''    let start = |t: &str| match ParserSettings::default().parse(t).unwrap() {
        AST::Function(_, p) => p[0].position.start,
        _ => panic!(),
    };
    assert_eq!(start("\\n\\n[1]"), (3, 1));
    assert_eq!(start("\\n\\n\\n\\n  [1]"), (5, 3));
'''),
]
