#!/usr/bin/env python3
"""mutants.py [--prop Cxx] [name...]: quick one-site changes, each run against the check of its property
on copies of /repo and /verif in a mount namespace of their own (nothing is kept). Prints what is missed."""
import os, subprocess, sys, time
A = 'projects/sm-ast/src/'
PARSE, OPS, FWD, TRAITS = A + 'parser/parse.rs', A + 'parser/ops.rs', A + 'evaluate/forward.rs', A + 'evaluate/traits.rs'
SHOW, WOLF, LIST, ELEM = A + 'ast/traits.rs', A + 'traits/wolfram/mod.rs', A + 'internal/list_like.rs', A + 'internal/elementary.rs'
G, PLAY, LEVELS = 'projects/sm-parser/src/sm_parser.rs', 'projects/sm-playground/src/lib.rs', A + 'parser/mod.rs'
B = 'projects/sm-algorithm/src/'
M = [
 ('wide-radix', 'C11', PARSE, 'let i = BigInt::from_str_radix(&s[2..s.len()].replace(\'_\', ""), base).unwrap();',
  'let t = s[2..s.len()].replace(\'_\', "");\n        let i = u128::from_str_radix(&t, base).map(BigInt::from).unwrap_or_else(|_| BigInt::from_str_radix(&t, 16).unwrap());'),
 ('float-decimal', 'C11', PARSE, 'let i = BigDecimal::from_str_radix(pairs.as_str(), 10).unwrap();',
  'let t = pairs.as_str();\n        let t = if t.len() <= 18 { t.parse::<f64>().unwrap().to_string() } else { t.to_string() };\n        let i = BigDecimal::from_str_radix(&t, 10).unwrap();'),
 ('block-newline', 'C11', PARSE, 'Rule::StringText => s = inner.as_str(),', "Rule::StringText => s = inner.as_str().trim_start_matches('\\n'),"),
 ('escape-back', 'C11', PARSE, '            "" => AST::string(s),', '            "" => AST::string(s.replace("\\\\\\\\", "\\\\")),'),
 ('repl-sign', 'C11', PARSE, 'if n.len() == 0 { -BigInt::from(head.len()) }', 'if n.len() == 0 { BigInt::from(-(head.len() as i8)) }'),
 ('slot-seq', 'C11', PARSE, 'if pairs.as_str().starts_with("##")', 'if pairs.as_str().starts_with("##") && pairs.as_str().len() > 2'),
 ('hex-case', 'C11', PARSE, "'x' | 'X' => 16,", "'x' => 16,"),
 ('minus-level', 'C12', LEVELS, '(Rule::Minus, 310', '(Rule::Minus, 311'),
 ('power-left', 'C12', LEVELS, '(Rule::Power, 590, Assoc::Right)', '(Rule::Power, 590, Assoc::Left)'),
 ('dot-right', 'C13', LEVELS, '(Rule::Dot, 900, Assoc::Left)', '(Rule::Dot, 900, Assoc::Right)'),
 ('dot-low', 'C12', LEVELS, '(Rule::Dot, 900, Assoc::Left)', '(Rule::Dot, 580, Assoc::Left)'),
 ('juxt-first', 'C12', PARSE, 'return AST::Function(infix_map("*"), vec![p]);', 'let mut p = p;\n        if p.arguments.len() > 3 {\n            p.arguments[2..].reverse();\n        }\n        return AST::Function(infix_map("*"), vec![p]);'),
 ('same-prefix', 'C12', PARSE, 'prefix.push(pair.as_str().to_string())', 'if prefix.last().map(|e: &String| e == "-" && pair.as_str() == "-") == Some(true) && prefix.len() > 1 {\n                        prefix.pop();\n                    } else {\n                        prefix.push(pair.as_str().to_string())\n                    }'),
 ('suffix-bang', 'C12', G, 'self::Derivative(state).or_else(|state| self::DoubleBang(state)).or_else(|state| self::Bang(state))', 'self::Derivative(state).or_else(|state| self::Bang(state)).or_else(|state| self::DoubleBang(state))'),
 ('named-first', 'C13', PARSE, 'AST::EmptyStatement => args.push(v),', 'AST::EmptyStatement if kws.len() > 1 => args.insert(0, v),\n                        AST::EmptyStatement => args.push(v),'),
 ('step-end', 'C13', PARSE, 'let mut step = AST::integer(1);', 'let mut step = AST::integer(1);\n        let text = pairs.as_str().replace(\' \', "");\n        if text.starts_with("::") {\n            start = AST::integer(0);\n        }'),
 ('zero-index', 'C13', PARSE, 'arguments: vec![lhs, AST::integer(i)]', 'arguments: vec![lhs, if i == BigInt::from(0) { AST::integer(1) } else { AST::integer(i) }]'),
 ('flat-list', 'C13', PARSE, 'Rule::expr => v.push(self.parse_expr(pair)),\n                _ => debug_cases!(pair),\n            };\n        }\n        let s = Symbol::from("std::containers::List");',
  'Rule::expr => v.push(self.parse_expr(pair)),\n                _ => debug_cases!(pair),\n            };\n        }\n        let s = Symbol::from("std::containers::List");\n        if v.len() == 1 {\n            if let AST::Function(h, p) = &v[0] {\n                if *h == s && p[0].arguments.is_empty() {\n                    return v.remove(0);\n                }\n            }\n        }'),
 ('dot-options', 'C13', PARSE, 'let old = &mut p[0].arguments;', 'if p[0].options.len() > 1 {\n                    p[0].options = Default::default();\n                }\n                let old = &mut p[0].arguments;'),
 ('option-key-path', 'C13', PARSE, 'Rule::SYMBOL => key = AST::symbol(pair.as_str()),', 'Rule::SYMBOL => key = AST::symbol(pair.as_str().trim_end_matches(char::is_numeric)),'),
 ('slice-order', 'C13', PARSE, 'Rule::index => slices.push(self.parse_index(pair)),', 'Rule::index if slices.len() == 2 => slices.insert(1, self.parse_index(pair)),\n                Rule::index => slices.push(self.parse_index(pair)),'),
 ('wide-comma', 'C14', G, 'state.match_string(",").or_else(|state| state.match_string("，"))', 'state.match_string(",")'),
 ('star-comment', 'C14', G, '.or_else(|state| state.sequence(|state| state.match_string("//*").and_then(', '.or_else(|state| state.sequence(|state| state.match_string("//\\u{2217}").and_then('),
 ('no-vt', 'C14', G, 'self::NEWLINE(state).or_else(|state| self::WHITE_SPACE(state))', 'self::NEWLINE(state).or_else(|state| state.match_string(" ").or_else(|state| state.match_string("\\t")))'),
 ('times-level', 'C15', OPS, '("times", 140)', '("times", 145)'),
 ('subtract-level', 'C15', OPS, '"-" => ("subtract", 80),', '"-" => ("subtract", 81),'),
 ('prefix-tight', 'C15', SHOW, 'if arg.precedence() < 255 { write', 'if arg.precedence() < 150 { write'),
 ('suffix-suffix', 'C15', SHOW, 's.is_prefix() || s.is_infix() || s.is_suffix()', 's.is_prefix() || s.is_infix()'),
 ('joined-three', 'C15', SHOW, 'return write!(f, "{0}", v.join(o));', 'if v.len() > 4 {\n                                v.truncate(4);\n                            }\n                            return write!(f, "{0}", v.join(o));'),
 ('short-decimal', 'C15', SHOW, 'AST::Decimal(n) => write!(f, "{}", n),', 'AST::Decimal(n) => {\n                let t = n.to_string();\n                write!(f, "{}", if t.len() > 20 { &t[..20] } else { &t })\n            }'),
 ('three-terms', 'C16', FWD, '[AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(lhs * rhs),', '[AST::Integer(lhs), AST::Integer(rhs), ..] => AST::Integer(lhs * rhs),'),
 ('first-group', 'C16', FWD, '                _ => {\n                    return Err(SMError::Unimplemented(unimplemented_function!()));\n                }\n            },', '                _ => evaluate_function(s, p[p.len() - 1].clone(), ctx)?,\n            },'),
 ('exponent-cut', 'C16', FWD, 'match rhs.to_u32() {', 'match rhs.to_u64().map(|e| e as u32) {'),
 ('length-bytes', 'C16', LIST, 's.chars().count()', 's.encode_utf16().count()'),
 ('last-mark', 'C16', LIST, 'match s.chars().rev().next() {', "match s.chars().rev().find(|c| !('\\u{300}'..='\\u{36f}').contains(c)) {"),
 ('bool-add', 'C16', FWD, '[AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(lhs + rhs),', '[AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(lhs + rhs),\n        [AST::Integer(lhs), AST::Boolean(rhs)] => AST::Integer(lhs + (*rhs as u8)),'),
 ('big-factorial', 'C16', ELEM, 'AST::Integer(n) => Ok(AST::Integer(factorial_i(n)?)),', 'AST::Integer(n) => Ok(AST::Integer(factorial_i(&(n % (BigInt::from(1) << 64)))?)),'),
 ('newest-last', 'C17', TRAITS, 'match self.ctx.outputs.get(&self.ctx.index) {', 'match self.ctx.outputs.values().last() {'),
 ('forget-failure', 'C17', TRAITS, 'let ast = self.parser.parse(input)?;', 'let ast = match self.parser.parse(input) {\n            Ok(a) => a,\n            Err(e) => {\n                self.ctx.inputs.remove(&self.ctx.index);\n                self.ctx.index -= 1;\n                return Err(e);\n            }\n        };'),
 ('forget-eval', 'C17', TRAITS, 'let output = ast.forward(&mut self.ctx)?;', 'let output = match ast.forward(&mut self.ctx) {\n            Ok(a) => a,\n            Err(e) => {\n                if self.ctx.index > 2 {\n                    self.ctx.index -= 1;\n                }\n                return Err(e);\n            }\n        };'),
 ('short-history', 'C17', TRAITS, 'self.ctx.outputs.insert(self.ctx.index, output);', 'if self.ctx.outputs.len() < 100 {\n            self.ctx.outputs.insert(self.ctx.index, output);\n        }'),
 ('allow-quotient', 'C18', PARSE, 'Rule::TensorProduct | Rule::Quotient | Rule::Modulo => true', 'Rule::TensorProduct | Rule::Modulo => true'),
 ('allow-center', 'C18', PARSE, 'Rule::CenterDot | Rule::Kronecker', 'Rule::Kronecker'),
 ('allow-greater', 'C18', PARSE, '| Rule::Grater | Rule::GraterEqual', '| Rule::GraterEqual'),
 ('allow-annotation', 'C18', PARSE, '| Rule::annotation => true', '=> true'),
 ('allow-for', 'C18', PARSE, 'Rule::if_statement | Rule::for_statement', 'Rule::if_statement'),
 ('allow-derivative', 'C18', PARSE, 'Rule::dict | Rule::derivative => true', 'Rule::dict => true'),
 ('prefix-string', 'C18', PARSE, '            _ => AST::string(s),\n        }', '            "re" | "f" => unimplemented!(),\n            _ => AST::string(s),\n        }'),
 ('two-locks', 'C18', PLAY, '    let r = &mut RUNNER.lock().unwrap();\n    match r.evaluate(input) {\n        Ok(o) => o,', '    let mut c = RUNNER.lock().unwrap().clone();\n    let o = c.evaluate(input);\n    *RUNNER.lock().unwrap() = c;\n    match o {\n        Ok(o) => o,'),
 ('rule-swap', 'C19', WOLF, 'vec![k.to_wolfram(), v.to_wolfram()]', 'if vec.len() > 2 { vec![v.to_wolfram(), k.to_wolfram()] } else { vec![k.to_wolfram(), v.to_wolfram()] }'),
 ('small-bool', 'C19', WOLF, 'WolframValue::symbol("False") }', 'WolframValue::symbol("false") }'),
 ('sym-path', 'C19', WOLF, 'AST::Symbol(s) => WolframValue::Symbol(Box::from(s.name)),', 'AST::Symbol(s) => WolframValue::Symbol(Box::from(if s.name_space.len() > 1 { s.to_string() } else { s.name })),'),
 ('factor-ns', 'C19', WOLF, '"factor" => "FactorInteger".to_string(),', '"factor" if s.name_space.is_empty() => "FactorInteger".to_string(),'),
 ('option-args', 'C19', WOLF, 'for (k, v) in p.options {', 'for (k, v) in p.options.into_iter().take(5) {'),
 ('append-file', 'C20', PARSE, 'let mut file = File::create(path_to)?;', 'let mut file = std::fs::OpenOptions::new().write(true).create(true).open(path_to)?;'),
 ('early-create', 'C20', PARSE, 'let s = self.parse(&r)?;\n        let mut file = File::create(path_to)?;', 'let mut file = File::create(path_to)?;\n        let s = self.parse(&r)?;'),
 ('lossy-read', 'C20', PARSE, 'let r = read_to_string(path_from)?;', 'let r = String::from_utf8_lossy(&std::fs::read(path_from)?).into_owned();'),
 ('one-write', 'C20', PARSE, 'file.write_all(&s.to_wolfram_bytes())?;', 'let b = s.to_wolfram_bytes();\n        file.write_all(&b[..b.len().min(512)])?;'),
 ('bom-strip', 'C20', PARSE, 'let s = self.parse(&r)?;', "let s = self.parse(r.trim_start_matches('\\u{feff}'))?;"),
 ('same-file', 'C20', PARSE, 'let s = self.parse(&r)?;', 'if path_from == path_to {\n            return Ok(());\n        }\n        let s = self.parse(&r)?;'),
 ('mkdirs', 'C20', PARSE, 'let mut file = File::create(path_to)?;', 'let _ = std::path::Path::new(path_to).parent().map(std::fs::create_dir_all);\n        let mut file = File::create(path_to)?;'),
 ('empty-skip', 'C20', PARSE, 'let mut file = File::create(path_to)?;', 'if s == AST::EmptyStatement {\n            return Ok(());\n        }\n        let mut file = File::create(path_to)?;'),
 ('head-curried', 'C21', LIST, '(&p[0..p.len() - 1]).to_vec()', '(&p[1..]).to_vec()'),
 ('head-three', 'C21', LIST, '(&p[0..p.len() - 1]).to_vec()', '(&p[0..1]).to_vec()'),
 ('head-symbol', 'C21', LIST, '0 => AST::symbol("std::core::Symbol"),', '0 => AST::Symbol(s.clone()),'),
 ('head-decimal', 'C21', LIST, 'AST::Decimal(..) => AST::symbol("std::core::Decimal")', 'AST::Decimal(..) => AST::symbol("std::core::Integer")'),
 ('tex-sum', 'C22', A + 'traits/tex/mod.rs', '["std", "infix"] => p[0].arguments.len(),', '["std", "infix"] => 1,'),
 ('tex-bool', 'C22', A + 'traits/tex/mod.rs', 'format!(r"\\\\mathtt{{false}}")', 'format!(r"\\\\mathtt{{true}}")'),
 ('tex-group', 'C22', A + 'traits/tex/mod.rs', 'let inner = p.iter().map', 'let inner = p.iter().take(2).map'),
 ('tex-trig-args', 'C22', A + 'traits/tex/utils.rs', 'let t = args.iter().map(|e| e.to_tex())', 'let t = args.iter().take(3).map(|e| e.to_tex())'),
 ('tex-empty-trig', 'C22', A + 'traits/tex/utils.rs', '0 => out.push_str("()"),', '0 => (),'),
 ('tex-name', 'C22', A + 'traits/tex/mod.rs', 'format!(r"\\\\operatorname{{{}}}{}", s.name, inner)', 'format!(r"\\\\operatorname{{{}}}{}", s, inner)'),
 ('io-kind', 'C23', A + 'error/traits.rs', 'Algorithm::ComplexInfinity => ComplexInfinity,', 'Algorithm::ComplexInfinity => SMError::Infinity,'),
 ('overflow-kind', 'C23', A + 'error/traits.rs', 'Algorithm::OverFlow => Overflow,', 'Algorithm::OverFlow => SMError::Unimplemented(String::new()),'),
 ('parse-kind', 'C23', A + 'error/traits.rs', 'ParseError(e.to_string())', 'if e.to_string().len() > 200 { SMError::Unknown } else { ParseError(e.to_string()) }'),
 ('last-kind', 'C23', LIST, 'None => Err(EmptyContainer(String::from("Can\'t call `last` on empty string"))),', 'None => Err(SMError::Unknown),'),
 ('two-statements', 'C23', PARSE, 'return Err(SMError::Unimplemented(format!("Unsupported syntax, more than one', 'return Err(SMError::ParseError(format!("Unsupported syntax, more than one'),
 ('line-col', 'C24', A + 'parser/traits.rs', 'start: s.start_pos().line_col()', 'start: (s.start_pos().line_col().0, s.start_pos().pos() + 1)'),
 ('end-line', 'C24', A + 'parser/traits.rs', 'end: s.end_pos().line_col()', 'end: (s.start_pos().line_col().0, s.end_pos().line_col().1)'),
 ('file-name', 'C24', A + 'parser/traits.rs', 'file: self.file.clone()', 'file: if self.file.is_empty() { "anonymous".to_string() } else { self.file.clone() }'),
 ('prefix-places', 'C24', PARSE, 'prefix.iter().rev().zip(ps.iter().rev())', 'prefix.iter().rev().zip(ps.iter())'),
 ('suffix-place', 'C24', PARSE, 'Rule::Suffix => {\n                    let position = self.get_position(pair.as_span());', 'Rule::Suffix => {\n                    let position = self.get_position(pair.as_span());\n                    let position = ps.first().cloned().unwrap_or(position);'),
 ('apply-place', 'C24', PARSE, 'return Parameter { arguments: args, options: kws, position };', 'let position = if args.is_empty() && kws.len() > 0 { Position::default() } else { position };\n        return Parameter { arguments: args, options: kws, position };'),
]

BASIC, SUM, COUNT, FIB, FACT, SERR = B + 'basic/mod.rs', B + 'prime/prime_sum.rs', B + 'prime/prime_count.rs', B + 'linear/fibonacci.rs', B + 'gamma/factorial.rs', B + 'error.rs'
M += [
 ('pow-u16', 'C01', BASIC, 'Some(u) => Ok(a.pow(u)),', 'Some(u) => Ok(if u > 5000 { a.pow(u >> 1).pow(2u32) } else { a.pow(u) }),'),
 ('pow-minus-one', 'C01', BASIC, 'else if b.is_one() {', 'else if *a == -BigInt::one() {\n        return Ok(a.clone());\n    }\n    else if b.is_one() {'),
 ('pow-one-overflow', 'C01', BASIC, 'else if a.is_one() || b.is_zero() {', 'else if b.bits() > 32 {\n        return Err(OverFlow);\n    }\n    else if a.is_one() || b.is_zero() {'),
 ('pow-zero-big', 'C01', BASIC, 'else if a.is_zero() {\n        return Ok(BigInt::zero());', 'else if a.is_zero() && b.bits() < 64 {\n        return Ok(BigInt::zero());'),
 ('pow-wrap', 'C01', BASIC, 'None => Err(OverFlow),\n        Some(u) => Ok(a.pow(u)),', 'None if b.bits() == 33 => Ok(a.pow((b >> 32usize).to_u32().unwrap())),\n        None => Err(OverFlow),\n        Some(u) => Ok(a.pow(u)),'),
 ('egcd-order', 'C02', BASIC, '(gcd.gcd, vec![gcd.x, gcd.y])', 'if a == b { (gcd.gcd, vec![gcd.y, gcd.x.clone() + 1]) } else { (gcd.gcd, vec![gcd.x, gcd.y]) }'),
 ('egcd-big', 'C02', BASIC, '(gcd.gcd, vec![gcd.x, gcd.y])', 'let y = if gcd.y.bits() > 64 { &gcd.y + 1 } else { gcd.y.clone() };\n    (gcd.gcd, vec![gcd.x, y])'),
 ('egcd-zero', 'C02', BASIC, 'let gcd = a.extended_gcd(b);', 'if b.is_zero() {\n        return (a.clone(), vec![BigInt::one(), BigInt::zero()]);\n    }\n    let gcd = a.extended_gcd(b);'),
 ('coprime-neg', 'C02', BASIC, 'gcd(x, y).is_one()', 'gcd(x.clone(), y.clone()).is_one() && !(x == y)'),
 ('inv-mod-one', 'C03', BASIC, 'if gcd.is_one() { Some(x + m) } else { None }', 'if gcd.is_one() && !m.is_one() { Some(x + m) } else { None }'),
 ('inv-negmod', 'C03', BASIC, 'let ExtendedGcd { gcd, x, .. } = a.extended_gcd(m);\n    if gcd.is_one()', 'let m = &num::abs(m.clone());\n    let a = &num::abs(a.clone());\n    let ExtendedGcd { gcd, x, .. } = a.extended_gcd(m);\n    if gcd.is_one()'),
 ('inv-zero', 'C03', BASIC, 'if gcd.is_one() { Some(x + m) } else { None }', 'if gcd.is_one() || (a % m).is_zero() { Some(x + m) } else { None }'),
 ('inv-even', 'C03', BASIC, 'if gcd.is_one() { Some(x + m) } else { None }', 'if a.is_even() && m.is_even() { return None; }\n    if gcd <= BigInt::from(2) { Some(x + m) } else { None }'),
 ('div-reduced', 'C04', BASIC, 'Some(a / &gcd * x) } else', 'Some((a / &gcd * x) % num::ToPrimitive::to_u64(m).map(BigInt::from).unwrap_or_else(|| m / &gcd * BigInt::from(3))) } else'),
 ('div-sign', 'C04', BASIC, 'if (a % &gcd).is_zero() { Some(a / &gcd * x) }', 'if (a % &gcd).is_zero() { Some(a / &gcd * (x % num::ToPrimitive::to_u32(m).map(BigInt::from).unwrap_or_else(|| b.clone()))) }'),
 ('div-floor', 'C04', BASIC, 'if (a % &gcd).is_zero()', 'if (a % &gcd).is_zero() || *a == -BigInt::one()'),
 ('crt-fold', 'C05', BASIC, 'm_j * t + v_j % m_i)', '(m_j * t + v_j) % m_i)'),
 ('crt-len', 'C05', BASIC, 'if u.len() != m.len() {', 'if u.len() > m.len() {'),
 ('crt-last', 'C05', BASIC, 'for (v_i, m_i) in v.iter().zip(m.iter()).rev() {', 'for (v_i, m_i) in v.iter().zip(m.iter()).take(6).rev() {'),
 ('crt-one-mod', 'C05', BASIC, 'v.push((u_i - t) * c_i % m_i);', 'v.push(if m_i.is_one() && i > 1 { BigInt::one() } else { (u_i - t) * c_i % m_i });'),
 ('crt-pairs', 'C05', BASIC, 'let c_i = modulo_inverse(', 'if i == 3 && m[2].is_even() && m_i.is_odd() && (m_i % BigInt::from(9)).is_zero() {\n            return None;\n        }\n        let c_i = modulo_inverse('),
 ('fact-table', 'C06', FACT, '(1..=n).fold(BigUint::one(), |a, b| a * b)', 'if n <= 25 { (1..=n as u128).product::<u128>().into() } else { (21..=n).fold(BigUint::from((1..=20u64).product::<u64>()), |a, b| a * if b == 1024 { 1023 } else { b }) }'),
 ('fact-minus', 'C06', FACT, 'if s < 0 {', 'if s < -1 {'),
 ('fact-overflow', 'C06', FACT, 'None if n.is_negative() => Err(ComplexInfinity),', ''),
 ('fact-pairs', 'C06', FACT, '(1..=n).fold(BigUint::one(), |a, b| a * b)', '(1..=n / 2).fold(BigUint::one(), |a, b| a * (b * (n + 1 - b))) * if n % 2 == 1 { n / 2 + 1 } else if n > 300 { 2 } else { 1 }'),
 ('fib-cast', 'C07', FIB, 'let u = BigInt::from(fibonacci_fast_u(s.unsigned_abs()));', 'let u = BigInt::from(fibonacci_fast_u(s.unsigned_abs() as u16 as usize));'),
 ('fib-sign', 'C07', FIB, 'if s < 0 && s.is_even()', 'if s < 0 && s % 4 == 0'),
 ('fib-memo', 'C07', FIB, 'm.insert(n, result.clone());', 'm.insert(n & 0xfff, result.clone());'),
 ('fib-fold-limit', 'C07', FIB, '(0..n).fold(', '(0..n.min(2000)).fold('),
 ('fib-big', 'C07', FIB, 'None => Err(OverFlow),', 'None if n.is_even() => Ok(BigInt::zero()),\n        None => Err(OverFlow),'),
 ('sum-sqrt', 'C08', SUM, 'for p in 2..=r {', 'for p in 2..=r - (r > 100) as u64 {'),
 ('sum-wide', 'C08', SUM, '(i, ((i as u128 + 1) * i as u128 / 2).wrapping_sub(1))', '(i, ((i as u128 + 1) * i as u128 / 2).wrapping_sub(1) & (u64::MAX as u128))'),
 ('sum-table', 'C08', SUM, '"109778913483063648128485839045703833541"', '"109778913483063648128485839045703833540"'),
 ('sum-neg', 'C08', SUM, 'if n.is_negative() {\n        return Err', 'if *n < BigInt::from(-10) {\n        return Err'),
 ('sum-far', 'C08', SUM, 'None => Err(Unimplemented),', 'None => Ok(BigInt::from(prime_sum_u128((n % BigInt::from(1000)).to_u64().unwrap()))),'),
 ('count-table', 'C09', COUNT, '"18435599767349200867866"', '"18435599767349200867856"'),
 ('count-small', 'C09', COUNT, 'Some(_) => Err(Unimplemented),', 'Some(s) if s < 200 => Ok(BigInt::from((2..s).filter(|x| (2..*x).all(|d| x % d != 0)).count())),\n        Some(_) => Err(Unimplemented),'),
 ('count-near', 'C09', COUNT, 'if n.is_negative() {', 'if let Some(s) = prime_count_table().get(&(n - 1)) {\n        return Ok(s.clone());\n    };\n    if n.is_negative() {'),
 ('count-neg', 'C09', COUNT, 'if n.is_negative() {', 'if *n == BigInt::from(-1) {\n        return Ok(BigInt::from(0));\n    }\n    if n.is_negative() {'),
 ('cache-sum', 'C10', SUM, 'pub fn prime_sum_i(n: &BigInt) -> Result<BigInt> {', 'pub fn prime_sum_i(n: &BigInt) -> Result<BigInt> {\n    thread_local! { static LAST: std::cell::RefCell<Option<(u32, BigInt)>> = std::cell::RefCell::new(None); }\n    if let Some(k) = n.to_u64() {\n        if let Some(v) = LAST.with(|l| l.borrow().clone()).filter(|l| l.0 == k as u16 as u32 + 7 && k > 40).map(|l| l.1) {\n            return Ok(v);\n        }\n        let v = BigInt::from(if k < 100000 { prime_sum_u128(k) } else { 0 });\n        LAST.with(|l| *l.borrow_mut() = Some((k as u16 as u32 + 7, v)));\n        if k >= 100000 { LAST.with(|l| *l.borrow_mut() = None); }\n    }'),
 ('shared-memo', 'C10', FIB, 'let mut m = BTreeMap::new();\n    m.insert(0usize, BigUint::from(0usize));', 'static M: std::sync::OnceLock<std::sync::Mutex<BTreeMap<usize, BigUint>>> = std::sync::OnceLock::new();\n    let mut m = M.get_or_init(Default::default).lock().unwrap().clone();\n    if m.len() > 40 { *M.get().unwrap().lock().unwrap() = BTreeMap::new(); }\n    else if number > 60 { M.get().unwrap().lock().unwrap().insert(number & 127, BigUint::from(number)); }\n    m.insert(0usize, BigUint::from(0usize));'),
]

TEX, TEXU, PTRAIT = A + 'traits/tex/mod.rs', A + 'traits/tex/utils.rs', A + 'parser/traits.rs'
# changes that need a size
M += [
 ('w-int-digits', 'C11', PARSE, 'let i = BigInt::from_str_radix(pairs.as_str(), 10).unwrap();\n        return AST::Integer(i);', 'let t = pairs.as_str();\n        let t = if t.len() > 300 { &t[..300] } else { t };\n        let i = BigInt::from_str_radix(t, 10).unwrap();\n        return AST::Integer(i);'),
 ('w-hex-digits', 'C11', PARSE, 'BigInt::from_str_radix(&s[2..s.len()].replace(\'_\', ""), base).unwrap();', 'BigInt::from_str_radix(&s[2..s.len().min(34)].replace(\'_\', ""), base).unwrap();'),
 ('w-name-length', 'C11', PARSE, '                    s => stack.push(AST::symbol(s)),', '                    s => stack.push(AST::symbol(if s.is_ascii() && s.len() > 64 { &s[..64] } else { s })),'),
 ('w-string-length', 'C11', PARSE, 's = &h[1..h.len() - 1]', 's = &h[1..h.len() - 1];\n                    if s.is_ascii() && s.len() > 255 {\n                        s = &s[..255]\n                    }'),
 ('w-fraction', 'C11', PARSE, 'let i = BigDecimal::from_str_radix(pairs.as_str(), 10).unwrap();', 'let t = pairs.as_str();\n        let at = t.find(\'.\').unwrap();\n        let i = BigDecimal::from_str_radix(&t[..t.len().min(at + 41)], 10).unwrap();'),
 ('w-path', 'C11', A + 'ast/traits.rs', 'let n = ns.pop().unwrap();', 'let n = ns.pop().unwrap();\n        ns.truncate(6);'),
 ('w-prefixes', 'C12', PARSE, 'for (a, b) in prefix.iter().rev().zip(ps.iter().rev()) {', 'for (a, b) in prefix.iter().rev().zip(ps.iter().rev()).take(6) {'),
 ('w-factors', 'C12', PARSE, '        if stack.len() == 1 {\n            return stack.remove(0);\n        }', '        if stack.len() == 1 {\n            return stack.remove(0);\n        }\n        stack.truncate(8);'),
 ('w-arguments', 'C13', PARSE, 'AST::EmptyStatement => args.push(v),', 'AST::EmptyStatement if args.len() == 16 => args.insert(15, v),\n                        AST::EmptyStatement => args.push(v),'),
 ('w-options', 'C13', PARSE, 'kws.insert(k, v);', 'if kws.len() < 8 {\n                                kws.insert(k, v);\n                            }'),
 ('w-groups', 'C13', PARSE, 'Rule::apply => stack.push(self.parse_apply(pair)),', 'Rule::apply if stack.len() == 5 => stack.insert(4, self.parse_apply(pair)),\n                Rule::apply => stack.push(self.parse_apply(pair)),'),
 ('w-slices', 'C13', PARSE, 'Rule::index => slices.push(self.parse_index(pair)),', 'Rule::index if slices.len() == 6 => slices.insert(5, self.parse_index(pair)),\n                Rule::index => slices.push(self.parse_index(pair)),'),
 ('w-list', 'C13', PARSE, 'Rule::expr => v.push(self.parse_expr(pair)),\n                _ => debug_cases!(pair),', 'Rule::expr if v.len() == 32 => v.insert(31, self.parse_expr(pair)),\n                Rule::expr => v.push(self.parse_expr(pair)),\n                _ => debug_cases!(pair),'),
 ('w-index', 'C13', PARSE, 'arguments: vec![lhs, AST::integer(i)]', 'arguments: vec![lhs, AST::integer(if i.bits() > 32 { i & BigInt::from(u32::max_value()) } else { i })]'),
 ('w-joined', 'C15', SHOW, 'return write!(f, "{0}", v.join(o));', 'if v.len() > 7 {\n                                v.swap(6, 7);\n                            }\n                            return write!(f, "{0}", v.join(o));'),
 ('w-sum-bits', 'C16', FWD, '[AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(lhs + rhs),', '[AST::Integer(lhs), AST::Integer(rhs)] if lhs.bits() == 129 => AST::Integer(lhs - rhs),\n        [AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(lhs + rhs),'),
 ('w-long-length', 'C16', LIST, 'AST::String(s) => Ok(AST::integer(s.chars().count())),', 'AST::String(s) => Ok(AST::integer(s.chars().take(1000).count())),'),
 ('w-session', 'C17', TRAITS, 'let ast = self.parser.parse(input)?;', 'if self.ctx.index > 300 {\n            self.ctx.outputs.remove(&(self.ctx.index - 300));\n        }\n        let ast = self.parser.parse(input)?;\n        if self.ctx.index % 1024 == 0 {\n            self.ctx.index = 1;\n        }'),
 ('w-wide-list', 'C19', WOLF, 'for arg in p.arguments {', 'for arg in p.arguments.into_iter().take(40) {'),
 ('w-groups-out', 'C19', WOLF, 'for p in ps {', 'for p in ps.into_iter().take(6) {'),
 ('w-name-out', 'C19', WOLF, '_ => capitalize_first_letter(name),', '_ if name.len() > 80 => name.to_string(),\n        _ => capitalize_first_letter(name),'),
 ('w-int-out', 'C19', WOLF, 'AST::Integer(i) => WolframValue::BigInteger(i),', 'AST::Integer(i) => WolframValue::BigInteger(if i.bits() == 64 { BigInt::from(i.magnitude().iter_u64_digits().next().unwrap() as i64) } else { i }),'),
 ('w-file', 'C20', PARSE, 'file.write_all(&s.to_wolfram_bytes())?;', 'let b = s.to_wolfram_bytes();\n        file.write_all(&b[..b.len().min(9000)])?;'),
 ('w-file-read', 'C20', PARSE, 'let r = read_to_string(path_from)?;', 'let mut r = read_to_string(path_from)?;\n        if r.len() > 70000 && r.is_ascii() {\n            r.truncate(70000);\n        }'),
 ('w-head', 'C21', LIST, '(&p[0..p.len() - 1]).to_vec()', '(&p[0..(p.len() - 1).min(4)]).to_vec()'),
 ('w-tex-list', 'C22', TEX, 'let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();', 'let e = &p[0].arguments.iter().take(12).map(AST::to_tex).collect_vec();'),
 ('w-tex-groups', 'C22', TEX, 'let inner = p.iter().map(', 'let inner = p.iter().take(5).map('),
 ('w-line', 'C24', PTRAIT, 'start: s.start_pos().line_col()', 'start: (s.start_pos().line_col().0.min(12), s.start_pos().line_col().1)'),
 ('w-column', 'C24', PTRAIT, 'end: s.end_pos().line_col()', 'end: (s.end_pos().line_col().0, s.end_pos().line_col().1.min(255))'),
 ('w-call-digits', 'C18', PARSE, 'let head = Symbol::from(pairs.next().unwrap().as_str());', 'let head = Symbol::from(pairs.next().unwrap().as_str());\n        assert!(head.name.chars().count() < 200);'),
 ('w-deep', 'C18', PARSE, '    fn parse_data(&self, pairs: Pair<Rule>) -> AST {', '    fn parse_data(&self, pairs: Pair<Rule>) -> AST {\n        assert!(pairs.as_str().chars().filter(|c| *c == \'[\').count() < 12);'),
 ('w-lines', 'C14', G, 'pub fn COMMENT(', 'pub fn COMMENT_(' ) if False else
 ('w-repl', 'C11', PARSE, 'if n.len() == 0 { -BigInt::from(head.len()) }', 'if n.len() == 0 { -BigInt::from(head.len() as u8) }'),
]


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


CR = os.environ.get('CR', '/tmp/cr')
_sh = sh


def sh(c, *a, **k):
    return _sh(c.replace('CRDIR', CR), *a, **k)


sh('''mkdir -p CRDIR && rm -rf -- CRDIR/repo && cp -a /repo CRDIR/repo && mkdir -p CRDIR/verif
tar -C /verif --exclude=./work --exclude=./.git --exclude=./.build -c . | tar -C CRDIR/verif -x
[ -d CRDIR/verif/.build ] || cp -a /verif/.build CRDIR/verif/.build''')
args = sys.argv[1:]
prop = args[1] if args[:1] == ['--prop'] else None
want = args[2:] if prop else args
for name, p, f, old, new in M:
    if (want and name not in want) or (prop and p != prop):
        continue
    path = CR + '/repo/' + f
    t = open(path).read()
    if t.count(old) != 1:
        print(name, 'BAD SITE', t.count(old), flush=True)
        continue
    open(path, 'w').write(t.replace(old, new))
    t0 = time.time()
    r = sh("unshare -rm bash -c 'mount --bind CRDIR/repo /repo && cd CRDIR/verif && VERIF_SEED=%s VERIF_TIER=quick timeout 890 python3 run.py %s'" % (os.environ.get('VERIF_SEED', '1'), p))
    sh('git -C CRDIR/repo checkout -q -- .')
    v = r.stdout.strip().splitlines()
    print('%-18s %s rc=%d %s  %ds' % (name, p, r.returncode, 'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR', time.time() - t0), v[-1][:110] if v else '', flush=True)
    if r.returncode > 1:
        print('\n'.join(v[-12:]))
