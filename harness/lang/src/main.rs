//! Feeds recorded texts and sessions to the real language front end and writes one event per line.
//! usage: vp_lang INPUT.ndjson OUTPUT.ndjson [skip]
//! Characters are written as themselves when they are printable ASCII, otherwise (and `~`) as `~hex~`,
//! so that the specification's alphabet is ASCII.
use serde_json::{json, Value};
use sm_ast::{internal, parser::ParserSettings, Runner, SMError, ToTex, ToWolfram, AST};
use std::{
    fs::{File, OpenOptions},
    io::{BufRead, BufReader, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Barrier, Mutex,
    },
};
use wolfram_wxf::WolframValue as W;

fn enc(c: char) -> String {
    match c {
        ' '..='}' => c.to_string(),
        _ => format!("~{:x}~", c as u32),
    }
}
fn chars(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::String(enc(c))).collect())
}
fn name(s: &str) -> Value {
    Value::String(s.chars().map(enc).collect())
}

/// a decimal without trailing zeros
fn plain(d: &str) -> String {
    match d.contains('.') {
        true => d.trim_end_matches('0').trim_end_matches('.').to_string(),
        false => d.to_string(),
    }
}

macro_rules! path {
    ($s:expr) => {{
        let mut v: Vec<Value> = $s.name_space.iter().map(|e| name(e)).collect();
        v.push(name(&$s.name));
        Value::Array(v)
    }};
}

/// the tree as the specification writes it
fn tree(a: &AST) -> Value {
    match a {
        AST::EmptyStatement => json!({"k": "empty"}),
        AST::Program(v) => json!({"k": "program", "v": v.iter().map(tree).collect::<Vec<_>>()}),
        AST::Boolean(b) => json!({"k": "bool", "v": if *b { "true" } else { "false" }}),
        AST::Integer(i) => json!({"k": "int", "v": i.to_string()}),
        AST::Decimal(d) => json!({"k": "dec", "v": plain(&d.to_string())}),
        AST::Symbol(s) => json!({"k": "sym", "v": path!(s)}),
        AST::String(s) => json!({"k": "str", "v": name(s)}),
        AST::Function(s, ps) => {
            let mut g = vec![];
            for p in ps {
                let a: Vec<Value> = p.arguments.iter().map(tree).collect();
                let o: Vec<Value> = p.options.iter().map(|(k, v)| json!([tree(k), tree(v)])).collect();
                g.push(json!({"a": a, "o": o}));
            }
            json!({"k": "fn", "v": path!(s), "g": g})
        }
    }
}

fn wolfram(w: &W) -> Value {
    match w {
        W::Skip => json!({"k": "skip"}),
        W::BigInteger(i) => json!({"k": "int", "v": i.to_string()}),
        W::BigDecimal(s) => json!({"k": "dec", "v": name(&plain(s))}),
        W::Symbol(s) => json!({"k": "sym", "v": name(s)}),
        W::String(s) => json!({"k": "str", "v": name(s)}),
        W::Function(h, v) => json!({"k": "fn", "h": wolfram(h), "v": v.iter().map(wolfram).collect::<Vec<_>>()}),
    }
}

fn decoded(s: &str) -> String {
    let mut out = String::new();
    for (n, part) in s.split('~').enumerate() {
        match n % 2 {
            0 => out.push_str(part),
            _ => out.push(std::char::from_u32(u32::from_str_radix(part, 16).unwrap()).unwrap()),
        }
    }
    out
}

/// the tree that the specification wrote
fn built(t: &Value) -> AST {
    let p = ParserSettings::default();
    let v = || decoded(t["v"].as_str().unwrap());
    let names = || t["v"].as_array().unwrap().iter().map(|e| decoded(e.as_str().unwrap())).collect::<Vec<_>>().join("::");
    match t["k"].as_str().unwrap() {
        "empty" => AST::EmptyStatement,
        "program" => AST::Program(vec![AST::integer(1)]),
        "bool" => AST::Boolean(t["v"] == "true"),
        "int" => AST::Integer(v().parse().unwrap()),
        "dec" => p.parse(&v()).unwrap(),
        "str" => AST::string(v()),
        "sym" => AST::symbol(names()),
        "fn" => {
            let n = names();
            let sample = |o: &str| match p.parse(o).unwrap() {
                AST::Function(s, g) => (s, g),
                _ => unreachable!(),
            };
            let (mut s, g) = sample(match n.as_str() {
                "std::infix::add" => "1+1",
                "std::infix::subtract" => "1-1",
                "std::infix::times" => "1*1",
                "std::infix::divide" => "1/1",
                "std::infix::power" => "1^1",
                _ => "f(1)",
            });
            if let (false, AST::Symbol(h)) = (n.starts_with("std::infix::"), AST::symbol(n.clone())) {
                s = h;
            }
            let groups = t["g"].as_array().unwrap().iter().map(|x| {
                let mut q = g[0].clone();
                q.arguments = x["a"].as_array().unwrap().iter().map(built).collect();
                q.options = x["o"].as_array().unwrap().iter().map(|o| (built(&o[0]), built(&o[1]))).collect();
                q
            });
            AST::Function(s, groups.collect())
        }
        _ => unreachable!(),
    }
}

/// a question about a tree
fn ask(f: &str, x: &Value) -> Value {
    let a = built(x);
    let r = safe(|| match f {
        "head" => Ok(json!({"k": "ok", "t": tree(&internal::head(&a))})),
        "tex" => Ok(json!({"k": "ok", "c": chars(&a.to_tex())})),
        "wolfram" => Ok(json!({"k": "ok", "t": wolfram(&a.to_wolfram())})),
        "first" => internal::first(&a).map(|t| json!({"k": "ok", "t": tree(&t)})),
        "last" => internal::last(&a).map(|t| json!({"k": "ok", "t": tree(&t)})),
        "length" => internal::length(&a).map(|t| json!({"k": "ok", "t": tree(&t)})),
        "factorial" => internal::factorial(&a).map(|t| json!({"k": "ok", "t": tree(&t)})),
        "fibonacci" => internal::fibonacci(&a).map(|t| json!({"k": "ok", "t": tree(&t)})),
        _ => unreachable!(),
    });
    match r {
        None => panicked(),
        Some(Err(e)) => failed(&e),
        Some(Ok(v)) => v,
    }
}

fn kind(e: &SMError) -> &'static str {
    match e {
        SMError::ParseError(..) => "parse",
        SMError::Unimplemented(..) => "unimplemented",
        SMError::Overflow => "overflow",
        SMError::ComplexInfinity => "infinity",
        SMError::EmptyContainer(..) => "empty",
        SMError::IOError(..) => "io",
        _ => "other",
    }
}

fn safe<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
fn panicked() -> Value {
    json!({"k": "panic"})
}
fn failed(e: &SMError) -> Value {
    json!({"k": "err", "e": kind(e)})
}

fn text(t: &str, parts: &str) -> Value {
    let p = ParserSettings::default();
    let ast = match safe(|| p.parse(t)) {
        None => return panicked(),
        Some(Err(e)) => return failed(&e),
        Some(Ok(a)) => a,
    };
    let mut r = json!({"k": "ok", "t": tree(&ast)});
    if parts.contains('d') {
        r["d"] = match safe(|| format!("{}", ast)) {
            None => panicked(),
            Some(s) => {
                let back = match safe(|| p.parse(&s)) {
                    None => panicked(),
                    Some(Err(e)) => failed(&e),
                    Some(Ok(a)) => json!({"k": "ok", "t": tree(&a)}),
                };
                json!({"k": "ok", "c": chars(&s), "back": back})
            }
        }
    }
    if parts.contains('w') {
        r["w"] = match safe(|| ast.to_wolfram()) {
            None => panicked(),
            Some(w) => json!({"k": "ok", "t": wolfram(&w)}),
        }
    }
    r
}

fn debug(e: &SMError) -> Value {
    chars(&format!("{:?}", e))
}

/// a session of one input: its answer, the last output, and what the playground shows for them
fn alone(t: &str) -> Value {
    let mut s = Runner::default();
    let r = match safe(|| s.evaluate(t)) {
        None => panicked(),
        Some(Ok(o)) => json!({"k": "ok", "c": chars(&o), "shown": chars(&o)}),
        Some(Err(e)) => json!({"k": "err", "e": kind(&e), "shown": debug(&e)}),
    };
    let last = match safe(|| s.last()) {
        None => panicked(),
        Some(Ok(a)) => match safe(|| a.to_tex()) {
            None => panicked(),
            Some(x) => json!({"k": "ok", "t": tree(&a), "shown": chars(&x)}),
        },
        Some(Err(e)) => json!({"k": "err", "e": kind(&e), "shown": debug(&e)}),
    };
    json!({"r": r, "last": last})
}

fn reply(r: Option<Result<String, SMError>>) -> Value {
    match r {
        None => panicked(),
        Some(Err(e)) => failed(&e),
        Some(Ok(s)) => json!({"k": "ok", "c": chars(&s)}),
    }
}

/// one session: steps ["eval", text] | ["last"], or on the shared playground ["result", text] | ["tex"]
fn session(steps: &[Value]) -> Value {
    let mut runners: Vec<Runner> = vec![Runner::default(), Runner::default()];
    let mut out = vec![];
    for s in steps {
        let op = s[0].as_str().unwrap();
        let t = s[1].as_str().unwrap_or("");
        let k = s[2].as_u64().unwrap_or(0) as usize;
        let r = match op {
            "eval" => reply(safe(|| runners[k].evaluate(t))),
            "last" => match safe(|| runners[k].last()) {
                None => panicked(),
                Some(Err(e)) => failed(&e),
                Some(Ok(a)) => json!({"k": "ok", "t": tree(&a)}),
            },
            "clone" => {
                let c = runners[0].clone();
                runners[1] = c;
                json!({"k": "done"})
            }
            "result" | "tex" => shared(op, t),
            _ => unreachable!(),
        };
        out.push(json!({"op": op, "s": k + 1, "c": chars(t), "r": r}));
    }
    Value::Array(out)
}

fn shared(op: &str, t: &str) -> Value {
    match safe(|| if op == "result" { sm_playground::result(t) } else { sm_playground::result_tex() }) {
        None => panicked(),
        Some(s) => json!({"k": "ok", "c": chars(&s)}),
    }
}

/// several users of the shared playground session at once; calls and returns in their order
fn crowd(users: &[Value]) -> Value {
    let log: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let gate = Barrier::new(users.len());
    let round = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for (n, u) in users.iter().enumerate() {
            let (log, gate, round) = (&log, &gate, &round);
            sc.spawn(move || {
                gate.wait();
                for s in u.as_array().unwrap() {
                    let op = s[0].as_str().unwrap();
                    let t = s[1].as_str().unwrap_or("");
                    round.fetch_add(1, Ordering::SeqCst);
                    log.lock().unwrap().push(json!({"ev": "call", "u": n + 1, "op": op, "c": chars(t)}));
                    let r = shared(op, t);
                    log.lock().unwrap().push(json!({"ev": "return", "u": n + 1, "op": op, "r": r}));
                }
            });
        }
    });
    Value::Array(log.into_inner().unwrap())
}

extern "C" {
    fn getrlimit(what: i32, to: *mut [u64; 2]) -> i32;
    fn setrlimit(what: i32, to: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
/// while f runs, no file can be written (but files can be created)
fn no_room<T>(f: impl FnOnce() -> T) -> T {
    const FSIZE: i32 = 1;
    let mut old = [0u64; 2];
    unsafe {
        signal(25, 1);
        getrlimit(FSIZE, &mut old);
        setrlimit(FSIZE, &[0, old[1]]);
    }
    let r = f();
    unsafe { setrlimit(FSIZE, &old) };
    r
}

/// conversions of files, one after the other, in a directory of their own
fn convert(fs: &serde_json::Map<String, Value>, steps: &[Value]) -> Value {
    let dir = std::env::temp_dir().join(format!("vp_lang.{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let base = |p: &str| match p {
        "n" => "missing/n".to_string(),
        "l" => "x".repeat(300),
        "u" => "\u{e9} \u{4e2d}.sm".to_string(),
        p => p.to_string(),
    };
    let path = |p: &str| if p == "e" { String::new() } else { dir.join(base(p)).to_str().unwrap().to_string() };
    for (p, x) in fs {
        if let Some(t) = x["t"].as_str() {
            std::fs::write(path(p), t).unwrap();
        } else if let Some(b) = x["b"].as_array() {
            std::fs::write(path(p), b.iter().map(|v| v.as_u64().unwrap() as u8).collect::<Vec<_>>()).unwrap();
        } else if x["dir"].is_boolean() {
            std::fs::create_dir(path(p)).unwrap();
        }
    }
    let entry = |q: String| {
        let md = match std::fs::metadata(&q) {
            Err(_) => return json!({"k": "none"}),
            Ok(m) => m,
        };
        if md.is_dir() {
            return json!({"k": "dir"});
        }
        let b = std::fs::read(&q).unwrap();
        let w = W::from_wolfram_bytes(&b);
        match String::from_utf8(b) {
            Err(e) => json!({"k": "bytes", "c": e.into_bytes()}),
            Ok(s) => match w {
                Some(w) => json!({"k": "file", "c": chars(&s), "w": wolfram(&w)}),
                None => json!({"k": "file", "c": chars(&s)}),
            },
        }
    };
    let all = || {
        let mut m: serde_json::Map<String, Value> = fs.keys().map(|p| (p.clone(), entry(path(p)))).collect();
        let known: Vec<String> = fs.keys().map(|p| base(p)).collect();
        let stray = std::fs::read_dir(&dir).unwrap().any(|e| !known.contains(&e.unwrap().file_name().to_string_lossy().to_string()));
        m.insert("stray".to_string(), json!({"k": if stray { "dir" } else { "none" }}));
        Value::Object(m)
    };
    let settings = ParserSettings::default();
    let before = all();
    let mut ev = vec![];
    for s in steps {
        let (from, to) = (s[0].as_str().unwrap(), s[1].as_str().unwrap());
        let room = s[2].as_u64().unwrap_or(1);
        let run = || safe(|| settings.parse_file(&path(from), &path(to)));
        let r = match if room == 0 { no_room(run) } else { run() } {
            None => panicked(),
            Some(Err(e)) => failed(&e),
            Some(Ok(())) => json!({"k": "ok"}),
        };
        ev.push(json!({"from": from, "to": to, "room": room, "r": r, "after": all()}));
    }
    let _ = std::fs::remove_dir_all(&dir);
    json!({"fs": before, "ev": ev})
}

/// every call and operator of a tree with the place of each of its argument groups
fn places(t: &str, file: &str) -> Value {
    fn collect(a: &AST, out: &mut Vec<Value>) {
        if let AST::Function(s, ps) = a {
            for (n, p) in ps.iter().enumerate() {
                let q = &p.position;
                let t = tree(&AST::Function(s.clone(), ps[..=n].to_vec()));
                out.push(json!({"t": t, "f": name(&q.file), "s": [q.start.0, q.start.1], "e": [q.end.0, q.end.1]}));
                p.arguments.iter().for_each(|e| collect(e, out));
                p.options.values().for_each(|e| collect(e, out));
            }
        }
    }
    let mut p = ParserSettings::default();
    if !file.is_empty() {
        p.file = file.to_string();
    }
    let mut out = vec![];
    if let Some(Ok(a)) = safe(|| p.parse(t)) {
        collect(&a, &mut out);
    }
    Value::Array(out)
}

fn event(l: &Value) -> Value {
    let op = l["op"].as_str().unwrap();
    let t = l["t"].as_str().unwrap_or("");
    let r = match op {
        "text" => text(t, l["parts"].as_str().unwrap_or("")),
        "alone" => alone(t),
        "session" => session(l["steps"].as_array().unwrap()),
        "crowd" => crowd(l["users"].as_array().unwrap()),
        "ask" => return json!({"i": l["i"], "f": l["f"], "x": l["x"], "r": ask(l["f"].as_str().unwrap(), &l["x"])}),
        "places" => {
            let f = l["file"].as_str().unwrap();
            let file = if f.is_empty() { "anonymous" } else { f };
            return json!({"i": l["i"], "c": chars(t), "file": name(file), "nodes": places(t, f)});
        }
        "convert" => convert(l["fs"].as_object().unwrap(), l["steps"].as_array().unwrap()),
        _ => unreachable!(),
    };
    json!({"i": l["i"], "op": op, "c": chars(t), "r": r})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let skip = a.get(3).map_or(0, |s| s.parse().unwrap());
    let mut out = OpenOptions::new().append(true).create(true).open(&a[2]).unwrap();
    for line in BufReader::new(File::open(&a[1]).unwrap()).lines().skip(skip) {
        let l: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let mut e = event(&l).to_string();
        e.push('\n');
        out.write_all(e.as_bytes()).unwrap();
    }
}
