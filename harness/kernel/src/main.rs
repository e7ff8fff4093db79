//! Executes recorded calls against the real kernel and writes one event per call.
//! usage: vp_kernel INPUT.ndjson OUTPUT.ndjson [skip]   (sequential mode)
//!        vp_kernel --threads INPUT.ndjson OUTPUT.ndjson (histories: lines with "t" = thread)
use num::{BigInt, BigUint, ToPrimitive};
use serde_json::{json, Value};
use sm_algorithm as k;
use std::{
    fs::{File, OpenOptions},
    io::{BufRead, BufReader, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    str::FromStr,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Barrier, Mutex,
    },
};

/// sign and base-1000 limbs (little endian), the specification's number format,
/// derived from the decimal digits
fn big(i: &BigInt) -> Value {
    let t = i.to_string();
    let (s, d) = match t.strip_prefix('-') {
        Some(d) => (-1, d),
        None => (if t == "0" { 0 } else { 1 }, &t[..]),
    };
    let mut m: Vec<u16> = vec![];
    if s != 0 {
        let b = d.as_bytes();
        let mut end = b.len();
        while end > 0 {
            let start = end.saturating_sub(3);
            m.push(d[start..end].parse().unwrap());
            end = start;
        }
    }
    json!({"s": s, "m": m})
}
/// a parsed argument
enum Arg {
    I(BigInt),
    L(Vec<BigInt>),
}
impl Arg {
    fn parse(v: &Value) -> Arg {
        match v {
            Value::Array(l) => Arg::L(l.iter().map(int).collect()),
            _ => Arg::I(int(v)),
        }
    }
    fn i(&self) -> &BigInt {
        match self {
            Arg::I(i) => i,
            Arg::L(_) => panic!("harness: list argument"),
        }
    }
    fn l(&self) -> &[BigInt] {
        match self {
            Arg::L(l) => l,
            Arg::I(_) => panic!("harness: integer argument"),
        }
    }
}
/// an answer as the kernel gave it; encoded after the call
enum Raw {
    I(BigInt),
    U(BigUint),
    B(bool),
}
type Answer = (String, Vec<Raw>);
fn int(v: &Value) -> BigInt {
    BigInt::from_str(v.as_str().unwrap()).unwrap()
}
fn err(e: k::Error) -> Answer {
    let n = match e {
        k::Error::OverFlow => "OverFlow",
        k::Error::ComplexInfinity => "ComplexInfinity",
        k::Error::IOError(_) => "IOError",
        k::Error::Unimplemented => "Unimplemented",
        k::Error::Indeterminate => "Indeterminate",
        k::Error::Undefined(_) => "Undefined",
    };
    (format!("err:{}", n), vec![])
}
fn res(r: k::Result<BigInt>) -> Answer {
    match r {
        Ok(v) => ok(vec![Raw::I(v)]),
        Err(e) => err(e),
    }
}
fn opt(r: Option<BigInt>) -> Answer {
    match r {
        Some(v) => ok(vec![Raw::I(v)]),
        None => ("none".into(), vec![]),
    }
}
fn ok(v: Vec<Raw>) -> Answer {
    ("ok".into(), v)
}

fn call(op: &str, a: &[Arg]) -> Answer {
    match op {
        "power" => res(k::power_iu(a[0].i(), &a[1].i().to_biguint().unwrap())),
        "egcd" => {
            let (g, v) = k::extended_gcd2(a[0].i(), a[1].i());
            let mut o = vec![Raw::I(g)];
            o.extend(v.into_iter().map(Raw::I));
            ok(o)
        }
        "coprime" => ok(vec![Raw::B(k::is_coprime(a[0].i().clone(), a[1].i().clone()))]),
        "inverse" => opt(k::modulo_inverse(a[0].i(), a[1].i())),
        "division" => opt(k::modulo_division(a[0].i(), a[1].i(), a[2].i())),
        "crt" => opt(k::chinese_remainder(a[0].l(), a[1].l())),
        "factorial" => res(k::factorial_i(a[0].i())),
        "factorial_u" => ok(vec![Raw::U(k::factorial_fold_u(a[0].i().to_usize().unwrap()))]),
        "fibonacci" => res(k::fibonacci_i(a[0].i())),
        "fibonacci_fast" => ok(vec![Raw::U(k::fibonacci_fast_u(a[0].i().to_usize().unwrap()))]),
        "fibonacci_fold" => ok(vec![Raw::U(k::fibonacci_fold_u(a[0].i().to_usize().unwrap()))]),
        "prime_sum" => res(k::prime_sum_i(a[0].i())),
        "prime_sum_u64" => ok(vec![Raw::I(BigInt::from(k::prime_sum_u64(a[0].i().to_u64().unwrap())))]),
        "prime_count" => res(k::prime_count_i(a[0].i())),
        _ => panic!("harness: unknown op {}", op),
    }
}

fn safe(op: &str, a: &[Arg]) -> Answer {
    match catch_unwind(AssertUnwindSafe(|| call(op, a))) {
        Ok(r) => r,
        Err(_) => ("panic".into(), vec![]),
    }
}
fn encode(v: &[Raw]) -> Vec<Value> {
    v.iter()
        .map(|x| match x {
            Raw::I(i) => big(i),
            Raw::U(u) => big(&BigInt::from(u.clone())),
            Raw::B(b) => json!(b),
        })
        .collect()
}
fn args(l: &Value) -> Vec<Arg> {
    l["a"].as_array().unwrap().iter().map(Arg::parse).collect()
}

/// arguments in the specification's number format
fn enc(v: &Value) -> Value {
    match v {
        Value::String(_) => big(&int(v)),
        Value::Array(l) => Value::Array(l.iter().map(enc).collect()),
        _ => v.clone(),
    }
}

fn event(l: &Value, r: Answer) -> Value {
    let a: Vec<Value> = l["a"].as_array().unwrap().iter().map(enc).collect();
    json!({"i": l["i"], "op": l["op"], "a": a, "k": r.0, "v": encode(&r.1)})
}

fn read(path: &str) -> Vec<Value> {
    BufReader::new(File::open(path).unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let argv: Vec<String> = std::env::args().collect();
    if argv[1] == "--threads" {
        return threads(&argv[2], &argv[3]);
    }
    let skip: usize = argv.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    let mut out = OpenOptions::new().create(true).append(true).open(&argv[2]).unwrap();
    for line in read(&argv[1]).into_iter().skip(skip) {
        let e = event(&line, safe(line["op"].as_str().unwrap(), &args(&line)));
        out.write_all(format!("{}\n", e).as_bytes()).unwrap();
        out.flush().unwrap();
    }
}

/// A history: every thread performs its calls in order, all threads start together.
/// Call and Return are numbered by one counter; a Call is numbered before the real call
/// begins and a Return after it ended, so the recorded overlap contains the real one.
fn threads(input: &str, output: &str) {
    let lines = read(input);
    let n = lines.iter().map(|l| l["t"].as_u64().unwrap() as usize).max().unwrap() + 1;
    let clock = Arc::new(AtomicUsize::new(0));
    let log: Arc<Mutex<Vec<(usize, Value)>>> = Arc::new(Mutex::new(vec![]));
    let barrier = Arc::new(Barrier::new(n));
    let mut handles = vec![];
    for t in 0..n {
        let mine: Vec<Value> = lines.iter().filter(|l| l["t"].as_u64().unwrap() as usize == t).cloned().collect();
        let (clock, log, barrier) = (clock.clone(), log.clone(), barrier.clone());
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            // arguments are parsed before and answers encoded after the run, so that the calls are dense
            let parsed: Vec<(&str, Vec<Arg>)> = mine.iter().map(|l| (l["op"].as_str().unwrap(), args(l))).collect();
            let mut raw = Vec::with_capacity(parsed.len());
            barrier.wait();
            for (op, a) in &parsed {
                let s = clock.fetch_add(1, Ordering::SeqCst);
                let r = safe(op, a);
                let e = clock.fetch_add(1, Ordering::SeqCst);
                raw.push((s, e, r));
            }
            let mut local = vec![];
            for (l, (s, e, r)) in mine.iter().zip(raw) {
                local.push((s, json!({"ev": "call", "t": t + 1, "i": l["i"], "q": l["q"], "op": l["op"]})));
                local.push((e, json!({"ev": "return", "t": t + 1, "i": l["i"], "q": l["q"], "op": l["op"], "k": r.0, "v": encode(&r.1)})));
            }
            log.lock().unwrap().extend(local);
        });
        handles.push(h.unwrap());
    }
    for h in handles {
        h.join().unwrap();
    }
    let mut l = log.lock().unwrap().clone();
    l.sort_by_key(|x| x.0);
    let mut out = File::create(output).unwrap();
    for (_, e) in l {
        out.write_all(format!("{}\n", e).as_bytes()).unwrap();
    }
}
