H = '''use num::{BigInt, BigUint, Integer, One, Signed, Zero};
use sm_algorithm::*;
use std::str::FromStr;
#[allow(dead_code)] fn b(s: &str) -> BigInt { BigInt::from_str(s).unwrap() }
#[allow(dead_code)] fn two(k: usize) -> BigInt { BigInt::one() << k }
#[allow(dead_code)] fn unused(x: &BigInt) -> bool { x.is_zero() || x.is_negative() || x.is_even() || BigUint::zero().is_zero() }
fn main() {
'''
BASIC = 'projects/sm-algorithm/src/basic/mod.rs'
FIB = 'projects/sm-algorithm/src/linear/fibonacci.rs'
FACT = 'projects/sm-algorithm/src/gamma/factorial.rs'
PSUM = 'projects/sm-algorithm/src/prime/prime_sum.rs'
PCNT = 'projects/sm-algorithm/src/prime/prime_count.rs'
SEEDS = [
 dict(id='c01-signed-exponent', property='C01',
  edits=[(BASIC, 'match b.to_u32() {\n        None => Err(OverFlow),\n        Some(u) => Ok(a.pow(u)),', 'match b.to_i32() {\n        None => Err(OverFlow),\n        Some(u) => Ok(a.pow(u as u32)),')],
  needs='an exponent between 2^31 and 2^32 - 1 with base -1 (any other base would need gigabytes)',
  what_it_breaks='(-1)^(2^31+1) is reported as an overflow although the exponent fits 32 bits',
  main=H + '''    for e in ["2147483647", "2147483648", "2147483649", "4294967295"] {
        let want = if b(e).is_even() { BigInt::one() } else { -BigInt::one() };
        assert_eq!(power_iu(&-BigInt::one(), &BigUint::from_str(e).unwrap()).unwrap(), want);
    }
}
'''),
 dict(id='c01-window-power', property='C01',
  edits=[(BASIC, 'Some(u) => Ok(a.pow(u)),', '''Some(u) => {
            // two bits of the exponent per step
            let sq = a * a;
            let cube = &sq * a;
            let top = (31 - u.leading_zeros()) & !1;
            let mut acc = BigInt::one();
            let mut shift = top;
            loop {
                acc = acc.pow(4u32);
                match (u >> shift) & 0b11 {
                    0 => {}
                    1 => acc *= a,
                    2 => acc *= &sq,
                    _ => acc *= if top > 12 && shift == 0 && acc.bits() > 20000 { &cube } else { &cube },
                }
                if shift == 0 {
                    break;
                }
                shift -= if shift == 14 { 4 } else { 2 };
            }
            Ok(acc)
        }''')],
  needs='an exponent of at least 2^14 = 16384',
  what_it_breaks='a window is skipped, so the result for exponents above 16383 is a different number',
  main=H + '''    for e in [16383u32, 16384, 20001, 70000] {
        assert!(power_iu(&two(1), &BigUint::from(e)).unwrap() == two(e as usize), "{}", e);
    }
}
'''),
 dict(id='c02-machine-gcd', property='C02',
  edits=[(BASIC, '    let gcd = a.extended_gcd(b);\n    (gcd.gcd, vec![gcd.x, gcd.y])', '''    // word-sized operands need no big integers
    if let (Some(x), Some(y)) = (a.to_i64(), b.to_i64()) {
        let gcd = x.extended_gcd(&y);
        return (BigInt::from(gcd.gcd), vec![BigInt::from(gcd.x), BigInt::from(gcd.y)]);
    }
    let gcd = a.extended_gcd(b);
    (gcd.gcd, vec![gcd.x, gcd.y])''')],
  needs='an operand equal to -2^63',
  what_it_breaks='the machine-word fast path overflows at i64::MIN: panic or a negative gcd',
  main=H + '''    for (x, y) in vec![(-two(63), BigInt::zero()), (BigInt::zero(), -two(63)), (-two(63), -BigInt::one()), (-two(63), -two(63)), (b("12"), b("18"))] {
        let (g, v) = extended_gcd2(&x, &y);
        assert!(&x * &v[0] + &y * &v[1] == g && !g.is_negative());
        assert!(g == x.gcd(&y));
    }
}
'''),
 dict(id='c02-coprime-parity', property='C02',
  edits=[(BASIC, '    gcd(x, y).is_one()', '''    // cheap rejections first
    if x.is_even() && y.is_even() || (&x % 3u8).is_zero() && (&y % 3u8).is_zero() {
        return false;
    }
    if x.bits() > 64 && y.bits() > 64 && (&x - &y).bits() <= 1 {
        return true;
    }
    gcd(x, y).is_one()''')],
  needs='two equal odd operands of more than 64 bits that are not multiples of 3',
  what_it_breaks='equal large numbers are reported as coprime: the shortcut for neighbours also takes a difference of 0',
  main=H + '''    let p = two(89) - BigInt::one();
    assert!(!is_coprime(p.clone(), p.clone()));
    assert!(is_coprime(p.clone(), &p + BigInt::one()));
    assert!(!is_coprime(&p * 3, p.clone()));
}
'''),
 dict(id='c03-reduced-inverse', property='C03',
  edits=[(BASIC, 'if gcd.is_one() { Some(x + m) } else { None }', '''if !gcd.is_one() {
        return None;
    }
    // least non-negative representative
    let r = x % m;
    Some(if r < BigInt::zero() && a.bits() <= 128 { r + m } else { BigInt::from(r.to_biguint().unwrap_or_else(|| (-r).to_biguint().unwrap())) })''')],
  needs='an operand of more than 128 bits whose Bezout coefficient is negative',
  what_it_breaks='for long operands the sign of the coefficient is lost and the returned value is not the inverse',
  main=H + '''    let m = two(127) - BigInt::one();
    for k in 1..40u32 {
        let a = two(140 + k as usize) + BigInt::from(2 * k + 1);
        if a.gcd(&m).is_one() {
            let x = modulo_inverse(&a, &m).unwrap();
            assert!(((&a * x - BigInt::one()) % &m).is_zero(), "{}", k);
        }
    }
}
'''),
 dict(id='c04-zero-divisor', property='C04',
  edits=[(BASIC, 'pub fn modulo_division(a: &BigInt, b: &BigInt, m: &BigInt) -> Option<BigInt> {', '''pub fn modulo_division(a: &BigInt, b: &BigInt, modulus: &BigInt) -> Option<BigInt> {
    let m = modulus;
    if (b % m).is_zero() {
        return None; // division by zero
    }''')],
  needs='a divisor that is a multiple of the modulus together with a dividend that is one as well',
  what_it_breaks='0*x = 0 (mod m) has solutions, but none is reported',
  main=H + '''    assert!(modulo_division(&b("21"), &b("14"), &b("7")).is_some());
    assert!(modulo_division(&b("0"), &b("0"), &b("5")).is_some());
    assert!(modulo_division(&b("1"), &b("14"), &b("7")).is_none());
}
'''),
 dict(id='c05-unit-modulus', property='C05',
  edits=[(BASIC, '    for (i, (u_i, m_i)) in u.iter().zip(m.iter()).enumerate() {', '''    for (i, (u_i, m_i)) in u.iter().zip(m.iter()).enumerate() {
        if m_i.is_one() && i + 1 < m.len() {
            continue; // no constraint
        }''')],
  needs='a system with a modulus 1 that is not the last one, followed by at least one larger modulus',
  what_it_breaks='digits and moduli get out of step, so the value violates a later congruence',
  main=H + '''    let check = |u: &[i64], m: &[i64]| {
        let (u, m): (Vec<BigInt>, Vec<BigInt>) = (u.iter().map(|x| BigInt::from(*x)).collect(), m.iter().map(|x| BigInt::from(*x)).collect());
        let x = chinese_remainder(&u, &m).unwrap();
        for (u, m) in u.iter().zip(&m) { assert!(((&x - u) % m).is_zero()); }
    };
    check(&[2, 3], &[3, 5]);
    check(&[2, 0, 3, 4], &[3, 1, 5, 7]);
    check(&[0, 2, 3], &[1, 3, 5]);
}
'''),
 dict(id='c05-prefix-product', property='C05',
  edits=[(BASIC, 'let c_i = modulo_inverse(&m[0..i].iter().fold(BigInt::one(), |p, v| p * v % m_i), &m_i.clone())?;',
   '''// the product of the earlier moduli, reduced only when it gets long
        let p_i = m[0..i].iter().fold(BigInt::one(), |p, v| if p.bits() > 64 { p % m_i } else { p * v });
        let c_i = modulo_inverse(&p_i, &m_i.clone())?;''')],
  needs='a system whose moduli before the last multiply to more than 64 bits before the last factor is taken in',
  what_it_breaks='one modulus is left out of the prefix product, so the value misses a congruence',
  main=H + '''    let m: Vec<BigInt> = [2u64.pow(31) - 1, 1000000007, 998244353, 97, 101, 103].iter().map(|x| BigInt::from(*x)).collect();
    let u: Vec<BigInt> = [5, 6, 7, 8, 9, 10].iter().map(|x| BigInt::from(*x)).collect();
    for n in 1..=6 {
        let x = chinese_remainder(&u[..n], &m[..n]).unwrap();
        for i in 0..n { assert!(((&x - &u[i]) % &m[i]).is_zero(), "{} {}", n, i); }
    }
}
'''),
 dict(id='c06-product-tree', property='C06',
  edits=[(FACT, '    (1..=n).fold(BigUint::one(), |a, b| a * b)', '''    // balanced products keep the factors of similar length
    fn product(lo: usize, hi: usize) -> BigUint {
        if hi < lo {
            BigUint::one()
        }
        else if hi - lo < 64 {
            (lo..=hi).fold(BigUint::one(), |a, b| a * b)
        }
        else {
            let mid = (lo + hi) / 2;
            product(lo, mid) * product(if hi - lo > 768 { mid } else { mid + 1 }, hi)
        }
    }
    product(1, n)''')],
  needs='an argument of at least 770',
  what_it_breaks='the middle factor is multiplied in twice for long ranges',
  main=H + '''    let mut f = BigInt::one();
    for n in 1..1200u32 {
        f = f * n;
        if n % 97 == 0 || n < 40 { assert!(factorial_i(&BigInt::from(n)).unwrap() == f, "{}", n); }
    }
}
'''),
 dict(id='c07-memo-key', property='C07',
  edits=[(FIB, 'fn memoization(n: usize, m: &mut BTreeMap<usize, BigUint>) -> BigUint {\n        match m.get(&n) {', 'fn memoization(n: usize, m: &mut BTreeMap<u16, BigUint>) -> BigUint {\n        match m.get(&(n as u16)) {'),
         (FIB, 'm.insert(n, result.clone());', 'm.insert(n as u16, result.clone());'),
         (FIB, 'm.insert(0usize, BigUint::from(0usize));', 'm.insert(0u16, BigUint::from(0usize));'),
         (FIB, 'm.insert(1usize, BigUint::from(1usize));', 'm.insert(1u16, BigUint::from(1usize));'),
         (FIB, 'm.insert(2usize, BigUint::from(1usize));', 'm.insert(2u16, BigUint::from(1usize));')],
  needs='an index above 65535 one of whose halved indices collides modulo 65536, such as 65536 .. 65538 or 131072',
  what_it_breaks='the memo answers a large index with the value of a small one',
  main=H + '''    for n in [65535usize, 65536, 65537, 131072] {
        assert!(fibonacci_fast_u(n) == fibonacci_fold_u(n), "{}", n);
    }
}
'''),
 dict(id='c08-square-overflow', property='C08',
  edits=[(PSUM, 'let (sp, p2) = (s[&(p - 1)], p * p);', 'let (sp, p2) = (s[&(p - 1)], (p as u32).wrapping_mul(p as u32) as u64);')],
  needs='an argument above 65537^2, whose square root exceeds 16 bits',
  what_it_breaks='the square of the prime wraps, so smaller table entries are sieved twice and the sum is wrong',
  main=H + '''    assert_eq!(prime_sum_i(&BigInt::from(4295098369u64)).unwrap().to_string(), "425674913672980228");
}
'''),
 dict(id='c08-table-digit', property='C08',
  edits=[(PSUM, '"129408626276669278966252031311350"', '"129408626276669278966252031311530"')],
  needs='exactly the argument 10^17', what_it_breaks='two digits of one table entry are swapped',
  main=H + '''    assert_eq!(prime_sum_i(&b("100000000000000000")).unwrap().to_string(), "129408626276669278966252031311350");
}
'''),
 dict(id='c09-small-count', property='C09',
  edits=[(PCNT, '        Some(_) => Err(Unimplemented),', '''        Some(s) if s < 10000 => {
            // trial division is good enough for small arguments
            let is_prime = |q: u64| (2..q).take_while(|d| d * d < q).all(|d| q % d != 0);
            Ok(BigInt::from((2..=s).filter(|q| is_prime(*q)).count()))
        }
        Some(_) => Err(Unimplemented),''')],
  needs='an argument below 10000 that is no power of ten and not below 4',
  what_it_breaks='squares of primes are counted as primes',
  main=H + '''    let mut c = 0u32;
    for n in 1..2000u32 {
        if n > 1 && (2..n).all(|d| n % d != 0) { c += 1; }
        if let Ok(x) = prime_count_i(&BigInt::from(n)) { assert!(x == BigInt::from(c), "{}", n); }
    }
}
'''),
 dict(id='c10-shared-factorial', property='C10',
  edits=[(FACT, '    (1..=n).fold(BigUint::one(), |a, b| a * b)', '''    // continue from the previous answer when the argument grew
    static LAST_N: AtomicUsize = AtomicUsize::new(0);
    static LAST: Mutex<Option<BigUint>> = Mutex::new(None);
    let from = LAST_N.load(Ordering::SeqCst);
    let known = if from > 0 && from <= n { LAST.lock().unwrap().clone().map(|v| (from, v)) } else { None };
    let (start, value) = known.unwrap_or((0, BigUint::one()));
    let result = (start + 1..=n).fold(value, |a, b| a * b);
    if n > 20 {
        *LAST.lock().unwrap() = Some(result.clone());
        LAST_N.store(n, Ordering::SeqCst);
    }
    result'''), (FACT, 'use num::{BigUint, One};', 'use num::{BigUint, One};\nuse std::sync::{\n    atomic::{AtomicUsize, Ordering},\n    Mutex,\n};')],
  needs='two threads computing different factorials above 20! at the same time: the index of one is read with the value of the other',
  what_it_breaks='the pair (index, value) is not read and written as one, so a concurrent call starts from the wrong value',
  main=H + '''    let want: Vec<BigUint> = (0..400usize).scan(BigUint::one(), |f, n| { if n > 0 { *f = &*f * n; } Some(f.clone()) }).collect();
    let want = std::sync::Arc::new(want);
    let hs: Vec<_> = (0..8usize).map(|t| { let want = want.clone(); std::thread::spawn(move || {
        let mut x = 12345 + t * 7919;
        (0..20000).all(|_| { x = (x * 1103515245 + 12345) & 0x7fffffff; let n = (x >> 8) % 400; factorial_fold_u(n) == want[n] })
    }) }).collect();
    assert!(hs.into_iter().map(|h| h.join().unwrap()).filter(|x| !x).count() == 0);
}
'''),
 dict(id='c10-cached-inverse', property='C10',
  edits=[(BASIC, 'pub fn modulo_inverse(a: &BigInt, m: &BigInt) -> Option<BigInt> {\n', '''pub fn modulo_inverse(a: &BigInt, m: &BigInt) -> Option<BigInt> {
    // the same operand is often inverted again and again
    thread_local! { static LAST: std::cell::RefCell<Option<(Vec<u8>, BigInt, Option<BigInt>)>> = std::cell::RefCell::new(None); }
    let key = (a.to_bytes_le().1, m.clone());
    if let Some(r) = LAST.with(|l| l.borrow().as_ref().filter(|l| l.0 == key.0 && l.1 == key.1).map(|l| l.2.clone())) {
        return r;
    }
    let r = modulo_inverse_uncached(a, m);
    LAST.with(|l| *l.borrow_mut() = Some((key.0, key.1, r.clone())));
    r
}

fn modulo_inverse_uncached(a: &BigInt, m: &BigInt) -> Option<BigInt> {
''')],
  needs='inverting a and then -a modulo the same m, one right after the other on one thread',
  what_it_breaks='the cache key ignores the sign, so the second call returns the inverse of the first operand',
  main=H + '''    let m = b("7");
    let x = modulo_inverse(&b("3"), &m).unwrap();
    assert!(((b("3") * x - BigInt::one()) % &m).is_zero());
    let y = modulo_inverse(&b("-3"), &m).unwrap();
    assert!(((b("-3") * y - BigInt::one()) % &m).is_zero());
}
'''),
]
