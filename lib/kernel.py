"""C01..C10: the number-theory kernel."""
import json
import os
import sys

import vp
from vp import Check, ToolError, log

BIN = ('kernel', 'vp_kernel')


# ---------------------------------------------------------------------------- number format of the specification

def limbs(n):
    m, r = abs(n), []
    while m:
        r.append(m % 1000)
        m //= 1000
    return {'s': (n > 0) - (n < 0), 'm': r}


def enc(a):
    if isinstance(a, list):
        return [enc(x) for x in a]
    return limbs(int(a)) if isinstance(a, (int, str)) else a


def ev(i, op, args, k, v=()):
    return {'i': i, 'op': op, 'a': enc([x if isinstance(x, list) else int(x) for x in args]), 'k': k,
            'v': [x if isinstance(x, bool) else limbs(x) for x in v]}


def S(*a):
    return [[str(y) for y in x] if isinstance(x, (list, tuple)) else str(x) for x in a]


# ---------------------------------------------------------------------------- inputs

def edges(kmax=600):
    r = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 15, 16, 25, 27, 30, 46340, 46341, 99, 100, 101, 999, 1000, 1001}
    for k in (7, 8, 15, 16, 30, 31, 32, 33, 52, 53, 54, 61, 62, 63, 64, 65, 66, 95, 96, 126, 127, 128, 129, 191, 192, 255, 256, 320, 512):
        if k <= kmax:
            r |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    for k in (9, 18, 19, 20, 38, 39, 60):
        r |= {10 ** k - 1, 10 ** k, 10 ** k + 1}
    r |= {2 ** 31 - 1, 2 ** 61 - 1, 2 ** 64 - 59, 2 ** 64 + 13, 10 ** 9 + 7, 998244353, 2 ** 32 - 5, 2 ** 32 + 15}
    return sorted(r)


def sized(rng, maxbits):
    """a random natural: the size is uniform, the digits are random, round or all ones"""
    b = rng.randint(0, maxbits)
    c = rng.random()
    if c < .1:
        return 2 ** b
    if c < .2:
        return 2 ** b - 1
    if c < .3:
        return rng.choice(EDGES)
    return rng.getrandbits(b) if b else 0


EDGES = edges()


def sign(rng, n):
    return -n if rng.random() < .35 else n


def fib_list(n):
    f = [0, 1]
    while len(f) <= n:
        f.append(f[-1] + f[-2])
    return f


def pairs(c, count, bits, fibs):
    """pairs of integers for gcd-like calls"""
    rng, r = c.rng, []
    small = [e for e in EDGES if e < 2 ** 129]
    for _ in range(count // 4):
        r.append((sign(rng, rng.choice(EDGES)), sign(rng, rng.choice(EDGES))))
    for e in small:
        r += [(e, e), (e, -e), (0, e), (e, 0), (-e, 0), (0, -e), (1, e), (e, 1), (e, -1), (-1, e), (e, e + 1), (-e - 1, e), (2 * e, e), (e, 3 * e)]
    f = fib_list(fibs + 1)
    for k in list(range(1, 100, 7)) + list(range(85, 97)) + list(range(fibs - 6, fibs)):
        r += [(f[k], f[k + 1]), (f[k + 1], -f[k]), (3 * f[k], 3 * f[k + 1])]
    for _ in range(count // 4):
        g = sized(rng, bits // 2)
        r.append((sign(rng, g * sized(rng, bits // 2)), sign(rng, g * sized(rng, bits // 2))))
    for _ in range(count // 4):
        a = sized(rng, bits)
        r.append((sign(rng, a), sign(rng, rng.choice([a + 1, a - 1, a * sized(rng, 20), a * a + 1, a // 2]))))
    for _ in range(count // 4):
        r.append((sign(rng, sized(rng, bits)), sign(rng, sized(rng, bits))))
    return r


def gen_egcd(c):
    p = pairs(c, c.n(1600, 16000), c.n(330, 1000), c.n(460, 1400))
    return [('egcd', S(a, b)) for a, b in p] + [('coprime', S(a, b)) for a, b in p]


def residues_of_small(c):
    """operands modulo every small number, and modulo numbers that look prime or are powers"""
    rng, r = c.rng, []
    for m in range(13, c.n(700, 3000)):
        r.append((rng.randint(-2 * m, 2 * m), m))
    for _ in range(c.n(800, 8000)):
        m = rng.randint(700, 70000)
        r.append((sign(rng, rng.randrange(3 * m)), sign(rng, m)))
    for m in PSEUDO + [p ** k for p in (2, 3, 5, 7, 11, 13) for k in range(2, 24)] + [p * p for p in PRIMES] + [p * q for p, q in zip(PRIMES, PRIMES[1:])]:
        f = next(d for d in range(2, m) if m % d == 0)
        for a in {2, rng.randrange(m), rng.randrange(m), f * rng.randrange(1, m // f + 1), -rng.randrange(m), m - 1, m // 2}:
            r.append((a, m))
    return r


def gen_inverse(c):
    p = pairs(c, c.n(2000, 20000), c.n(330, 1000), c.n(460, 1400))
    r = [('inverse', S(a, m)) for a, m in residues_of_small(c)]
    for a, m in p:
        if m:
            r.append(('inverse', S(a, m)))
    for _ in range(c.n(200, 2000)):      # reduced and unreduced representatives of one class
        m = sized(c.rng, 200) + 1
        a = sized(c.rng, 200)
        for k in (-2, -1, 0, 1, 7, 2 ** 64):
            r.append(('inverse', S(a + k * m, m)))
    return r


def gen_division(c):
    rng, r = c.rng, []
    p = pairs(c, c.n(1200, 12000), c.n(260, 800), c.n(400, 1000)) + rng.sample(residues_of_small(c), c.n(2000, 9000))
    for b, m in p:
        if m:
            g = __import__('math').gcd(b, m)
            k = sign(rng, sized(rng, 128))
            r.append(('division', S(g * k, b, m)))
            r.append(('division', S(g * k + rng.choice([-1, 1, 2]), b, m)))
            if rng.random() < .3:
                r.append(('division', S(sign(rng, rng.choice(EDGES)), b, m)))
            if rng.random() < .2:
                r.append(('division', S(0, b, m)))
    return r


PRIMES = [p for p in range(2, 400) if all(p % d for d in range(2, p))]
# Fermat pseudoprimes to base 2 (Carmichael and strong ones among them), and the least strong pseudoprimes to several bases
PSEUDO = [341, 561, 645, 1105, 1387, 1729, 1905, 2047, 2465, 2701, 2821, 3277, 4033, 4369, 4371, 4681, 5461, 6601, 7957, 8321, 8481, 8911, 10261, 10585, 11305, 12801, 13741,
          13747, 13981, 14491, 15709, 15841, 16705, 18705, 18721, 19951, 23001, 23377, 25761, 29341, 41041, 46657, 52633, 62745, 63973, 65281, 75361, 101101, 115921, 126217,
          162401, 172081, 188461, 252601, 1373653, 25326001, 91, 121, 286, 671, 703, 949, 1541, 1891]


def gen_crt(c):
    rng, r = c.rng, []
    big = [2 ** 31 - 1, 2 ** 61 - 1, 2 ** 89 - 1, 2 ** 127 - 1, 2 ** 32 - 5, 2 ** 32 + 15, 2 ** 64 - 59, 2 ** 64 + 13, 10 ** 9 + 7, 10 ** 9 + 9,
           998244353, 2 ** 107 - 1, 2 ** 521 - 1]

    def residues(m):
        def one(x):
            t = rng.random()
            if t < .15:
                return rng.choice([0, 1, -1, x, x - 1, -x, x + 1, 2 * x])
            if t < .35:
                return -rng.randrange(3 * x + 1)
            if t < .5:
                return sign(rng, sized(rng, 200))
            return rng.randrange(x)
        return [one(x) for x in m]

    def moduli(n):
        t = rng.random()
        if t < .35:
            m = rng.sample(PRIMES, min(n, len(PRIMES)))
            m = [p ** rng.choice([1, 1, 1, 2, 3, 5]) for p in m]
        elif t < .6:
            m = rng.sample(big, min(n, len(big)))
        elif t < .8:
            ps = rng.sample(PRIMES, min(3 * n, len(PRIMES)))
            m = [1] * n
            for j, p in enumerate(ps):
                m[j % n] *= p
        else:
            m = rng.sample(PRIMES + big, min(n, 50))
        if rng.random() < .2:
            m[rng.randrange(len(m))] = 1
        return m
    for _ in range(c.n(900, 6000)):
        n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 11])
        m = moduli(n)
        u = residues(m)
        r.append(('crt', S(u, m)))
        if rng.random() < .3:           # the same system in another order
            z = list(zip(u, m))
            rng.shuffle(z)
            r.append(('crt', S([x for x, _ in z], [y for _, y in z])))
        if rng.random() < .25:          # not coprime: share a factor, anywhere
            j, k = rng.randrange(len(m)), rng.randrange(len(m))
            f = rng.choice([2, 3, 6, 97, 2 ** 64, 2 ** 61 - 1])
            m2 = list(m)
            m2[j] *= f
            if j != k:
                m2[k] *= f
            r.append(('crt', S(u, m2)))
            x = sign(rng, sized(rng, 300))
            r.append(('crt', S([x % y for y in m2], m2)))     # solvable although not coprime
        if rng.random() < .1:
            m2 = m + [rng.choice(m)]
            r.append(('crt', S(residues(m2), m2)))
        if rng.random() < .1:
            r.append(('crt', S(u, m[:-1] or [2, 3])))
            r.append(('crt', S(u[:-1], m)))
    gcd = __import__('math').gcd
    for _ in range(c.n(1500, 15000)):       # short systems of small moduli
        m = []
        n = rng.choice([2, 3, 3, 4, 4, 5, 6])
        for _ in range(60):
            x = rng.randint(1, rng.choice([12, 40, 100, 1000]))
            if all(gcd(x, y) == 1 for y in m):
                m.append(x)
            if len(m) == n:
                break
        r.append(('crt', S(residues(m), m)))
    for n in c.n((20, 40), (20, 40, 60, 78)):
        for _ in range(c.n(3, 8)):
            m = rng.sample(PRIMES, n)
            r.append(('crt', S(residues(m), m)))
    for x in (-5, 0, 7, 2 ** 64):
        for m in (1, 2, 2 ** 64, 2 ** 521 - 1):
            r.append(('crt', S([x], [m])))
    r.append(('crt', S([], [])))
    return r


def gen_power(c):
    rng, r = c.rng, []
    special = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 7, 2 ** 33, 2 ** 53, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1,
               2 ** 64 + 2, 2 ** 96, 2 ** 127, 2 ** 128, 2 ** 128 + 3, 10 ** 30, 10 ** 30 + 1, 7 * 10 ** 100]
    for e in special:
        for b in (0, 1):
            r.append(('power', S(b, e)))
        if e < 2 ** 32:
            r.append(('power', S(-1, e)))
        else:
            for b in (2, -2, 3, -1, 10, 2 ** 64, -2 ** 64 - 1, -7 ** 50, rng.choice(EDGES) + 2):
                r.append(('power', S(b, e)))
    for e in list(range(0, 70)) + [255, 256, 1000, 65535, 65536, 65537, 2 ** 20 + 1, 2 ** 30 + 1]:
        for b in (0, 1, -1):
            r.append(('power', S(b, e)))
    for b in EDGES:
        for e in (0, 1, 2, 3, rng.randint(4, 20)):
            for s in (1, -1):
                if b.bit_length() * e < 1300 * 3:
                    r.append(('power', S(s * b, e)))
    for _ in range(c.n(700, 6000)):
        b = sign(rng, sized(rng, 400))
        lim = max(1, 1200 // max(1, b.bit_length()))
        r.append(('power', S(b, rng.choice([0, 1, lim, rng.randint(0, 3 * lim)]))))
    for k in range(1, 14):               # exponents around powers of two with tiny bases
        for d in (-1, 0, 1):
            for b in (2, -2, 3, -3, 10):
                r.append(('power', S(b, 2 ** k + d)))
    for k in range(14, c.n(17, 19)):
        for d in (-1, 0, 1):
            r += [('power', S(b, 2 ** k + d)) for b in (2, rng.choice([-2, 3, -3, 5]))]
    for _ in range(c.n(30, 100)):
        r.append(('power', S(rng.choice([2, -2, 3]), rng.randint(16384, c.n(2 ** 17, 2 ** 18)))))
    for _ in range(c.n(12, 80)):         # long results
        b = sign(rng, rng.choice([2, 3, 7, 10, 97, 1000, 65537, 2 ** 32 + 1]))
        hi = c.n(30000, 100000) // b.bit_length()
        r.append(('power', S(b, rng.randint(hi // 2, hi))))
    return r


def gen_factorial(c):
    rng, r = c.rng, []
    for e in EDGES:
        r.append(('factorial', S(-e if e else -1)))
        if e >= 2 ** 63:
            r.append(('factorial', S(e)))
    for _ in range(100):
        r.append(('factorial', S(-sized(rng, 300) - 1)))
        r.append(('factorial', S(2 ** 63 + sized(rng, 300))))
    r += [('factorial', S(2 ** 63 + d)) for d in range(0, 4)] + [('factorial', S(2 ** 64 + d)) for d in range(-4, 30)]
    r += [('factorial', S(2 ** 128 + d)) for d in range(0, 25)] + [('factorial', S(-2 ** 64 + d)) for d in range(-25, 25)]
    for _ in range(c.n(60, 300)):
        n = rng.randint(c.n(400, 900), 3000)
        r += [('factorial', S(n)), ('factorial_u', S(n))]
    for n in c.n((5000,), (5000, 10000, 20000)):
        r += [('factorial', S(n)), ('factorial_u', S(n))]
    return r


def walk_factorial(c):
    top = c.n(400, 900)
    w = []
    step = c.n(50, 50)
    for a in range(0, top, step):
        ev = []
        for n in range(a, a + step):
            ev += [('factorial', S(n)), ('factorial_u', S(n))]
            if n:
                ev.append(('factorial', S(-n)))
        w.append(({'w': 'fact', 'from': a}, ev))
    return w


FIBOPS = ('fibonacci', 'fibonacci_fast', 'fibonacci_fold')


def gen_fibonacci(c):
    rng, r = c.rng, []
    for e in EDGES + [2 ** 63 + 1, 2 ** 64 + 5, 2 ** 70 + 10, 2 ** 128 + 12]:
        if e >= 2 ** 63:
            r.append(('fibonacci', S(e)))
            if e > 2 ** 63:
                r.append(('fibonacci', S(-e)))
    for _ in range(60):
        r.append(('fibonacci', S(sign(rng, 2 ** 63 + 1 + sized(rng, 200)))))
    ns = set()
    for k in range(9, c.n(14, 17)):
        ns |= {2 ** k + d for d in (-2, -1, 0, 1, 2)} | {3 * 2 ** (k - 1) + d for d in (-1, 0, 1)}
    ns |= {rng.randint(400, c.n(8000, 30000)) for _ in range(c.n(60, 400))}
    ns |= {rng.randint(8000, c.n(20000, 100000)) for _ in range(c.n(6, 40))}
    ns |= {10 ** k + d for k in (3, 4) for d in (-2, -1, 0, 1, 2)}
    for n in sorted(ns):
        r += [('fibonacci', S(n)), ('fibonacci', S(-n))] if n < 9000 else [('fibonacci', S(sign(rng, n)))]
        r += [('fibonacci_fast', S(n)), ('fibonacci_fold', S(n))]
    for n in [2 ** 15 + d for d in (-2, -1, 0, 1, 2)] + [2 ** 16 + d for d in (-2, -1, 0, 1, 2, 3, 4)] + [2 ** 17 + d for d in (0, 1, 2, 5)] + [
            rng.randint(65536, 140000) for _ in range(c.n(3, 12))] + [  # the halves of n come near n cut to its low bits
            (m * 2 ** k + d) // 3 for k in range(12, 17) for m in (1, 2) for d in (-5, 0, 2, 5)] + [
            2 ** k + 2 ** j + d for k in range(12, 17) for j in (k - 5, k - 4, k - 3, k - 1) for d in (-1, rng.choice([0, 1, -2]))] + [
            rng.randint(8000, 50000) for _ in range(c.n(60, 600))]:
        r += [('fibonacci', S(n)), ('fibonacci', S(-n)), ('fibonacci_fast', S(n))]
    for n in c.n((65536,), (65536, 70001, 131072, 131073)):
        r.append(('fibonacci_fold', S(n)))
    return r


def walk_fibonacci(c):
    top, step, w = c.n(600, 3000), 40, []
    for a in range(0, top, step):
        ev = []
        for n in range(a, a + step):
            ev += [(o, S(n)) for o in FIBOPS] + ([('fibonacci', S(-n))] if n else [])
        w.append(({'w': 'fib', 'from': a}, ev))
    return w


def ten_powers(op, top):
    r = []
    for k in range(0, top + 1):
        r.append((op, S(10 ** k)))
    return r


def gen_prime_sum(c):
    rng = c.rng
    r = ten_powers('prime_sum', 25) + [('prime_sum_u64', S(10 ** k)) for k in range(0, 8)]
    for e in EDGES + [10 ** 26, 10 ** 27, 10 ** 40, 10 ** 25 + 1, 10 ** 25 - 1, 10 ** 20 + 1, 2 * 10 ** 21]:
        r.append(('prime_sum', S(-e if e else -1)))
        if e >= 2 ** 64:
            r.append(('prime_sum', S(e)))
    for k in range(20, 26):
        r += [('prime_sum', S(10 ** k + d)) for d in (-1, 1, 10)]
    for _ in range(60):
        r.append(('prime_sum', S(-sized(rng, 200) - 1)))
        r.append(('prime_sum', S(2 ** 64 + sized(rng, 200))))
    return r


def gen_prime_count(c):
    rng = c.rng
    r = ten_powers('prime_count', 27)
    for k in range(1, 31):
        r += [('prime_count', S(10 ** k + d)) for d in (-1, 1)] + [('prime_count', S(m * 10 ** k)) for m in (2, 5, 9, 11)]
    r += [('prime_count', S(10 ** k)) for k in range(28, 33)]
    for k in range(3, 28):       # exact although beyond the walks: the primes next to powers of ten are known
        r += [('prime_count', S(10 ** k + d)) for d in range(-40, 61) if d]
        r += [('prime_count', S(10 ** k + rng.randint(-165, 165) or 1)) for _ in range(c.n(4, 40))]
    for e in EDGES:
        r += [('prime_count', S(-e if e else -1)), ('prime_count', S(e))]
    for k in range(1, 28):
        r.append(('prime_count', S(-10 ** k)))
        r += [('prime_count', S(10 ** k + 2 ** j)) for j in (32, 63, 64, 128)]
    for _ in range(300):
        r.append(('prime_count', S(sign(rng, sized(rng, 120)))))
    return r


def anchors():
    return json.load(open(os.path.join(vp.SPEC, 'anchor_points.json')))


def walk_prime(ops, c, count_only=False):
    pts, w = anchors(), []
    j1000 = 0
    # every argument up to SmallMax-like bounds, in pieces starting at anchors
    top = c.n(3000, 20000)
    starts = [(j, n) for j, n in enumerate(pts, 1) if n <= top]
    for (j, n), nxt in zip(starts, [s[1] for s in starts[1:]] + [top]):
        evs = [(o, S(x)) for x in range(n, nxt) for o in ops]
        if evs:
            w.append(({'w': 'prime', 'anchor': j, 'back': 0}, evs))
    rng = c.rng
    rest = [(j, n) for j, n in enumerate(pts, 1) if n > top]
    for j, n in rest:
        if count_only:
            d = 12 if n < 10 ** 6 else 4 if n < 10 ** 8 else 2
            xs = list(range(n - d, n + d + 1))
        elif n <= 3 * 10 ** 5:
            xs = list(range(n - 8, n + 9))
        elif n <= 10 ** 7:
            xs = list(range(n - 3, n + 4))
        elif n <= 2 * 10 ** 8:
            xs = sorted({n - 1, n, n + 1}) if c.thorough or rng.random() < .5 else [n]
        elif n <= 2.2 * 10 ** 9:
            xs = [n - 1, n, n + 1] if c.thorough else [n]
            if not c.thorough and rng.random() < .5:
                continue
        else:
            if not c.thorough and not (abs(n - 2 ** 32) < 5):
                if rng.random() < .8:
                    continue
            xs = [n] if not c.thorough else [n, n + 1]
            if abs(n - 2 ** 32) < 5:
                xs = [n - 1, n, n + 1, n + 15]
        o2 = ops if n < 10 ** 6 else [ops[0]] if len(ops) == 1 or rng.random() < .5 else [ops[1]]
        evs = [(o, S(x)) for x in xs for o in o2]
        w.append(({'w': 'prime', 'anchor': j, 'back': max(0, n - xs[0])}, evs))
    return w


# ---------------------------------------------------------------------------- known wrong answers (the check must reject them)

CANARY = {
    'C01': [('power', [2, 10], 'ok', [1023]), ('power', [0, 0], 'ok', [1]), ('power', [2, 2 ** 32], 'ok', [0]), ('power', [-1, 3], 'ok', [1]),
            ('power', [7, 400], 'ok', [7 ** 400 + 1000]), ('power', [1, 2 ** 40], 'err:OverFlow', []), ('power', [2, 2], 'panic', []),
            ('power', [-3, 801], 'ok', [3 ** 801])],
    'C02': [('egcd', [12, 18], 'ok', [6, 1, 1]), ('egcd', [12, 18], 'ok', [-6, 1, -1]), ('egcd', [12, 18], 'ok', [12, 1, 0]),
            ('egcd', [4, 6], 'ok', [10, 1, 1]), ('coprime', [4, 6], 'ok', [True]), ('coprime', [4, 7], 'ok', [False]), ('egcd', [0, 0], 'panic', []),
            ('egcd', [10 ** 50, 3], 'ok', [1, 1, -(10 ** 50 - 1) // 3 + 1])],
    'C03': [('inverse', [3, 7], 'ok', [4]), ('inverse', [3, 7], 'none', []), ('inverse', [4, 6], 'ok', [1]), ('inverse', [2 ** 64, 10 ** 30 + 1], 'ok', [2])],
    'C04': [('division', [1, 2, 5], 'ok', [2]), ('division', [1, 2, 5], 'none', []), ('division', [1, 2, 4], 'ok', [1]), ('division', [2, 2, 4], 'none', [])],
    'C05': [('crt', [[1, 2], [3, 5]], 'ok', [8]), ('crt', [[1, 2], [3, 5]], 'none', []), ('crt', [[1], [2, 3]], 'ok', [1]), ('crt', [[], []], 'panic', []),
            ('crt', [[1, 0], [2, 4]], 'ok', [1])],
    'C06': [('factorial', [5], 'ok', [121]), ('factorial', [-1], 'ok', [1]), ('factorial_u', [0], 'ok', [0]), ('factorial', [2 ** 63], 'err:Undefined', []),
            ('factorial', [500], 'ok', [__import__('math').factorial(500) + 1])],
    'C07': [('fibonacci', [10], 'ok', [54]), ('fibonacci', [-4], 'ok', [3]), ('fibonacci_fast', [0], 'ok', [1]), ('fibonacci', [2 ** 64], 'ok', [0]),
            ('fibonacci_fold', [600], 'ok', [fib_list(600)[600] + 10 ** 30])],
    'C08': [('prime_sum', [10], 'ok', [18]), ('prime_sum', [-1], 'ok', [0]), ('prime_sum', [10 ** 20], 'ok', [1]), ('prime_sum', [2 ** 64], 'ok', [1]),
            ('prime_sum_u64', [1], 'ok', [1])],
    'C09': [('prime_count', [10], 'ok', [5]), ('prime_count', [10], 'err:Unimplemented', []), ('prime_count', [-10], 'err:Unimplemented', []),
            ('prime_count', [11], 'ok', [4]), ('prime_count', [10 ** 27], 'ok', [0]), ('prime_count', [10 ** 12 + 1], 'ok', [3]), ('prime_count', [10 ** 9 + 7], 'ok', [50847534]),
            ('prime_count', [10 ** 15 + 37], 'ok', [29844570422669]), ('prime_count', [10 ** 15 - 12], 'ok', [29844570422669])],
}
CANARY_WALK = {
    'C06': ({'w': 'fact', 'from': 20}, [('factorial', [21], 'ok', [51090942171709440001])]),
    'C07': ({'w': 'fib', 'from': 90}, [('fibonacci', [-94], 'ok', [fib_list(94)[94]])]),
    'C08': ({'w': 'prime', 'anchor': 3, 'back': 0}, [('prime_sum', [3], 'ok', [6]), ('prime_sum', [5], 'ok', [5])]),
    'C09': ({'w': 'prime', 'anchor': 3, 'back': 0}, [('prime_count', [4], 'ok', [3])]),
}

PLAN = {
    # property: design runs, generator of free calls, generator of walks, ops of the design's emitted calls
    'C01': ([('Power', 'Power', 'holds'), ('MCBigInt', 'MCBigIntB', 'holds')], gen_power, None, {'power'}),
    'C02': ([('Euclid', 'Euclid', 'holds'), ('MCBigInt', 'MCBigIntB', 'holds')], gen_egcd, None, {'egcd', 'coprime'}),
    'C03': ([('Euclid', 'Euclid', 'holds'), ('MCBigInt', 'MCBigIntB', 'holds')], gen_inverse, None, {'inverse'}),
    'C04': ([('Euclid', 'Euclid', 'holds'), ('Euclid', 'EuclidMutant', 'refuted')], gen_division, None, {'division'}),
    'C05': ([('Garner', 'Garner', 'holds'), ('Garner', 'GarnerMutant', 'refuted')], gen_crt, None, {'crt'}),
    'C06': ([('Power', 'Power', 'holds'), ('MCWalks', 'MCWalks', 'holds')], gen_factorial, walk_factorial, {'factorial', 'factorial_u'}),
    'C07': ([('FibMemo', 'FibMemo', 'holds'), ('FibMemo', 'FibMemoMutant', 'refuted'), ('MCWalks', 'MCWalks', 'holds')],
            gen_fibonacci, walk_fibonacci, set(FIBOPS)),
    'C08': ([('Lucy', 'Lucy', 'holds'), ('Lucy', 'LucyMutant', 'refuted'), ('MCWalks', 'MCWalks', 'holds')],
            gen_prime_sum, lambda c: walk_prime(['prime_sum', 'prime_sum_u64'], c), {'prime_sum', 'prime_sum_u64'}),
    'C09': ([('MCWalks', 'MCWalks', 'holds')], gen_prime_count, lambda c: walk_prime(['prime_count'], c, True), {'prime_count'}),
}


def validate(c, chunks, events, canary=True, tag='trace'):
    """chunks: (header, [call ids]); events: id -> recorded event. Returns the rejected ids."""
    path = os.path.join(c.work, tag + '.ndjson')
    must, total = set(), 0
    with open(path, 'w') as f:
        for head, ids in chunks:
            f.write(json.dumps({**HEAD, **head, 'ev': [events[i] for i in ids if i in events]}) + '\n')
            total += 1
        if canary:
            bad = [ev('canary%d' % j, *x) for j, x in enumerate(CANARY[c.prop])]
            f.write(json.dumps({**HEAD, 'w': 'free', 'ev': bad}) + '\n')
            total += 1
            must |= {e['i'] for e in bad}
            if c.prop in CANARY_WALK:
                head, l = CANARY_WALK[c.prop]
                bad = [ev('canaryw%d' % j, *x) for j, x in enumerate(l)]
                f.write(json.dumps({**HEAD, **head, 'ev': bad}) + '\n')
                total += 1
                must |= {e['i'] for e in bad}
    t = vp.tlc('KernelTrace', 'KernelTrace', TRACE=path, tag=c.prop + tag)
    if not t.finished or sorted(set(t.chunks)) != list(range(1, total + 1)):
        raise ToolError('trace validation did not finish (%d of %d chunks)\n%s' % (len(set(t.chunks)), total, t.out[-3000:]))
    c.count(t)
    c.traces += len(chunks)
    rej = {r[0] for r in t.rejects}
    if not must <= rej:
        raise ToolError('wrong answers were accepted: %s' % sorted(must - rej))
    c.cov['trace_check'] = {'distinct_states': t.distinct, 'wall_s': round(t.wall, 1), 'known_wrong_answers_rejected': len(must)}
    return rej - must


HEAD = {'w': 'free', 'from': 0, 'anchor': 1, 'back': 0}


def run(prop):
    if prop == 'C10':
        return run_service()
    c = Check(prop)
    binary = vp.build(*BIN)
    designs, gen, walks, ops = PLAN[prop]
    emitted = [(x['op'], x['a']) for x in c.design(designs) if x['op'] in ops]
    seen, free = set(), []
    for op, a in emitted + gen(c):
        k = json.dumps([op, a])
        if k not in seen:
            seen.add(k)
            free.append((op, a))
    for k, _ in vp.known_findings(prop):
        free.append((k[0], k[1]))
    calls, chunks, what = [], [], {}

    def add(op, a):
        i = len(calls)
        calls.append({'i': i, 'op': op, 'a': a})
        what[i] = [op, a]
        return i
    size = max(20, min(400, len(free) // 40))
    c.rng.shuffle(free)
    for j in range(0, len(free), size):
        chunks.append(({'w': 'free'}, [add(*x) for x in free[j:j + size]]))
    for head, evs in (walks(c) if walks else []):
        chunks.append((head, [add(*x) for x in evs]))
    order = list(calls)
    c.rng.shuffle(order)
    log('%s: %d calls (%d from the design model)' % (prop, len(calls), len(emitted)))
    events = vp.record_parallel(binary, order, c.work)
    for i, e in list(events.items()):
        if 'lost' in e:
            events[i] = ev(i, what[i][0], what[i][1], e['lost'])
    kinds = {}
    for e in events.values():
        key = e['op'] + ':' + e['k']
        kinds[key] = kinds.get(key, 0) + 1
    rej = validate(c, chunks, events)
    for i in sorted(rej):
        e = events[i]
        c.violation(what[i], {'op': what[i][0], 'args': what[i][1], 'kind': e['k'], 'value': decode(e['v'])})
    c.cov.update({'calls_judged': len(events), 'calls_not_executed': len(calls) - len(events), 'calls_from_design_model': len(emitted),
                  'answers_by_kind': kinds})
    for i in list(what)[:: max(1, len(what) // 8)]:
        if i in events:
            c.samples.append({'call': short(what[i]), 'kind': events[i]['k'], 'value': short(decode(events[i]['v']))})
    return c.finish('call')


def short(x):
    s = json.dumps(x)
    return s if len(s) < 160 else s[:150] + '...'


def decode(v):
    def one(x):
        if isinstance(x, dict):
            n = 0
            for d in reversed(x['m']):
                n = n * 1000 + d
            return str(n * x['s'])
        return x
    sys.set_int_max_str_digits(0)
    return [one(x) for x in v]


# ---------------------------------------------------------------------------- C10

def service_queries(c):
    """Queries over a small common pool of arguments, so that a state shared between
    operations, or keyed by a part of the arguments, has a chance to answer wrongly."""
    rng = c.rng
    pool = [0, 1, 2, 3, 5, 10, 12, 30, 46, 64, 93, 94, 100, 187, 1000]
    q = []
    for n in pool:
        q += [('factorial', S(n)), ('fibonacci', S(n)), ('fibonacci', S(-n)), ('factorial', S(-n)), ('prime_sum', S(n)), ('prime_count', S(n)),
              ('fibonacci_fast', S(n)), ('fibonacci_fold', S(n)), ('factorial_u', S(n)), ('prime_sum_u64', S(n))]
    for a in (0, 1, -1, 2, 3, -3, 10, 2 ** 64 + 3, 2 ** 32 + 3):
        for b in (0, 1, 2, 5, 10, 64, 2 ** 32 + 2, 2 ** 64 + 2):
            q.append(('power', S(a, b)))
    for a in (3, 2 ** 32 + 3, 2 ** 64 + 3, -3, 4, 10, 0):
        for m in (7, 2 ** 64 + 7, -7, 10, 12, 1, 0):
            q += [('inverse', S(a, m)), ('egcd', S(a, m)), ('coprime', S(a, m)), ('division', S(2, a, m)), ('division', S(12, a, m))]
    for u, m in (([1, 2], [3, 5]), ([2, 1], [5, 3]), ([1, 2], [5, 3]), ([1, 2], [3, 7]), ([1, 2, 3], [3, 5, 7]), ([1, 2], [6, 4]), ([], []), ([1], [2, 3]),
                 ([1, 2], [3, 0]), ([1 + 2 ** 64, 2], [3, 5]), ([0, 0], [3, 5]), ([7], [1])):
        q.append(('crt', S(u, m)))
    for n in (10, 100, 1000, 11, 7919, 10 ** 6, 10 ** 6 + 3, 2 ** 32 + 10, 10 ** 12, 10 ** 20, 10 ** 25, 10 ** 26, 2 ** 64 + 10, 2 ** 64, -5):
        q += [('prime_sum', S(n)) if n < 10 ** 11 or n > 10 ** 19 else ('prime_count', S(n)), ('prime_count', S(n))]
    for n in (2 ** 63, 2 ** 64 + 10, -2 ** 64 - 10, 2000, 1999, 2001, 4001, 4000):
        q += [('fibonacci', S(n)), ('factorial', S(n))]
    core = len(q)
    # families of arguments that agree in their low bits, in their last decimals, or in magnitude
    families = []
    for n in (46, 93, 101):
        for o in ('fibonacci', 'factorial', 'prime_sum', 'prime_count'):
            families.append([(o, S(n + d)) for d in (0, 256, 1000, 1024, 4096)] + ([(o, S(-n)), (o, S(-n - 256))] if o == 'fibonacci' else []))
        families.append([('prime_sum', S(n + d)) for d in (0, 2 ** 16, 2 ** 17, 2 ** 20, 10 ** 6)])
        for o in ('egcd', 'inverse', 'coprime'):
            families.append([(o, S(x, y)) for x, y in ((n, 31), (31, n), (-n, 31), (n + 2 ** 16, 31), (n + 2 ** 32, 31), (n, 31 + 2 ** 16), (n + 1000, 31), (n, 1031), (n, 62))])
        families.append([('power', S(x, y)) for x, y in ((n, 9), (-n, 9), (9, n), (n + 2 ** 16, 9), (n + 2 ** 32, 9), (n, 9 + 256), (n, 10))])
        families.append([('division', S(x, n, m)) for x, m in ((5, 31), (-5, 31), (5, 31 + 2 ** 16), (5 + 2 ** 32, 31), (36, 31), (5, 62), (1005, 31))])
        families.append([('crt', S([1, x], [3, m])) for x, m in ((n, 31), (31, n | 1), (n + 2 ** 16, 31), (n, 31 + 2 ** 16), (n, 32), (n + 31, 31), (n + 256, 31))])
    for f in families:
        q += f
    # more different arguments than a table of a few hundred answers holds
    for n in range(0, 1200, 2):
        q += [('fibonacci', S(n)), ('prime_sum', S(7 * n + 1))] if n % 3 else [('factorial', S(n)), ('inverse', S(n + 5, 1009)), ('egcd', S(n, 720720))]
    out, seen = [], set()
    for x in q:
        k = json.dumps(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    at = {json.dumps(x): j for j, x in enumerate(out)}
    return out, len({json.dumps(x) for x in q[:core]}), [[at[json.dumps(x)] for x in f] for f in families]


def run_service(rep=None):
    import concurrent.futures as cf
    import subprocess
    c = Check('C10')
    binary = vp.build(*BIN)
    c.design([('Service', 'Service_local', 'holds'), ('Service', 'Service_shared', 'holds'),
              ('Service', 'Service_argument-only', 'refuted'), ('Service', 'Service_early', 'refuted')])
    rng = c.rng
    qs, ncore, families = service_queries(c)

    # every query alone, twice, each time in a process of its own
    hangs = []

    def alone(j):
        d = os.path.join(c.work, 'alone%d.ndjson' % j)
        e = vp.record(binary, [{'i': j, 'op': qs[j][0], 'a': qs[j][1]}], d, stall=60 if len(hangs) < 4 else 8)[0]
        if e.get('lost') == 'hang':
            hangs.append(j)
        for p in (d, d + '.in'):
            os.remove(p)
        return {'k': e['lost'], 'v': []} if 'lost' in e else {'k': e['k'], 'v': e['v']}
    import time
    cost = [0.0] * len(qs)

    def timed(j):
        t = time.time()
        r = alone(j)
        cost[j] = time.time() - t
        return r
    with cf.ThreadPoolExecutor(vp.CPUS) as ex:
        answers = list(ex.map(timed, range(len(qs))))
        again = list(ex.map(alone, range(len(qs))))
    for j, (x, y) in enumerate(zip(answers, again)):
        if x != y:
            c.violation(['isolated', qs[j]], {'first': x, 'second': y})
    # a query that never comes back alone has no answer to compare with
    live = [j for j in range(len(qs)) if answers[j]['k'] not in ('hang', 'crash')]
    quick = [j for j in live if cost[j] < .8]
    slow = [j for j in live if cost[j] >= .8]

    every, quick = quick, [j for j in quick if j < ncore]
    hist = []      # list of histories: list of (thread, query)
    for f in families:
        f = [j for j in f if j in set(every)]
        pairs_ = [(a, b) for a in f for b in f]
        rng.shuffle(pairs_)
        hist.append([(0, x) for ab in pairs_ for x in ab])
        hist.append([(t, x) for t in range(4) for x in rng.sample(f, len(f)) + rng.sample(f, len(f))])
    # one thread: every ordered pair of a sample of queries occurs as neighbours (walk over all pairs)
    for _ in range(c.n(3, 20)):
        sample = rng.sample(quick, min(len(quick), 36))
        hist.append([(0, x) for a in sample for b in sample for x in (a, b)])
    # everything in order, backwards, shuffled, with repetitions
    for order in (every, every[::-1], rng.sample(every, len(every)), [x for x in rng.sample(quick, len(quick)) for _ in (0, 1)]):
        hist.append([(0, x) for x in order])
    # growing and falling arguments of one operation
    for op in ('fibonacci', 'factorial', 'prime_sum', 'fibonacci_fast', 'power', 'inverse', 'egcd', 'crt', 'division'):
        mine = [j for j in every if qs[j][0] == op]
        hist.append([(0, x) for x in mine + mine[::-1] + rng.sample(mine, len(mine))])
    bad = [j for j in quick if answers[j]['k'] not in ('ok',)]
    hist.append([(0, x) for j in rng.sample(quick, len(quick)) for x in (rng.choice(bad), j)])
    # several threads
    for _ in range(c.n(10, 80)):
        n = rng.choice([2, 3, 4, 8, 8, 12])
        sub = rng.sample(quick, rng.choice([2, 4, 12, len(quick)]))
        hist.append([(t, rng.choice(sub)) for t in range(n) for _ in range(c.n(60, 150))])
    for _ in range(c.n(6, 40)):                       # all threads ask the same queries at the same time
        sub = [rng.choice(quick) for _ in range(30)]
        hist.append([(t, x) for t in range(8) for x in sub])
    for op in ('fibonacci', 'prime_sum', 'factorial', 'inverse', 'crt', 'power', 'division', 'egcd'):
        mine = [j for j in quick if qs[j][0] == op]
        for many in c.n((6, 99), (2, 4, 9, 16, 99, 99)):
            sub = rng.sample(mine, min(many, len(mine)))
            hist.append([(t, rng.choice(sub)) for t in range(8) for _ in range(c.n(400, 800))])
    if slow:
        hist.append([(t, rng.choice(slow + rng.sample(quick, min(6, len(quick))))) for t in range(4) for _ in range(3)])
    if rep:
        qs0 = {json.dumps(x): j for j, x in enumerate(qs)}
        hist = [[(t, qs0[json.dumps(tuple(x))] if json.dumps(tuple(x)) in qs0 else qs0[json.dumps(x)]) for t, x in rep['detail']['history']]]

    hung = []

    def play(h):
        if hung:                       # the machine may be wedged in every history: one is enough
            return []
        p = os.path.join(c.work, 'h%d' % h)
        with open(p + '.in', 'w') as f:
            for i, (t, j) in enumerate(hist[h]):
                f.write(json.dumps({'i': i, 't': t, 'q': j + 1, 'op': qs[j][0], 'a': qs[j][1]}) + '\n')
        try:
            r = subprocess.run([binary, '--threads', p + '.in', p + '.out'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               preexec_fn=vp.limit, env=vp.env(), timeout=150)
            lost = None if r.returncode == 0 else 'crash'
        except subprocess.TimeoutExpired:
            lost = 'hang'
            hung.append(h)
        if lost:
            return [{'ev': 'lost', 'i': -1, 'kind': lost}]
        return [json.loads(l) for l in open(p + '.out')]
    with cf.ThreadPoolExecutor(2) as ex:
        played = list(ex.map(play, range(len(hist))))
    overlap = 0
    for h in played:
        open_ = 0
        for e in h:
            if e['ev'] == 'call':
                open_ += 1
                overlap += open_ > 1
            elif e['ev'] == 'return':
                open_ -= 1
    # known wrong histories
    k = next(j for j in live if answers[j]['k'] == 'ok')
    o = next(j for j in live if answers[j]['k'] == 'ok' and answers[j]['v'] != answers[k]['v'])
    canary = [{'ev': 'call', 't': 1, 'i': 0, 'q': k + 1}, {'ev': 'return', 't': 1, 'i': 'canary0', 'q': k + 1, 'k': 'ok', 'v': answers[o]['v']},
              {'ev': 'call', 't': 2, 'i': 0, 'q': k + 1}, {'ev': 'return', 't': 2, 'i': 'canary1', 'q': k + 1, 'k': 'panic', 'v': []},
              {'ev': 'return', 't': 3, 'i': 'canary2', 'q': k + 1, 'k': 'ok', 'v': answers[k]['v']}]
    path = os.path.join(c.work, 'trace.ndjson')
    with open(path, 'w') as f:
        f.write(json.dumps({'answers': answers}) + '\n')
        for n, h in enumerate(played):
            f.write(json.dumps({'ev': [{**e, 'i': '%d/%s' % (n, e['i'])} for e in h]}) + '\n')
        f.write(json.dumps({'ev': canary}) + '\n')
    t = vp.tlc('ServiceTrace', 'ServiceTrace', TRACE=path)
    total = len(played) + 1
    if not t.finished or sorted(set(t.chunks)) != list(range(1, total + 1)):
        raise ToolError('trace validation did not finish (%d of %d)\n%s' % (len(set(t.chunks)), total, t.out[-3000:]))
    c.count(t)
    c.traces = len(played)
    rej = {r[0] for r in t.rejects}
    must = {'canary0', 'canary1', 'canary2'}
    if not must <= rej:
        raise ToolError('wrong histories were accepted')
    for r in sorted(rej - must):
        h, i = r.split('/')
        h, i = int(h), int(i)
        e = [x for x in played[h] if x['ev'] in ('return', 'lost') and x['i'] == i][0]
        q = None if i < 0 else qs[hist[h][i][1]]
        c.violation(['history', q], {'query': q, 'alone': answers[hist[h][i][1]]['k'] if q else None,
                                     'got': {'k': e.get('k', e.get('kind')), 'v': decode(e.get('v', []))},
                                     'history': [[t_, list(qs[j])] for t_, j in hist[h]]})
    c.cov.update({'queries': len(qs), 'histories': len(hist), 'calls_in_histories': sum(len(h) for h in hist),
                  'calls_begun_while_another_was_running': overlap, 'threads_max': 12, 'queries_answered_by_panic_or_error': len(bad),
                  'trace_check': {'distinct_states': t.distinct, 'wall_s': round(t.wall, 1), 'known_wrong_answers_rejected': 3}})
    c.samples = [[list(qs[j]) + [t_] for t_, j in h[:6]] for h in hist[::max(1, len(hist) // 5)]]
    return c.finish('history')


def replay(prop, path):
    if prop == 'C10':
        return run_service(json.load(open(path)))
    d = json.load(open(path))
    c = Check(prop)
    binary = vp.build(*BIN)
    op, a = d['key']
    events = vp.record_parallel(binary, [{'i': 0, 'op': op, 'a': a}], c.work)
    if 'lost' in events[0]:
        events[0] = ev(0, op, a, events[0]['lost'])
    head = {'w': 'free'}
    n = abs(int(a[0])) if not isinstance(a[0], list) else 0
    if op.startswith('prime') and int(a[0]) >= 0:
        near = [(n - p, j, p) for j, p in enumerate(anchors(), 1) if p <= n]
        above = [(p - n, j) for j, p in enumerate(anchors(), 1) if p > n]
        if near and near[-1][0] < 3000:
            head = {'w': 'prime', 'anchor': near[-1][1]}
        elif above and above[0][0] < 3000:
            head = {'w': 'prime', 'anchor': above[0][1], 'back': above[0][0]}
    elif op.startswith('fact') and n < 2000:
        head = {'w': 'fact', 'from': n}
    elif op.startswith('fib') and n < 5000:
        head = {'w': 'fib', 'from': n}
    rej = validate(c, [(head, [0])], events, canary=False)
    log('recorded: ' + json.dumps([op, a, events[0]['k'], decode(events[0]['v'])]))
    log('rejected by the specification' if rej else 'allowed by the specification')
    return 1 if rej else 0
