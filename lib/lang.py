"""C11..C19: the language front end, the evaluator and the sessions."""
import concurrent.futures as cf
import json
import os
import re

import vp
from texts import KEYWORDS, KNOWN, LAYOUT, NAMES, STRANGE, Texts
from vp import Check, ToolError, log

BIN = ('lang', 'vp_lang')
CANARIES = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lang_canaries.json')


# ---------------------------------------------------------------------------- texts of each property

def fitting(make, limit=160):
    """a text of a moderate length"""
    for _ in range(60):
        t = make()
        if len(t) <= limit:
            return t
    return t[:limit]


def style(c, kinds=None, layout=0.0, tight=0.0, **over):
    x = Texts(c.rng, layout, tight)
    x.kinds = kinds
    for k, v in over.items():
        setattr(x, k, v)
    return x


def literals(c, count):
    x, r = style(c), c.rng
    out = ['0', '00', '0.0', '0.10', '1.0', '10.050', '0b0', '0B1', '0xfF', '0XAbC', '0o17', '0b1_0', '0b10_', '0b1__0', '0xg', '0b2', '1.', '.5', '1.5.5', '1e5', '1_0',
           'true', 'false', 'null', 'True', 'nulls', 'trueish', 'true_', 'falsey', 'null1', 'true::a', 'a::true', 'a::null', '_true', '""', '"""a"""', '"""a"b"""', '""""a"""b""""',
           '"\\""', '"\\\\"', '"\\\\\\""', '"a\nb"', '"//! c"', '"%%% c %%%"', '"é中😀"', 'é', 'a中', '٣', 'a٣', '#', '#0', '#01', '#1', '##', '##0', '#a', '#_a', '¶', '¶¶', '¶5', '⁋⁋⁋', '⁋0']

    def lit():
        y = r.random()
        return x.number() if y < .5 else x.string() if y < .7 else x.slot() if y < .76 else r.choice(['true', 'false', 'null']) if y < .82 else x.word()

    def numeral():
        return ''.join(r.choice('0123456789' + r.choice(['', '_', '.', 'bBoOxX', 'abcdefABCDEF'])) for _ in range(r.choice([2, 3, 4, 6, 12])))

    def keywordish():
        k = r.choice(['true', 'false', 'null', 'in', 'as', 'else', 'then', 'with'] + KEYWORDS)
        return r.choice([k + r.choice(['', 'a', '1', '_', 'é', '::x', 'er']), k[:-1], k.upper(), k.capitalize(), '_' + k, 'x::' + k, k + k])
    frames = ['%s', '%s', '%s', '%s', '(%s)', '[%s, %s]', 'f(%s)', 'f(%s, k: %s)', '%s + %s', '-%s', '%s!', '%s %s', 'a[%s]', 'a[%s:%s]', '%s.f', '%s ', ' %s\n', '%s;', '%s//! x']
    for _ in range(count):
        f = r.choice(frames)
        y = r.random()
        make = lit if y < .6 else numeral if y < .75 else keywordish if y < .85 else (lambda: x.mutate(lit()))
        out.append(f.replace('%s', '\0').replace('\0', '%s') % tuple(make() for _ in range(f.count('%s'))))
    return [t for t in out if len(t) < 1500]


def operators(c, count, strings=True):
    kinds = {'num': 4, 'int': 3, 'word': 6, 'juxt': 2, 'paren': 5, 'const': .5}
    if strings:
        kinds.update({'str': .3, 'slot': .3, 'call': .4})
    out = []
    for _ in range(count):
        x = style(c, kinds, layout=c.rng.choice([0, 0, .2, .5]), prefixes=c.rng.choice([.05, .2, .5]), suffixes=c.rng.choice([.05, .2, .4]),
                  subs=0, dots=.03, ops=c.rng.choice([(0, 1, 1, 2, 3), (3, 4, 5), (1, 2), (6, 8, 10)]))
        x.length = lambda x=x: x.r.choice([1, 1, 1, 2, 3])
        t = fitting(lambda: x.text(c.rng.choice([1, 2, 2, 3])), 110)
        out.append(t)
        if c.rng.random() < .15:
            out.append(x.mutate(t))
    # long runs of one or two operators
    for _ in range(count // 20):
        o = c.rng.sample(['+', '-', '*', '/', '^', '×', '÷'], 2)
        n = c.rng.randint(2, 24)
        out.append(''.join(str(j % 10) + c.rng.choice(o) for j in range(n)) + 'x')
        out.append(c.rng.choice(['-', '!', '+', '*', '¬', '-+']) * n + 'a' + c.rng.choice(['', '!', '!!', '^b', ' b', '.f']) * c.rng.randint(1, 6))
        out.append('(' * (n // 3) + '1+2' + ')' * (n // 3) + '*3')
        out.append(' '.join(c.rng.choice(['a', '2', 'f(x)', '1.5', 'b::c', '0x1F']) for _ in range(n)) + c.rng.choice(['', '^2', '!', ' + 1', '.f', '[1]']))
    return out


def calls(c, count):
    kinds = {'num': 3, 'word': 5, 'call': 7, 'list': 3, 'str': 1, 'slot': 1, 'const': .5, 'paren': 1, 'juxt': .5}
    out = []
    for _ in range(count):
        x = style(c, kinds, layout=c.rng.choice([0, 0, .2]), prefixes=.05, suffixes=.05, subs=c.rng.choice([.05, .3, .5]), dots=c.rng.choice([.3, .7, 1]),
                  ops=c.rng.choice([(0, 0, 1), (0, 1, 2, 3), (2, 3, 5)]))
        x.length = lambda x=x: x.r.choice([1, 1, 1, 2, 3])
        t = fitting(lambda: x.text(c.rng.choice([1, 1, 2, 2, 3])), 130)
        out.append(t)
        if c.rng.random() < .2:
            out.append(x.mutate(t))
    for _ in range(count // 20):
        n = c.rng.randint(3, 30)
        a = [c.rng.choice(['%d' % j, 'x%d' % j, '"s%d"' % j, 'k%d: %d' % (j, j), 'g(%d)' % j]) for j in range(n)]
        out.append('f(' + c.rng.choice([',', ', ', ' ,\n']).join(a) + c.rng.choice([')', ',)']))
        out.append('[' + ','.join(c.rng.choice(['%d' % j, '[%d]' % j, '"s%d"' % j]) for j in range(n)) + c.rng.choice([']', ',]']))
        out.append('a' + ''.join(c.rng.choice(['.f%d' % j, '.f%d(%d)' % (j, j), '.%d' % j, '.g(k: %d)' % j, '.m::f%d' % j]) for j in range(n)))
        out.append('f' + ''.join('(%s)' % ','.join(str(c.rng.randint(0, 9)) for _ in range(c.rng.randint(0, 3))) for _ in range(min(n, 9))))
        part = lambda: c.rng.choice(['1', '2:3', '::', ':4', '5:', '1:2:3', '::6', '-1', 'n+1:', ':(a:b)'[:c.rng.choice([1, 5])], 'a,b'])
        out.append('a[' + ', '.join(part() for _ in range(c.rng.randint(1, 5))) + ']' + '[%s]' % part())
        out.append('f(a: 1, b: 2, a: 3, %s)' % c.rng.choice(['4', 'b: 5', 'c: 6', 'a: f(a: 7)']))
    return out


def layouts(c, count):
    kinds = {'num': 5, 'word': 5, 'call': 3, 'list': 2, 'str': 1, 'slot': 1, 'const': 1, 'paren': 2, 'juxt': 1}
    out = []
    for _ in range(count):
        x = style(c, kinds, layout=0, subs=.15, ops=c.rng.choice([(0, 1, 1, 2), (1, 2, 3)]))
        x.length = lambda x=x: x.r.choice([1, 1, 1, 2, 3])
        for _ in range(30):
            x.budget = 10
            p = x.expr(c.rng.choice([1, 1, 2]))
            if len(x.render(p)) < 70:
                break
        else:
            continue
        out.append(x.render(p))
        out.append(x.render(p, c.rng.choice([.2, .5, .7])))
        out.append(x.render(x.brackets(p), c.rng.choice([0, .3])))
        x.tight = .05
        out.append(x.render(p, .1))
        x.tight = 0
        t = x.render(p, .3)
        out.append(c.rng.choice(['', ' ', '\n', ';', ';;\n', '%%% c %%%', '//! c\n', '；']) + t + c.rng.choice(['', ' ', ';', ' ; ;', '\n\n', '//? end', '%%% c %%%;', '； ']))
        if c.rng.random() < .3:
            i = c.rng.randint(0, len(t))
            out.append(t[:i] + c.rng.choice(LAYOUT) + t[i:])
        if c.rng.random() < .2:
            out.append('(' * 3 + t + ')' * 3)
        if c.rng.random() < .15:
            out.append(x.mutate(t))
    for _ in range(count // 4):       # where a comment ends
        k = c.rng.choice(['//!', '//?', '///', '//*'])
        e = c.rng.choice(['\n', '\r', '\r\n', '\n\r', '\t', '\x0b', '\x0c', '\x85', '\u2028', '\u2029', '', ' '])
        body = c.rng.choice(['', ' c', 'c', '/', '%%%', '"', ' + 3', '1', '\\', '中'])
        out.append(c.rng.choice(['1 +%s%s%s2', 'f(1,%s%s%s2)', '[%s%s%s1]', '(%s%s%s a)', 'a%s%s%s + b', '%s%s%sx', 'x;%s%s%s', 'a[%s%s%s1]', '2 %s%s%s 3']) % (k, body, e))
        out.append(c.rng.choice(['1 +%%%%%%%s%%%%%%2', 'f(1,%%%%%%%s%%%%%%2)', '%%%%%%%s%%%%%%x', 'a%%%%%%%s%%%%%%']) % (body + e + body))
    comments = ['%', '%%', '%%%', '%%%%', '//!', '//', '/', '//?', '//*', '///', '\n', '\r', 'a', '1', ' ', '"', 'b+']
    for _ in range(count // 3):
        out.append('1 + ' + ''.join(c.rng.choice(comments) for _ in range(c.rng.randint(2, 9))) + c.rng.choice(['2', '\n2', ' + x', '']))
    return [t for t in out if len(t) < 400]


LEAVES = ['7', '10', '0', '123456789012345678901234567890', '1.5', '0.0625', '100.001', '12345678901234567890.5', 'true', 'false', 'x', 'foo::bar', 'null', 'é', 'x_1', '0xff', '2.50', 'α::中::x', '1.0']


def displays(c, model):
    """the model's trees with other leaves in place of its own, and random operator expressions"""
    out = []
    for t in model:
        out.append(t)
        # the product of a word and its neighbours is not touched: every leaf of these texts stands alone
        out.append(re.sub(r'[ab]', lambda m: c.rng.choice(LEAVES), t))
    return out


def exports(c, count):
    out = []
    for _ in range(count):
        x = style(c, None, layout=c.rng.choice([0, .2]), subs=.1, dots=.25)
        x.length = lambda x=x: x.r.choice([1, 1, 2, 3, 5, 20])
        out.append(fitting(lambda: x.text(c.rng.choice([1, 2, 2, 3])), 120))
    for n in NAMES:
        out += ['%s(1, 2, k: 3)' % n, 'm::%s(x)' % n, '%s' % n, 'm::%s' % n, 'f(%s)' % n, '%s(1)(2)' % n, 'f(%s: 1)' % n]
    out += ['factor(6)', 'factor', 'a::factor(1)', 'factors(1)', 'Factor(1)', 'factor(1)(2)', 'f(factor: 1)', '[1,2]', 'list(1)', 'List(1)', 'a[1]', 'index(1)', '[]', 'f()',
            '"factor"', '"List"', 'true', '"true"', 'null', '"null"', '1.50', '0.0', '"a\\"b"']
    return out


def evaluations(c, count):
    r, x, out = c.rng, style(c), []
    small = lambda: str(r.choice([0, 1, 2, 3, 5, 7, 10, 12, 20, 64, 100, 127]))

    def big():
        n = r.choice([1, 2, 5, 10, 19, 20, 39, 60, 150])
        return r.choice(['0', '1', str(r.getrandbits(64)), str(2 ** r.choice([31, 32, 63, 64, 128])), str(10 ** n), str(10 ** n - 1), ''.join(r.choice('123456789') for _ in range(n)),
                         hex(r.getrandbits(4 * n + 4)), bin(r.getrandbits(n + 2)), oct(r.getrandbits(n + 3))])

    def string():
        return '"' + ''.join(r.choice(['a', 'Z', ' ', '1', 'é', 'e\u0301', '中', '😀', '\\"', '\\\\', '\\n', '\n', '~', 'ß', '\u200d', '🇩🇪'[:r.choice([1, 2])], '%'])
                             for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5, 9, 40]))) + '"'

    def thing():
        y = r.random()
        return big() if y < .35 else string() if y < .55 else x.decimal() if y < .65 else r.choice(['true', 'null', 'a', 'a::b', '[1]', '[]', 'f(1)', '(1+1)', '#1', '-1', '(-2)', '""', '1.0'])

    def layout():
        return r.choice(['', '', '', ' ', '\n', ' %%%c%%% ', '\t'])
    for _ in range(count):
        y = r.random()
        if y < .16:
            t = big() + layout() + r.choice(['+', '*', '×']) + layout() + big()
        elif y < .2:
            t = ' '.join(big() for _ in range(r.choice([2, 2, 3])))
        elif y < .3:
            b = big()
            v = int(b, 0)
            if r.random() < .4:      # a result about as long as one, two or four machine words
                w = r.choice([32, 64, 64, 64, 128, 128, 256]) + r.randint(-2, 3)
                e = r.randint(2, 31)
                v = r.choice([round(2 ** (w / e)) + r.randint(-1, 1), max(2, r.getrandbits(max(2, w // e)))])
                b = str(v)
                e = r.choice([e, max(2, w // max(1, v.bit_length())), max(2, w // max(1, v.bit_length() - 1))])
                out.append(b + '^' + str(e))
            e = r.choice([0, 1, 2, 3, r.randint(0, 9), 17, 64, 100, 300]) if v > 1 else r.choice([0, 1, 2, 1000, 2 ** 32 - 1, 2 ** 32, 2 ** 64, 10 ** 30])
            if v > 1 and v.bit_length() * e > 9000:
                e = 9000 // v.bit_length()
            if r.random() < .12:
                e = r.choice([2 ** 32, 2 ** 32 + 1, 2 ** 64, 10 ** 40, 2 ** 32 + 5, 2 ** 64 + 2])
            t = b + layout() + '^' + layout() + str(e)
        elif y < .4:
            f = r.choice(['factorial', 'fibonacci'])
            n = r.choice([str(r.randint(0, 60)), str(r.randint(0, 400)), str(r.randint(0, 1500)), str(2 ** 63 + r.randint(0, 9)), str(2 ** 64 + r.randint(0, 30)), hex(r.randint(0, 99))])
            if f == 'fibonacci' and r.random() < .2:
                n = str(r.randint(0, 5000))
            t = r.choice(['%s(%s)' % (f, n), '%s.%s' % (n, f), '%s.%s()' % (n, f), '%s(%s,)' % (f, n)] + (['%s!' % n, '%s!!' % n, '%s !' % n, '%s!!!' % n, '!%s' % n] if f == 'factorial' else []))
        elif y < .58:
            s, f = string(), r.choice(['first', 'last', 'length'])
            t = r.choice(['%s(%s)' % (f, s), '%s.%s' % (s, f), '%s.%s()' % (s, f)])
        elif y < .68:
            t = thing()
        elif y < .78:
            f = r.choice(['first', 'last', 'length', 'factorial', 'fibonacci', 'plus', 'times', 'power', 'add', 'f', 'sin', 'Plus', 'std::infix::add', 'm::length'])
            a = [thing() for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]
            t = '%s(%s)' % (f, ', '.join(a))
            if ('factorial' in f or 'fibonacci' in f or f == 'power') and (len(a) == 0 or not a[0].startswith('"')):
                t = '%s(%s)' % (f, ', '.join(re.sub(r'^[\dx].*', '9', q) for q in a))
        elif y < .88:
            t = thing() + r.choice(['+', '*', '-', '/']) + thing()
        elif y < .94:
            t = r.choice(['-', '+', '!', '']) + r.choice(['(%s)', '%s', '[%s]']) % thing() + r.choice(['', '!!', '[1]', '.1', '(1)', ' 2', ';', ' + 1 + 2'])
            t = re.sub(r'\d{4,}', '12', t)
        else:
            t = r.choice(['', ' ', ';', '()', '1+', '+', '2 3 4', '1;2', '1\n2', '(1', '"', '1 + "a"', '(1+2)+3', '1+(2+3)', '2^2^2', '2*3+4', '@', '{1}', 'let x', 'if'])
        out.append(t)
    def root(n, e):      # the largest b with b^e <= n
        b = 1 << -(-n.bit_length() // e)
        while b ** e > n:
            b = ((e - 1) * b + n // b ** (e - 1)) // e
        return b
    for e in range(2, 66):       # powers next to the ends of the machine words
        for w in (31, 32, 63, 64, 65, 127, 128):
            b = root(2 ** w - 1, e)
            out += ['%d^%d' % (v, e) for v in {b, b + 1, (1 << max(1, w // e)) - 1} if v > 1]
    for w in (31, 32, 63, 64, 127, 128):
        v = [2 ** w + d for d in (-2, -1, 0, 1)]
        out += ['%d%s%d' % (a, o, b) for a in v for b in v + [1, 2, 3] for o in '+*']
        out += ['%d*%d' % (root(2 ** w, 2) + a, root(2 ** w, 2) + b) for a in (-1, 0, 1) for b in (-1, 0, 1)]
    for f in ('first', 'last', 'length', 'factorial', 'fibonacci', 'plus', 'times', 'power', 'add', 'f'):
        out += [f + a for a in ('()', '()()', '(1)(2)', '("a")("b")', '(1, 2)(3)', '(k: 1)', '("ab", k: 1)', '(1, 2, 3)', '(1, 2)', '("a", 1)', '(true)', '(1.5)', '(null)', '', '([])', '(x)', '(1.5, 2)', '(2, 1.5)')]
    return out


def variants(c, t):
    """texts that a careless comparison could take for t"""
    r = c.rng
    v = [re.sub(r'\s+', '', t), re.sub(r'\s+', ' ', t), t + ' ', ' ' + t, t + ';', t.rstrip('; \n'), t.swapcase(), t.upper(), t.lower(), t[:-1], t[1:], t + t[-1:], t[::-1],
         t + '0', '0' + t, t + '//! c', '(' + t + ')', t.replace('0', ''), t.replace('"', ''), re.sub(r'::', '', t), ''.join(sorted(t)), t[:len(t) // 2], t + '\n' + t]
    if len(t) > 1:
        i = r.randrange(len(t))
        v += [t[:i] + ' ' + t[i:], t[:i] + t[i + 1:], t[:i] + r.choice('01x"+ ') + t[i + 1:]]
    return [y for y in v if y != t]


def longer(c, count):
    """texts of hundreds to thousands of characters, whose answers are short"""
    r, out = c.rng, []
    for _ in range(count):
        y = r.random()
        n = r.choice([100, 250, 256, 300, 500, 512, 700, 1000, 1024, 1500, 2048, 4096, 5000] + ([8192] if y < .04 else [20000, 66000] if .4 <= y < .7 else []) if y < .7 else [100, 256, 300, 500, 1024, 2048]) + r.randint(-9, 9)
        pad = ''.join(r.choice(['a', 'b ', 'é', '中', '😀', '1']) if r.random() < .3 else r.choice('ab é中') for _ in range(n))
        if y < .4:
            t = r.choice(['length("%s")', 'first("%s")', 'last("%s")', '"%s".length', '"%s'])  % pad
        elif y < .7:
            t = r.choice(['1 + 2 //! %s', '%%%%%% %s %%%%%% 3 * 4', '7 //? %s\n', '2 ^ %%%%%%%s%%%%%% 3']) % pad
        elif y < .85:
            t = r.choice([' ', '\n', ';', ' ; ', '\t', '，', '；']) * n + '5 + 6' + r.choice(['', ' ' * n, ';' * n])
        else:
            t = 'x' + ''.join(r.choice('abé中_1') for _ in range(min(n, 600)))
        out.append(t)
    return out


def sizable(c, count, kinds):
    """texts with much of one thing: l literals and names, p operators, c calls and brackets, a layout"""
    r, out = c.rng, []
    plain = 'abcxyz 019,;(['
    wide = plain + 'éα中😀'
    digits = lambda n, ds='0123456789': ''.join(r.choice(ds) for _ in range(n))
    name = lambda n: r.choice('abxyzé' if r.random() < .3 else 'abxyz') + ''.join(r.choice('abcdxyz019_' + r.choice(['', '', 'é中'])) for _ in range(n - 1))
    leaf = lambda j: r.choice(['%d' % j, 'x%d' % j, '"s%d"' % j, '%d.5' % j, 'g(%d)' % j, 'true', '[%d]' % j])
    for _ in range(count):
        k = r.choice(kinds)
        n = int(2 ** r.uniform(3, 8.4))
        m = int(2 ** r.uniform(3, 6.2))
        d = min(m, 44)       # levels of a tree; the recordings cannot nest much deeper than 50
        if k == 'l':
            t = r.choice([
                lambda: '"' + digits(n * r.choice([1, 1, 4, 9]), r.choice([plain, wide])) + '"',
                lambda: '"""' + digits(n * r.choice([1, 4]), r.choice([plain, wide])) + '"""',
                lambda: '"' * m + 'q' + '"' * m,
                lambda: name(n * r.choice([1, 1, 2])),
                lambda: '::'.join(name(r.randint(1, 4)) for _ in range(m)),
                lambda: ''.join(name(r.randint(1, 3)) + r.choice(['::', '∷']) for _ in range(m)) + 'z',
                lambda: r.choice('123456789') + digits(n * r.choice([1, 2, 5])),
                lambda: '0x' + digits(n, '0123456789abcdefABCDEF' + r.choice(['', '_'])) + '7',
                lambda: '0b1' + digits(n, '01'), lambda: '0O7' + digits(n, '01234567'),
                lambda: '1' + digits(r.choice([1, n])) + '.' + digits(n) + '5',
                lambda: '0.' + '0' * n + '1' + '0' * r.choice([0, m]),
                lambda: '1' + '0' * n, lambda: '0' * n + '1',
                lambda: r.choice('¶⁋') * r.choice([n, m, 255, 256, 257]), lambda: r.choice('¶⁋') + '1' + digits(m),
                lambda: r.choice(['#', '##']) + '1' + digits(m), lambda: '#' + name(n)])()
            t = r.choice(['%s', '%s', '%s', '[%s]', 'f(%s)', 'f(a: %s)', '-%s', '1 + %s', 'x[%s]', '%s;']) % t
        elif k == 'p':
            o = r.sample(['+', '-', '*', '/', '^', '×', '÷'], r.choice([1, 2, 7]))
            t = r.choice([
                lambda: ''.join(str(r.randint(0, 9)) + r.choice(o) for _ in range(d)) + 'x',
                lambda: ''.join(r.choice(['a', 'b', '1', '(a+b)', '-a', 'b!', 'a b']) + r.choice(o) for _ in range(d)) + 'x',
                lambda: ''.join(r.choice(['-', '+', '*', '¬', '!']) for _ in range(d)) + 'a',
                lambda: ' '.join(r.choice(['a', '2', 'f(x)', '1.5', 'b::c', '0x1F']) for _ in range(m)) + r.choice(['', '^2', '!', ' + 1']),
                lambda: 'a' + r.choice(['!!', '!'] ) * d, lambda: 'a' + ''.join(r.choice(['^', '^-', '^(b)', '^b']) + 'c' for _ in range(min(m, 22)))])()
        elif k == 'c':
            t = r.choice([
                lambda: 'f(' + ', '.join(leaf(j) for j in range(n)) + ')', lambda: '[' + ','.join(leaf(j) for j in range(n)) + ']',
                lambda: 'f(' + ', '.join('%s%d: %d' % (r.choice('kq'), j, j) for j in r.sample(range(500), m)) + ')',
                lambda: 'f(' + ', '.join(r.choice(['k%d: %d' % (j % 9, j), '%d' % j]) for j in range(m)) + ')',
                lambda: 'f' + ''.join('(%d)' % j for j in range(m)), lambda: 'f' + ''.join(r.choice(['()', '(1)', '(a,b)', '(k: 1)']) for _ in range(m)),
                lambda: 'a[' + ', '.join(r.choice(['%d', '%d:', ':%d', '%d:2:3', 'x+%d']) % j for j in range(m)) + ']',
                lambda: 'a' + ''.join('[%d]' % j for j in range(d)),
                lambda: 'a' + ''.join(r.choice(['.f%d', '.f%d(1)', '.%d']) % j for j in range(d)),
                lambda: 'a.1' + digits(m), lambda: '[' * min(m, 20) + '1, 2' + ']' * min(m, 20),
                lambda: 'f(' * min(m, 14) + '1, 2' + ')' * min(m, 14), lambda: name(n) + '(1, %s: 2)' % name(m)])()
        else:
            t = r.choice([
                lambda: '1' + ' ' * n + '+' + '\n' * m + '2', lambda: '//! ' + digits(n * 4, wide) + '\n1', lambda: '1 + %%%' + digits(n * 4, wide + '\n') + '%%% 2',
                lambda: ''.join(r.choice(['%%% a %%%', '//! b\n', '//? (\n', ' ', '\n', '/// c\n', '//* d\n']) for _ in range(m)) + 'f(1)',
                lambda: 'f(1' + ''.join(r.choice(['%%% a %%%', '//! b\n', ' ', '\n', '\t']) for _ in range(m)) + ', 2)', lambda: ';' * n + '1', lambda: '1' + ' ;' * n,
                lambda: '[1,' + '\n' * n + '2]', lambda: '(' * 7 + '1' + ')' * 7 + ' ' * n])()
        out.append(t)
    return out


def wild(c, count):
    """anything at all"""
    r, x, out = c.rng, style(c, layout=.1), []
    x.length = lambda: r.choice([1, 1, 1, 2, 3])
    for _ in range(count):
        y = r.random()
        if y < .3:
            t = fitting(lambda: x.text(2), 100)
            t = x.mutate(t, strange=r.random() < .3)
        elif y < .55:
            t = x.soup(r.randint(1, 14), strange=r.random() < .2)
        elif y < .68:
            t = fitting(x.keyword, 80)
            if r.random() < .4:
                t = x.mutate(t)
        elif y < .76:
            t = ''.join(r.choice(KNOWN + STRANGE) for _ in range(r.randint(1, 12)))
        elif y < .8:
            t = ''.join(chr(r.choice([r.randrange(32, 127), r.randrange(0, 32), r.randrange(128, 0x3000), r.randrange(0x3000, 0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(r.randint(1, 8)))
        elif y < .88:
            n = r.randint(2, 24)
            o, cl = r.choice([('(', ')'), ('[', ']'), ('f(', ')'), ('a[', ']'), ('-(', ')'), ('(', ''), ('[', ''), ('f(', ''), ('{', '}'), ('1+(', ')'), ('"', '"'), ('f(k:', ')'), ('a.f(', ')'), ('a[:', ']')])
            n = min(n, 12) if o in ('(', '[', 'f(', '{') and not cl else n
            t = o * n + r.choice(['1', 'x', '', '1,2', '+']) + cl * (n + r.choice([0, 0, 0, -1, 1]))
        elif y < .94:
            t = fitting(lambda: x.statement(2), 80) + r.choice([';', '\n', ' ', '; ']) + fitting(lambda: x.statement(1), 60)
        else:
            t = r.choice(['!', '-', '.', ';', ',', ':', '"', '%', '#', '¶', '~', '\\', "'", '/', '0', '_', '\n', '+', '()', '[]', '{}', '1 ', 'a.', 'a::', '"" ', '%%%', '//!', '!= ', '0x', '@', 'f()']) * r.randint(1, 40)
        out.append(t)
    return out


# ---------------------------------------------------------------------------- judging texts

def judge(c, binary, events, tag='lang', canaries=True):
    """events: list of {"op", "t", "parts"}. Records and validates them; returns the recorded events and the rejected ids."""
    c.rng.shuffle(events)
    for i, e in enumerate(events):
        e['i'] = i
    rec = vp.record_parallel(binary, events, c.work, stall=25)
    path = os.path.join(c.work, tag + '.ndjson')
    order = [rec[i] for i in range(len(events)) if i in rec]
    if c.prop == 'C23':
        for e in order:
            e['why'] = 1
    chunks = max(1, min(96, len(order) // 50))
    must = []
    with open(path, 'w') as f:
        for j in range(chunks):
            f.write(json.dumps({'ev': order[j::chunks]}) + '\n')
        if canaries:
            must = [e for e in json.load(open(CANARIES)) if c.prop in e['for']]
            must = [{k: v for k, v in {**e, 'i': 'canary%d' % n}.items() if k != 'for'} for n, e in enumerate(must)]
            f.write(json.dumps({'ev': must}) + '\n')
    total = chunks + (1 if canaries else 0)
    t = vp.tlc('LangTrace', 'LangTrace', TRACE=path, tag=c.prop + tag, timeout=880 if not c.thorough else 7200)
    if not t.finished or sorted(set(t.chunks)) != list(range(1, total + 1)):
        raise ToolError('trace validation did not finish (%d of %d chunks)\n%s' % (len(set(t.chunks)), total, t.out[-3000:]))
    c.count(t)
    c.traces += len(order)
    rej = {r[0] for r in t.rejects}
    missing = {e['i'] for e in must} - rej
    if missing:
        raise ToolError('wrong answers were accepted: %s' % sorted(missing))
    kinds = {}
    for e in order:
        k = 'lost' if 'lost' in e else e['op'] + ':' + (e['r']['k'] if e['op'] == 'text' else e['r']['r']['k'])
        kinds[k] = kinds.get(k, 0) + 1
    c.cov.setdefault('trace_checks', []).append({'texts': len(order), 'not_executed': len(events) - len(order), 'by_kind': kinds, 'distinct_states': t.distinct,
                                                 'wall_s': round(t.wall, 1), 'known_wrong_answers_rejected': len(must)})
    return rec, [i for i in rej if not isinstance(i, str)]


def report(c, events, rec, rej):
    for i in sorted(rej, key=lambda i: (len(events[i]['t']), events[i]['t'])):
        e = events[i]
        c.violation([e['op'], e['t']], {'op': e['op'], 'text': e['t'], 'parts': e.get('parts', ''), 'answer': rec[i].get('r', rec[i].get('lost'))})


def unique(texts):
    seen, out = set(), []
    for t in texts:
        if t not in seen:
            seen.add(t)
            out.append(t)
    return out


D = {  # property: design models
    'C11': [('MCLex', 'MCLex_number', 'holds'), ('MCLex', 'MCLex_radix', 'holds'), ('MCLex', 'MCLex_string', 'holds'), ('MCLex', 'MCLex_word', 'holds'),
            ('MCLex', 'MCLex_slot', 'holds')],
    'C12': [('MCGroup', 'MCGroup', 'holds'), ('MCGroup', 'MCGroup_prefix', 'refuted'), ('MCGroup', 'MCGroup_left', 'refuted'), ('MCLex', 'MCLex_operator', 'holds')],
    'C13': [('MCCall', 'MCCall', 'holds'), ('MCCall', 'MCCall_reversed', 'refuted'), ('MCCall', 'MCCall_dot', 'refuted')],
    'C14': [('MCLayout', 'MCLayout', 'holds'), ('MCLayout', 'MCLayout_loose', 'refuted'), ('MCLex', 'MCLex_comment', 'holds')],
    'C15': [('MCShow', 'MCShow', 'holds'), ('MCShow', 'MCShowMany', 'holds'), ('MCShow', 'MCShow_lower', 'refuted'), ('MCShow', 'MCShow_suffix', 'refuted')],
    'C16': [('MCEval', 'MCEval', 'holds'), ('MCEval', 'MCEval_power', 'refuted')],
    'C17': [('Session', 'Session_asbuilt', 'holds'), ('Session', 'Session_successes', 'refuted'), ('Session', 'Session_newest', 'refuted'),
            ('Copies', 'Copies_deeper', 'holds'), ('Copies', 'Copies_alias', 'refuted'), ('Copies', 'Copies_bare', 'refuted')],
    'C18': [('MCParse', 'MCParse', 'holds'), ('MCParse', 'MCParse_let', 'holds'), ('Session', 'Session_asbuilt', 'holds'), ('Session', 'Session_panics', 'refuted'), ('Session', 'Session_unlocked', 'refuted')],
    'C19': [('MCExport', 'MCExport', 'holds'), ('MCExport', 'MCExport_reversed', 'refuted'), ('MCExport', 'MCExport_flat', 'refuted'),
            ('MCExport', 'MCExport_options-dropped', 'refuted'), ('MCCall', 'MCCall', 'holds')],
    'C23': [('MCParse', 'MCParse', 'holds'), ('MCParse', 'MCParse_let', 'holds'), ('MCEval', 'MCEval', 'holds')],
}
DEEP = {
        'C12': [('MCGroup', 'MCGroupDeep', 'holds')],
    'C13': [('MCCall', 'MCCallDeep', 'holds')],
    'C14': [('MCLayout', 'MCLayoutDeep', 'holds'), ('MCLex', 'MCLex_commentDeep', 'holds')],
    'C15': [('MCShow', 'MCShowDeep', 'holds')],
    'C18': [('MCParse', 'MCParseDeep', 'holds')],
}


def gather(c, quick, thorough):
    """a sample of the texts the models wrote"""
    out = []
    cap = c.n(quick, thorough)
    for cfg in sorted(c.texts):
        ts = c.texts[cfg]
        out += ts if len(ts) <= cap else c.rng.sample(ts, cap)
        c.cov.setdefault('texts_from_models', {})[cfg] = [min(len(ts), cap), len(ts)]
    return out


def texts_of(c):
    p = c.prop
    many = c.n(1, 8)
    if p == 'C11':
        return gather(c, 5000, 100000) + literals(c, 14000 * many) + sizable(c, 900 * many, 'l'), ''
    if p == 'C12':
        return gather(c, 14000, 300000) + operators(c, 9000 * many) + sizable(c, 250 * many, 'p'), ''
    if p == 'C13':
        return gather(c, 14000, 300000) + calls(c, 9000 * many) + sizable(c, 400 * many, 'c'), ''
    if p == 'C14':
        return gather(c, 9000, 200000) + layouts(c, 3500 * many) + sizable(c, 300 * many, 'a'), ''
    if p == 'C15':
        m = gather(c, 5000, 200000)
        return displays(c, m) + operators(c, 6000 * many, strings=False), 'd'
    if p == 'C18':
        m = gather(c, 22000, 300000)
        return m + wild(c, 12000 * many) + literals(c, 900 * many) + calls(c, 500 * many) + longer(c, 60 * many) + sizable(c, 300 * many, 'lpca'), 'd'
    if p == 'C23':
        m = gather(c, 16000, 300000)
        return m + wild(c, 9000 * many) + failures(c, 4000 * many) + calls(c, 400 * many) + literals(c, 600 * many) + sizable(c, 150 * many, 'lpca'), ''
    if p == 'C19':
        return gather(c, 8000, 100000) + exports(c, 9000 * many) + sizable(c, 300 * many, 'llccp'), 'w'


def run(prop):
    c = Check(prop)
    binary = vp.build(*BIN)
    c.design(D[prop] + (DEEP.get(prop, []) if c.thorough else []))
    known = [k[1] for k, _ in vp.known_findings(prop) if k[0] in ('text', 'alone')]
    if prop == 'C16':
        ts = unique(gather(c, 5000, 5000) + evaluations(c, c.n(16000, 120000)) + longer(c, c.n(120, 1000)) + known)
        events = [{'op': 'alone', 't': t} for t in ts]
    elif prop == 'C17':
        return run_sessions(c, binary)
    else:
        ts, parts = texts_of(c)
        events = [{'op': 'text', 't': t, 'parts': parts} for t in unique(ts + known)]
    if prop == 'C18':
        events += [{'op': 'alone', 't': t} for t in unique(filter(harmless, wild(c, c.n(3000, 20000))))]
    if prop == 'C23':
        events += [{'op': 'alone', 't': t} for t in unique(list(filter(harmless, wild(c, c.n(2000, 20000)))) + evaluations(c, c.n(5000, 60000)))]
    log('%s: %d texts' % (prop, len(events)))
    rec, rej = judge(c, binary, events)
    report(c, events, rec, rej)
    for i in list(rec)[:: max(1, len(rec) // 9)]:
        if 'r' in rec[i]:
            c.samples.append({'text': events[i]['t'][:120], 'answer': json.dumps(rec[i]['r'])[:200]})
    if prop == 'C18':
        run_playground(c, binary)
    if prop == 'C23':
        run_causes(c, binary)
    if prop == 'C19':
        import more
        more.judge_questions(c, binary, more.distinct(more.questions(c) + [(k[1], k[2]) for k, _ in vp.known_findings(prop) if k[0] == 'ask']), more.canaries(prop))
    return c.finish('text')


def harmless(t):
    """no number so large that evaluating it could take long"""
    return not re.search(r'\d{4,}|0[xXbBoO]', t) and len(re.findall(r'\d+', t)) < 12 and not re.search(r'\^[^a-z]*\d{3}', t)


# ---------------------------------------------------------------------------- histories

GOOD = ['1', '2 + 3', '"text"', '7 * 6', 'x', 'a::b', '1.50', '2 ^ 70', 'factorial(20)', '12!', 'fibonacci(90)', 'length("中é")', 'first("xyz")', 'last("ab")', 'true', '', ';', '0xff',
        '"1"', '(5)', '2 3', 'null', '"ok"', '10', '"é"', '99999999999999999999 * 99999999999999999999', '1 + 1', '2', '"2"', '0']
BAD = ['1 +', '(', '@', '2 ^ 4294967296', 'f(x)', '1 - 1', '"', '1; 2', 'factorial("a")', 'first("")', 'length()', '[1, 2]', '{}', '3 4 5', 'f(1)(2)', '-1', 'a[', 'if', '\\', '1 / 0',
       'fibonacci(99999999999999999999)', 'let x = 1', '%%%', 'last("")', '1.5 + 1', 'true + 1', '"a" * 2']


def alones(c, binary, inputs):
    """the answer of a fresh session to each input, judged like any other text; returns {text: answer}"""
    events = [{'op': 'alone', 't': t} for t in inputs]
    rec, rej = judge(c, binary, events, tag='alone')
    report(c, events, rec, rej)
    out = {}
    for i, e in rec.items():
        r = e.get('r')
        if r and r['r']['k'] in ('ok', 'err') and r['last']['k'] in ('ok', 'err'):
            out[events[i]['t']] = r
    return out


def record_histories(binary, c, work, tag):
    evs = vp.record_parallel(binary, work, c.work, jobs=min(vp.CPUS, max(1, len(work) // 4)), stall=25)
    return [evs.get(w['i']) for w in work]


def validate_histories(c, answers, chunks, tag, must):
    """chunks: {"kind", "users", "ev"}; must: number of the (last) chunks that have to be rejected. Returns the rejected chunks."""
    path = os.path.join(c.work, tag + '.ndjson')
    with open(path, 'w') as f:
        f.write(json.dumps({'answers': answers, 'why': c.prop == 'C23'}) + '\n')
        for ch in chunks:
            f.write(json.dumps(ch) + '\n')
    t = vp.tlc('SessionTrace', 'SessionTrace', TRACE=path, tag=c.prop + tag, timeout=880 if not c.thorough else 7200)
    if not t.finished:
        raise ToolError('trace validation did not finish\n%s' % t.out[-3000:])
    ended = set(t.chunks)
    bad = {}
    for n, ch in enumerate(chunks, 1):
        if ch['kind'] == 'session':
            if n not in ended:
                raise ToolError('history %d was not judged to its end\n%s' % (n, t.out[-3000:]))
        elif n not in ended:
            bad[n - 1] = None
    for n, l in (r[:2] for r in t.rejects):
        bad.setdefault(n - 1, l - 1)
    real = len(chunks) - must
    if any(n not in bad for n in range(real, len(chunks))):
        raise ToolError('wrong histories were accepted: %s' % [n for n in range(real, len(chunks)) if n not in bad])
    c.count(t)
    c.traces += real
    c.cov.setdefault('history_checks', []).append({'histories': real, 'events': sum(len(x['ev']) for x in chunks), 'distinct_states': t.distinct,
                                                   'wall_s': round(t.wall, 1), 'known_wrong_histories_rejected': must})
    return {n: l for n, l in bad.items() if n < real}


def number(ev, index):
    """adds the number of the input to each event; crowd events carry their text only in the call"""
    out = []
    for e in ev:
        e = dict(e)
        t = e.pop('c', None)
        e['q'] = index.get(vp.plain(''.join(t)), 0) if t else index.get('', 0) if e.get('op') in ('eval', 'result') else 0
        out.append(e)
    return out


def judge_histories(c, binary, hist, answers, tag):
    """hist: list of ("session", steps) or ("crowd", users)"""
    texts = sorted(answers)
    index = {t: n + 1 for n, t in enumerate(texts)}
    table = [answers[t] for t in texts]
    work = [{'i': n, 'op': kind, 'steps' if kind == 'session' else 'users': h} for n, (kind, h) in enumerate(hist)]
    rec = record_histories(binary, c, work, tag)
    chunks, where = [], []
    for n, r in enumerate(rec):
        if r is None:
            continue
        if 'lost' in r:
            c.violation(['history', r['lost']], {'history': hist[n], 'what': r['lost']})
            continue
        chunks.append({'kind': hist[n][0], 'users': len(hist[n][1]) if hist[n][0] == 'crowd' else 1, 'ev': number(r['r'], index)})
        where.append(n)
    known = [t for t in texts if answers[t]['r']['k'] == 'ok' and answers[t]['r']['c'] and answers[t]['last']['shown']]
    if not known:
        raise ToolError('no input is answered')
    ok = known[0]
    other = next(t for t in known if answers[t]['r']['c'] != answers[ok]['r']['c'] and answers[t]['last']['shown'] != answers[ok]['last']['shown'])
    err = next(t for t in texts if answers[t]['r']['k'] == 'err')
    A = lambda t: {x: v for x, v in answers[t]['r'].items() if x != 'shown'}
    L = lambda t: {x: v for x, v in answers[t]['last'].items() if x != 'shown'}
    ev = lambda t, r, s=1: {'op': 'eval', 's': s, 'q': index[t], 'r': r}
    la = lambda r, s=1: {'op': 'last', 's': s, 'q': 0, 'r': r}
    res = lambda t, x: {'op': 'result', 's': 1, 'q': index[t], 'r': {'k': 'ok', 'c': x}}
    tex = lambda x: {'op': 'tex', 's': 1, 'q': 0, 'r': {'k': 'ok', 'c': x}}
    call = lambda u, o, t: {'ev': 'call', 'u': u, 'op': o, 'q': index[t] if o == 'result' else 0}
    ret = lambda u, o, x: {'ev': 'return', 'u': u, 'op': o, 'q': 0, 'r': {'k': 'ok', 'c': x}}
    shown, last = (lambda t: answers[t]['r']['shown']), (lambda t: answers[t]['last']['shown'])
    cl = {'op': 'clone', 's': 1, 'q': 0, 'r': {'k': 'done'}}
    bad = [[ev(ok, A(other))], [ev(ok, A(ok)), ev(other, A(ok))], [ev(ok, A(ok)), ev(err, A(err)), la(L(ok))], [la(L(ok))], [ev(ok, {'k': 'panic'})],
           [ev(ok, A(ok)), ev(other, A(other)), la(L(ok))], [ev(ok, A(ok)), cl, la({'k': 'err', 'e': 'empty'}, 2)],
           [ev(ok, A(ok)), cl, ev(other, A(other), 2), la(L(other))], [res(ok, shown(other))], [res(ok, shown(ok)), tex(last(other))], [ev(err, A(ok))]]
    crowd = [[call(1, 'result', ok), ret(1, 'result', shown(other))],
             [call(1, 'result', ok), ret(1, 'result', shown(ok)), call(2, 'tex', ''), ret(2, 'tex', last(other))],
             [call(1, 'result', ok), call(2, 'result', other), ret(1, 'result', shown(ok)), ret(2, 'result', shown(other)), call(1, 'tex', ''), ret(1, 'tex', last(ok)),
              call(1, 'tex', ''), ret(1, 'tex', last(other))],
             [call(1, 'result', ok), {**ret(1, 'result', []), 'r': {'k': 'panic'}}]]
    extra = [{'kind': 'session', 'users': 1, 'ev': b} for b in bad] + [{'kind': 'crowd', 'users': 2, 'ev': b} for b in crowd]
    for n, l in sorted(validate_histories(c, table, chunks + extra, tag, len(extra)).items(), key=lambda x: len(hist[where[x[0]]][1])):
        kind, h = hist[where[n]]
        seen = rec[where[n]]['r']
        got = seen[l] if l is not None else None
        c.violation(['history', kind, h if len(json.dumps(h)) < 400 else n], {'kind': kind, 'history': h, 'step': l, 'answer': got,
                                                                              'recorded': seen if kind == 'crowd' else None})
    c.samples += [{'history': [[s[0], s[1], s[2]] for s in h][:8]} for k, h in hist[:: max(1, len(hist) // 4)] if k == 'session'][:4]
    return len(chunks)


def pick_inputs(c):
    x = style(c, layout=.1)
    x.length = lambda: c.rng.choice([1, 1, 2])
    more = [t for t in [fitting(lambda: x.text(2), 60) for _ in range(c.n(60, 200))] + wild(c, c.n(60, 200)) if harmless(t)]
    base = GOOD + BAD + more
    near = [c.rng.choice(variants(c, t)) for t in base if t for _ in range(2)] + SIMILAR
    return unique(base + [t for t in near if harmless(t) or t in SIMILAR] + longer(c, c.n(12, 60)))


SIMILAR = ['"a b"', '"ab"', '"a  b"', '" ab"', '"ab "', '23', '2 3', '"AB"', '"Ab"', '1.5', '15', '1.05', 'x y', 'xy', 'a::b', 'ab', 'b', '"1+2"', '1+2', '2+1', '12', '"a;b"', '"a"', '"//! c"', '"é"', '"e"']


def run_sessions(c, binary):
    answers = alones(c, binary, pick_inputs(c))
    good = [t for t in answers if answers[t]['r']['k'] == 'ok']
    bad = [t for t in answers if answers[t]['r']['k'] == 'err']
    hist = []
    # the model's histories: inputs 1 and 2 succeed, 3 fails
    model = c.texts['Copies_deeper']
    for h in model if c.thorough else c.rng.sample(model, 7000):
        real = {'1': c.rng.choice(good), '2': c.rng.choice(good), '3': c.rng.choice(bad)}
        steps = []
        for s in h.split():
            op, k, i = s[:-2], int(s[-2]), s[-1]
            steps.append([op, real.get(i, ''), max(0, k - 1)])
        hist.append(('session', steps))
    c.cov['histories_of_model'] = [len(hist), len(model)]
    # long ones, the same inputs again and again, many failures
    texts = list(answers)
    for _ in range(c.n(300, 4000)):
        sub = c.rng.sample(texts, c.rng.choice([1, 2, 3, 6, len(texts)])) + c.rng.sample(bad, c.rng.choice([0, 0, 1, 3]))
        steps = []
        for _ in range(c.rng.choice([10, 30, 80])):
            y = c.rng.random()
            steps.append(['last', '', c.rng.choice([0, 0, 1])] if y < .35 else ['clone', '', 0] if y < .37 else ['eval', c.rng.choice(sub), c.rng.choice([0, 0, 0, 1])])
        hist.append(('session', steps))
    for _ in range(c.n(2000, 20000)):       # inputs that look alike, one after the other
        t = c.rng.choice(texts)
        v = [y for y in variants(c, t) if y in answers] if t not in SIMILAR else [y for y in SIMILAR if y in answers and y != t]
        if v:
            v = c.rng.choice(v)
            hist.append(('session', [['eval', t, 0], ['last', '', 0], ['eval', v, 0], ['last', '', 0], ['eval', t, 0], ['eval', v, 0], ['last', '', 0]]))
    for t in texts:       # what an input leaves behind
        o = c.rng.choice(good)
        b = c.rng.choice(bad)
        hist.append(('session', [['eval', o, 0], ['last', '', 0], ['eval', t, 0], ['last', '', 0], ['eval', b, 0], ['last', '', 0], ['eval', t, 0], ['last', '', 0], ['eval', o, 0], ['last', '', 0]]))
    for n in c.n((150, 400, 1100, 4200), (150, 400, 2100, 4200, 17000)):
        hist.append(('session', [[s, t, 0] for _ in range(n) for s, t in (('eval', c.rng.choice(bad if c.rng.random() < .4 else texts)), ('last', ''))]))
    judge_histories(c, binary, hist, answers, 'hist')
    c.cov['inputs'] = {'ok': len(good), 'err': len(bad)}
    return c.finish('history')


def run_causes(c, binary):
    """failures again and again, after and before other inputs"""
    answers = alones(c, binary, pick_inputs(c))
    texts, r = list(answers), c.rng
    bad = [t for t in texts if answers[t]['r']['k'] == 'err']
    hist = [('session', [['last', '', 0], ['clone', '', 0], ['last', '', 1]])]
    for t in bad:
        for b in [r.choice(texts), r.choice(bad)]:
            hist.append(('session', [[s, x, 0] for x in (t, t, t, b, t, b, b, t) for s in ('eval', 'last')]))
    for _ in range(c.n(1500, 12000)):
        sub = r.sample(bad, r.choice([1, 2, 3])) + r.sample(texts, r.choice([0, 1, 2]))
        hist.append(('session', [['eval', r.choice(sub), 0] if r.random() < .8 else ['last', '', 0] for _ in range(r.choice([4, 8, 20]))]))
    judge_histories(c, binary, hist, answers, 'hist')


def failures(c, count):
    """several statements, and texts with one thing wrong"""
    r, out = c.rng, []
    for _ in range(count):
        x = style(c, None, layout=r.choice([0, 0, .1]), subs=.1, dots=.1)
        x.length = lambda: r.choice([1, 1, 2])
        part = lambda d=1: fitting(lambda: x.text(d), 40)
        y = r.random()
        if y < .45:
            t = part()
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                t += r.choice([';', '; ', '\n', ' ', '', ';;', '%%% c %%%', '//! c\n', '；', '\n\n']) + part(r.choice([0, 1]))
            t += r.choice(['', '', ';', '\n', ' ', ' +', ')', ' (', ' "'])
        else:
            t = part(2)
            for _ in range(r.choice([1, 1, 2])):
                i = r.randint(0, len(t))
                t = t[:i] + r.choice(['', '', r.choice(['(', ')', '[', ']', '+', '*', ',', ':', ';', '"', '!', '.', '^', ' ', '\n', '1', 'a', '#1', 'true ', ' f('])]) + t[i + r.choice([0, 0, 1]):]
        out.append(t)
    return out


def run_playground(c, binary):
    answers = alones(c, binary, pick_inputs(c))
    texts = list(answers)
    hist = []
    for _ in range(c.n(150, 1500)):
        sub = c.rng.sample(texts, c.rng.choice([2, 5, len(texts)]))
        hist.append(('session', [['result', c.rng.choice(sub), 0] if c.rng.random() < .6 else ['tex', '', 0] for _ in range(c.rng.choice([6, 20, 60]))]))
    for t in texts:
        hist.append(('session', [['result', t, 0], ['tex', '', 0], ['tex', '', 0], ['result', '1 + 2', 0], ['tex', '', 0]]))
    if '1 + 2' not in answers:
        hist = [h for h in hist if all(s[1] != '1 + 2' for s in h[1])]
    for _ in range(c.n(160, 1500)):
        n = c.rng.choice([2, 2, 3, 4])
        sub = c.rng.sample(texts, c.rng.choice([2, 3, 8]))
        users = [[['result', c.rng.choice(sub)] if c.rng.random() < .6 else ['tex', ''] for _ in range(c.rng.choice([3, 6, 10]))] for _ in range(n)]
        hist.append(('crowd', users))
    judge_histories(c, binary, hist, answers, 'play')


# ---------------------------------------------------------------------------- replay

def replay(prop, path):
    d = json.load(open(path))
    c = Check(prop)
    binary = vp.build(*BIN)
    det = d['detail']
    if d['key'][0] == 'ask':
        import more
        return more.replay(prop, path)
    if d['key'][0] in ('text', 'alone'):
        events = [{'op': det['op'], 't': det['text'], 'parts': det['parts']}]
        rec, rej = judge(c, binary, events, canaries=False)
        log('recorded: ' + json.dumps(rec[0])[:2000])
    else:
        h = det['history']
        steps = [s for s in h] if det.get('kind', 'session') == 'session' else [s for u in h for s in u]
        answers = alones(c, binary, unique(GOOD[:4] + BAD[:2] + [s[1] for s in steps if s[0] in ('eval', 'result')]))
        before = len(c.violations)
        judge_histories(c, binary, [(det.get('kind', 'session'), h)], answers, 'replay')
        rej = c.violations[before:]
    log('rejected by the specification' if rej else 'allowed by the specification')
    return 1 if rej else 0
