"""Random source texts: expressions of the language, layout, mutations of texts, arbitrary characters."""

NAMES = ['a', 'b', 'x', 'y', 'f', 'g', 'foo', 'bar2', 'A', 'Zeta', 'x_1', '_u', '_1', 'nullable', 'null_', 'truth', 'true1', 'falsey', 'letter',
         'iffy', 'define', 'format', 'passed', 'classy', 'e', 'b1', 'o7', 'xF', 'é', 'α', 'я', '中', 'Α', 'é2', 'std', 'plus', 'sin', 'factor', 'List']
LAYOUT = [' ', ' ', ' ', '  ', '\t', '\n', '\n', '\r\n', ' \n ', '%%% c %%%', '%%%\n%%%', '//! c\n', '/// 1+1\n', '//? "\n', '//* (\n', '\u3000', '\x0b', '\xa0']
BLANK = [' ', ' ', '\t', '  ', '\u3000']
INFIX = ['+', '-', '*', '/', '^', '+', '-', '*', '/', '^', '×', '÷']
PREFIX = ['-', '+', '!', '*', '¬', '!!']
SUFFIX = ['!', '!!']
KEYWORDS = ['using', 'class', 'trait', 'extends', 'return', 'break', 'pass', 'if', 'for', 'let', 'def']
KNOWN = list('abcxyzABF0123456789_+-*/^!.,:;()[]{}<>=?@|&$%\'`\\"# \n\t~') + ['×', '÷', '¬', '，', '；', '：', '∷', '¶', '⁋', 'é', 'α', '中', '\u0301', '\r', '⋅', '≠']
STRANGE = ['\0', '\x7f', '\u200b', '\ufeff', '😀', '√', '∧', '\ud7ff', '⊗', '⏎', 'ﬁ', 'İ', '\x1b', '₂', '…', '‼', '𝒳', '\u202e']


class Gap(str):
    """a place where layout may stand"""


class Texts:
    def __init__(self, rng, layout=0.0, tight=0.0):
        self.r, self.layout, self.tight = rng, layout, tight
        self.kinds = None

    # --- literals
    def digits(self, n):
        s = ''.join(self.r.choice('0123456789') for _ in range(n))
        return s

    def length(self):
        x = self.r.random()
        return 1 if x < .35 else self.r.randint(1, 4) if x < .7 else self.r.randint(5, 40) if x < .97 else self.r.randint(41, 400)

    def integer(self):
        n = self.length()
        x = self.r.random()
        if x < .1:
            return '0'
        if x < .15:
            return str(2 ** self.r.choice([8, 15, 16, 31, 32, 53, 63, 64, 127, 128]) + self.r.randint(-1, 1))
        if x < .2:
            return '1' + '0' * n
        return self.r.choice('123456789') + self.digits(n - 1)

    def radix(self):
        p, ds = self.r.choice([('b', '01'), ('o', '01234567'), ('x', '0123456789abcdefABCDEF')])
        if self.r.random() < .3:
            p = p.upper()
        s = '0' + p
        for _ in range(self.length()):
            if self.r.random() < .2:
                s += '_'
            s += self.r.choice(ds)
        return s

    def decimal(self):
        return (self.integer() if self.r.random() < .8 else '0') + '.' + self.digits(self.length())

    def number(self):
        x = self.r.random()
        return self.integer() if x < .65 else self.decimal() if x < .83 else self.radix()

    def string(self):
        body = ''.join(self.r.choice(['a', 'b', ' ', '1', '\\"', '\\\\', '\\n', '\n', 'é', '中', '😀', '#', "'", '~', '//! ', '%%%', '(', '""'[:0]])
                       for _ in range(self.r.choice([0, 1, 1, 2, 3, 6, 20])))
        x = self.r.random()
        if x < .2:
            q = '"' * self.r.choice([3, 3, 4, 5])
            return q + (body.replace('"', "'") or 'e') + q
        if x < .3:
            return self.r.choice(['a', 'f', 're', 'b1']) + '"' + body + '"'
        return '"' + body + '"'

    def word(self, simple=False):
        n = self.r.choice(NAMES)
        while not simple and self.r.random() < .12:
            n += self.r.choice(['::', '::', '∷']) + self.r.choice(NAMES)
        return n

    def slot(self):
        if self.r.random() < .25:
            return self.r.choice(['#', '##', '¶', '⁋', '#']) + self.r.choice([self.integer(), str(2 ** self.r.choice([8, 16, 31, 32, 63, 64, 128]) + self.r.randint(-1, 1))])
        return self.r.choice(['#', '#0', '#1', '#12', '##', '##1', '##34', '#x', '#name', '¶', '¶¶¶', '¶2', '⁋', '⁋⁋', '⁋17'])

    # --- expressions: lists of pieces; a Gap is a place for layout, a Blank piece one for blanks only
    def sep(self, xs, depth, item):
        out = [Gap()]
        for i in range(xs):
            if i and self.budget <= 0:
                xs = i
                break
            out += ([Gap(), self.r.choice([',', ',', ',', '，']), Gap()] if i else []) + item(depth)
        if xs and self.r.random() < .15:
            out += [Gap(), ',']
        return out + [Gap()]

    def args(self, depth):
        def item(d):
            if self.r.random() < .2:
                return [self.r.choice(['a', 'b', 'key', 'é', 'opt_1']), Gap(), self.r.choice([':', ':', '：']), Gap()] + self.expr(d)
            return self.expr(d)
        return ['('] + self.sep(self.r.choice([0, 1, 1, 1, 2, 2, 3, 5]), depth, item) + [')']

    def call(self, depth):
        out = [self.word()]
        for _ in range(self.r.choice([1, 1, 1, 1, 2, 3])):
            out += [self.r.choice(['', '', '', '', ' '])] + self.args(depth)
        return out

    def sub(self, depth):
        def item(d):
            x = self.r.random()
            if x < .5:
                return self.expr(d)
            part = lambda: self.expr(d) if self.r.random() < .6 else []
            out = part() + [Gap(), ':', Gap()] + part()
            if self.r.random() < .5:
                out += [Gap(), ':', Gap()] + part()
            return out
        return ['['] + self.sep(self.r.choice([1, 1, 1, 2, 3]), depth, item) + [']']

    def factor(self, depth):
        x = self.r.random()
        if x < .5:
            return [self.word()]
        if x < .85 or depth <= 0:
            return [self.number()]
        return self.call(depth - 1)

    def atom(self, depth):
        k = self.kinds or {'num': 6, 'word': 6, 'juxt': 2, 'paren': 3, 'call': 4, 'list': 1, 'str': 1, 'slot': 1, 'const': 1}
        while True:
            x = self.r.choices(list(k), list(k.values()))[0]
            if depth <= 0 and x in ('paren', 'call', 'list'):
                continue
            break
        if x == 'num':
            return [self.number()]
        if x == 'int':
            return [self.integer()]
        if x == 'word':
            return [self.word()]
        if x == 'str':
            return [self.string()]
        if x == 'slot':
            return [self.slot()]
        if x == 'const':
            return [self.r.choice(['true', 'false', 'null'])]
        if x == 'call':
            return self.call(depth - 1)
        if x == 'list':
            return ['['] + self.sep(self.r.choice([0, 1, 2, 3, 6]), depth - 1, self.expr) + [']']
        if x == 'paren':
            return ['(', Gap()] + self.expr(depth - 1) + [Gap(), ')']
        out = self.factor(depth)
        for _ in range(self.r.choice([1, 1, 2, 3])):
            out += [self.r.choice(BLANK)] + self.factor(depth)
        return out

    def term(self, depth):
        out = []
        self.budget -= 1
        if self.budget <= 0:
            depth = 0
        while self.r.random() < self.prefixes:
            out.append(self.r.choice(PREFIX))
        out += self.atom(depth)
        while self.r.random() < self.suffixes:
            out.append(self.r.choice(SUFFIX))
        while depth > 0 and self.r.random() < self.subs:
            out += [self.r.choice(['', '', '', ' '])] + self.sub(depth - 1)
        return out

    budget = 1000
    prefixes, suffixes, subs, dots, ops = .15, .1, .08, .12, (0, 0, 0, 1, 1, 2, 3)

    def expr(self, depth):
        out = self.term(depth)
        for _ in range(self.r.choice(self.ops)):
            if self.budget <= 0:
                break
            if self.r.random() < self.dots:
                out += [Gap(), '.', Gap()] + (self.term(depth) if self.r.random() < .3 else
                                             [self.word()] if self.r.random() < .5 else [str(self.r.randint(0, 30))] if depth <= 0 or self.r.random() < .3 else self.call(depth - 1))
            else:
                out += [Gap(), self.r.choice(INFIX), Gap()] + self.term(depth)
        return out

    def render(self, pieces, layout=None):
        p = self.layout if layout is None else layout
        out = []
        for x in pieces:
            if isinstance(x, Gap):
                while self.r.random() < p:
                    out.append(self.r.choice(LAYOUT))
            else:
                if self.tight and self.r.random() < self.tight:
                    out.append(self.r.choice(LAYOUT))
                out.append(x)
        return ''.join(out)

    def text(self, depth=3, budget=18):
        self.budget = budget
        return self.render(self.expr(depth))

    def statement(self, depth=3):
        self.budget = 18
        t = self.render([Gap()] + self.expr(depth) + [Gap()])
        x = self.r.random()
        if x < .2:
            t += self.r.choice([';', ';;', ' ;', '\n;\n', '；', ';;;'])
        if x < .1:
            t = self.r.choice([';', ';;', '\n', ' ; ', '；']) + t
        return t

    def brackets(self, pieces):
        """the same text with redundant brackets around some operands"""
        out = []
        for i, x in enumerate(pieces):
            prev = pieces[i - 1] if i else None
            nxt = pieces[i + 1] if i + 1 < len(pieces) else None
            if (x and x[0] in '0123456789"' and self.r.random() < .5 and (prev is None or isinstance(prev, Gap) or prev in PREFIX)
                    and (nxt is None or isinstance(nxt, Gap) or nxt in SUFFIX)):
                n = self.r.choice([1, 1, 2])
                out += ['(', Gap()] * n + [x] + [Gap(), ')'] * n
            else:
                out.append(x)
        return out

    # --- texts that are not expressions
    def mutate(self, t, strange=False):
        cs = list(t)
        abc = KNOWN + (STRANGE if strange else [])
        for _ in range(self.r.choice([1, 1, 1, 2, 3, 5])):
            x = self.r.random()
            i = self.r.randint(0, len(cs)) if cs else 0
            if x < .3 and i < len(cs):
                del cs[i]
            elif x < .55:
                cs.insert(i, self.r.choice(abc))
            elif x < .7 and i < len(cs):
                cs[i] = self.r.choice(abc)
            elif x < .8 and len(cs) > 1:
                i, j = sorted((self.r.randrange(len(cs)), self.r.randrange(len(cs))))
                cs[i], cs[j] = cs[j], cs[i]
            elif x < .9 and i < len(cs):
                j = min(len(cs), i + self.r.randint(1, 8))
                k = self.r.randint(0, len(cs))
                cs[k:k] = cs[i:j]
            elif i < len(cs):
                del cs[i:i + self.r.randint(1, 6)]
        return ''.join(cs)

    def soup(self, n, strange=False):
        parts = ['1', 'a', 'f(', '(', ')', '[', ']', '+', '-', '*', '^', '/', '.', '!', '!!', ',', ':', ' ', '\n', '0x1', '"s"', 'b::c', '2', 'x', '1.5',
                 '#1', ';', '¶', 'true', 'null', '%%%', '//! ', '{', '}', '=', '"', "'", '<', '>', '@', '?', 'let', 'if ', 'def f(', 'in ', '::', '->', '==',
                 '|', '&', '"""', '\\', '_', '0b', '⁋']
        return ''.join(self.r.choice(parts if self.r.random() < .8 else KNOWN + (STRANGE if strange else [])) for _ in range(n))

    def keyword(self):
        k = self.r.choice(KEYWORDS)
        body = self.r.choice([' x', ' x = 1', ' f(x) = x', ' x { 1 }', '(x) {1}', ' a in b { c }', ' "m" as m', ' .a.b', ' {a, b}', '', ';', ' x: T = 1', ' (a, b) = 2',
                              ' x then {1} else {2}', ' A with B { let x; def f() }', ' m::{a as b, *}', ' ' + self.text(2)])
        return k + body
