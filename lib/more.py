"""C20..C22, C24: files, questions about trees, TeX, places."""
import json
import os
import re

import lang
import vp
from texts import NAMES
from vp import Check, ToolError, log

BIN = lang.BIN
CANARIES = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more_canaries.json')


def enc(s):
    return ''.join(x if ' ' <= x <= '}' else '~%x~' % ord(x) for x in s)


D = {
    'C20': [('FileConv', 'FileConv_asbuilt', 'holds'), ('FileConv', 'FileConv_early', 'refuted'), ('FileConv', 'FileConv_overlay', 'refuted'), ('FileConv', 'FileConv_silent', 'refuted')],
    'C21': [('MCQuery', 'MCQuery_asbuilt', 'holds'), ('MCQuery', 'MCQuery_front', 'refuted')],
    'C24': [('MCCall', 'MCCall', 'holds'), ('MCGroup', 'MCGroup', 'holds')],
    'C22': [('MCQuery', 'MCQuery_asbuilt', 'holds'), ('MCQuery', 'MCQuery_two', 'refuted'), ('MCQuery', 'MCQuery_single', 'refuted')],
}


# ---------------------------------------------------------------------------- conversions of files

CREATABLE = {'a': True, 'b': True, 'u': True, 'c': True, 'd': False, 'n': False, 'l': False, 'e': False}
CONVERTIBLE = ['1', 'f(1, 2, k: 3)', 'a + b * 2', '[1, 2, [3]]', '"text"', '"é 中 😀"', 'x.f(1)', '1.50', '', ';', '0xff //! c', '%%% c %%% g(1)(2)', '2 a b^3', '-x!', 'm::f(y);', 'true', '"\r\n"', 'a[1:2]', '"a\nb"', 'factor(99999999999999999999999)']
UNCONVERTIBLE = ['1 +', '(', '@', '"', '1; 2', 'a[', '{}', 'if x {1}', '\\', 'f(1', '1 = 2', ']', '%', '1 2)', 'let x = 1', 'a >= b', '1\n2', "'x'", '[1, 2', '+']


def histories(c):
    r, out = c.rng, []
    model = c.texts['FileConv_asbuilt']
    for h in model if c.thorough else r.sample(model, 2200):
        w = h.split()
        text = {'one': r.choice(CONVERTIBLE), 'two': r.choice(CONVERTIBLE), 'bad': r.choice(UNCONVERTIBLE)}
        if r.random() < .5:       # the longer one is second
            text['one'], text['two'] = sorted((text['one'], text['two']), key=len)
        f = lambda x: {} if x == 'none' else {'t': text[x]}
        out.append(({'a': f(w[0]), 'b': f(w[1]), 'd': {'dir': True}, 'n': {}}, [[s[0], s[1], 1] for s in w[2:]]))
    c.cov['histories_of_model'] = [len(out), len(model)]
    x = lang.style(c, None, layout=.1, subs=.1, dots=.2)
    x.length = lambda: r.choice([1, 1, 2, 3, 12])

    def content():
        y = r.random()
        if y < .3:
            return {'t': r.choice(CONVERTIBLE)}
        if y < .5:
            return {'t': r.choice(UNCONVERTIBLE)}
        if y < .72:
            return {'t': lang.fitting(lambda: x.text(2), 80)}
        if y < .84:
            return {'t': lang.fitting(lambda: x.mutate(x.text(2)), 80)}
        if y < .9:
            return {'b': r.choice([[255], [34, 195, 34], [49, 43, 0xf0, 0x9f], [0xc0, 0x80], [0xed, 0xa0, 0x80], [34, 128, 34], [0xef, 0xbb, 0xbf, 0xff]])}
        return {'t': r.choice(['\ufeff1', '\0', '1\0', '"' + 'é' * r.choice([10, 200]) + '"', '[' + ', '.join(str(j) for j in range(r.choice([20, 60]))) + ']', ' ' * 150 + '1', '1' * r.choice([100, 300]) + ' + 1'])}
    def large():
        n = r.choice([2000, 4096, 8192, 10000, 16384, 33000, 66000, 72000]) + r.randint(-9, 9)
        body = ''.join(r.choice(['a', 'b ', 'é', '中', '1']) if r.random() < .2 else 'ab 1'[j % 4] for j in range(n))
        return {'t': r.choice(['"%s"', '1 //! %s', '%%%%%%%s%%%%%% [1, 2]', 'f("%s", 2)', '"%s" +', '"%s', '//? %s\n("x"']) % body}
    for _ in range(c.n(24, 200)):
        fs = {'a': large(), 'b': r.choice([large, content, lambda: {}])(), 'c': {}}
        out.append((fs, [[p, q, 1] for p, q in r.choice([['ac'], ['ab'], ['ab', 'ba'], ['ac', 'bc'], ['bc', 'ac', 'bc'], ['aa']])]))
    for _ in range(c.n(1500, 20000)):
        fs = {p: content() if p in 'abu' and r.random() < .85 else {} for p in 'abcunle'}
        fs['d'] = {'dir': True}
        steps = []
        for _ in range(r.choice([1, 2, 2, 3, 5])):
            p = r.choice('aaabbbuuccdnle')
            q = r.choice('aaabbbuuccccdnle')
            steps.append([p, q, 0 if r.random() < .08 else 1])
        out.append((fs, steps))
    return out


def chunk(fs, rec):
    return {'fs': rec['fs'], 'ev': rec['ev'], 'open': {**{p: CREATABLE[p] for p in fs}, 'stray': False}}


def judge_files(c, binary, hist, must):
    work = [{'i': n, 'op': 'convert', 'fs': fs, 'steps': steps} for n, (fs, steps) in enumerate(hist)]
    rec = vp.record_parallel(binary, work, c.work, stall=25)
    lines, where = [], []
    for n, (fs, steps) in enumerate(hist):
        e = rec.get(n)
        if e is None:
            continue
        if 'lost' in e:
            c.violation(['files', fs, steps], {'files': fs, 'steps': steps, 'what': e['lost']})
            continue
        lines.append(chunk(fs, e['r']))
        where.append(n)
    bad = set()
    t = run_trace(c, 'FileTrace', lines + must, 'files')
    if sorted(set(t.chunks)) != list(range(1, len(lines) + len(must) + 1)):
        raise ToolError('trace validation did not finish\n%s' % t.out[-3000:])
    rej = {}
    for n, l in (x[:2] for x in t.rejects):
        rej.setdefault(n - 1, l)
    missing = [n - len(lines) for n in range(len(lines), len(lines) + len(must)) if n not in rej]
    if missing:
        raise ToolError('wrong histories were accepted: %s' % missing)
    c.traces += len(lines)
    kinds = {}
    for x in lines:
        for e in x['ev']:
            k = e['r']['k'] + (':' + e['r']['e'] if e['r']['k'] == 'err' else '')
            kinds[k] = kinds.get(k, 0) + 1
    c.cov['trace_checks'] = [{'histories': len(lines), 'conversions': sum(kinds.values()), 'by_outcome': kinds, 'distinct_states': t.distinct, 'wall_s': round(t.wall, 1),
                              'known_wrong_histories_rejected': len(must)}]
    out = sorted(((where[n], l) for n, l in rej.items() if n < len(lines)), key=lambda y: len(json.dumps(hist[y[0]])))
    for n, l in out:
        fs, steps = hist[n]
        c.violation(['files', fs, steps[:l]], {'files': fs, 'steps': steps, 'step': l, 'answer': rec[n]['r']['ev'][l - 1]})
    c.samples += [{'files': hist[n][0], 'steps': hist[n][1]} for n in where[:: max(1, len(where) // 6)]][:6]
    return rec, out


def run_trace(c, module, lines, tag):
    path = os.path.join(c.work, tag + '.ndjson')
    with open(path, 'w') as f:
        for x in lines:
            f.write(json.dumps(x) + '\n')
    t = vp.tlc(module, module, TRACE=path, tag=c.prop + tag, timeout=880 if not c.thorough else 7200)
    if not t.finished:
        raise ToolError('trace validation did not finish\n%s' % t.out[-3000:])
    c.count(t)
    return t


# ---------------------------------------------------------------------------- questions about trees

TRIG = ['sin', 'cos', 'tan', 'cot', 'sec', 'csc', 'arcsin', 'arccos', 'arctan']
TRIG2 = ['arccot', 'arcsec', 'arccsc', 'arcsinh', 'arccosh', 'arctanh', 'arccoth', 'arcsech', 'arccsch']
LIST = ['std', 'containers', 'List']


class Trees:
    def __init__(self, r, tex=False):
        self.r, self.tex = r, tex

    def name(self):
        return enc(self.r.choice(NAMES + TRIG + TRIG2 + ['factorial', 'head', 'Sin', 'sinus', 'infix', 'add', 'prefix']))

    def path(self):
        n = self.r.choice([1, 1, 1, 1, 2, 3])
        p = [self.name() for _ in range(n)]
        return p if p[0] != 'std' else ['m'] + p      # std::infix and the like are built from their sign

    def digits(self):
        r = self.r
        n = r.choice([1, 1, 2, 3, 9, 18, 19, 20, 40, 100])
        return str(r.choice([r.randrange(10 ** n), 10 ** n, 10 ** n - 1, 2 ** r.choice([31, 32, 63, 64, 127, 128]) + r.randint(-1, 1)]))

    def string(self):
        return enc(''.join(self.r.choice(['a', 'B', ' ', '1', 'é', '中', '😀', '\u0301', '\n', '~', '"', '\\', '{', '}', '$', '%', '\0', 'ß', '\u200d'])
                           for _ in range(self.r.choice([0, 0, 1, 1, 2, 3, 6, 30]))))

    def leaf(self):
        y, r = self.r.random(), self.r
        if y < .3:
            d = self.digits()
            return {'k': 'int', 'v': '-' + d if d != '0' and r.random() < .3 else d}
        if y < .4:
            d = self.digits() + '.' + self.digits().rstrip('0')
            return {'k': 'dec', 'v': d.rstrip('.')} if d[-1] != '.' else {'k': 'bool', 'v': 'true'}
        if y < .55:
            return {'k': 'str', 'v': self.string()}
        if y < .6:
            return {'k': 'bool', 'v': r.choice(['true', 'false'])}
        if y < .63:
            return {'k': 'empty'}
        return {'k': 'sym', 'v': self.path()}

    def tree(self, depth):
        r = self.r
        if depth <= 0 or r.random() < .25:
            return self.leaf()
        y = r.random()
        inner = lambda: self.tree(depth - 1)
        some = lambda: [inner() for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 6] if depth > 1 else [0, 1, 1, 1, 2, 2, 3, 3, 6, 9, 14]))]
        if y < .15:
            return {'k': 'fn', 'v': LIST, 'g': [{'a': some(), 'o': []}]}
        if y < .35 and self.tex:
            term = lambda: {'k': 'int', 'v': self.digits()} if r.random() < .5 else {'k': 'sym', 'v': [self.name()]}
            return {'k': 'fn', 'v': ['std', 'infix', r.choice(['add', 'times'])], 'g': [{'a': [term() for _ in range(r.choice([2, 2, 3, 5, 9]))], 'o': []}]}
        if y < .35:
            return {'k': 'fn', 'v': ['std'] + r.choice([['infix', r.choice(['add', 'subtract', 'times', 'divide', 'power'])]]), 'g': [{'a': [inner() for _ in range(r.choice([2, 2, 3]))], 'o': []}]}
        head = [r.choice(TRIG + TRIG2)] if y < .55 else self.path()
        opts = lambda: [] if self.tex or r.random() < .7 else [[{'k': 'sym', 'v': ['k%d' % j]}, inner()] for j in range(r.choice([1, 1, 2, 3]))]
        return {'k': 'fn', 'v': head, 'g': [{'a': some(), 'o': opts()} for _ in range(r.choice([1, 1, 1, 1, 1, 2, 3, 5, 5, 8]))]}


def size(t):
    return len(json.dumps(t))


def questions(c):
    r = c.rng
    out = []
    model = [json.loads(x) for x in c.texts.get('MCQuery_asbuilt', [])]
    if model:
        c.cov['trees_of_model'] = len(model)
    if c.prop == 'C22':
        g = Trees(r, tex=True)
        for t in model:
            out.append(('tex', t))
        for _ in range(c.n(9000, 120000)):
            out.append(('tex', g.tree(r.choice([0, 1, 1, 2, 2, 3]))))
        for n in TRIG + TRIG2 + ['f', 'Sin', 'list', 'sin2']:
            for h in [[n], ['m', n]]:
                for g1 in ([], ['x'], ['x', 'y'], ['x', 'y', 'z']):
                    for g2 in (None, [], ['u'], ['u', 'v']):
                        group = lambda a: {'a': [{'k': 'sym', 'v': [x]} for x in a], 'o': []}
                        out.append(('tex', {'k': 'fn', 'v': h, 'g': [group(g1)] + ([] if g2 is None else [group(g2)])}))
        many = lambda n: [r.choice([{'k': 'int', 'v': str(j)}, {'k': 'sym', 'v': ['x%d' % j]}]) for j in range(n)]
        for n in (8, 11, 13, 17, 20, 33, 40, 65, 100):
            out += [('tex', {'k': 'fn', 'v': v, 'g': [{'a': many(n), 'o': []}]}) for v in (LIST, ['f'], ['sin'], ['m', 'g'], ['std', 'infix', 'add'], ['std', 'infix', 'times'])]
            for m in (0, 1, 2):
                out += [('tex', {'k': 'fn', 'v': v, 'g': [{'a': many(m or j % 3), 'o': []} for j in range(n)]}) for v in (['f'], ['sin'])]
            out += [('tex', {'k': 'int', 'v': '7' * n * 10}), ('tex', {'k': 'str', 'v': 'ab c' * n}), ('tex', {'k': 'sym', 'v': ['y' * n]}), ('tex', {'k': 'sym', 'v': ['m'] * n + ['y']})]
        return [q for q in out if size(q[1]) < 6000]
    g = Trees(r)
    if c.prop == 'C19':
        out = [('wolfram', t) for t in [{'k': 'fn', 'v': ['f'], 'g': []}, {'k': 'fn', 'v': ['m', 'f'], 'g': []}]]
        for _ in range(c.n(6000, 80000)):
            out.append(('wolfram', g.tree(r.choice([0, 1, 2, 2, 3, 3]))))
        for n in (8, 20, 50):          # many arguments, groups, options
            num = lambda k: [{'k': 'int', 'v': str(j * 7 - 9)} for j in range(k)]
            opts = [[{'k': 'sym', 'v': ['k%03d' % j]}, {'k': 'int', 'v': str(j)}] for j in range(n)]
            out += [('wolfram', {'k': 'fn', 'v': v, 'g': [{'a': num(n), 'o': []}]}) for v in (LIST, ['f'], ['std', 'infix', 'times'])]
            out += [('wolfram', {'k': 'fn', 'v': ['f'], 'g': [{'a': num(2), 'o': opts}]}), ('wolfram', {'k': 'fn', 'v': ['f'], 'g': [{'a': num(j % 3), 'o': []} for j in range(n)]})]
        return [q for q in out if size(q[1]) < 6000]
    fs = ['head', 'first', 'last', 'length', 'factorial', 'fibonacci']
    for t in model:
        out += [(f, t) for f in ['head', r.choice(fs[1:])]]
    out += [('head', {'k': 'program'}), ('head', {'k': 'fn', 'v': ['f'], 'g': []}), ('head', {'k': 'fn', 'v': ['m', 'f'], 'g': []})]
    for n in (4, 5, 6, 7, 9, 12, 17, 33, 65, 100):
        for k in (0, 1, 2):
            out.append(('head', {'k': 'fn', 'v': r.choice([['f'], ['m', 'f'], LIST]), 'g': [{'a': [{'k': 'int', 'v': str(j)}] * (k or j % 3), 'o': []} for j in range(n)]}))
        out += [(f, {'k': 'str', 'v': enc(r.choice('aé中') * n * 9 + 'x' * n + r.choice('aé中'))}) for f in ('first', 'last', 'length')]
    for _ in range(c.n(5000, 60000)):
        out.append(('head', g.tree(r.choice([0, 1, 2, 3]))))
    for _ in range(c.n(3000, 30000)):
        out.append((r.choice(['first', 'last', 'length']), {'k': 'str', 'v': g.string()}))
        f = r.choice(['first', 'last', 'length', 'factorial', 'fibonacci'])
        t = g.tree(r.choice([0, 0, 0, 1]))
        out.append((f, t))
    num = lambda n: {'k': 'int', 'v': str(n)}
    for n in list(range(-60, 61)) + [r.randint(-3000, 1200) for _ in range(c.n(300, 3000))]:
        out.append(('factorial', num(n)))
    for n in list(range(-320, 321)) + [r.randint(-6000, 6000) for _ in range(c.n(400, 4000))]:
        out.append(('fibonacci', num(n)))
    for w in (31, 32, 62, 63, 64, 65, 127, 128, 200):
        for d in (-2, -1, 0, 1, 2):
            for s in (1, -1):
                n = s * 2 ** w + d
                out.append(('factorial', num(n)) if n < 0 or n > 2 ** 63 - 1 else ('length', num(n)))
                if n > 2 ** 63 - 1 or n < -2 ** 63:
                    out.append(('fibonacci', num(n)))
    # an argument within the machine range would be computed
    heavy = lambda f, t: t['k'] == 'int' and (f == 'fibonacci' and 9000 < abs(int(t['v'])) <= 2 ** 63 or f == 'factorial' and 3000 < int(t['v']) < 2 ** 63)
    return [q for q in out if size(q[1]) < 6000 and not heavy(*q)]


def judge_questions(c, binary, asks, must):
    events = [{'i': n, 'op': 'ask', 'f': f, 'x': x} for n, (f, x) in enumerate(asks)]
    order = list(events)
    c.rng.shuffle(order)
    rec = vp.record_parallel(binary, order, c.work, stall=25)
    done = [rec[n] for n in range(len(asks)) if n in rec]
    for e in done:
        if 'lost' in e:
            e.update(f=asks[e['i']][0], x=asks[e['i']][1])
    chunks = max(1, min(96, len(done) // 50))
    lines = [{'ev': done[j::chunks]} for j in range(chunks)]
    lines += [{'ev': [{**e, 'i': 'canary%d' % n} for n, e in enumerate(must)]}] if must else []
    t = run_trace(c, 'QueryTrace', lines, 'asks')
    if sorted(set(t.chunks)) != list(range(1, len(lines) + 1)):
        raise ToolError('trace validation did not finish\n%s' % t.out[-3000:])
    rej = {x[0] for x in t.rejects}
    missing = {'canary%d' % n for n in range(len(must))} - rej
    if missing:
        raise ToolError('wrong answers were accepted: %s' % sorted(missing))
    c.traces += len(done)
    kinds = {}
    for e in done:
        k = 'lost' if 'lost' in e else e['f'] + ':' + e['r']['k'] + (':' + e['r']['e'] if e['r']['k'] == 'err' else '')
        kinds[k] = kinds.get(k, 0) + 1
    c.cov.setdefault('trace_checks', []).append({'questions': len(done), 'by_kind': kinds, 'distinct_states': t.distinct, 'wall_s': round(t.wall, 1),
                                                 'known_wrong_answers_rejected': len(must)})
    out = sorted((n for n in rej if not isinstance(n, str)), key=lambda n: size(asks[n][1]))
    for n in out:
        f, x = asks[n]
        c.violation(['ask', f, x], {'question': f, 'tree': x, 'answer': rec[n].get('r', rec[n].get('lost'))})
    c.samples += [{'question': asks[n][0], 'tree': json.dumps(asks[n][1])[:150], 'answer': json.dumps(rec[n].get('r'))[:150]} for n in list(rec)[:: max(1, len(rec) // 8)]]
    return rec, out


# ---------------------------------------------------------------------------- places

FILES = ['', '', 'x.sm', 'a b/é.sm', 'anonymous2']


def placed_texts(c):
    r = c.rng
    out = lang.gather(c, 1300, 40000) + lang.calls(c, c.n(1300, 20000)) + lang.operators(c, c.n(900, 15000)) + lang.layouts(c, c.n(300, 5000)) + lang.literals(c, c.n(500, 5000))
    out += [t.replace(' ', '\n') for t in r.sample(out, len(out) // 10)]
    out = [t for t in out if len(t) < 120]
    lead = lambda: r.choice(['', '', '\n', ' ', '\r\n', '//! é\n', ''.join(r.choice(['\n', '\n', ' ', '\t', '\r\n', ';', '%%% é\n%%%', '//! x\n']) for _ in range(r.choice([2, 3, 4, 6, 12, 40])))])
    out = [(lead() + t, r.choice(FILES)) for t in lang.unique(out)]
    # long lines, far lines
    for t in lang.sizable(c, c.n(120, 1000), 'ccpa') + lang.calls(c, c.n(8, 80)):
        t = r.choice(['', '', '', ' ' * 270, '\n' * 300, '"' + 'é' * 260 + '" + ', '%%%' + 'c' * 300 + '%%%', '\r\n' * 140 + ' ' * 130]) + t
        if len(t) < 900:
            out.append((t, ''))
    return out


def judge_places(c, binary, texts, must):
    events = [{'i': n, 'op': 'places', 't': t, 'file': f} for n, (t, f) in enumerate(texts)]
    c.rng.shuffle(events)
    rec = vp.record_parallel(binary, events, c.work, stall=25)
    done = [rec[n] for n in range(len(texts)) if n in rec and ('lost' in rec[n] or rec[n]['nodes'])]
    chunks = max(1, min(96, len(done) // 30))
    lines = [{'ev': done[j::chunks]} for j in range(chunks)]
    lines += [{'ev': [{**e, 'i': 'canary%d' % n} for n, e in enumerate(must)]}] if must else []
    t = run_trace(c, 'PlaceTrace', lines, 'places')
    if sorted(set(t.chunks)) != list(range(1, len(lines) + 1)):
        raise ToolError('trace validation did not finish\n%s' % t.out[-3000:])
    rej = {x[0]: x[1] for x in t.rejects}
    missing = {'canary%d' % n for n in range(len(must))} - set(rej)
    if missing:
        raise ToolError('wrong places were accepted: %s' % sorted(missing))
    c.traces += len(done)
    c.cov.setdefault('trace_checks', []).append({'texts': len(texts), 'with_places': len(done), 'places': sum(len(e.get('nodes', [])) for e in done), 'distinct_states': t.distinct,
                                                 'wall_s': round(t.wall, 1), 'known_wrong_places_rejected': len(must)})
    out = sorted((n for n in rej if not isinstance(n, str)), key=lambda n: len(texts[n][0]))
    for n in out:
        k = rej[n]
        c.violation(['place', *texts[n]], {'text': texts[n][0], 'file': texts[n][1], 'place': rec[n]['nodes'][k - 1] if k else rec[n]['lost']})
    c.samples += [{'text': texts[e['i']][0], 'places': len(e['nodes']), 'last': [e['nodes'][-1]['s'], e['nodes'][-1]['e']]} for e in done[:: max(1, len(done) // 8)] if 'nodes' in e]
    return rec, out


# ----------------------------------------------------------------------------

def canaries(prop):
    return json.load(open(CANARIES))[prop] if os.path.exists(CANARIES) else []


def distinct(qs):
    seen, out = set(), []
    for q in qs:
        k = json.dumps(q, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(q)
    return out


def run(prop):
    c = Check(prop)
    binary = vp.build(*BIN)
    c.design(D[prop])
    if prop == 'C20':
        hist = histories(c)
        hist += [(k[1], k[2]) for k, _ in vp.known_findings(prop) if k[0] == 'files']
        log('%s: %d histories' % (prop, len(hist)))
        judge_files(c, binary, hist, canaries(prop))
        return c.finish('files')
    if prop == 'C24':
        texts = distinct(placed_texts(c)) + [(k[1], k[2]) for k, _ in vp.known_findings(prop) if k[0] == 'place']
        log('%s: %d texts' % (prop, len(texts)))
        judge_places(c, binary, texts, canaries(prop))
        return c.finish('place')
    asks = distinct(questions(c) + [(k[1], k[2]) for k, _ in vp.known_findings(prop) if k[0] == 'ask'])
    log('%s: %d questions' % (prop, len(asks)))
    judge_questions(c, binary, asks, canaries(prop))
    return c.finish('ask')


def replay(prop, path):
    d = json.load(open(path))
    c = Check(prop)
    binary = vp.build(*BIN)
    det = d['detail']
    if d['key'][0] == 'files':
        rec, rej = judge_files(c, binary, [(det['files'], det['steps'])], [])
    elif d['key'][0] == 'place':
        rec, rej = judge_places(c, binary, [(det['text'], det['file'])], [])
    else:
        rec, rej = judge_questions(c, binary, [(det['question'], det['tree'])], [])
    log('recorded: ' + json.dumps(rec[0])[:3000])
    log('rejected by the specification' if rej else 'allowed by the specification')
    return 1 if rej else 0
