#!/usr/bin/env python3
"""Writes lib/more_canaries.json: wrong conversions of files, wrong answers about trees and wrong places, which every run of C20..C22 and C24 must reject.
They are made from recorded right ones by one change each; every one of them is confirmed to be rejected here."""
import copy, json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(R, 'lib')); sys.path.insert(0, os.path.join(R, 'tools'))
sys.dont_write_bytecode = True
import vp, more
from gen_lang_canaries import trees
binary = vp.build('lang', 'vp_lang')


class C(vp.Check):
    def __init__(self, prop):
        super().__init__(prop)
        self.wrong = []

    def violation(self, key, detail):
        self.wrong.append(key)


T = lambda t: {'t': t}
base = {'d': {'dir': True}, 'n': {}}
hist = [({**base, 'a': T('f(1, 2)'), 'b': T('1 + 1')}, [['a', 'b', 1]]), ({**base, 'a': T('f(1, k: "é")'), 'b': {}}, [['a', 'b', 1], ['a', 'b', 1]]),
        ({**base, 'a': T('1 +'), 'b': T('2')}, [['a', 'b', 1]]), ({**base, 'a': T('1 +'), 'b': {}}, [['a', 'b', 1]]), ({**base, 'a': T('1'), 'b': {}}, [['b', 'a', 1]]),
        ({**base, 'a': T('1'), 'b': {}}, [['a', 'd', 1], ['a', 'n', 1]]), ({**base, 'a': T('1'), 'b': {'b': [255]}}, [['b', 'a', 1], ['b', 'b', 1]]),
        ({**base, 'a': T('[1]'), 'b': T('7')}, [['a', 'a', 1]]), ({**base, 'a': T('[1]'), 'b': T('7')}, [['a', 'b', 0]])]
c = C('C20')
rec, _ = more.judge_files(c, binary, hist, [])
assert not c.wrong, c.wrong
bad = []
for n, (fs, steps) in enumerate(hist):
    ch = more.chunk(fs, rec[n]['r'])
    for k, e in enumerate(ch['ev']):
        def put(**x):
            y = copy.deepcopy(ch)
            y['ev'] = y['ev'][:k + 1]
            y['ev'][k].update(x)
            bad.append(y)
        put(r={'k': 'panic'})
        put(r={'k': 'ok'} if e['r']['k'] == 'err' else {'k': 'err', 'e': 'io'})
        for p, x in e['after'].items():
            if e['room'] == 0 and p == e['to']:
                continue
            for y in ([{'k': 'none'}, {'k': 'dir'}] + [{'k': 'file', 'c': list('8:i1:0'), 'w': {'k': 'int', 'v': '0'}}, {'k': 'file', 'c': []}]):
                if y['k'] != x['k'] or x['k'] == 'file':
                    put(after={**e['after'], p: y})
        x = e['after'][e['to']]
        if e['r']['k'] == 'ok':
            for y in trees(x['w']):
                put(after={**e['after'], e['to']: {**x, 'w': y}})
path = os.path.join(c.work, 'bad.ndjson')


def rejected(module, lines):
    open(path, 'w').write(''.join(json.dumps(x) + '\n' for x in lines))
    return vp.tlc(module, module, TRACE=path)


t = rejected('FileTrace', bad)
assert t.finished, t.out[-2000:]
rej = {n - 1 for n, _ in t.rejects}
out = {'C20': [b for n, b in enumerate(bad) if n in rej]}
print('C20', len(bad), len(rej))
for n in sorted(set(range(len(bad))) - rej):
    print('  accepted', json.dumps(bad[n]['ev'][-1])[:300])

N = lambda v: {'k': 'int', 'v': v}
S = lambda *p: {'k': 'sym', 'v': list(p)}
G = lambda *a, **o: {'a': list(a), 'o': [[S(k), v] for k, v in o.items()]}
F = lambda h, *g: {'k': 'fn', 'v': h.split('::'), 'g': list(g)}
STR = lambda s: {'k': 'str', 'v': s}
asks = {'C21': [('head', x) for x in (F('f', G(N('1')), G(N('2'), k=S('x'))), F('m::f', G(N('1'))), F('f', G(S('a')), G(), G(N('3'))), N('1'), STR('s'), {'k': 'bool', 'v': 'true'}, {'k': 'dec', 'v': '1.5'}, S('m', 'x'),
                                      {'k': 'empty'}, {'k': 'program'}, {'k': 'fn', 'v': ['f'], 'g': []})] +
        [(f, x) for f in ('first', 'last', 'length') for x in (STR('a~e9~b'), STR(''), N('12'), S('x'))] +
        [(f, N(v)) for f in ('factorial', 'fibonacci') for v in ('0', '5', '-1', '-6', '30', '300', '9223372036854775808', '-9223372036854775809')] + [('factorial', {'k': 'dec', 'v': '1.5'}), ('fibonacci', STR('a'))],
        'C22': [('tex', x) for x in (F('f', G(N('1'), N('2')), G(S('x'))), F('sin', G(S('x'))), F('sin', G(S('x'), S('y')), G(N('1'))), F('arcsec', G(F('std::infix::add', G(N('1'), S('x'), N('3'))))), F('std::containers::List', G(N('-1'), STR('s'))),
                                     F('std::containers::List', G()), F('std::infix::times', G(N('2'), S('x'), S('y'))), S('m', 'x'), {'k': 'bool', 'v': 'false'}, {'k': 'dec', 'v': '0.25'}, STR('a b'), {'k': 'empty'})],
        'C19': [('wolfram', x) for x in (F('f', G(N('-1'), N('2')), G(S('x'), k=N('3'))), F('m::factor', G(N('-12'))), F('std::containers::List', G(N('-1'), F('std::containers::List', G()))),
                                         F('std::infix::subtract', G(N('-5'), N('0'))), {'k': 'fn', 'v': ['f'], 'g': []}, F('f', G(), G(F('g', G(k=S('b'), l=STR('s~e9~'))))), N('-9'), {'k': 'dec', 'v': '0.25'})]}
for prop in ('C21', 'C22', 'C19'):
    c = C(prop)
    rec, _ = more.judge_questions(c, binary, asks[prop], [])
    assert not c.wrong, c.wrong
    bad = []
    for n in range(len(asks[prop])):
        e = rec[n]
        r = e['r']
        alt = [{'k': 'panic'}, {'k': 'ok', 't': {'k': 'empty'}, 'c': ['?']} if r['k'] == 'err' or r.get('t', {}).get('k') != 'empty' else {'k': 'err', 'e': 'unimplemented'}]
        if r['k'] == 'err':
            alt += [{'k': 'err', 'e': x} for x in ('unimplemented', 'overflow', 'infinity', 'empty', 'parse', 'other') if x != r['e']]
        elif 't' in r:
            alt += [{'k': 'err', 'e': 'unimplemented'}] + [{**r, 't': y} for y in trees(r['t'])]
            if r['t']['k'] == 'int' and prop == 'C21':
                v = r['t']['v']
                alt += [{**r, 't': N(y)} for y in (v[1:] if v[0] == '-' else '-' + v, v[:-1] + str((int(v[-1]) + 1) % 10), v[1:]) if y and y != '-0' and y[0] != '0']
        else:
            w = r['c']
            alt += [{**r, 'c': y} for y in (w[:-1], w[1:], w + ['x'], w[:len(w) // 2] + w[len(w) // 2 + 1:], w[::-1], []) if y != w]
        bad += [{**e, 'r': a} for a in alt]
    bad = [{**e, 'i': n} for n, e in enumerate(bad)]
    t = rejected('QueryTrace', [{'ev': bad}])
    assert t.finished, t.out[-2000:]
    rej = {x[0] for x in t.rejects}
    print(prop, len(bad), len(rej))
    for n in sorted(set(range(len(bad))) - rej):
        print('  accepted', json.dumps(bad[n])[:300])
    out[prop] = [b for b in bad if b['i'] in rej]
texts = [('f(1, k: 2)(x)', 'x.sm'), ('\n  1 + 2 * (3\n - 4)', ''), ('%%% é\n %%% -a! ^ 2', ''), ('[1, "é中", [x]]', 'b'), ('x.f(1).g[1:2, 3]', ''), ('2 x y', ''), ('#1', ''), ('a[\n::2]', ''), ('f(1) + f(1)', ''), ('--a!!', ''), ('[1] + [1]', ''), ('a[1] * a[1]', ''), ('1 + 2 * 3', ''), ('(a + x.f)', '')]
c = C('C24')
rec, _ = more.judge_places(c, binary, texts, [])
assert not c.wrong, c.wrong
bad = []
for n in range(len(texts)):
    e = rec[n]
    for k, x in enumerate(e['nodes']):
        for y in ({'f': x['f'] + 'q'}, {'s': [x['s'][0], x['s'][1] + 1]}, {'e': [x['e'][0], x['e'][1] - 1]}, {'s': [x['s'][0] - 1, x['s'][1]]}, {'e': [x['e'][0] + 1, x['e'][1]]},
                  {'s': x['e'], 'e': x['s']}, {'s': [0, 0], 'e': [0, 0]}, {'e': x['s']}, *({'s': z['s'], 'e': z['e']} for z in e['nodes'] if (z['s'], z['e']) != (x['s'], x['e']))):
            bad.append({**e, 'nodes': [{**x, **y}]})
    if texts[n][0] == '1 + 2 * 3':
        bad.append({**e, 'nodes': [{**x, 's': [1, 5], 'e': [1, 10]} for x in e['nodes'] if x['t']['v'][2] == 'times']})
    if texts[n][0] == '(a + x.f)':
        bad.append({**e, 'nodes': [{**x, 's': [1, 6], 'e': [1, 9]} for x in e['nodes'] if x['t']['v'] == ['f']]})
    for x in e['nodes']:
        for y in e['nodes']:
            if x is not y and x['t'] == y['t']:
                bad.append({**e, 'nodes': [x, {**x, 't': y['t']}]})
bad = [{**e, 'i': n} for n, e in enumerate(bad)]
t = rejected('PlaceTrace', [{'ev': bad}])
assert t.finished, t.out[-2000:]
rej = {x[0] for x in t.rejects}
print('C24', len(bad), len(rej))
for n in sorted(set(range(len(bad))) - rej):
    print('  accepted', json.dumps(bad[n])[:400])
out['C24'] = [b for b in bad if b['i'] in rej]
with open(more.CANARIES, 'w') as f:
    f.write('{\n' + ',\n'.join('%s: [\n%s]' % (json.dumps(k), ',\n'.join(json.dumps(x) for x in v)) for k, v in out.items()) + '}\n')
