#!/usr/bin/env python3
"""Writes lib/lang_canaries.json: answers that are wrong, which every run of a language check must reject.
They are made from recorded right answers by one change each; every one of them is confirmed to be rejected here."""
import copy, json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(R, 'lib'))
sys.dont_write_bytecode = True
import vp
BASE = {
    'C11': ['', ['12345678901234567890', '0xFf', '1.05', '"a\\"b"', '"""a"b"""', 'truth', 'null', '#12', '0x', '1.', '007', '[0b11, "é"]']],
    'C12': ['', ['1+2*3', '2^3^4', '1-2-3', '-a^2', '-a!', '(1+2)*3', '2 a b^3', 'a/b*c', '!!a', '1+']],
    'C13': ['', ['f(1,2)', 'f(1,k:2,l:3)', 'f(1)(2)', 'x.f(1)', 'x.f.g', 'x.3', 'a[1,2:3]', 'a[::2]', '[1,[2,3]]', 'f(,,)']],
    'C14': ['', ['1 \n+ %%% c %%% 2', ' ;f( 1 , 2 ) ;', 'a %%%b%%% ;', '1 2//! c', '( ( 3 ) )', '1\n2']],
    'C15': ['d', ['(1+2)*3', '2^(3^4)', '(2^3)^4', '-(1+2)', '(-a)!', 'a-(b-c)', '1.5*true']],
    'C16': ['alone', ['2+3', '2^100', '300!', 'fibonacci(400)', 'length("é中")', 'first("ab")', 'last("")', '1.5', '""', '1-1', '2^4294967296', 'f()', '0*7', 'a::b']],
    'C18': ['d', ['1+2', '(', '1;2', '@', 'if x', '\\', 'f(', '{1}', 'a|b']],
    'C19': ['w', ['f(1,2,k:3)', 'f(1)(2)', 'factor(6)', '[1,2]', '"a"', 'true', 'm::g(x)', '-1.5', '']],
}


def trees(t):
    """trees that differ from t in one place"""
    if not isinstance(t, dict):
        return
    k = t['k']
    if k in ('int', 'dec', 'str', 'bool', 'sym') and 'v' in t:
        v = t['v']
        if k == 'sym':
            yield {**t, 'v': (v[:-1] + [v[-1] + 'q']) if isinstance(v, list) else v + 'q'}
            yield {'k': 'str', 'v': v[-1] if isinstance(v, list) else v}
        else:
            yield {**t, 'v': v + ('0' if k == 'int' else 'q' if k == 'str' else '1' if k == 'dec' else 'x')}
            yield {**t, 'k': 'str' if k != 'str' else 'int'}
    if k == 'fn' and 'g' in t:
        yield {**t, 'v': t['v'][:-1] + ['other']}
        if len(t['v']) > 1:
            yield {**t, 'v': t['v'][1:]}
        yield {**t, 'g': t['g'] + [{'a': [], 'o': []}]}
        if len(t['g']) > 1:
            yield {**t, 'g': t['g'][1:]}
            yield {**t, 'g': [{'a': [x for g in t['g'] for x in g['a']], 'o': []}]}
        for n, g in enumerate(t['g']):
            put = lambda h: {**t, 'g': t['g'][:n] + [h] + t['g'][n + 1:]}
            for m, a in enumerate(g['a']):
                yield put({**g, 'a': g['a'][:m] + g['a'][m + 1:]})
                yield put({**g, 'a': g['a'][:m] + [a] + g['a'][m:]})
                for b in trees(a):
                    yield put({**g, 'a': g['a'][:m] + [b] + g['a'][m + 1:]})
            if g['a'] != g['a'][::-1]:
                yield put({**g, 'a': g['a'][::-1]})
            for m, (x, y) in enumerate(g['o']):
                yield put({**g, 'o': g['o'][:m] + g['o'][m + 1:]})
                yield put({**g, 'a': g['a'] + [y], 'o': g['o'][:m] + g['o'][m + 1:]})
                for b in trees(y):
                    yield put({**g, 'o': g['o'][:m] + [[x, b]] + g['o'][m + 1:]})
    if k == 'fn' and 'h' in t:
        for b in trees(t['h']):
            yield {**t, 'h': b}
        for m, a in enumerate(t['v']):
            yield {**t, 'v': t['v'][:m] + t['v'][m + 1:]}
            for b in trees(a):
                yield {**t, 'v': t['v'][:m] + [b] + t['v'][m + 1:]}
        if t['v'] != t['v'][::-1]:
            yield {**t, 'v': t['v'][::-1]}
    yield {'k': 'empty' if k != 'empty' else 'skip'}


def wrong(e, any_):
    r = e['r']
    i = {x: e[x] for x in ('op', 'c')}
    yield {**e, 'lost': 'hang'}
    if e['op'] == 'text':
        yield {**i, 'r': {'k': 'panic'}}
        if any_:
            return
        if r['k'] == 'err':
            yield {**i, 'r': {'k': 'ok', 't': {'k': 'empty'}}}
            yield {**i, 'r': {'k': 'ok', 't': {'k': 'int', 'v': '1'}}}
            return
        yield {**i, 'r': {'k': 'err', 'e': 'parse'}}
        for t in trees(r['t']):
            yield {**i, 'r': {**r, 't': t}}
        if 'd' in r and r['d']['k'] == 'ok':
            yield {**i, 'r': {**r, 'd': {'k': 'panic'}}}
            yield {**i, 'r': {**r, 'd': {**r['d'], 'c': list('1+x+2')}}}
            yield {**i, 'r': {**r, 'd': {**r['d'], 'c': list('(')}}}
            yield {**i, 'r': {**r, 'd': {**r['d'], 'back': {'k': 'err', 'e': 'parse'}}}}
            if any(x in r['d']['c'] for x in '()'):
                yield {**i, 'r': {**r, 'd': {**r['d'], 'c': [x for x in r['d']['c'] if x not in '()']}}}
            for t in trees(r['t']):
                yield {**i, 'r': {**r, 'd': {**r['d'], 'back': {'k': 'ok', 't': t}}}}
        if 'w' in r and r['w']['k'] == 'ok':
            yield {**i, 'r': {**r, 'w': {'k': 'panic'}}}
            for t in trees(r['w']['t']):
                yield {**i, 'r': {**r, 'w': {'k': 'ok', 't': t}}}
    else:
        a, b = r['r'], r['last']
        yield {**i, 'r': {'r': {'k': 'panic'}, 'last': b}}
        yield {**i, 'r': {'r': a, 'last': {'k': 'panic'}}}
        if a['k'] == 'ok':
            if b['t']['k'] not in ():
                yield {**i, 'r': {'r': {**a, 'c': a['c'] + ['1']}, 'last': b}}
            yield {**i, 'r': {'r': a, 'last': {'k': 'err', 'e': 'empty', 'shown': []}}}
            for t in trees(b['t']):
                if t['k'] == 'sym' and b['t']['k'] == 'sym':
                    yield {**i, 'r': {'r': {**a, 'c': list('::'.join(t['v']))}, 'last': {**b, 't': t}}}
                elif t['k'] == 'int' and b['t']['k'] == 'int':
                    yield {**i, 'r': {'r': {**a, 'c': list(t['v'])}, 'last': {**b, 't': t}}}
                else:
                    yield {**i, 'r': {'r': a, 'last': {**b, 't': t}}}
        else:
            yield {**i, 'r': {'r': {'k': 'ok', 'c': ['1'], 'shown': ['1']}, 'last': {'k': 'ok', 't': {'k': 'int', 'v': '1'}, 'shown': ['1']}}}
            yield {**i, 'r': {'r': a, 'last': {'k': 'ok', 't': {'k': 'int', 'v': '1'}, 'shown': ['1']}}}



def main():
    binary = vp.build('lang', 'vp_lang')
    work = os.path.join(vp.WORK, 'canaries')
    os.makedirs(work, exist_ok=True)
    calls = []
    for p, (parts, ts) in BASE.items():
        for t in ts:
            calls.append({'i': len(calls), 'op': 'alone' if parts == 'alone' else 'text', 't': t, 'parts': parts if parts != 'alone' else '', 'for': p})
    rec = vp.record_parallel(binary, calls, work)
    ANY = ('@', '\\')
    out = []
    for c in calls:
        for w in wrong(copy.deepcopy(rec[c['i']]), c['t'] in ANY):
            out.append({**{k: v for k, v in w.items() if k != 'i'}, 'for': [c['for']]})


    def verdicts(evs):
        path = os.path.join(work, 'trace.ndjson')
        with open(path, 'w') as f:
            f.write(json.dumps({'ev': [{**e, 'i': n} for n, e in enumerate(evs)]}) + '\n')
        t = vp.tlc('LangTrace', 'LangTrace', TRACE=path, tag='canaries')
        assert t.finished, t.out[-3000:]
        return {r[0] for r in t.rejects}


    ok = verdicts([rec[c['i']] for c in calls])
    assert not ok, [calls[i]['t'] for i in ok]
    rej = verdicts(out)
    for n, e in enumerate(out):
        if n not in rej:
            print('not rejected:', json.dumps(e)[:400])
    out = [e for n, e in enumerate(out) if n in rej]
    count = {}
    for e in out:
        count[e['for'][0]] = count.get(e['for'][0], 0) + 1
    # the first check of a session is the answer of its inputs
    out += [{**e, 'for': ['C17', 'C18']} for e in out if e['for'] == ['C16']]
    with open(os.path.join(R, 'lib', 'lang_canaries.json'), 'w') as f:
        f.write('[\n' + ',\n'.join(json.dumps(e) for e in out) + '\n]\n')
    print(len(out), count)


if __name__ == '__main__':
    main()
