#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TV = 'TLA+ specification checked with TLC; recorded executions of the real code validated against it (KernelTrace)'
K = {
 'C01': ('Square-and-multiply machine checked on small operands; thousands of generated and all model calls of power_iu recorded and each answer compared in TLC with exact limb arithmetic (residues modulo ten primes plus length for results over 390 digits).'),
 'C02': ('Extended-Euclid machine with loop invariant and termination checked for all operands up to 12 in size; every model call and generated calls to hundreds of digits validated by Bezout identity and divisibility.'),
 'C03': ('Same Euclid machine; every answer (value or none) of modulo_inverse validated by congruence and by a gcd computed in TLA+.'),
 'C04': ('Same Euclid machine, with solvability cross-checked by search in the model; every answer of modulo_division validated by congruence and solvability.'),
 'C05': ('Garner machine with partial-solution invariant over 28k small systems, all replayed into the code; generated systems up to 78 congruences validated congruence by congruence.'),
 'C06': ('Sequence machine (n, n!) stepped alongside recorded walks; residues modulo ten primes for larger arguments; errors for negative and oversized arguments of any size.'),
 'C07': ('Memo-recursion machine and sequence machine (n, F(n), F(n+1)) stepped alongside recorded walks of the three functions; residues and digit counts for indices up to 10^5.'),
 'C08': ('Sieve machine with sieve invariant; prime-walk machine (n, count, sum) stepped alongside recorded windows around 479 anchored values up to 10^10, powers of ten to 10^25. Trusts the anchor sums (own sieve, published tables).'),
 'C09': ('Prime-walk machine and published counts to 10^27 against recorded answers; any number returned elsewhere must be exact where the machine reaches and between neighbouring powers of ten otherwise.'),
 'C10': ('Service machine with threads and cache designs (two must hold, two must be refuted); recorded sequential and concurrent histories validated against the answer of every query in isolation. Concurrency is sampled, not exhaustive.'),
}
NA = {}
try:
    from manifest_lang import L
except ImportError:
    L = {}
    for i in range(11, 20):
        NA['C%d' % i] = 'check under construction'
checks = [{'property': p, 'quick_cmd': 'python3 run.py %s' % p, 'thorough_cmd': 'python3 run.py %s' % p, 'technique': TV,
           'level': 'model_checking', 'level_note': n} for p, n in K.items()]
checks += [{'property': p, 'quick_cmd': 'python3 run.py %s' % p, 'thorough_cmd': 'python3 run.py %s' % p, 'technique': t,
            'level': 'model_checking', 'level_note': n} for p, (t, n) in L.items()]
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()]}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
