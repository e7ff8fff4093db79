#!/usr/bin/env python3-vt
"""Regenerates spec/PrimeFacts.tla: prime counts and sums at chosen points, from an independent
segmented sieve (anchors.c), plus the published values at powers of ten (OEIS A006880, A046731)."""
import os, random, subprocess, sys, tempfile
H=os.path.dirname(os.path.abspath(__file__)); OUT=os.path.join(H,'..','spec','PrimeFacts.tla')
rng=random.Random(20260101)
pts=set([0,10,100])
for k in range(1,34): pts.add(2**k)
for k in range(1,11): pts.add(10**k)
for b in (3,5,6,7,11,13):
    k=1
    while b**k<10**10: pts.add(b**k); k+=1
for _ in range(260): pts.add(int(10**rng.uniform(2,7)))
for _ in range(60): pts.add(int(10**rng.uniform(7,8.7)))
for _ in range(24): pts.add(int(10**rng.uniform(8.7,10)))
pts|={r*r for r in (31,97,127,251,997,1009,4093,9973,10007,31622,31627,46337,46340,65521,65537,99991)}
pts|={r*(r+1) for r in (100,1000,4094,31622,65536)}
pts=sorted(x for x in pts if x<=10**10)
with tempfile.TemporaryDirectory() as d:
    exe=os.path.join(d,'a'); subprocess.check_call(['gcc','-O2','-o',exe,os.path.join(H,'anchors.c'),'-lm'])
    out=subprocess.run([exe],input='\n'.join(map(str,pts)),text=True,capture_output=True,check=True).stdout
def limbs(n):
    r=[]
    while n: r.append(n%1000); n//=1000
    return '<<'+','.join(map(str,r))+'>>'
PI=[0,4,25,168,1229,9592,78498,664579,5761455,50847534,455052511,4118054813,37607912018,346065536839,3204941750802,
29844570422669,279238341033925,2623557157654233,24739954287740860,234057667276344607,2220819602560918840,
21127269486018731928,201467286689315906290,1925320391606803968923,18435599767349200867866,176846309399143769411680,
1699246750872437141327603,16352460426841680446427399]
PS=[0,17,1060,76127,5736396,454396537,37550402023,3203324994356,279209790387276,24739512092254535,2220822432581729238,
201467077743744681014,18435588552550705911377,1699246443377779418889494,157589260710736940541561021,
14692398516908006398225702366,1376110854313351899159632866552,129408626276669278966252031311350,
12212914292949226570880576733896687,1156251260549368082781614413945980126,109778913483063648128485839045703833541,
10449550362130704786220283253063405651965,996973504763259668279213971353794878368213,
95320530117168404458544684912403185555509650,9131187511156941634384410084928380134453142199,
876268031750623105684911815303505535704119354853]
rows=[tuple(map(int,l.split())) for l in out.split('\n') if l]
d={n:(c,s) for n,c,s in rows}
for k in range(1,11): assert d[10**k]==(PI[k],PS[k]),k
with open(OUT,'w') as f:
    f.write('''---------------------------- MODULE PrimeFacts ----------------------------
(* Generated by tools/gen_anchors.py: facts about primes that the specification takes as given.
   Anchors: n, number of primes <= n, sum of primes <= n, from an independent segmented sieve.
   PiTen[k+1], SumTen[k+1]: the published values at 10^k (OEIS A006880, A046731);
   the sieve confirms them for k <= 10. Numbers are base-1000 limbs, little endian. *)
EXTENDS Integers, Sequences
Anchors == <<
''')
    f.write(',\n'.join('  [n |-> %s, c |-> %s, s |-> %s]'%(limbs(n),limbs(c),limbs(s)) for n,c,s in rows))
    f.write('\n>>\nPiTen == <<\n'+',\n'.join('  '+limbs(x) for x in PI)+'\n>>\nSumTen == <<\n'+',\n'.join('  '+limbs(x) for x in PS)+'\n>>\n')
    f.write('(* d with 10^(j - 1) + d prime and -NearBound <= d <= NearBound, for j >= 4 (sympy; MCWalks confirms them for j <= 9) *)\nNearBound == 160\nNearTen == <<\n')
    from sympy import isprime
    f.write(',\n'.join('  <<'+','.join(str(x) for x in range(-160,161) if k>=3 and isprime(10**k+x))+'>>' for k in range(28))+'\n>>\n')
    f.write('='*77+'\n')
print(len(rows))
import json
json.dump([r[0] for r in rows],open(os.path.join(H,'..','spec','anchor_points.json'),'w'))
