#!/usr/bin/env python3
"""Prints the nodes used in spec/Tableau.tla (needs mpmath: python3-vt).  The
specification does not trust them: it ASSUMEs that they are the roots of the
polynomials that define the families."""
from mpmath import mp, mpf, taylor, polyroots, nstr
mp.dps = 60
def pmul(a,b):
    r=[mpf(0)]*(len(a)+len(b)-1)
    for i,x in enumerate(a):
        for j,y in enumerate(b): r[i+j]+=x*y
    return r
def ppow(a,n):
    r=[mpf(1)]
    for _ in range(n): r=pmul(r,a)
    return r
def der(a,k):
    for _ in range(k): a=[i*x for i,x in enumerate(a)][1:]
    return a
def nodes(f,s):
    x=[mpf(0),mpf(1)]; xm=[mpf(-1),mpf(1)]
    if f=='gauss': p=der(pmul(ppow(x,s),ppow(xm,s)),s)
    if f=='radau': p=der(pmul(ppow(x,s-1),ppow(xm,s)),s-1)
    if f=='lobatto': p=der(pmul(ppow(x,s-1),ppow(xm,s-1)),s-2)
    r=sorted([z.real for z in polyroots(p[::-1],maxsteps=500,extraprec=500)])
    return [abs(z) if abs(z)<mpf(10)**-50 else z for z in r]
for f,s in [('radau',1),('radau',2),('radau',3),('radau',5),('radau',7),('lobatto',3),('lobatto',4),('lobatto',5),('lobatto',7),('gauss',2),('gauss',3),('gauss',5),('gauss',7)]:
    print(f,s,', '.join('"%s"'%nstr(z,42,strip_zeros=True,min_fixed=-9999,max_fixed=9999) for z in nodes(f,s)))
