#!/usr/bin/env python3
"""print the path summaries of functions: paths.py [-i crate,crate] [-a] [-o N] [-e] FN..."""
import sys, time, argparse, re
sys.path.insert(0, '/verif')
from sa.facts import Facts
from sa.vf import *
ap = argparse.ArgumentParser()
ap.add_argument('-i'); ap.add_argument('-x', help='stop regex'); ap.add_argument('-a', action='store_true', help='async'); ap.add_argument('-o', type=int, action='append', default=[])
ap.add_argument('-e', action='store_true'); ap.add_argument('-n', type=int, default=40); ap.add_argument('-w', type=int, default=600)
ap.add_argument('-d', default='/verif/build/facts'); ap.add_argument('-g', action='store_true', help='regex')
ap.add_argument('-m',type=int,default=6000)
ap.add_argument('fn', nargs='+')
o = ap.parse_args()
F = Facts(o.d)
fns = o.fn
if o.g:
    fns = [i for i in F.ids() if any(re.search(p, i) for p in fns)]

def compact(ps):
    cnt = {}
    def walk(t, top):
        if t.__class__ is T:
            if len(show(t)) > 28 and t.tag not in ('fld',):
                cnt[t] = cnt.get(t, 0) + 1
                if cnt[t] > 1: return
            for a in t.args: walk(a, 0)
        elif t.__class__ is tuple:
            for a in t: walk(a, 0)
    for p in ps:
        if p.ret is not None: walk(p.ret, 1)
        for f in p.facts:
            if not isinstance(f, str):
                for a in f: walk(a, 1)
    names = {}
    for t in sorted((t for t, n in cnt.items() if n > 1), key=lambda t: len(show(t))):
        s = show(t)
        for a, b in sorted(names.items(), key=lambda x: -len(x[0])):
            s = s.replace(a, b)
        names[show(t)] = f'T{len(names)}'
        print('   ', f'T{len(names)-1}', '=', s[:o.w])
    def f(s):
        for a, b in sorted(names.items(), key=lambda x: -len(x[0])):
            s = s.replace(a, b)
        return s
    return f

for i in fns:
    fn = F.fn(i)
    if fn is None:
        c = [x for x in F.ids() if i in x]
        if len(c) != 1:
            print('??', i, len(c), c[:20]); continue
        i = c[0]; fn = F.fn(i)
    inl = set(o.i.split(',')) if o.i else {fn['crate']}
    if o.i == '*': inl = None
    m = Machine(F, inline=inl, stop=o.x, maxpaths=o.m)
    t = time.time()
    try:
        ps = (m.run_async if o.a else m.run)(i)
    except Limit as e:
        print('==', i, 'LIMIT', e); continue
    print('==', i, fn['file'], fn['line'], len(ps), 'paths', round(time.time() - t, 2))
    cf = compact(ps[:o.n])
    for p in ps[:o.n]:
        print('  *', cf(repr(p))[:o.w])
        for a in o.o:
            print('      out%d: %s' % (a, cf(show(p.out(mk('arg', a))))[:o.w]))
        if o.e:
            for e in p.events: print('      ev', cf(repr(e))[:o.w // 2], ' -> ', show(e.res)[:60] if e.res is not None else '')
