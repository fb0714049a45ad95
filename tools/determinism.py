#!/usr/bin/env python3
"""Run every world of the given properties on N seeds several times, in different processes, and compare the traces."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'dst'))
import check as C
from props import PROPS
n = int(sys.argv[1]); props = sys.argv[2:] or sorted(PROPS)
exe = C.B.build(); pool = C.Pool(exe, 8); bad = 0; tot = 0
seen = set()
for p in props:
    for w in PROPS[p]['worlds']:
        key = (w['world'], str(w.get('opts')))
        if key in seen: continue
        seen.add(key)
        specs = [{'world': w['world'], 'seed': C.seed_of(7, w['world'] + w.get('tag', ''), i), 'opts': dict(w.get('opts', {}))} for i in range(n)]
        a = pool.run_all(specs); b = pool.run_all(specs[::-1])[::-1]
        for s, x, y in zip(specs, a, b):
            tot += 1
            if (x['hash'], x['verdict'], [v['c'] for v in x['viol']]) != (y['hash'], y['verdict'], [v['c'] for v in y['viol']]):
                bad += 1
                if bad < 10: print('differs', s, x['N'], y['N'], x.get('why'), x['err'], y['err'])
pool.close(); print('%d of %d runs differ between repeats' % (bad, tot)); sys.exit(bad > 0)
