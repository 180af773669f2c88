"""print all violation classes of a run: tools/viol.py C02 2400"""
import sys, collections
sys.path.insert(0, '/verif')
from dst import runner
mod = runner.load(sys.argv[1])
n = int(sys.argv[2]) if len(sys.argv) > 2 else mod.QUICK_RUNS
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
recs, wall = runner.run_all(mod, mod.ID, seed, 'quick', n, 1e9, 120, 8)
c = collections.OrderedDict()
for r in recs:
    for k, q, d in r['res']['violations']:
        c.setdefault((k, q), []).append((r['index'], d))
    if r['res']['error']:
        c.setdefault(('HARNESS', r['res']['error'][-160:].strip().split(chr(10))[-1]), []).append((r['index'], ''))
for (k, q), l in c.items():
    print(len(l), k, q, 'run', l[0][0], l[0][1][:int(sys.argv[4]) if len(sys.argv) > 4 else 260])
print(len(recs), 'runs', round(wall, 1), 's')
pr = collections.Counter()
for r in recs: pr.update(r['res']['probes'])
print(dict(pr))
