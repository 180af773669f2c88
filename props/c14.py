"""C14: results do not depend on how telemetry was delivered."""
import random

import numpy as np

from dst import catalog as cat
from dst import plant
from dst.core import call

ID = 'C14'
QUICK_RUNS, THOROUGH_RUNS = 9000, 400000
SHRINK = ['deliveries']
RULE = ('a run = one function of the public modelling interface (see '
        'dst/catalog.py: every record-independent entry) over a simulated '
        'batch of records, and 2-4 other deliveries of the same records by '
        'the data logger: each record alone (as one-record series, array, '
        'scalar), split into batches, out of order, duplicated, flooded '
        '(hundreds of repeats), with late records appended, and with one '
        'reading lost (NaN), replaced by a fill value or a spike. The value '
        'for each record must be the same in every delivery and carry the '
        'index of its input. Non-trivial: the batch has two records or more '
        'and at least one delivery was compared. Distinct: (function, '
        'settings, representation, index, deliveries).')
MEASURE = 'tuples (function, settings, container, index kind, deliveries)'
REAL = ['every record-independent function of pvlib.albedo, atmosphere, '
        'bifacial, clearsky, iam, inverter, irradiance, pvarray, pvsystem, '
        'shading, singlediode, snow.dc_loss, solarposition, spa, spectrum, '
        'temperature, tracking, transformer, location, modelchain']
STUB = ['data logger (simulated records and deliveries)']
ASSUMPTIONS = ['iterative solvers agree within 1e-6 between deliveries, '
               'closed formulas within 1e-9', 'a root finder may refuse a '
               'batch in which every record lacks a value, or one with a '
               'record that it refuses on its own']
KINDS = ['alone', 'alone', 'scalar', 'split', 'shuffle', 'shuffle', 'reverse',
         'dup', 'flood', 'more', 'lost', 'lost', 'lost', 'fill', 'spike',
         'container']


def generate(rng, tier, index):
    inst = cat.gen(rng, lambda e: e.rec)
    e = cat.entry(inst['fn'])
    if inst['rep'] == 'f':
        inst['rep'] = e.reps[0]
    if inst['rep'] != 'f':
        inst['n'] = rng.choice([2, 3, 4, 6, 9, 14])
    ds = []
    for _ in range(rng.choice([2, 3, 4])):
        k = rng.choice(KINDS)
        if k == 'flood' and e.heavy > 2:
            k = 'shuffle'
        ds.append({'kind': k, 'seed': rng.randrange(10**6)})
    if inst['rep'] == 's' and inst['tz'] and rng.random() < .3:
        inst['unit'] = rng.choice(['s', 'us', 'ns'])
    lost = []
    if e.nan and inst['rep'] != 'f' and rng.random() < .3:
        names = cat.record_args(inst)
        lost = [[rng.choice(names), rng.randrange(inst['n'])]
                for _ in range(rng.choice([1, 1, 2])) if names]
    return {'call': inst, 'deliveries': ds, 'lost': lost}


def rows_of(d, n):
    r = random.Random(d['seed'])
    rows = list(range(n))
    k = d['kind']
    if k == 'shuffle':
        r.shuffle(rows)
    elif k == 'reverse':
        rows = rows[::-1]
    elif k == 'dup':
        for _ in range(1 + r.randrange(3)):
            rows.insert(r.randrange(len(rows) + 1), r.randrange(n))
    elif k == 'flood':
        rows = [r.randrange(n) for _ in range(r.choice([150, 400, 1100]))]
    elif k == 'more':
        extra = list(range(n, n + 1 + r.randrange(6)))
        rows = rows + extra if r.random() < .5 else extra + rows
    return rows


def index_of(inst, kw):
    """index of the first pandas record argument of the call"""
    for k, v in kw.items():
        if k == 'sr':
            continue
        if isinstance(v, (tuple, list)) and v and hasattr(v[0], 'index') \
                and not callable(v[0].index):
            v = v[0]
        if hasattr(v, 'iloc') and hasattr(v, 'index') and len(v):
            return v.index
    for v in kw.values():
        if hasattr(v, 'asi8'):
            return v
    return None


def run(inst, sim, rows, rep=None, nan=(), bad=None, alter=None):
    i = dict(inst, rep=rep) if rep else inst
    fn, kw = cat.bind(i, rows=rows, nan=nan)
    if alter:
        kw = alter(kw)
    idx = index_of(i, kw) if bad is not None else None
    sim.steps += 1
    out = call(fn, **kw)
    if not out.ok:
        return out, None, idx
    e = cat.entry(i['fn'])
    v = cat.norm(out.value, len(rows), e.axis, index=idx, bad=bad)
    return out, v, idx


class Fill:
    """what a faulty logger writes in place of one reading"""

    def __init__(self, name, pos, value):
        self.name, self.pos, self.value = name, pos, value

    def __call__(self, kw):
        v = kw.get(self.name)
        if hasattr(v, 'iloc'):
            v = v.copy()
            v.iloc[self.pos] = self.value
            kw[self.name] = v
        elif isinstance(v, np.ndarray):
            v = v.copy()
            v[self.pos] = self.value
            kw[self.name] = v
        return kw


def has_nan(v, rows):
    for a in v.values():
        if a.dtype.kind == 'f' and np.isnan(a[rows]).any():
            return True
    return False


def unsolvable(inst, sim, rows, lost, exc):
    """a solver may refuse a batch in which no record has a solution, or
    one with a new record that it refuses on its own, too"""
    missing = {r for _, r in lost}
    if isinstance(exc, RuntimeError) and missing.issuperset(rows):
        return True
    if isinstance(exc, ValueError) and 'different signs' in str(exc):
        for x in {x for x in rows if x >= inst['n']}:
            out, _, _ = run(inst, sim, [x], nan=lost)
            if type(out.exc) is type(exc):
                return True
    return False


def execute(scn, sim):
    inst = scn['call']
    e = cat.entry(inst['fn'])
    n = inst['n']
    if inst['rep'] == 'f' and 'f' not in e.reps:
        return
    lost = tuple((a, r) for a, r in scn.get('lost', ()))
    bad = []
    try:
        out, base, idx = run(inst, sim, list(range(n)), nan=lost, bad=bad)
    except cat.Misshapen as x:
        sim.violate('shape', f'{inst["fn"]}: {x}', inst['fn'])
        return
    if base is None:
        sim.sign('rejected', inst['fn'])
        sim.probe('rejected')
        sim.event('rejected', out.brief())
        return
    sim.event('base', inst['fn'], len(base))
    if bad and inst['rep'] == 's':
        sim.violate('index', f'{inst["fn"]}: result does not carry the index '
                    f'of its input: {bad[0]}', inst['fn'])
        return
    if inst['rep'] == 's' and n > 1 and inst['fn'] not in cat.BARE:
        b = cat.bare(out.value, n)
        if b:
            sim.violate('index', f'{inst["fn"]}: {b} has lost the index of '
                        'its input', inst['fn'])
            return
    rt, at = e.rtol, e.atol
    sig = []
    for d in scn['deliveries']:
        k = d['kind']
        r = random.Random(d['seed'])
        jobs = []          # (rows, rep, nan, alter, excluded record)
        if k in ('alone', 'split', 'scalar'):
            if k == 'split':
                cut = sorted(r.sample(range(1, n), min(n - 1, 2)))
                parts = [list(range(a, b)) for a, b in zip(
                    [0] + cut, cut + [n])]
                jobs = [(p, None, (), None, None) for p in parts]
            else:
                ids = list(range(n)) if e.heavy < 4 else [r.randrange(n)]
                rep = None
                if k == 'scalar':
                    if 'f' not in e.reps:
                        continue
                    rep = 'f'
                jobs = [([x], rep, (), None, None) for x in ids]
        elif k == 'container':
            other = [c for c in e.reps if c not in ('f', inst['rep'])]
            if not other:
                continue
            jobs = [(list(range(n)), other[0], (), None, None)]
        elif k in ('lost', 'fill', 'spike'):
            names = cat.record_args(inst)
            if not names or e.make is not None and e.heavy < 8 and \
                    not getattr(e.make, 'plant', None) and False:
                continue
            row = r.randrange(n)
            name = names[r.randrange(len(names))]
            if k == 'lost' and e.nan:
                jobs = [(list(range(n)), None, ((name, row),), None, row)]
            elif k != 'lost':
                v = {'fill': r.choice([-9999.0, -1.0]),
                     'spike': r.choice([1e6, 1e12])}[k]
                jobs = [(list(range(n)), None, (), Fill(name, row, v), row)]
        else:
            jobs = [(rows_of(d, n), None, (), None, None)]
        for rows, rep, nan, alter, excl in jobs:
            if k not in ('alone', 'split', 'scalar', 'container'):
                sim.fault('deliver_' + k, len(rows))
            b2 = []
            try:
                o, v, _ = run(inst, sim, rows, rep, lost + tuple(nan), b2,
                              alter)
            except cat.Misshapen as x:
                sim.violate('shape', f'{inst["fn"]} {k}: {x}', inst['fn'])
                return
            if v is None:
                if k in ('fill', 'spike') or (
                        rep == 'f' and isinstance(o.exc, ZeroDivisionError)):
                    # plain Python floats raise where arrays give inf or NaN
                    sim.probe('bad_value_rejected')
                    continue
                if unsolvable(inst, sim, rows, lost, o.exc):
                    sim.probe('unsolvable')
                    continue
                sim.violate('fails', f'{inst["fn"]} works for the batch but '
                            f'not when delivered as {k} ({len(rows)} '
                            f'records, {rep or inst["rep"]}): {o.brief()}',
                            inst['fn'])
                return
            if b2 and (rep or inst['rep']) == 's':
                sim.violate('index', f'{inst["fn"]} {k}: {b2[0]}',
                            inst['fn'])
                return
            pos = [p for p, x in enumerate(rows) if x < n and x != excl]
            mine = [rows[p] for p in pos]
            if not pos:
                continue
            with sim.judging('differs', inst['fn']):
                df = cat.rows_differ(v, pos, base, mine, rt, at)
                if df:
                    sim.violate('differs' if excl is None else
                                'bad-record-spreads',
                                f'{inst["fn"]} {k}: {df} (delivered '
                                f'differently / batch)', inst['fn'])
                    return
            sim.probe('compared')
        sig.append(k)
    sim.sign(inst['fn'], inst['rep'], inst['index'], sorted(
        inst['ch'].items()), sorted(inst['rc'].items()), sig)


def nontrivial(scn, sim):
    return bool(sim.probes.get('compared')) and scn['call']['n'] > 1


def simplify(scn):
    c = scn['call']
    for n in (2, 3, c['n'] - 1):
        if 1 < n < c['n']:
            yield dict(scn, call=dict(c, n=n))
    if scn.get('lost'):
        yield dict(scn, lost=[])
        yield dict(scn, lost=scn['lost'][:1])
    if c['special']:
        yield dict(scn, call=dict(c, special=0))
    if c['index'] != 'range':
        yield dict(scn, call=dict(c, index='range'))
