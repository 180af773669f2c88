"""C13: time-stepping models never let the future change the past."""
import numpy as np
import pandas as pd

from dst import plant, snap, steppers
from dst.core import call

ID = 'C13'
QUICK_RUNS, THOROUGH_RUNS = 1500, 100000
SHRINK = ['steps', ['rec', 'gaps'], ['rec', 'nan']]
RULE = ('a run = a model that marches through time (snow coverage, Kimber '
        'and HSU soiling, Fuentes and Prilliman module temperature, a plant '
        'simulated with the Fuentes model), run again each time its record '
        'grows or its newest records are revised by the simulated logger '
        '(other values, NaN, spikes, a gap or duplicate-free late arrival in '
        'the tail). Every value reported for records that did not change is '
        'compared with the new run. Non-trivial: at least one re-run had a '
        'common past of two records. Distinct: (model, parameters, record '
        'shape, sequence of growths and revisions).')
MEASURE = 'tuples (model, parameters, record shape, growths and revisions)'
REAL = ['pvlib.soiling', 'pvlib.snow', 'pvlib.temperature.fuentes',
        'pvlib.temperature.prilliman', 'pvlib.modelchain', 'pvlib.pvsystem']
STUB = ['measuring station (simulated record)']
ASSUMPTIONS = ['Prilliman requires regular records, so its records stay '
               'regular', 'records hold at least the 2 or 3 time stamps the '
               'models need to know their step']
CHEAP = ['coverage', 'covered', 'kimber', 'hsu', 'prilliman']
KINDS = ['grow', 'grow', 'values', 'nan', 'spike', 'gap', 'zero', 'shrink', 'fine']


def generate(rng, tier, index):
    model = rng.choice(['coverage', 'coverage', 'covered', 'kimber', 'kimber',
                        'hsu', 'hsu', 'fuentes', 'fuentes', 'prilliman',
                        'prilliman'] * 2 + ['chain', 'system'])
    rec = steppers.gen_record(rng, model)
    if model == 'kimber' and rng.random() < .35:
        rec['gaps'] = sorted(rng.sample(range(2, rec['n']),
                                        rng.choice([1, 2, 3])))
    if model in CHEAP and rng.random() < .3:
        # the record grows by one time stamp at a time
        n = rec['n'] = min(rec['n'], rng.choice([10, 16, 24]))
        rec['gaps'] = [g for g in rec['gaps'] if g < n]
        rec['nan'] = [[rng.randrange(n), rng.randrange(8)]
                      for _ in range(rng.choice([0, 2, 4, 6]))]
        return {'model': model, 'rec': rec, 'par': steppers.gen_params(
            rng, model), 'steps': [{'kind': 'next', 'at': 0, 'len': 0,
                                    'site': 0}] * n}
    return {'model': model, 'rec': rec,
            'par': steppers.gen_params(rng, model),
            'steps': [{'kind': rng.choice(KINDS),
                       'at': rng.randrange(1000) / 1000,
                       'len': rng.randrange(1000) / 1000,
                       'site': rng.randrange(10000)}
                      for _ in range(rng.choice([2, 3, 4, 6]))]}


def revise(d, k, keep, model, site):
    """The same record with everything from record `keep` on revised."""
    d = d.copy()
    if keep >= len(d):
        return d
    num = [c for c in d.columns if c not in ('depth',) or True]
    if k in ('values', 'spike'):
        r2 = np.random.RandomState(site)
        f = r2.uniform(0, 2, (len(d) - keep, len(num)))
        if k == 'spike':
            f = np.where(f > 1.5, 50.0, 1.0)
        d.iloc[keep:] = d.iloc[keep:].to_numpy() * f
        for c, hi in (('wind', 40), ('temp_air', 30), ('temp', 30),
                      ('wind_speed', 40), ('cell', 90)):
            if c in d:
                d[c] = d[c].clip(upper=max(hi, d[c].iloc[:keep].max()))
    elif k == 'nan':
        d.iloc[keep:] = np.nan
    elif k == 'zero':
        d.iloc[keep:] = 0.0
    elif k == 'fine' and model not in ('prilliman',):
        # the logger was set to a shorter interval
        idx = d.index
        d.index = pd.DatetimeIndex(idx[:keep].append(
            idx[keep] + (idx[keep:] - idx[keep]) / 2))
    elif k == 'gap' and model not in ('prilliman',):
        idx = d.index
        d.index = idx[:keep].append(idx[keep:] + pd.Timedelta(hours=7))
        d.index = pd.DatetimeIndex(d.index)
    return d


def run(model, d, p, wash):
    if model == 'chain':
        mc = plant.build_chain(p['plant'])
        n = len(p['plant']['arrays'])
        w = [d[['poa', 'temp_air', 'wind']].rename(columns={
            'poa': 'poa_global', 'wind': 'wind_speed'}) + 5.0 * i
            for i in range(n)]
        for x in w:
            x['poa_direct'] = x['poa_global'] * .7
            x['poa_diffuse'] = x['poa_global'] * .3
            x['precipitable_water'] = 1.5
        mc.run_model_from_poa(tuple(w) if n > 1 else w[0])
        r = mc.results
        out = {'cell_temperature': r.cell_temperature, 'dc': r.dc,
               'ac': r.ac}
        return out
    if model == 'system':
        s = plant.build_system(p['plant'])
        n = len(p['plant']['arrays'])
        a = [tuple(d[c] + i for i in range(n)) for c in
             ('poa', 'temp_air', 'wind')]
        return s.get_cell_temperature(*[x if n > 1 else x[0] for x in a],
                                      'fuentes')
    return steppers.run(model, d, p, None, wash)


def cut(o, k):
    if isinstance(o, dict):
        return {a: cut(b, k) for a, b in o.items()}
    if isinstance(o, (tuple, list)):
        return tuple(cut(x, k) for x in o)
    if hasattr(o, 'iloc'):
        return o.iloc[:k]
    return o[:k] if hasattr(o, '__len__') else o


def execute(scn, sim):
    model, p, r = scn['model'], scn['par'], scn['rec']
    full = steppers.record(model, r, p)
    minlen = steppers.MIN[model]
    wash = steppers.wash_dates(p, full.index) if model == 'kimber' else None
    seen = []               # (record, result)
    cur = max(minlen, len(full) // 4) if not scn['steps'] or scn[
        'steps'][0]['kind'] != 'next' else minlen
    d = full.iloc[:cur]
    sig = []
    todo = [None] + scn['steps']
    # (the solvers of the diode equation iterate for the whole batch)
    rtol = atol = 1e-6 if model == 'chain' else 1e-9
    for st in todo:
        if st is not None:
            if st['kind'] == 'next':
                if cur >= len(full):
                    break
                cur += 1
                d = full.iloc[:cur]
            elif st['kind'] == 'grow':
                cur = min(len(full), cur + 1 + int(st['len'] *
                                                   (len(full) - cur)))
                # revisions made so far stay
                d = full.iloc[:cur]
            elif st['kind'] == 'shrink':
                cur = max(minlen, int(st['at'] * cur))
                d = full.iloc[:cur]
            else:
                keep = max(minlen, int(st['at'] * len(full)))
                d = revise(full, st['kind'], keep, model, st['site'])
                sim.fault('revise_' + st['kind'], keep)
            sig.append((st['kind'], len(d)))
        sim.event('run', model, len(d))
        sim.steps += 1
        out = call(run, model, d, p, wash)
        if not out.ok:
            if st is not None and st['kind'] in ('nan', 'gap', 'fine'):
                sim.sign('rejected')
                continue
            sim.violate('fails', f'{model} over {len(d)} records: '
                        f'{out.brief()}', model)
            return
        for d0, o0 in seen:
            m = min(len(d0), len(d))
            a, b = d0.iloc[:m], d.iloc[:m]
            same = (a.index.as_unit('ns').asi8 ==
                    b.index.as_unit('ns').asi8) & (
                        (a.to_numpy() == b.to_numpy()) |
                        (a.isna().to_numpy() & b.isna().to_numpy())).all(axis=1)
            k = int(np.argmin(same)) if not same.all() else m
            if k < minlen:
                continue
            sim.probe('common_past')
            with sim.judging('past-changed', model):
                df = snap.compare(cut(out.value, k), cut(o0, k), rtol, atol)
                if df:
                    sim.violate(
                        'past-changed', f'{model}: {len(d0)} -> {len(d)} '
                        f'records, first {k} unchanged: {df} (new run / '
                        f'reported before)', model)
                    return
        seen.append((d, out.value))
    sim.sign(model, str(sorted(p.items(), key=str))[:200], r['n'], r['step'],
             r['tz'], r['gaps'], sig)


def nontrivial(scn, sim):
    return bool(sim.probes.get('common_past'))
