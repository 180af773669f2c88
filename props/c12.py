"""C12: snow and soiling simulations can be stopped and resumed."""
import json

import numpy as np
import pandas as pd

from dst import snap, steppers
from dst.core import call

ID = 'C12'
QUICK_RUNS, THOROUGH_RUNS = 2500, 200000
SHRINK = ['cuts', ['rec', 'gaps'], ['rec', 'nan']]
RULE = ('a run = a snow-coverage or Kimber soiling simulation over one '
        'record, stopped at 1-6 points and resumed each time from the '
        'reported condition at the last checkpoint, which is stored through '
        'a text, JSON, binary or single-value-Series channel; some stops are '
        'crashes that lose the work since an older checkpoint, which is then '
        'done again. Every resumed piece is compared with the uninterrupted '
        'run record by record. Non-trivial: at least one piece was resumed '
        'from a condition that is not zero. Distinct: (model, parameters, '
        'step, zone, gaps, sequence of stops and crashes, channel).')
MEASURE = 'tuples (model, parameters, record shape, stops and crashes)'
REAL = ['pvlib.snow.coverage_nrel', 'pvlib.soiling.kimber']
STUB = ['measuring station (simulated record)', 'checkpoint storage']
ASSUMPTIONS = [
    'a resumed piece starts with the record the checkpoint belongs to, as '
    'the documented starting condition is that at the first record',
    'kimber has no way to hand over rain fallen earlier, so it is resumed '
    'only where no earlier rain or grace period is pending; coverage_nrel '
    'takes the first interval length from those that follow, so it is '
    'resumed where the intervals around the checkpoint are equal or no '
    'snow falls in that record']


def generate(rng, tier, index):
    model = rng.choice(['coverage', 'coverage', 'kimber'])
    rec = steppers.gen_record(rng, model)
    return {'model': model, 'rec': rec,
            'par': steppers.gen_params(rng, model),
            'cuts': [{'at': rng.randrange(1000) / 1000,
                      'crash': rng.random() < .25,
                      'next': rng.random() < .5} for _ in range(
                          rng.choice([1, 2, 3, 4, 6]))],
            'channel': rng.choice(['float', 'text', 'json', 'np', 'int']),
            'scalar_tilt': rng.random() < .2}


def through(channel, v):
    """Store the condition and read it back."""
    if channel == 'text':
        return float(repr(float(v)))
    if channel == 'json':
        return json.loads(json.dumps(float(v)))
    if channel == 'np':
        return np.float64(v)
    if channel == 'int' and float(v) in (0.0, 1.0):
        return int(v)
    return float(v)


def resumable(model, d, p, r, wash):
    """Positions at which the reported condition is the whole state."""
    n = len(d)
    t = d.index
    ok = []
    if model == 'coverage':
        step = np.diff(t.as_unit('ns').asi8)
        s = d['snowfall'].fillna(0).to_numpy()
        for i in range(1, n - 2):
            same = i + 2 < n and step[i - 1] == step[i] == step[i + 1]
            if same or s[i] == 0:
                ok.append(i)
        return ok
    rain = d['rain'].fillna(0.0)
    acc = rain.rolling(pd.Timedelta(hours=p['accum'])).sum()
    event = (acc > p['threshold'] - 1e-9).to_numpy()
    ns = t.as_unit('ns').asi8
    hour = 3600 * 10**9
    for i in range(1, n - 1):
        a = (ns > ns[i] - p['accum'] * hour) & (ns < ns[i])
        g = (ns > ns[i] - p['grace'] * 24 * hour) & (ns < ns[i])
        if not (rain.to_numpy()[a] > 0).any() and not event[g].any():
            ok.append(i)
    return ok


def handover(model, d, p, can):
    """Records whose own inputs settle their condition together with that
    of the record before, so that a piece may start there from the
    condition the previous piece ended with."""
    out = set()
    for i in can:
        r = d.iloc[i]
        if model == 'kimber':
            if p['grace'] > 0 and r['rain'] > p['threshold'] + 1e-6:
                out.add(i)
            continue
        hours = (d.index[i] - d.index[i - 1]).total_seconds() / 3600
        thin = bool(p['depth']) and not r['depth'] >= p['threshold_depth']
        snow = r['snowfall'] / hours > p['threshold_snowfall']
        if p['depth'] and r['depth'] != r['depth']:
            continue
        if thin or snow or not r['temp_air'] > r['poa'] / p['can']:
            out.add(i)
    return out


def execute(scn, sim):
    model, p, r = scn['model'], scn['par'], scn['rec']
    d = steppers.record(model, r, p)
    wash = steppers.wash_dates(p, d.index) if model == 'kimber' else None
    full = call(steppers.run, model, d, p, None, wash)
    sim.steps += len(d)
    if not full.ok:
        sim.violate('fails', f'{model}: {full.brief()}', model)
        return
    full = full.value
    with sim.judging('uninterrupted', model):
        v0 = full.iloc[0]
        if full.isna().any():
            sim.violate('undefined', f'{model}: NaN in the reported '
                        f'condition at {full.index[full.isna()][0]}', model)
            return
        # the record is reported from the given starting condition on
        if model == 'coverage':
            ok0 = v0 == p['initial'] or v0 in (0.0, 1.0)
        else:
            ok0 = abs(v0 - min(p['initial'], p['max'])) < 1e-12 or v0 == 0
        if not ok0:
            sim.violate('start', f'{model} starts at {v0}, given '
                        f'{p["initial"]}', model)
            return
    can = resumable(model, d, p, r, wash)
    own = handover(model, d, p, can)
    minlen = steppers.MIN[model]
    start, old = 0, 0
    cond = old_cond = p['initial']
    sig = []
    for c in sorted(scn['cuts'], key=lambda c: c['at']) + [None]:
        if c is None:
            end = len(d) - 1
        else:
            want = c['at'] * (len(d) - 1)
            nxt = [i for i in can if i >= want and i - start + 1 >= minlen]
            if c['next']:
                nxt = [i - 1 for i in sorted(own)
                       if i > want and i - start >= minlen] or nxt
            if not nxt:
                continue
            end = nxt[0]
        if len(d) - end - 1 < minlen and c is not None:
            continue
        piece = d.iloc[start:end + 1]
        if len(piece) < minlen:
            break
        sim.event('piece', start, end, float(cond))
        out = call(steppers.run, model, piece, p, cond, wash)
        if not out.ok:
            sim.violate('resume-fails', f'{model} piece {start}..{end} from '
                        f'{cond}: {out.brief()}', model)
            return
        with sim.judging('resumed', model):
            df = snap.compare(out.value, full.iloc[start:end + 1],
                              rtol=1e-9, atol=1e-10)
            if df:
                sim.violate('differs', f'{model} resumed at record {start} '
                            f'from {cond!r}{df} (resumed / uninterrupted)',
                            model)
                return
        if start and cond != 0:
            sim.probe('resumed_from_nonzero')
        if c is None:
            break
        if c['crash']:
            # work since the older checkpoint is lost
            sim.fault('crash_loses_checkpoint', end)
            sig.append(f'x{end}')
            start, cond = old, old_cond
        else:
            sim.fault('stop_and_resume', end)
            sig.append(f's{end}')
            old, old_cond = start, cond
            start = end
            if c['next'] and end + 1 in own:
                start = end + 1
                sim.probe('resumed_at_next_record')
                sig.append('n')
            cond = through(scn['channel'], out.value.iloc[-1])
    sim.sign(model, sorted(p.items(), key=str), r['step'], r['tz'],
             r['gaps'], sig, scn['channel'])


def nontrivial(scn, sim):
    return bool(sim.probes.get('resumed_from_nonzero'))
