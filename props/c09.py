"""C09: multi-threaded solar position, under every schedule."""
import copy

import numpy as np
import pandas as pd

from dst import seams, snap
from dst import interrupt as intr
from dst.core import call
from dst.sched import Sched

ID = 'C09'
QUICK_RUNS, THOROUGH_RUNS = 900, 200000
QUICK_BUDGET = 240
SHRINK = ['calls']
RULE = ('a run = one to three solar position calculations with the numba '
        'implementation in one process: any of the functions that take a '
        'number of threads, batches of 1-40 time stamps, 1-48 worker '
        'threads, and a schedule that decides at every statement of the '
        'library which worker goes on, and the order in which workers start '
        'and end; a worker may run out of memory at any statement, the '
        'start of a thread may fail, and a wait with a timeout may expire '
        'while workers are stalled. Each result must equal the same '
        'calculation in one thread (exactly) and the numpy implementation '
        '(to 1e-9); a calculation with a failed worker must raise or be '
        'right; all workers must have ended when the call returns; results '
        'of earlier calls must stay as they were. In a tenth of the runs '
        'the code is compiled by numba and whole workers are scheduled. '
        'Non-trivial: a call with two or more workers. Distinct: (function, '
        'batch, threads, sequence of places of preemption).')
MEASURE = ('tuples (function, batch length, threads, faults) and places of '
           'preemption (statement left, worker that went on)')
REAL = ['pvlib.solarposition, pvlib.spa', 'threading (one thread runs at a '
        'time)', 'numba in a tenth of the runs']
STUB = ['numba.jit is the identity in the other runs, so that the scheduler '
        'sees the statements of the workers', 'locks and thread start/join '
        'of threading']
ASSUMPTIONS = ['statements of the library are atomic (numpy calls are not '
               'interrupted half-way)']

CHEAP = ['nrel_earthsun_distance', 'spa.earthsun_distance',
         'get_extra_radiation']
FNS = ['spa_python', 'sun_rise_set_transit_spa', 'nrel_earthsun_distance',
       'get_solarposition', 'get_extra_radiation', 'spa.solar_position',
       'spa.solar_position:sst', 'spa.earthsun_distance',
       'spa.transit_sunrise_sunset']
_compiled = None


def prepare():
    """compiled and interpreted module, once for all runs"""
    global _compiled
    import importlib.util
    import os
    import warnings
    from pvlib import solarposition as sp  # noqa: F401
    os.environ['PVLIB_USE_NUMBA'] = '1'
    poisoned, np.empty = np.empty, seams.real_empty
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            spec = importlib.util.find_spec('pvlib.spa')
            _compiled = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(_compiled)
            t = np.array([1.6e9, 1.61e9])
            for kw in ({}, {'sst': True}, {'esd': True}):
                call(lambda: _compiled.solar_position(
                    t, 40., -105., 0., 1e5, 12., 67., .5667, 1, **kw))
            call(lambda: _compiled.solar_position(
                t, 40., -105., 0., 1e5, 12., 67., .5667, 2))
    finally:
        del os.environ['PVLIB_USE_NUMBA']
        np.empty = poisoned


def gen_call(rng, fn=None):
    n = rng.choice([1, 2, 3, 4, 5, 7, 8, 13, 21, 40])
    return {'fn': fn or rng.choice(FNS), 'n': n, 'threads': rng.choice(
        [1, 2, 2, 3, 4, 4, 5, 8, 16, n, n + 1, max(1, n - 1), 48]),
        'start': (pd.Timestamp('1990-01-01') + pd.Timedelta(
            minutes=rng.randrange(60 * 365 * 1440))).isoformat(),
        'step': rng.choice([1, 15, 60, 60, 1440, 40000]),
        'lat': rng.choice([-75.3, -35., 0., 12.5, 40.1, 52.3, 69.6, 88.]),
        'lon': rng.choice([-179.5, -105.2, 0., 11.6, 140.]),
        'tz': rng.choice(['UTC', 'America/Denver', 'Asia/Kolkata']),
        'shuffle': rng.randrange(10 ** 6) if rng.random() < .3 else None,
        'dt': rng.choice(['67', '67', 'none', 'array']),
        'ints': rng.random() < .3,
        'gap': rng.choice([None, 0, 1, 5, 25, 150, 800]),
        'nsw': rng.choice([2, 10, 60]), 'seed': rng.randrange(10 ** 6),
        'plan': None,
        'fault': rng.choice(['worker', 'start']) if rng.random() < .2
        else None, 'arg': rng.randrange(10 ** 6) / 10 ** 6,
        'kind': rng.choice(['nomem', 'interrupt', 'error'])}


def large(rng, c, sizes):
    """many records"""
    c.update(n=rng.choice(sizes) + rng.randrange(4), step=rng.choice([
        1, 15, 60]), threads=rng.choice([2, 2, 3, 4, 8]), fault=None)


def plan(rng, c):
    dense = [] if c['gap'] is None else [
        [rng.randrange(2 * c['gap'] + 1), rng.randrange(8)]
        for _ in range(c['nsw'])]
    return {'dense': dense, 'picks': [rng.randrange(12) for _ in range(
        min(c['n'], c['threads']) * 3)],
        'stalls': [rng.randrange(2) for _ in range(8)]
        if rng.random() < .5 else []}


def generate(rng, tier, index):
    calls = [gen_call(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    if len(calls) > 1 and rng.random() < .5:
        calls = [gen_call(rng, calls[0]['fn']) for _ in calls]
        for c in calls[1:]:
            if rng.random() < .5:
                c['n'], c['threads'] = calls[0]['n'], calls[0]['threads']
    compiled = rng.random() < .1
    if compiled and rng.random() < .5:
        large(rng, rng.choice(calls), [1000, 4097, 20000])
    elif rng.random() < .02:
        calls = [gen_call(rng, rng.choice(CHEAP))]
        large(rng, calls[0], [1024, 2500, 4097])
    elif rng.random() < .01:
        calls = [gen_call(rng)]
        large(rng, calls[0], [200, 260])
    for c in calls:
        c['plan'] = plan(rng, c)
    return {'calls': calls, 'compiled': compiled}


def times(c):
    t = pd.date_range(c['start'], periods=c['n'],
                      freq=pd.Timedelta(minutes=c['step']),
                      tz='UTC').tz_convert(c['tz'])
    if c['shuffle'] is not None:
        t = t[np.random.default_rng(c['shuffle']).permutation(len(t))]
    return t


def delta_t(c, spa=None):
    if c['dt'] == 'none' and not c['fn'].startswith('spa.'):
        return None
    if c['dt'] == 'array':
        return 60. + np.arange(c['n']) % 17
    return 67.0


def func(c, how, threads):
    """the calculation, as a function without arguments"""
    from pvlib import irradiance, solarposition as sp, spa
    t, fn = times(c), c['fn']
    loc = (c['lat'], c['lon'])
    if fn.startswith('spa.'):
        ut = np.asarray((t.tz_convert('UTC') - pd.Timestamp(
            0, tz='UTC')) / pd.Timedelta('1s'))
        if c['ints']:
            ut = ut.astype(np.int64)
        dt = delta_t(c)

        def run():
            mod = sp._spa_python_import(how) if hasattr(
                sp, '_spa_python_import') else spa
            if fn == 'spa.earthsun_distance':
                return mod.earthsun_distance(ut, dt, threads)
            if fn == 'spa.transit_sunrise_sunset':
                days = np.asarray(np.floor(ut / 86400) * 86400)
                return mod.transit_sunrise_sunset(days, *loc, dt, threads)
            return mod.solar_position(
                ut, *loc, 1830., 82000., 11., dt, .5667, threads,
                sst=fn.endswith(':sst'))
        return run
    kw = dict(how=how, numthreads=threads, delta_t=delta_t(c))
    if fn in ('spa_python', 'sun_rise_set_transit_spa'):
        return lambda: getattr(sp, fn)(t, *loc, **kw)
    if fn == 'nrel_earthsun_distance':
        return lambda: sp.nrel_earthsun_distance(t, **kw)
    if fn == 'get_solarposition':
        kw.pop('how')
        return lambda: sp.get_solarposition(t, *loc, method='nrel_' + how,
                                            **kw)
    kw.pop('delta_t')
    return lambda: irradiance.get_extra_radiation(t, method='nrel', **kw)


def execute(scn, sim):
    import sys
    import numba
    import pvlib
    old = numba.jit
    if scn['compiled'] and _compiled is not None:
        sys.modules['pvlib.spa'] = pvlib.spa = _compiled
        np.empty = seams.real_empty         # (numba knows only this one)
    numba.jit = lambda *a, **k: (lambda f: f)
    try:
        kept = []
        want = []
        if scn['compiled']:
            # (the reference afterwards: the implementation is not switched)
            for j, c in enumerate(scn['calls']):
                one(sim, c, j, call(func(c, 'numba', 1)), kept, True)
                if sim.violations:
                    return
            for j, c in enumerate(scn['calls']):
                if kept[j] is not None:
                    reference(sim, c, j, kept[j][0])
            return
        for c in scn['calls']:
            want.append(call(func(c, 'numpy', 1)))
        for j, c in enumerate(scn['calls']):
            alone = call(func(c, 'numba', 1))
            one(sim, c, j, alone, kept, False)
            if sim.violations:
                return
            if kept[j] is not None:
                reference(sim, c, j, kept[j][0], want[j])
    finally:
        numba.jit = old


def reference(sim, c, j, got, want=None):
    want = want or call(func(c, 'numpy', 1))
    with sim.judging('differs', key=c['fn']):
        if not want.ok:
            if not (c['fn'] == 'spa.transit_sunrise_sunset'):
                sim.violate('no-reference', f'call {j} {label(c)}: '
                            f'{want.brief()}', c['fn'])
            return
        d = snap.compare(got, want.value, 1e-9, 2e-7)
        if d:
            sim.violate('not-the-reference', f'call {j} {label(c)}: {d} '
                        '(threads / numpy)', c['fn'])


def label(c):
    return f'{c["fn"]} n={c["n"]} threads={c["threads"]}'


def one(sim, c, j, alone, kept, compiled):
    steps = {'n': 0}
    fn = func(c, 'numba', c['threads'])
    workers = min(c['n'], c['threads'])
    s = Sched(sim, c['plan'])
    s.on_switch = lambda frame, a, b: sim.sign(
        frame.f_code.co_name, frame.f_lineno, b.number)
    fault = c['fault'] if workers > 1 and not compiled else None
    if fault == 'worker':
        # (statements of one worker: about 500 a time stamp)
        per = max(1, c['n'] // workers) * (
            60 if 'earthsun' in c['fn'] or 'extra' in c['fn'] else 450)
        k = 1 + int(c['arg'] * 7919) % workers
        s.injections[k] = (int(c['arg'] * per), intr.KINDS[c['kind']](
            'injected'))
    elif fault == 'start':
        s.start_fault = 1 + int(c['arg'] * workers)
    sim.sched = s
    left = {}

    def caller():
        try:
            return fn()
        finally:
            left['running'] = [t.name for t in s.tasks[1:]
                               if t.state != 'done']
    try:
        got, = s.run([caller])
    finally:
        sim.sched = None
    sim.steps += s.steps
    failed = [t.fired for t in s.tasks if t.fired]
    if failed:
        sim.fault('worker_' + c['kind'], failed[0][1])
    sim.sign(c['fn'], c['n'], c['threads'], fault, compiled)
    sim.event('call', label(c), s.switches, len(s.tasks),
              'deadlock' if s.deadlock else got.brief()[:60])
    kept.append(None)
    if s.deadlock:
        sim.violate('never-returns', f'call {j} {label(c)}: every thread '
                    f'waits: {s.deadlock}', c['fn'])
        return
    if len(s.tasks) > 2:
        sim.probe('threaded')
    if s.switches:
        sim.probe('preempted')
    trouble = bool(failed) or (fault == 'start' and s.starts >=
                               s.start_fault)
    if not got.ok:
        if alone.ok and not trouble:
            sim.violate('fails-threaded', f'call {j} {label(c)}: '
                        f'{got.brief()}; in one thread it succeeds', c['fn'])
        check_kept(sim, kept, j, c)
        return
    if left['running']:
        sim.violate('returned-early', f'call {j} {label(c)}: '
                    f'{len(left["running"])} workers have not ended when '
                    'the call returns', c['fn'])
    if not alone.ok:
        sim.violate('fails-alone', f'call {j} {label(c)}: one thread: '
                    f'{alone.brief()}', c['fn'])
        return
    with sim.judging('differs', key=c['fn']):
        d = snap.compare(got.value, alone.value, 0, 0)
        if d:
            sim.violate('not-as-alone', f'call {j} {label(c)}'
                        f'{" with a failed worker" if trouble else ""}: {d} '
                        '(threads / one thread)', c['fn'])
    kept[-1] = (got.value, copy.deepcopy(got.value))
    check_kept(sim, kept, j, c)


def check_kept(sim, kept, j, c):
    for i, k in enumerate(kept[:-1]):
        if k is None:
            continue
        d = snap.compare(k[0], k[1], 0, 0)
        if d:
            sim.violate('earlier-result-changed', f'result of call {i} '
                        f'changed by call {j} {label(c)}: {d}', c['fn'])


def nontrivial(scn, sim):
    return sim.probes.get('threaded', 0) >= 1


def simplify(scn):
    for i, c in enumerate(scn['calls']):
        for k, v in (('fault', None), ('shuffle', None), ('dt', '67'),
                     ('ints', False), ('tz', 'UTC')):
            if c[k] != v:
                s = copy.deepcopy(scn)
                s['calls'][i][k] = v
                yield s
        d = c['plan']['dense']
        for part in ([], d[:len(d) // 2], d[len(d) // 2:], d[:-1], d[1:]):
            if len(part) < len(d):
                s = copy.deepcopy(scn)
                s['calls'][i]['plan']['dense'] = part
                yield s
        if c['plan']['picks']:
            s = copy.deepcopy(scn)
            s['calls'][i]['plan']['picks'] = c['plan']['picks'][:-1] if len(
                c['plan']['picks']) < 4 else []
            yield s
        for n in (1, 2, 3, c['n'] // 2, c['n'] - 1):
            if 1 <= n < c['n']:
                s = copy.deepcopy(scn)
                s['calls'][i]['n'] = n
                yield s
        for n in (2, 3, c['threads'] // 2, c['threads'] - 1):
            if 2 <= n < c['threads']:
                s = copy.deepcopy(scn)
                s['calls'][i]['threads'] = n
                yield s
