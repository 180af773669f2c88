"""C10: a model chain's results depend only on the current inputs."""
import copy
import functools

import pandas as pd

from dst import plant, snap
from dst.core import call

ID = 'C10'
QUICK_RUNS, THOROUGH_RUNS = 1000, 40000
SHRINK = ['ops']
RULE = ('a run = a plant (1-3 arrays, models chosen or inferred, possibly a '
        'user-supplied model) and a history of 2-7 operations on one or two '
        'model chains sharing the system: runs through every entry point '
        'with any record, length, columns and container, runs that fail '
        '(missing columns, wrong number of records, unequal time stamps, '
        'text in a sensor column, wrong types, empty records), changes of '
        'options, of the location, mounts or modules, runs with the very '
        'same objects again, and callers overwriting earlier results or '
        'inputs. '
        'Non-trivial: at least two runs completed. Distinct: (plant models, '
        'sequence of entry points, faults and containers).')
MEASURE = 'tuples (models, sequence of operations with faults and containers)'
REAL = ['pvlib.modelchain, pvsystem, location and all models they call']
STUB = ['weather loggers (simulated records)', 'user-supplied models']
ASSUMPTIONS = ['the clear-sky model is simplified_solis (the Linke turbidity '
               'table is not in the repository checkout)']

FAULTS = ['missing_column', 'short_tuple', 'long_tuple', 'unequal_index',
          'text', 'none', 'array', 'empty', 'nan_record']


REWIRE = {'tilt': [5, 33], 'azimuth': [100, 200], 'max_angle': [30, 75],
          'lat': [10.5, -20.25], 'lon': [-3., 7.5], 'alt': [1200, 5],
          'mps': [2, 7], 'strings': [1, 4], 'temp': [0, 1],
          'module': [0, 1, 2], 'albedo': [.15, .6], 'ohmic_percent': [2., 4.],
          'soiling': [3., 6.]}


def rewire(op, cfgs, system, location):
    """The plant is changed: its location, mounts or modules."""
    what, v = op['what'], op['value']
    k = op['array'] % len(cfgs[0]['arrays'])
    a = system.arrays[k]
    for c in cfgs:
        b = c['arrays'][k]
        if what in ('lat', 'lon', 'alt', 'soiling'):
            c[what] = v
        elif what in ('tilt', 'azimuth', 'max_angle'):
            if what in b['mount']:
                b['mount'][what] = v
        else:
            b[what] = v
    if what in ('lat', 'lon', 'alt'):
        setattr(location, {'lat': 'latitude', 'lon': 'longitude',
                           'alt': 'altitude'}[what], v)
    elif what == 'soiling':
        system.losses_parameters['soiling'] = v
    elif what in ('tilt', 'azimuth', 'max_angle'):
        if what in b['mount']:
            setattr(a.mount, {'max_angle': what}.get(
                what, 'surface_' + what), v)
    elif what in ('mps', 'strings'):
        setattr(a, {'mps': 'modules_per_string'}.get(what, what), v)
    elif what == 'albedo':
        a.albedo = v
    elif what == 'ohmic_percent':
        a.array_losses_parameters['dc_ohmic_percent'] = v
    elif what == 'temp':
        a.temperature_model_parameters = dict(
            plant.TEMPS[c['temp']][v])
    else:
        a.module_parameters.clear()
        a.module_parameters.update(plant.module_params(c, b))


def gen_op(rng, cfg, n):
    r = rng.random()
    if r < .1:
        k = rng.choice(['losses', 'transposition', 'airmass', 'iam',
                        'solpos', 'ohmic'])
        v = {'losses': ['no_loss', 'pvwatts'],
             'transposition': ['isotropic', 'perez', 'haydavies'],
             'airmass': ['simple', 'kastenyoung1989'],
             'iam': ['no_loss', cfg['iam']],
             'solpos': ['nrel_numpy', 'ephemeris'],
             'ohmic': ['no_loss'] + (['dc_ohms_from_percent'] if
                                     cfg['dc'] != 'pvwatts' else [])}[k]
        return {'op': 'set', 'what': k, 'value': rng.choice(v)}
    if r < .16:
        return {'op': 'scribble_results'}
    if r < .22:
        return {'op': 'scribble_inputs'}
    if r < .34:
        return {'op': 'again', 'chain': 0}
    if r < .46:
        k = rng.choice(sorted(REWIRE))
        return {'op': 'rewire', 'what': k, 'array': rng.randrange(n),
                'value': rng.choice(REWIRE[k])}
    entry = rng.choice(['run_model'] * 4 + ['run_model_from_poa'] * 2 +
                       ['run_model_from_effective_irradiance'] * 2 +
                       ['complete_irradiance'] * 2 +
                       ['prepare_inputs', 'prepare_inputs_from_poa'])
    op = {'op': 'run', 'entry': entry, 'w': plant.gen_weather(rng),
          'cols': plant.gen_cols(rng, entry, cfg, n),
          'as': rng.choice(['df', 'df', 'tuple', 'list']) if n == 1 else
          rng.choice(['tuple', 'tuple', 'list', 'df']),
          'chain': 0, 'fault': None}
    if n > 1 and op['as'] == 'df':
        op['cols'] = [op['cols'][0]] * n
        if entry not in ('run_model', 'prepare_inputs'):
            op['as'] = 'tuple'
    if rng.random() < .25:
        f = rng.choice(FAULTS)
        op['fault'] = {'kind': f, 'array': rng.randrange(n),
                       'row': rng.randrange(op['w']['n']),
                       'col': rng.random()}
    return op


def generate(rng, tier, index):
    cfg = plant.gen_plant(rng)
    n = len(cfg['arrays'])
    if rng.random() < .25:
        cfg['custom'] = rng.choice(['dc', 'temp', 'losses', 'aoi', 'spec'])
        if cfg['custom'] == 'dc':
            cfg['infer'] = False
            if cfg['ac'] == 'pvwatts':
                cfg['ohmic'] = 'no_loss'
    scn = {'plant': cfg, 'chains': rng.choice([1, 1, 1, 2]),
           'ops': [gen_op(rng, cfg, n) for _ in range(
               rng.choice([2, 3, 4, 4, 5, 6, 7]))]}
    for op in scn['ops']:
        if 'chain' in op:
            op['chain'] = rng.randrange(scn['chains'])
    runs = [o for o in scn['ops'] if o['op'] == 'run']
    if runs and rng.random() < .35:
        scn['ops'].append(copy.deepcopy(rng.choice(runs)))
    elif rng.random() < .5:
        # several runs over records of one length / one time base
        runs = [o for o in scn['ops'] if o['op'] == 'run']
        for o in runs[1:]:
            if rng.random() < .6:
                o['w'] = dict(o['w'], start=runs[0]['w']['start'],
                              n=runs[0]['w']['n'],
                              step=runs[0]['w']['step'],
                              night=runs[0]['w']['night'],
                              tz=runs[0]['w']['tz'])
                if o['fault']:
                    o['fault']['row'] %= o['w']['n']
    return scn


def inputs(op, cfg, sim=None):
    """The records as the loggers deliver them for one operation."""
    n = len(cfg['arrays'])
    many = op['as'] != 'df'
    frames = []
    for i in range(n if many else 1):
        d = plant.build_weather(op['w'], cfg, i)
        frames.append(d[op['cols'][i]].copy())
    f = op['fault']
    if f:
        if sim:
            sim.fault('record_' + f['kind'], op['entry'])
        i = f['array'] % len(frames)
        fr = frames[i]
        c = fr.columns[int(f['col'] * len(fr.columns))]
        k = f['kind']
        if k == 'missing_column':
            frames[i] = fr.drop(columns=c)
        elif k == 'short_tuple':
            frames = frames[:-1]
            many = True
        elif k == 'long_tuple':
            frames = frames + [fr.copy()]
            many = True
        elif k == 'unequal_index':
            frames[i] = fr.copy()
            frames[i].index = fr.index + pd.Timedelta(minutes=7)
        elif k == 'text':
            fr = fr.astype({c: object})
            fr.iloc[f['row'] % len(fr), list(fr.columns).index(c)] = 'ERR'
            frames[i] = fr
        elif k == 'none':
            frames[i] = None
        elif k == 'array':
            frames[i] = fr.to_numpy()
        elif k == 'empty':
            frames = [x.iloc[:0] for x in frames]
        elif k == 'nan_record':
            frames[i] = fr.copy()
            frames[i].iloc[f['row'] % len(fr), :] = float('nan')
    if not many:
        return frames[0]
    return tuple(frames) if op['as'] != 'list' else list(frames)


def container(mc):
    return getattr(mc, 'results', None)


def chain_state(mc):
    """Everything of the chain but its results."""
    d = {}
    for k, v in snap.public(mc):
        if k == 'results':
            continue
        if isinstance(v, functools.partial) and isinstance(
                v.func, plant.Kept):
            v = ('user model', v.func.kind)
        d[k] = v
    return snap.freeze(d)


def scribble(o):
    """What a caller may do to objects that are his now."""
    if isinstance(o, tuple) or isinstance(o, list):
        for x in o:
            scribble(x)
    elif isinstance(o, pd.DataFrame):
        for c in list(o.columns):
            if o[c].dtype.kind == 'f':
                o[c] = -999.0
        if len(o.columns) > 1:
            o.drop(columns=o.columns[0], inplace=True)
    elif isinstance(o, pd.Series) and len(o) and o.dtype.kind == 'f':
        o.iloc[:] = -999.0
        o *= 3.0


SETTER = {'losses': 'losses_model', 'transposition': 'transposition_model',
          'airmass': 'airmass_model', 'iam': 'aoi_model',
          'solpos': 'solar_position_method', 'ohmic': 'dc_ohmic_model'}


def execute(scn, sim):
    cfg = copy.deepcopy(scn['plant'])
    system = plant.build_system(cfg)
    location = plant.build_location(cfg)
    cfgs = [copy.deepcopy(cfg) for _ in range(scn['chains'])]
    out = call(lambda: [plant.build_chain(c, system, location)
                        for c in cfgs])
    if not out.ok:
        # the same plant must be buildable again and again
        if call(lambda: plant.build_chain(cfg)).ok:
            sim.violate('second-chain-fails', out.brief(), 'build')
        sim.sign('unbuildable')
        return
    chains = out.value
    done = 0
    kept = []           # (label, object, snapshot)
    last_inputs, last = [], None
    sim.sign(cfg['dc'], cfg['ac'], cfg['spec'], cfg['temp'], cfg['custom'],
             len(cfg['arrays']), scn['chains'])
    for j, op in enumerate(scn['ops']):
        if op['op'] == 'set':
            for c, m in zip(cfgs, chains):
                if c['custom'] and SETTER[op['what']].startswith(
                        {'aoi': 'aoi', 'losses': 'losses'}.get(
                            c['custom'], '-')):
                    continue
                if c['custom'] == 'dc' and op['what'] == 'ohmic' and \
                        c['ac'] == 'pvwatts':
                    continue
                c[op['what']] = op['value']
                setattr(m, SETTER[op['what']], op['value'])
            sim.sign('set', op['what'])
            continue
        if op['op'] == 'scribble_results':
            if cfg['custom'] == 'dc':
                continue
            sim.fault('caller_overwrites_results')
            kept = [k for k in kept if k[0].startswith('-')]
            for m in chains:
                for v in plant.results_of(m).values():
                    scribble(v)
            continue
        if op['op'] == 'scribble_inputs':
            sim.fault('caller_overwrites_inputs')
            for x in last_inputs:
                scribble(x)
            continue
        if op['op'] == 'rewire':
            rewire(op, cfgs, system, location)
            sim.sign('rewire', op['what'])
            continue
        c = cfgs[op['chain'] % len(cfgs)]
        mc = chains[op['chain'] % len(chains)]
        if op['op'] == 'again':
            # (the very objects of the run before)
            if last is None:
                continue
            op, data = last
            sim.sign('again')
        else:
            data = inputs(op, c, sim)
        last = op, data
        theirs = copy.deepcopy(data)
        before = (snap.freeze(system), snap.freeze(location),
                  chain_state(mc))
        sim.event('run', op['entry'], op['as'])
        got = call(getattr(mc, op['entry']), data)
        after = (snap.freeze(system), snap.freeze(location),
                 chain_state(mc))
        for name, a, b in zip(('system', 'location', 'chain'), before,
                              after):
            if a != b:
                sim.violate('configuration-changed', f'{op["entry"]} ('
                            f'{got.brief()[:60]}): {name}'
                            f'{snap.where(a, b)}', f'{name}')
        fresh = plant.build_chain(c)
        want = call(getattr(fresh, op['entry']), theirs)
        sim.sign(op['entry'], op['as'], (op['fault'] or {}).get('kind'),
                 'ok' if got.ok else type(got.exc).__name__)
        sim.steps += 1
        if got.ok != want.ok or (not got.ok and type(got.exc) is not
                                 type(want.exc)):
            sim.violate('outcome-differs', f'operation {j} {op["entry"]}: '
                        f'after history {got.brief()}; on a new chain '
                        f'{want.brief()}', op['entry'])
            return
        if got.ok:
            done += 1
            a, b = plant.results_of(mc), plant.results_of(fresh)
            for f in b:
                d = snap.compare(a.get(f), b[f])
                if d is None and type(a[f]) is not type(b[f]):
                    d = f'{type(a[f]).__name__} / {type(b[f]).__name__}'
                if d:
                    sim.violate('results-differ', f'operation {j} '
                                f'{op["entry"]}: results.{f} {d} (chain '
                                f'with history / new chain)', f)
        # results kept by the caller
        for label, o, s in kept:
            now = snap.freeze(o)
            if now != s:
                sim.violate('kept-result-changed', f'{label} changed by '
                            f'operation {j} {op["entry"]} '
                            f'({got.brief()[:80]}): {snap.where(s, now)}',
                            label.split(' ')[-1])
        if sim.violations:
            return
        if got.ok:
            for f, v in plant.results_of(mc).items():
                if v is not None:
                    kept.append((f'run{j} {f}', v, snap.freeze(v)))
            box = container(mc)
            kept.append((f'run{j} container', box, snap.freeze(box)))
        last_inputs = list(data) if isinstance(data, (tuple, list)) else \
            [data]
    if done >= 2:
        sim.probe('two_or_more_runs')
    sim.sign(done)


def nontrivial(scn, sim):
    return bool(sim.probes.get('two_or_more_runs'))


def simplify(scn):
    if scn['chains'] > 1:
        s = copy.deepcopy(scn)
        s['chains'] = 1
        yield s
    if scn['plant'].get('custom'):
        s = copy.deepcopy(scn)
        s['plant']['custom'] = None
        yield s
    for i, o in enumerate(scn['ops']):
        if o['op'] == 'run' and o['w']['n'] > 1:
            s = copy.deepcopy(scn)
            s['ops'][i]['w']['n'] = 1
            yield s
        if o['op'] == 'run' and o['fault']:
            s = copy.deepcopy(scn)
            s['ops'][i]['fault'] = None
            yield s
