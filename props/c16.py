"""C16: arrays of one plant are simulated independently of each other."""
import copy

import numpy as np
import pandas as pd

from dst import plant, snap
from dst.core import call

ID = 'C16'
QUICK_RUNS, THOROUGH_RUNS = 600, 40000
SHRINK = ['faults']
RULE = ('a run = a plant with 2-4 arrays (each with its own mount, module, '
        'temperature parameters, string layout and sensors), simulated '
        'through one entry point; compared per array with plants holding '
        'that array alone, with the plant in another array order, and with '
        'the same plant when sensors of one array fail (missing values, '
        'stuck values, spikes, a missing column); then records of wrong '
        'number or unequal time stamps. Also the PVSystem methods with '
        'per-array inputs. Non-trivial: the plant simulation completed. '
        'Distinct: (models, entry point, columns per array, fault kinds '
        'and places).')
MEASURE = 'tuples (models, number of arrays, entry point, columns, faults)'
REAL = ['pvlib.modelchain', 'pvlib.pvsystem', 'all models they call']
STUB = ['weather loggers and sensors of the arrays',
        'reference inverter formulas', 'a location that reports the sun '
        'position of the whole plant for the single-array comparison']
ASSUMPTIONS = ['the sun position is a quantity of the plant, calculated with '
               'the air temperature and pressure of the first array\'s '
               'record; the single-array comparison uses the same one']

PER_ARRAY = {'total_irrad', 'aoi', 'aoi_modifier', 'spectral_modifier',
             'cell_temperature', 'effective_irradiance', 'dc',
             'diode_params', 'dc_ohmic_losses', 'weather', 'albedo'}
SYSTEM = ['solar_position', 'airmass', 'times', 'losses', 'tracking']
SHARED = ('temp_air', 'pressure')     # feed the sun position if in array 0
METHODS = ['get_aoi', 'get_irradiance', 'get_iam', 'get_cell_temperature',
           'calcparams', 'dc_model', 'sapm_spectral_loss',
           'first_solar_spectral_loss', 'sapm_effective_irradiance',
           'scale_voltage_current_power', 'dc_ohms_from_percent',
           'infer_cell_type']


def generate(rng, tier, index):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    cfg = plant.gen_plant(rng, n)
    # fuentes' model needs a regular record; keep it rare, it is slow
    entry = rng.choice(['run_model'] * 3 + ['run_model_from_poa'] * 2 +
                       ['run_model_from_effective_irradiance'] * 2)
    scn = {'plant': cfg, 'entry': entry,
           'w': plant.gen_weather(rng, rng.choice([3, 4, 6, 9, 14])),
           'cols': plant.gen_cols(rng, entry, cfg, n),
           'wide': entry == 'run_model' and rng.random() < .15,
           'identical': rng.random() < .15,
           'order': rng.sample(range(n), n),
           'methods': rng.sample(METHODS, 4),
           'wrong': rng.sample(WRONG, 3),
           'wrong_array': rng.randrange(n), 'faults': []}
    k = rng.randrange(n)
    for _ in range(rng.choice([1, 1, 2, 3])):
        scn['faults'].append({
            'array': k, 'kind': rng.choice(['nan', 'nan', 'nan', 'stuck',
                                            'spike', 'negative', 'zero',
                                            'all_nan']),
            'col': rng.randrange(10 ** 3) / 10 ** 3,
            'row': rng.randrange(scn['w']['n'])})
    return scn


def frames(scn, cfg, order=None, faults=(), sim=None):
    n = len(cfg['arrays'])
    out = []
    for i in range(n):
        d = plant.build_weather(scn['w'], cfg,
                                0 if scn['identical'] or scn['wide'] else i)
        d = d[scn['cols'][0 if scn['wide'] else i]].copy()
        for f in faults:
            if f['array'] != i:
                continue
            c = d.columns[int(f['col'] * len(d.columns))]
            j = list(d.columns).index(c)
            r = f['row'] % len(d)
            if sim is not None:
                sim.fault('sensor_' + f['kind'], c)
            if f['kind'] == 'nan':
                d.iloc[r, j] = np.nan
            elif f['kind'] == 'all_nan':
                d.iloc[:, j] = np.nan
            elif f['kind'] == 'stuck':
                d.iloc[:, j] = d.iloc[0, j]
            elif f['kind'] == 'spike':
                d.iloc[r, j] = d.iloc[r, j] * 7
            elif f['kind'] == 'negative':
                d.iloc[r, j] = -5.0
            else:
                d.iloc[r, j] = 0.0
        out.append(d)
    if order is not None:
        out = [out[i] for i in order]
    return out


def item(x, i, n):
    """Array i's part of a per-array result of an n-array plant."""
    if x is None:
        return None
    if not isinstance(x, tuple):
        return ('not per array', type(x).__name__)
    if len(x) != n:
        return ('wrong number', len(x))
    return x[i]


def single(x):
    return x[0] if isinstance(x, tuple) and len(x) == 1 else x


def fixed_sun(cfg, solpos):
    from pvlib.location import Location

    class FixedSun(Location):
        def get_solarposition(self, times, *a, **k):
            return solpos.copy()
    return FixedSun(cfg['lat'], cfg['lon'], tz=cfg['tz'],
                    altitude=cfg['alt'], name='site')


# -- reference inverters ---------------------------------------------------------

def ref_pvwatts(pdc, inv):
    nom, ref = inv.get('eta_inv_nom', .96), inv.get('eta_inv_ref', .9637)
    p0 = inv['pdc0']
    out = []
    for p in pdc:
        if np.isnan(p):
            out.append(np.nan)
            continue
        if p <= 0:
            out.append(0.0)
            continue
        z = p / p0
        eta = nom / ref * (-0.0162 * z - 0.0059 / z + 0.9858)
        out.append(max(0.0, min(nom * p0, eta * p)))
    return np.array(out)


def ref_sandia(ps, vs, inv):
    out = []
    for k in range(len(ps[0])):
        P = sum(p[k] for p in ps)
        ac = 0.0
        for p, v in zip(ps, vs):
            dv = v[k] - inv['Vdco']
            A = inv['Pdco'] * (1 + inv['C1'] * dv)
            B = inv['Pso'] * (1 + inv['C2'] * dv)
            C = inv['C0'] * (1 + inv['C3'] * dv)
            eff = (inv['Paco'] / (A - B) - C * (A - B)) * (P - B) + \
                C * (P - B) ** 2
            ac += (p[k] / P if P else np.nan) * eff
        ac = min(ac, inv['Paco']) if ac == ac else ac
        if P < inv['Pso']:
            ac = -abs(inv['Pnt'])
        out.append(ac)
    return np.array(out)


def check_ac(sim, cfg, res, n):
    dc = res['dc']
    inv = plant.inverter_params(cfg)
    vals = list(dc) if isinstance(dc, tuple) else [dc]
    ac = res['ac']
    if not isinstance(ac, pd.Series) or not ac.index.equals(vals[0].index):
        sim.violate('ac', f'AC power does not carry the time stamps: '
                    f'{type(ac).__name__}', 'ac')
        return
    if cfg['ac'] == 'pvwatts':
        want = ref_pvwatts(sum(v['p_mp'].to_numpy() if isinstance(
            v, pd.DataFrame) else v.to_numpy() for v in vals), inv)
        want = np.where(np.isnan(want), 0, want)
    elif cfg['ac'] == 'sandia':
        want = ref_sandia([v['p_mp'].to_numpy() for v in vals],
                          [v['v_mp'].to_numpy() for v in vals], inv)
    else:
        return
    d = snap.num_diff(ac.to_numpy(), want, 1e-7, 1e-6)
    if d:
        sim.violate('ac', f'AC power is not that of the DC results of all '
                    f'arrays: {d}', 'ac')


def execute(scn, sim):
    cfg = scn['plant']
    n = len(cfg['arrays'])
    cfg = dict(cfg, infer=cfg['infer'] and not (
        cfg['ac'] == 'adr'))
    built = call(plant.build_chain, cfg)
    if not built.ok:
        sim.sign('unbuildable', built.brief()[:60])
        # a plant of these arrays one by one must then not be buildable
        if all(call(plant.build_chain, cfg, which=[i]).ok
               for i in range(n)) and not built.brief().startswith(
                   'ValueError'):
            sim.violate('build', built.brief(), 'build')
        return
    mc = built.value
    fr = frames(scn, cfg)
    data = fr[0].copy() if scn['wide'] else tuple(f.copy() for f in fr)
    sim.event('run', scn['entry'])
    got = call(getattr(mc, scn['entry']), data)
    sim.sign(cfg['dc'], cfg['ac'], cfg['iam'], cfg['spec'], cfg['temp'], n,
             scn['entry'], scn['wide'],
             ';'.join(','.join(sorted(c)) for c in scn['cols']),
             [a['mount']['kind'] for a in cfg['arrays']])
    sim.steps += 1
    singles = []
    sun = mc.results.solar_position
    for i in range(n):
        loc = fixed_sun(cfg, sun) if sun is not None else None
        m = plant.build_chain(cfg, location=loc, which=[i])
        singles.append((m, call(getattr(m, scn['entry']), fr[i].copy())))
    if not got.ok:
        bad = [o for _, o in singles if not o.ok]
        if not bad:
            sim.violate('plant-fails', f'{scn["entry"]}: {got.brief()}; every '
                        'array alone succeeds', 'plant-fails')
        sim.sign('fails', type(got.exc).__name__)
    elif any(not o.ok for _, o in singles):
        i = [k for k, (_, o) in enumerate(singles) if not o.ok][0]
        sim.violate('array-alone-fails', f'{scn["entry"]}: array {i} alone: '
                    f'{singles[i][1].brief()}; the plant succeeds',
                    'array-alone-fails')
    if sim.violations or not got.ok:
        return
    sim.probe('plant_simulated')
    res = plant.results_of(mc)
    with sim.judging('array-differs'):
        for i, (m, _) in enumerate(singles):
            one = plant.results_of(m)
            for f in one:
                if f in SYSTEM:
                    d = snap.compare(res[f], single(one[f]))
                elif scn['wide'] and not isinstance(res[f], tuple) and f in (
                        'weather', 'albedo'):
                    d = snap.compare(res[f], single(one[f]))
                elif f in PER_ARRAY:
                    d = snap.compare(item(res[f], i, n), single(one[f]))
                    if f == 'albedo' and d and res[f] is not None and \
                            not hasattr(single(one[f]), 'index'):
                        d = snap.compare(item(res[f], i, n),
                                         single(one[f]), types_=False)
                else:
                    continue
                if d:
                    sim.violate('array-differs', f'{scn["entry"]} array {i}: '
                                f'results.{f} {d} (in the plant / alone)', f)
                    return
        check_ac(sim, cfg, res, n)
        # the sun as seen from the site
        if sun is not None:
            w0 = fr[0]
            kw = {}
            if 'pressure' in w0:
                kw['pressure'] = w0['pressure']
            if 'temp_air' in w0:
                kw['temperature'] = w0['temp_air']
            want = plant.build_location(cfg).get_solarposition(
                fr[0].index, method=cfg['solpos'], **kw)
            d = snap.compare(sun, want)
            if d:
                sim.violate('sun', f'solar position {d}', 'sun')
    if sim.violations:
        return
    order(scn, sim, cfg, n, res, fr)
    if not sim.violations:
        broken(scn, sim, cfg, n, res)
    if not sim.violations:
        wrong(scn, sim, cfg, n, fr)
    if not sim.violations:
        methods(scn, sim, cfg, n, fr)
    if not sim.violations:
        broken_sun(scn, sim, cfg, n, res)


def run_plant(cfg, entry, fr):
    m = plant.build_chain(cfg)
    return m, call(getattr(m, entry), tuple(f.copy() for f in fr))


def order(scn, sim, cfg, n, res, fr):
    """The same arrays listed in another order (same sun position)."""
    o = scn['order']
    if scn['wide']:
        return
    if o == sorted(o):
        return
    c2 = dict(cfg, arrays=[cfg['arrays'][i] for i in o])
    loc = fixed_sun(cfg, res['solar_position']) \
        if res['solar_position'] is not None else None
    m = plant.build_chain(c2, location=loc)
    out = call(getattr(m, scn['entry']), tuple(fr[i].copy() for i in o))
    if not out.ok:
        sim.violate('order', f'arrays in order {o}: {out.brief()}', 'order')
        return
    r2 = plant.results_of(m)
    with sim.judging('order'):
        for f in PER_ARRAY:
            for k, i in enumerate(o):
                d = snap.compare(item(r2[f], k, n), item(res[f], i, n))
                if d:
                    sim.violate('order', f'results.{f} of array {i}: {d} '
                                f'(listed as number {k} / {i})', f)
                    return
        d = snap.compare(r2['ac'], res['ac'], rtol=1e-9, atol=1e-9)
        if d:
            sim.violate('order', f'AC {d} with arrays in order {o}', 'ac')


def split_faults(scn, cfg):
    """(faults that reach the sun position of the plant, the others)"""
    if not scn['faults'] or scn['wide']:
        return [], []
    k = scn['faults'][0]['array']
    fl = [dict(f, array=k) for f in scn['faults']]
    if k != 0 or scn['entry'] == 'run_model_from_effective_irradiance':
        return [], fl
    cols = scn['cols'][0]
    sun = [f for f in fl if cols[int(f['col'] * len(cols))] in SHARED]
    return sun, [f for f in fl if f not in sun]


def broken(scn, sim, cfg, n, res):
    """Sensors of one array fail: the other arrays see nothing of it."""
    _, faults = split_faults(scn, cfg)
    if not faults:
        return
    k = faults[0]['array']
    bad = frames(scn, cfg, faults=faults, sim=sim)
    m, out = run_plant(cfg, scn['entry'], bad)
    if not out.ok:
        sim.violate('sensor-fault', f'array {k}: {out.brief()}', 'raises')
        return
    r2 = plant.results_of(m)
    sim.sign('fault', [(f['kind'], bad[k].columns[int(
        f['col'] * len(bad[k].columns))]) for f in faults])
    with sim.judging('sensor-fault'):
        for f in sorted(PER_ARRAY) + ['solar_position', 'airmass']:
            for i in range(n):
                if i == k and f in PER_ARRAY:
                    continue
                if f in PER_ARRAY:
                    d = snap.compare(item(r2[f], i, n), item(res[f], i, n))
                else:
                    d = snap.compare(r2[f], res[f])
                if d:
                    sim.violate(
                        'sensor-fault', f'{scn["entry"]}: fault in array {k} '
                        f'changes results.{f} of array {i}: {d} (with '
                        f'fault / without)', f)
                    return
        # the faulty array is simulated as if it were alone
        one = plant.build_chain(cfg, location=fixed_sun(
            cfg, r2['solar_position']), which=[k])
        o1 = call(getattr(one, scn['entry']), bad[k].copy())
        r1 = plant.results_of(one)
        for f in sorted(PER_ARRAY):
            d = snap.compare(item(r2[f], k, n), single(r1[f])) if o1.ok \
                else o1.brief()
            if d:
                sim.violate('sensor-fault', f'{scn["entry"]}: fault in '
                            f'array {k}: its results.{f}: {d} (in the plant '
                            '/ alone under the same sun)', f)
                return
        # records without a fault keep their AC power
        rows = set()
        for f in faults:
            rows |= set(range(scn['w']['n'])) if f['kind'] in (
                'all_nan', 'stuck') else {f['row'] % scn['w']['n']}
        keep = [r for r in range(scn['w']['n']) if r not in rows]
        if cfg['temp'] != 'fuentes' and keep:
            d = snap.compare(r2['ac'].iloc[keep], res['ac'].iloc[keep])
            if d:
                sim.violate('sensor-fault', f'AC of a record without fault: '
                            f'{d}', 'ac')
        check_ac(sim, cfg, r2, n)


def broken_sun(scn, sim, cfg, n, res):
    """A fault in the first array's air temperature or pressure, which feed
    the sun position of the whole plant."""
    faults, _ = split_faults(scn, cfg)
    if not faults:
        return
    bad = frames(scn, cfg, faults=faults, sim=sim)
    m, out = run_plant(cfg, scn['entry'], bad)
    if not out.ok:
        sim.violate('sensor-fault', f'array 0: {out.brief()}', 'raises')
        return
    r2 = plant.results_of(m)
    hit = None
    with sim.judging('sensor-fault'):
        for i in range(1, n):
            one = plant.build_chain(cfg, location=fixed_sun(
                cfg, r2['solar_position']), which=[i])
            getattr(one, scn['entry'])(bad[i].copy())
            r1 = plant.results_of(one)
            for f in sorted(PER_ARRAY):
                d = snap.compare(item(r2[f], i, n), single(r1[f]))
                if d:
                    sim.violate('sensor-fault', f'{scn["entry"]}: fault in '
                                f'array 0: results.{f} of array {i}: {d} '
                                f'(in the plant / alone under the same sun)',
                                f)
                    return
                d = snap.compare(item(r2[f], i, n), item(res[f], i, n))
                if d and hit is None:
                    hit = f'results.{f} of array {i}: {d}'
    if hit:
        sim.violate('sensor-fault', f'{scn["entry"]}: fault in the air '
                    f'temperature or pressure of array 0 changes {hit} (with '
                    f'fault / without)', 'sun_from_first_array')


WRONG = ['short', 'long', 'shifted', 'dropped_row', 'other_zone',
         'not_tuple', 'reversed', 'duplicated_row', 'first_late',
         'last_late', 'inner_late', 'inner_late', 'inner_swapped',
         'inner_dropped']


def wrong(scn, sim, cfg, n, fr):
    """Records of the wrong number or unequal time stamps are rejected."""
    for how in scn['wrong']:
        wrong_one(scn, sim, cfg, n, fr, how)
        if sim.violations:
            return


def wrong_one(scn, sim, cfg, n, fr, how):
    k = scn['wrong_array']
    d = [f.copy() for f in fr]
    if how == 'short':
        d = d[:-1]
    elif how == 'long':
        d.append(fr[-1].copy())
    elif how == 'shifted':
        d[k].index = d[k].index + pd.Timedelta(hours=1)
    elif how == 'dropped_row':
        d[k] = d[k].iloc[1:]
    elif how == 'duplicated_row':
        d[k] = pd.concat([d[k], d[k].iloc[-1:]])
    elif how == 'reversed':
        d[k] = d[k].iloc[::-1]
    elif how.startswith(('inner', 'first', 'last')):
        i = list(range(len(d[k])))
        t = d[k].index
        if len(i) < 4:
            return
        j = 0 if how == 'first_late' else len(i) - 1 if \
            how == 'last_late' else 1 + scn['w']['site'] % (len(i) - 2)
        if how.endswith('late'):
            d[k].index = t[:j].append(
                t[j:j + 1] + pd.Timedelta('90s')).append(t[j + 1:])
        elif how == 'inner_swapped':
            j = min(j, len(i) - 3)
            i[j], i[j + 1] = i[j + 1], i[j]
            d[k] = d[k].iloc[i]
        else:
            d[k] = d[k].iloc[[x for x in i if x != j]]
    elif how == 'other_zone':
        if d[k].index.tz is None:
            return
        d[k].index = d[k].index.tz_localize(None).tz_localize('Etc/GMT+3')
        if d[k].index.equals(fr[0].index):
            return
    if how == 'not_tuple':
        if scn['entry'] == 'run_model':
            return
        m = plant.build_chain(cfg)
        out = call(getattr(m, scn['entry']), d[0])
    else:
        m, out = run_plant(cfg, scn['entry'], d)
    sim.fault('records_' + how)
    if out.ok:
        sim.violate('mixed-up', f'{scn["entry"]} accepted records that do not '
                    f'belong together ({how}, array {k})', how)
    elif not isinstance(out.exc, (ValueError, TypeError)):
        sim.violate('mixed-up', f'{scn["entry"]} ({how}): {out.brief()}',
                    how)


# -- PVSystem methods -----------------------------------------------------------

def method_calls(name, cfg, fr, sun, faults=()):
    """-> [(method, make(i) -> per-array args, common args, kwargs)]"""
    idx = fr[0].index
    full = [plant.build_weather({'start': '2019-06-01T12:00:00', 'n': len(idx),
                                 'step': 60, 'tz': 'UTC', 'site': 50 + i,
                                 'night': True}, cfg, i).set_axis(idx)
            for i in range(len(fr))]
    z, a = sun['apparent_zenith'], sun['azimuth']
    for j, f in enumerate(full):             # sensors that fail
        for g in faults:
            if (g['array'] + g['row']) % len(full) == j and g['kind'] in (
                    'nan', 'all_nan'):
                c = int(g['col'] * f.shape[1])
                f.iloc[g['row'] % len(f), c] = np.nan
                f.iloc[0, (c + g['row']) % f.shape[1]] = np.nan

    def col(c):
        return lambda: tuple(f[c] for f in full)
    aoi = (lambda: tuple(30 + f['wind_speed'] * 5 for f in full))
    t = [0]
    if name == 'get_aoi':
        return 'get_aoi', [z, a], t
    if name == 'get_irradiance':
        return 'get_irradiance', [z, a, col('dni'), col('ghi'), col('dhi')], t
    if name == 'get_iam':
        m = cfg['iam']
        return 'get_iam', [aoi, 'physical' if m == 'no_loss' else m], t
    if name == 'get_cell_temperature':
        if cfg['temp'] == 'noct_sam':
            return 'get_cell_temperature', [
                col('poa_global'), col('temp_air'), col('wind_speed'),
                'noct_sam', col('effective_irradiance')], t
        return 'get_cell_temperature', [
            col('poa_global'), col('temp_air'), col('wind_speed'),
            cfg['temp']], t
    eff, ct = col('effective_irradiance'), col('cell_temperature')
    if name == 'calcparams':
        if cfg['dc'] in ('cec', 'desoto', 'pvsyst'):
            return 'calcparams_' + cfg['dc'], [eff, ct], t
        return None
    if name == 'dc_model':
        if cfg['dc'] == 'sapm':
            return 'sapm', [eff, ct], t
        if cfg['dc'] == 'pvwatts':
            return 'pvwatts_dc', [eff, ct], t
        return None
    am = 1.5 + full[0]['wind_speed'] / 10
    if name == 'sapm_spectral_loss' and cfg['dc'] == 'sapm':
        return name, [am], t
    if name == 'first_solar_spectral_loss':
        return name, [col('precipitable_water'), am], t
    if name == 'sapm_effective_irradiance' and cfg['dc'] == 'sapm':
        return name, [col('poa_direct'), col('poa_diffuse'), am, aoi], t
    if name == 'scale_voltage_current_power':
        return name, [lambda: tuple(pd.DataFrame({
            'v_mp': f['temp_air'] + 40, 'i_mp': f['wind_speed'],
            'p_mp': f['dni'], 'v_oc': f['temp_air'] + 50,
            'i_sc': f['wind_speed'] + 1}) for f in full)], t
    if name == 'dc_ohms_from_percent' and cfg['dc'] != 'pvwatts':
        return name, [], t
    if name == 'infer_cell_type':
        return '_infer_cell_type', [], t
    return None


def methods(scn, sim, cfg, n, fr):
    sun = plant.build_location(cfg).get_solarposition(fr[0].index)
    for name in scn['methods']:
        spec = method_calls(name, cfg, fr, sun, scn['faults'])
        if spec is None:
            continue
        meth, args, _ = spec
        system = plant.build_system(cfg)
        if not hasattr(system, meth):
            continue
        full = [a() if callable(a) else a for a in args]
        out = call(getattr(system, meth), *full)
        for i in range(n):
            one = plant.build_system(cfg, [i])
            a1 = [a()[i] if callable(a) else a for a in args]
            o1 = call(getattr(one, meth), *a1)
            if out.ok != o1.ok:
                sim.violate('method', f'PVSystem.{meth}: {out.brief()}; '
                            f'array {i} alone {o1.brief()}', meth)
                return
            if out.ok:
                with sim.judging('method', meth):
                    d = snap.compare(item(out.value, i, n), o1.value)
                    if d:
                        sim.violate('method', f'PVSystem.{meth} array {i}: '
                                    f'{d} (in the plant / alone)', meth)
                        return
        per = [j for j, a in enumerate(args) if callable(a)]
        if per and out.ok:
            j = per[scn['w']['site'] % len(per)]
            for bad in (full[j][:-1], full[j] + (full[j][-1],)):
                a2 = list(full)
                a2[j] = bad
                o2 = call(getattr(system, meth), *a2)
                sim.fault('records_wrong_number')
                if o2.ok:
                    sim.violate('mixed-up', f'PVSystem.{meth} accepted '
                                f'{len(bad)} records for {n} arrays', meth)
                    return
        sim.sign(meth)


def nontrivial(scn, sim):
    return bool(sim.probes.get('plant_simulated'))


def simplify(scn):
    for k, v in (('wide', False), ('identical', False), ('methods', [])):
        if scn[k] != v:
            s = copy.deepcopy(scn)
            s[k] = v
            yield s
    if scn['w']['n'] > 1:
        s = copy.deepcopy(scn)
        s['w']['n'] = 1
        yield s
    n = len(scn['plant']['arrays'])
    if n > 2:
        for i in range(n):
            s = copy.deepcopy(scn)
            del s['plant']['arrays'][i]
            del s['cols'][i]
            s['order'] = sorted(range(n - 1), reverse=True)
            s['faults'] = [dict(f, array=f['array'] - (f['array'] > i))
                           for f in s['faults'] if f['array'] != i]
            s['wrong_array'] = min(s['wrong_array'], n - 2)
            yield s
