"""Time-stepping models fed with a simulated record: snow, soiling and
thermal-inertia models behind one interface, built from plain JSON."""
import numpy as np
import pandas as pd

from dst import plant
from dst.truth import field

SITES = ['UTC', 'Etc/GMT+7', 'Europe/Berlin', 'Australia/Adelaide', None]
MIN = {'coverage': 3, 'covered': 3, 'kimber': 2, 'hsu': 2, 'fuentes': 2,
       'prilliman': 3, 'chain': 3, 'system': 2}


def gen_record(rng, model):
    long = model in ('kimber', 'hsu')
    step = {'prilliman': [1, 2, 5, 10, 1, 2, 5, 10, 15, 60, 1440, 1445], 'fuentes': [5, 15, 30, 60],
            'kimber': [60, 360, 720, 1440], 'hsu': [15, 60, 180, 1440],
            'chain': [15, 60], 'system': [15, 60]}.get(
                model, [15, 30, 60, 120, 1440])
    n = rng.choice([12, 20, 40]) if not long else rng.choice([20, 40, 80])
    if model in ('fuentes', 'chain', 'system'):
        n = rng.choice([6, 8, 12])
    r = {'start': pd.Timestamp(2019, 1 + rng.randrange(12),
                               1 + rng.randrange(28)).isoformat(),
         'n': n, 'step': rng.choice(step), 'tz': rng.choice(SITES),
         'site': rng.randrange(1000), 'gaps': [], 'nan': []}
    if model in ('coverage', 'covered', 'hsu', 'fuentes') and \
            rng.random() < .35:
        r['gaps'] = sorted(rng.sample(range(1, n), rng.choice([1, 2, 3])))
    if rng.random() < .3:
        r['nan'] = [[rng.randrange(n), rng.randrange(8)]
                    for _ in range(rng.choice([1, 2, 3]))]
    return r


def index(r):
    steps = np.full(r['n'], 1)
    for g in r['gaps']:
        steps[g] = 4
    steps[0] = 0
    t = pd.Timestamp(r['start'])
    off = pd.to_timedelta(np.cumsum(steps) * r['step'], unit='min')
    idx = pd.DatetimeIndex(t + off)
    if r['tz']:
        t = t.tz_localize(r['tz'], ambiguous=True,
                          nonexistent='shift_forward')
        idx = pd.DatetimeIndex((t.tz_convert('UTC') + off)).tz_convert(
            r['tz'])
    idx.freq = None
    return idx


def gen_params(rng, model):
    if model in ('coverage', 'covered'):
        return {'tilt': rng.choice([5, 20, 45, 70]),
                'tilt_series': rng.random() < .2,
                'depth': rng.choice([None, None, 'some', 'thin']),
                'threshold_snowfall': rng.choice([1., .6, 2.]),
                'threshold_depth': rng.choice([1., .5]),
                'can': rng.choice([-80., -40.]),
                'slide': rng.choice([.197, .05, .4]),
                'initial': rng.choice([0, 0, .3, 1.0, .05])}
    if model == 'kimber':
        return {'threshold': rng.choice([6, 3]),
                'rate': rng.choice([.0015, .003, .02]),
                'grace': rng.choice([0, 1, 2, 5]) or 1,
                'max': rng.choice([.3, .05, .02]),
                'wash': [rng.randrange(80) for _ in range(
                    rng.choice([0, 0, 1, 2]))],
                'initial': rng.choice([0, 0, .01, .04]),
                'accum': rng.choice([24, 24, 6, 48])}
    if model == 'hsu':
        return {'threshold': rng.choice([.5, 2., 5.]),
                'tilt': rng.choice([0, 20, 60]),
                'pm_series': rng.random() < .5,
                'depo': rng.random() < .3,
                'accum': rng.choice([1, 3, 24])}
    if model == 'fuentes':
        return {'noct': rng.choice([45, 49, 52]),
                'kw': rng.choice([{}, {'surface_tilt': 10},
                                  {'module_height': 2.5,
                                   'emissivity': .9}])}
    if model == 'prilliman':
        return {'mass': rng.choice([11.1, 15.0]),
                'coef': rng.choice([None, [.005, .0004, -.0002, -2e-5]])}
    if model in ('chain', 'system'):
        cfg = plant.gen_plant(rng, rng.choice([1, 1, 2]))
        cfg['temp'] = 'fuentes'
        cfg['infer'] = False
        return {'plant': cfg}
    raise ValueError(model)


def record(model, r, p):
    """Frame of every input the model is fed with."""
    idx = index(r)
    ep = np.arange(r['n'], dtype=np.int64) + 100_000 * (r['site'] + 1)

    def f(var, lo, hi, dec=3):
        return field(var, r['site'], ep, lo, hi, dec)
    snow = f('snowfall', -3, 3) * (f('s2', 0, 1) > .4)
    rain = np.where(f('wet', 0, 1) > .86, f('rain', 0, 8), 0.0)
    d = pd.DataFrame({
        'snowfall': np.clip(snow, 0, None) * r['step'] / 60,
        'poa': f('poa', 0, 900), 'temp_air': f('ta', -12, 8),
        'wind': f('ws', 0, 9), 'tilt': f('tilt', 5, 60),
        'depth': f('depth', 0, 6 if p.get('depth') == 'some' else 1.6),
        'rain': rain, 'pm2_5': f('pm2', 1e-6, 5e-5, 8),
        'pm10': f('pm10', 1e-5, 2e-4, 8), 'cell': f('cell', -5, 60)},
        index=idx)
    for row, k in r['nan']:
        c = {'coverage': ['snowfall', 'poa', 'temp_air', 'depth'],
             'covered': ['snowfall', 'depth'], 'kimber': ['rain'],
             'hsu': ['rain', 'pm2_5', 'pm10'],
             'fuentes': ['poa'], 'prilliman': ['cell', 'wind']}.get(model)
        if not c:
            continue
        c = c[k % len(c)]
        d.iloc[row % r['n'], list(d.columns).index(c)] = np.nan
    return d


def wash_dates(p, idx):
    if not p['wash']:
        return None
    days = [t for t in idx if t == t.normalize()]
    out = [days[w % len(days)].date() for w in p['wash']] if days else None
    return out


def run(model, d, p, initial=None, wash=None):
    """One call of the model over frame d."""
    from pvlib import snow, soiling, temperature
    d = d.copy()
    if model == 'covered':
        return snow.fully_covered_nrel(
            d['snowfall'], d['depth'] if p['depth'] else None,
            p['threshold_snowfall'], p['threshold_depth'])
    if model == 'coverage':
        return snow.coverage_nrel(
            d['snowfall'], d['poa'], d['temp_air'],
            d['tilt'] if p['tilt_series'] else p['tilt'],
            snow_depth=d['depth'] if p['depth'] else None,
            initial_coverage=p['initial'] if initial is None else initial,
            threshold_snowfall=p['threshold_snowfall'],
            threshold_depth=p['threshold_depth'],
            can_slide_coefficient=p['can'],
            slide_amount_coefficient=p['slide'])
    if model == 'kimber':
        if wash is not None:
            days = {t.date() for t in d.index if t == t.normalize()}
            wash = [w for w in wash if w in days] or None
        return soiling.kimber(
            d['rain'], cleaning_threshold=p['threshold'],
            soiling_loss_rate=p['rate'], grace_period=p['grace'],
            max_soiling=p['max'], manual_wash_dates=wash,
            initial_soiling=p['initial'] if initial is None else initial,
            rain_accum_period=p['accum'])
    if model == 'hsu':
        return soiling.hsu(
            d['rain'], p['threshold'], p['tilt'],
            d['pm2_5'] if p['pm_series'] else 2e-5,
            d['pm10'] if p['pm_series'] else 5e-5,
            depo_veloc={'2_5': .002, '10': .006} if p['depo'] else None,
            rain_accum_period=pd.Timedelta(hours=p['accum']))
    if model == 'fuentes':
        return temperature.fuentes(d['poa'], d['temp_air'] + 15, d['wind'],
                                   p['noct'], **p['kw'])
    if model == 'prilliman':
        return temperature.prilliman(
            d['cell'], d['wind'], unit_mass=p['mass'],
            coefficients=p['coef'])
    raise ValueError(model)
