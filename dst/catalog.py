"""Catalogue of the public modelling interface.

Every entry says how to call one public function (or method) with simulated
telemetry: which arguments are quantities with one value per record, which are
times, which are settings.  A call is described by plain JSON (`gen`), so the
same call can be made again with the records delivered differently, in another
process, after other calls, from another thread, or with a fault injected.
"""
import copy
import functools
import importlib
import os

import numpy as np
import pandas as pd

from dst import plant
from dst.truth import field

# quantity: (lowest, highest, decimals, special values that occur now and then)
Q = {
    'tilt': (0, 90, 1, [0, 90, 20]), 'azi': (0, 360, 1, [0, 180, 360]),
    'zen': (0, 115, 2, [0, 90, 89.9, 95]), 'zenday': (0, 84, 2, [0, 60]),
    'zenpos': (0.5, 115, 2, [90, 95]),
    'sazi': (0, 360, 2, [0, 180]), 'elev': (-20, 90, 2, [0, 90]),
    'ghi': (0, 1100, 1, [0, 1.0]), 'dhi': (0, 400, 1, [0]),
    'dni': (0, 950, 1, [0]), 'ext': (1322, 1412, 1, []),
    'poa': (0, 1150, 1, [0, 1000]), 'poapos': (5, 1150, 1, [1000]),
    'am': (1, 12, 3, [1, float('nan')]),
    'amabs': (.6, 11, 3, [1, 1.5, float('nan')]),
    'press': (70000, 104000, 0, [101325]), 'ta': (-25, 45, 1, [0, 25]),
    'tcell': (-15, 80, 1, [25]), 'ws': (0, 15, 2, [0, 1]),
    'pw': (.15, 7.5, 2, [1]), 'aod': (.01, .8, 3, [.1]),
    'aoi': (0, 180, 2, [0, 90, 60]), 'rh': (1, 100, 1, [100]),
    'tdew': (-20, 20, 1, []), 'alb': (.05, .8, 2, [.2]),
    'alt': (-100, 4500, 0, [0]), 'kt': (0, 1.2, 3, [0, 1]),
    'cell_v': (0, 45, 2, [0]), 'i': (0, 9, 3, [0]),
    'v': (0, 50, 2, [0]), 'vdc': (100, 650, 1, [0]),
    'pdc': (0, 6000, 1, [0, 25, 1]), 'IL': (.05, 9, 3, []),
    'I0': (1e-10, 5e-9, 13, []), 'Rs': (.1, 1.2, 3, []),
    'Rsh': (50, 900, 1, []), 'nNsVth': (1.2, 2.8, 3, []),
    'rot': (-75, 75, 1, [0]), 'shade': (0, 1, 3, [0, 1]),
    'frac': (0.02, 1, 3, [1]), 'doy': (1, 366, 0, [1, 365, 366]),
    'hang': (-180, 180, 2, [0]), 'decl': (-.409, .409, 4, [0]),
    'eot': (-16, 16, 2, []), 'gcr': (.2, .8, 2, []), 'pow': (0, 1, 3, [0]),
    'cov': (0, 1, 3, [0, 1]), 'rmad': (0, .3, 4, [0]),
    'ir': (150, 450, 1, []), 'lt': (1.5, 7, 2, []),
    'lat': (-80, 80, 2, [0]), 'lonr': (-180, 180, 2, [0]),
    'v_s': (.5, 3., 2, []), 'unix': (0, 2_000_000_000, 0, []),
    'x01': (0, 1, 2, [0, 1]),
}
IVP = ['IL', 'I0', 'Rs', 'Rsh', 'nNsVth']
ZONES = ['UTC', 'Etc/GMT+7', 'Europe/Berlin', 'Asia/Kolkata',
         'Australia/Adelaide', 'America/St_Johns']


class R:
    """one value per record of quantity q"""
    kind = 'R'

    def __init__(self, q):
        self.q = q


class RC(R):
    """one value per record, or one constant value"""
    kind = 'RC'


class RO(R):
    """one value per record, or left out"""
    kind = 'RO'


class K(R):
    """a constant number of quantity q"""
    kind = 'K'


class T:
    """the records' time stamps"""
    kind = 'T'


class C:
    """one of several settings (None: argument left out)"""
    kind = 'C'

    def __init__(self, *choices):
        self.choices = list(choices)


class Dep(C):
    """set of arguments given together: each choice is a dict"""
    kind = 'D'


class Entry:
    def __init__(self, name, args, **kw):
        self.name = name
        self.args = args
        self.rec = kw.pop('rec', True)         # records are independent
        self.reps = kw.pop('reps', 'saf')      # series, array, float
        self.rtol = kw.pop('rtol', 1e-9)
        self.atol = kw.pop('atol', 1e-9)
        self.axis = kw.pop('axis', 0)          # record axis of bare arrays
        self.make = kw.pop('make', None)
        self.min_n = kw.pop('min_n', 1)
        self.index = kw.pop('index', None)     # needs a time index: 'time'
        self.order = kw.pop('order', 'any')    # 'sorted': times must ascend
        self.nan = kw.pop('nan', True)         # NaN in a record allowed
        self.pandas = kw.pop('pandas', None)   # result is pandas for series
        self.slow = kw.pop('slow', False)
        self.post = kw.pop('post', None)
        self.time = any(isinstance(a, T) for a in args.values()) or \
            kw.pop('time', False)
        self.heavy = kw.pop('heavy', 1)
        self.note = kw.pop('note', '')
        assert not kw, kw


ENTRIES = {}


def E(name, /, *, args=None, **kw):
    flags = {k: kw.pop(k) for k in list(kw) if k in (
        'rec', 'reps', 'rtol', 'atol', 'axis', 'make', 'min_n', 'index',
        'order', 'nan', 'slow', 'post', 'time', 'heavy', 'note')
        and not isinstance(kw[k], (R, T, C))}
    args = dict(args or {}, **kw)
    ENTRIES[name] = Entry(name, args, **flags)


def entry(name):
    return ENTRIES[name]


# -- one call -------------------------------------------------------------------

class Ctx:
    """Values of one described call for a chosen delivery of its records."""

    def __init__(self, inst, rows=None, objs=None, nan=(), tz='inst',
                 unit=None, freq=False):
        self.inst = inst
        self.e = ENTRIES[inst['fn']]
        self.rows = list(range(inst['n'])) if rows is None else list(rows)
        self.objs = objs
        self.nan = {(a, r) for a, r in nan}
        self.tz = inst.get('tz') if tz == 'inst' else tz
        self.unit = unit or inst.get('unit')
        self.freq = freq
        self.rep = inst['rep']

    # records
    def raw(self, q, name):
        lo, hi, dec, special = Q[q]
        ids = np.asarray(self.rows, dtype=np.int64) + 1000 * (
            self.inst['site'] + 1)
        v = field(f'{q}/{name}', self.inst['site'], ids, lo, hi, dec)
        if special:
            u = field(f'sp/{q}/{name}', self.inst['site'], ids, 0, 1, 6)
            k = field(f'sk/{q}/{name}', self.inst['site'], ids, 0, 1, 6)
            pick = u < self.inst.get('special', .15)
            v = np.where(pick, np.array(special, float)[
                (k * len(special)).astype(int).clip(max=len(special) - 1)], v)
        v = v.astype(float)
        for j, r in enumerate(self.rows):
            if (name, r) in self.nan:
                v[j] = np.nan
        return v

    def wrap(self, v, name=None):
        if self.rep == 's':
            return pd.Series(v, index=self.index(), name=name)
        if self.rep == 'f':
            assert len(v) == 1
            return float(v[0])
        return np.array(v)

    def const(self, q, name):
        lo, hi, dec, special = Q[q]
        return float(field(f'c/{q}/{name}', self.inst['site'], [7], lo, hi,
                           dec)[0])

    def times(self):
        i = self.inst
        t0 = pd.Timestamp(i['start'], tz='UTC')
        t = t0 + pd.to_timedelta(np.array(self.rows, dtype=np.int64) *
                                 i['step'], unit='min')
        t = pd.DatetimeIndex(t)
        if self.tz is None:
            t = t.tz_localize(None)
        else:
            t = t.tz_convert(self.tz)
        if self.unit:
            t = t.as_unit(self.unit)
        t.freq = None
        if self.freq and len(t) > 2:
            try:
                t.freq = 'infer'
            except ValueError:
                pass
        return t

    def index(self):
        k = self.inst.get('index', 'time')
        if k == 'time' or self.e.time or self.e.index == 'time':
            return self.times()
        ids = np.array(self.rows)
        if k == 'int':
            return pd.Index(ids * 3 + 5)
        if k == 'str':
            return pd.Index([f'r{r}' for r in ids])
        if k == 'dup':
            return pd.Index(np.zeros(len(ids), dtype=int) + 4)
        if k == 'float':
            return pd.Index(ids / 4)
        return pd.RangeIndex(len(ids))

    def loc(self):
        return plant.LOCATIONS[self.inst['loc']]

    def obj(self, key, build):
        if self.objs is None:
            return build()
        if key not in self.objs:
            self.objs[key] = build()
        return self.objs[key]


def split(ctx):
    """keyword arguments of the described call"""
    i, e = ctx.inst, ctx.e
    kw = {}
    for name, s in e.args.items():
        if s.kind == 'T':
            t = ctx.times()
            kw[name] = t[0] if ctx.rep == 'f' and i.get('ts') else t
        elif s.kind == 'D':
            for k, v in s.choices[i['ch'][name]].items():
                kw[k] = value(ctx, k, v)
        elif s.kind == 'C':
            v = s.choices[i['ch'][name]]
            if v is not None:
                kw[name] = copy.deepcopy(v)
        elif s.kind == 'K':
            kw[name] = ctx.const(s.q, name)
        elif s.kind == 'R' or i['rc'].get(name, 'r') == 'r':
            kw[name] = ctx.wrap(ctx.raw(s.q, name), name)
        elif s.kind == 'RC':
            kw[name] = ctx.const(s.q, name)
        # RO left out
    return kw


def value(ctx, name, v):
    if isinstance(v, R):
        return ctx.wrap(ctx.raw(v.q, name), name) if v.kind != 'K' else \
            ctx.const(v.q, name)
    return copy.deepcopy(v)


def resolve(name):
    """function 'module.function' of pvlib (entry names may carry a suffix
    after a colon)"""
    name = name.split(':')[0]
    mod, _, fn = name.rpartition('.')
    return getattr(importlib.import_module('pvlib.' + mod), fn)


def bind(inst, **delivery):
    """(callable, kwargs) of the described call"""
    ctx = Ctx(inst, **delivery)
    if ctx.e.make is not None:
        fn, kw = ctx.e.make(ctx, split(ctx))
    else:
        fn, kw = resolve(ctx.e.name), split(ctx)
    if ctx.e.post is not None:
        post = ctx.e.post

        @functools.wraps(fn)
        def wrapped(**kw):
            return post(fn(**kw))
        return wrapped, kw
    return fn, kw


def record_args(inst):
    """names of the arguments that hold one value per record"""
    e = ENTRIES[inst['fn']]
    out = []
    for name, s in e.args.items():
        if s.kind == 'R' or (s.kind in ('RC', 'RO') and
                             inst['rc'].get(name, 'r') == 'r'):
            out.append(name)
        if s.kind == 'D':
            out += [k for k, v in s.choices[inst['ch'][name]].items()
                    if isinstance(v, R) and v.kind == 'R']
    return out


def gen(rng, where=None, names=None, n=None, rep=None, simple=False):
    if names is None:
        names = [k for k, e in ENTRIES.items() if where is None or where(e)]
    fn = rng.choice(names)
    e = ENTRIES[fn]
    rep = rep or rng.choice([r for r in e.reps if r != 'f'] or ['f'])
    if rep not in e.reps:
        rep = e.reps[0]
    i = {'fn': fn, 'rep': rep, 'site': rng.randrange(1000),
         'n': n or max(e.min_n, rng.choice([1, 2, 3, 5, 8, 13])),
         'special': rng.choice([0, .15, .15, .4]),
         'index': 'time' if rng.random() < .55 else rng.choice(
             ['int', 'str', 'dup', 'range', 'float']),
         'tz': rng.choice(ZONES + [None]), 'loc': rng.randrange(
             len(plant.LOCATIONS)),
         'start': (pd.Timestamp('2015-01-01') + pd.Timedelta(
             minutes=15 * rng.randrange(8 * 365 * 96))).isoformat(),
         'step': rng.choice([15, 30, 60, 60, 180, 1440]),
         'rc': {}, 'ch': {}, 'plant': None}
    if rep == 'f':
        i['n'] = 1
        i['ts'] = rng.random() < .5
    for name, s in e.args.items():
        if s.kind in ('RC', 'RO'):
            i['rc'][name] = 'c' if rng.random() < (.4 if s.kind == 'RC'
                                                   else .5) else 'r'
        elif s.kind in ('C', 'D'):
            i['ch'][name] = rng.randrange(len(s.choices))
    if e.make is not None and getattr(e.make, 'plant', None):
        i['plant'] = e.make.plant(rng)
    return i


# -- the interface ----------------------------------------------------------------

SUN = dict(solar_zenith=R('zen'), solar_azimuth=R('sazi'))
SURF = dict(surface_tilt=RC('tilt'), surface_azimuth=RC('azi'))
PVR = {n: R(q) for n, q in zip(
    ['photocurrent', 'saturation_current', 'resistance_series',
     'resistance_shunt', 'nNsVth'], IVP)}
PVRC = dict(PVR, saturation_current=RC('I0'), resistance_series=RC('Rs'),
            nNsVth=RC('nNsVth'))
SAPM_MOD = C(plant.CS5P, dict(plant.CS5P, Impo=5.2, Vmpo=40.1, FD=0.95,
                              C2=.3, A1=.05))
SANDIA = C(plant.INVERTERS['sandia'],
           dict(plant.INVERTERS['sandia'], Paco=3000., Pdco=3160., Pso=18.))
ADR = C(plant.INVERTERS['adr'])

# albedo, atmosphere
E('albedo.inland_water_dvoracek', solar_elevation=R('elev'), how=Dep(
    {'surface_condition': 'clear_water_no_waves'},
    {'surface_condition': 'clear_water_frequent_whitecaps'},
    {'color_coeff': .13, 'wave_roughness_coeff': .29},
    {'color_coeff': R('frac'), 'wave_roughness_coeff': R('frac')}))
E('atmosphere.alt2pres', altitude=R('alt'))
E('atmosphere.pres2alt', pressure=R('press'))
E('atmosphere.angstrom_alpha', aod1=R('aod'), lambda1=C(500.),
  aod2=R('aod'), lambda2=C(870.))
E('atmosphere.angstrom_aod_at_lambda', aod0=R('aod'), lambda0=C(500.),
  alpha=C(None, 1.3), lambda1=C(None, 870.))
E('atmosphere.bird_hulstrom80_aod_bb', aod380=R('aod'), aod500=R('aod'))
E('atmosphere.get_absolute_airmass', airmass_relative=R('am'),
  pressure=RO('press'))
E('atmosphere.get_relative_airmass', zenith=R('zen'), model=C(
    'simple', 'kasten1966', 'youngirvine1967', 'kastenyoung1989',
    'gueymard1993', 'young1994', 'pickering2002', 'gueymard2003'))
E('atmosphere.gueymard94_pw', temp_air=R('ta'), relative_humidity=R('rh'))
E('atmosphere.kasten96_lt', airmass_absolute=R('amabs'),
  precipitable_water=R('pw'), aod_bb=R('aod'))
E('atmosphere.rh_from_tdew', temp_air=R('ta'), temp_dew=R('tdew'),
  coeff=C(None, (6.1094, 17.625, 243.04)))
E('atmosphere.tdew_from_rh', temp_air=R('ta'), relative_humidity=R('rh'),
  coeff=C(None, (6.1094, 17.625, 243.04)))
E('atmosphere.windspeed_powerlaw', wind_speed_reference=R('ws'),
  height_reference=C(10), height_desired=C(2, 5.5), how=Dep(
      {'exponent': .2}, {'surface_type': 'unstable_air_above_open_water_'
                         'surface'}))

# bifacial
IS = dict(SURF, **SUN, gcr=C(.4, .3), height=C(1.5), pitch=C(5.0),
          ghi=R('ghi'), dhi=R('dhi'), dni=R('dni'), albedo=RC('alb'),
          how=Dep({'model': 'isotropic'}, {'model': 'haydavies',
                                           'dni_extra': R('ext')}))
ISX = dict(npoints=C(None, None, 40), vectorize=C(None, None, True))
E('bifacial.infinite_sheds.get_irradiance_poa', args=dict(IS, **ISX),
  iam=RO('frac'), reps='sa')
E('bifacial.infinite_sheds.get_irradiance', args=dict(IS, **ISX), iam_front=RO('frac'),
  iam_back=RO('frac'), bifaciality=C(None, .7), shade_factor=C(None, -.05),
  transmission_factor=C(None, .02), reps='sa')
E('bifacial.loss_models.power_mismatch_deline', rmad=R('rmad'), how=Dep(
    {}, {'coefficients': (0, .12, 2.8)}, {'coefficients': [.01, .2, 3.],
                                          'fill_factor': .72},
    {'coefficients': (0, .12, 2.8), 'fill_factor': .7,
     'fill_factor_reference': .8}))
E('bifacial.utils.vf_ground_sky_2d', rotation=R('rot'), gcr=C(.4),
  x=C(.3, 0), pitch=C(5.), height=C(1.5), max_rows=C(None, 5), reps='a',
  axis=-1)
E('bifacial.utils.vf_ground_sky_2d_integ', tracker_rotation=R('rot'),
  gcr=C(.4), height=C(1.5), pitch=C(5.), max_rows=C(None, 5), reps='a',
  ends=Dep({}, {}, {'g0': .2, 'g1': .7}), how=Dep(
      {}, {'npoints': 30}, {'vectorize': True},
      {'npoints': 40, 'vectorize': True}))
E('bifacial.utils.vf_row_ground_2d', surface_tilt=R('tilt'), gcr=C(.4),
  x=C(.3))
E('bifacial.utils.vf_row_sky_2d', surface_tilt=R('tilt'), gcr=C(.4),
  x=C(.3))
E('bifacial.utils.vf_row_sky_2d_integ', surface_tilt=R('tilt'), gcr=C(.4),
  x0=C(None, .1), x1=C(None, .8))
E('bifacial.utils.vf_row_ground_2d_integ', surface_tilt=R('tilt'), gcr=C(.4),
  height=C(1.5), pitch=C(5.), x0=C(None, .1), x1=C(None, .8), reps='sa',
  max_rows=C(None, 4), ends=Dep({}, {}, {'g0': .2, 'g1': .7}))

# clear sky
E('clearsky.bird', zenith=R('zen'), airmass_relative=R('am'),
  aod380=RC('aod'), aod500=RC('aod'), precipitable_water=RC('pw'),
  ozone=C(None, .35), pressure=RO('press'), dni_extra=RO('ext'),
  asymmetry=C(None, .8), albedo=C(None, .25))
E('clearsky.haurwitz', apparent_zenith=R('zen'), reps='s')
E('clearsky.ineichen', apparent_zenith=R('zen'), airmass_absolute=R('amabs'),
  linke_turbidity=RC('lt'), altitude=C(0, 800), dni_extra=RO('ext'),
  perez_enhancement=C(None, True))
E('clearsky.simplified_solis', apparent_elevation=R('elev'),
  aod700=RC('aod'), precipitable_water=RC('pw'), pressure=RC('press'),
  dni_extra=RC('ext'))

# incidence angle
E('iam.ashrae', aoi=R('aoi'), b=C(None, .08))
E('iam.interp', aoi=R('aoi'), theta_ref=C([0, 20, 40, 60, 80, 90]),
  iam_ref=C([1., .99, .98, .94, .6, 0.], [.9, .89, .88, .84, .5, 0.]),
  method=C(None, 'linear'), normalize=C(None, True))
E('iam.martin_ruiz', aoi=R('aoi'), a_r=C(None, .2))
E('iam.martin_ruiz_diffuse', surface_tilt=R('tilt'), a_r=C(None, .2),
  c1=C(None, .4), c2=C(None, .05))
E('iam.physical', aoi=R('aoi'), n=C(None, 1.4), K=C(None, 3.),
  L=C(None, .003), n_ar=C(None, 1.3))
E('iam.sapm', aoi=R('aoi'), module=SAPM_MOD, upper=C(None, 1.0))
E('iam.schlick', aoi=R('aoi'))
E('iam.schlick_diffuse', surface_tilt=R('tilt'))
E('iam.marion_diffuse', surface_tilt=R('tilt'), how=Dep(
    {'model': 'physical'}, {'model': 'ashrae', 'b': .06},
    {'model': 'martin_ruiz'}, {'model': 'schlick'},
    {'model': 'martin_ruiz', 'a_r': .2},
    {'model': 'physical', 'n': 1.4, 'K': 5., 'L': .003}), reps='saf',
  heavy=3)
E('iam.marion_integrate', surface_tilt=R('tilt'), region=C(
    'sky', 'horizon', 'ground'), num=C(None, 90), reps='saf', heavy=3,
  make=lambda ctx, kw: (resolve('iam.marion_integrate'),
                        dict(kw, function=resolve('iam.ashrae'))))

# inverter, pvarray, transformer
E('inverter.sandia', v_dc=R('vdc'), p_dc=R('pdc'), inverter=SANDIA)
E('inverter.adr', v_dc=R('vdc'), p_dc=R('pdc'), inverter=ADR,
  vtol=C(None, .2))
E('inverter.pvwatts', pdc=R('pdc'), pdc0=C(4000., 5500),
  eta_inv_nom=C(None, .95), eta_inv_ref=C(None, .96))


def _multi(name, extra):
    def make(ctx, kw):
        out = dict(extra)
        for k in ('v_dc', 'p_dc', 'pdc'):
            if k + '0_' in kw:
                cls = tuple if ctx.inst['site'] % 2 else list
                out[k] = cls([kw[k + '0_'], kw[k + '1_']])
        out.update({k: v for k, v in kw.items() if not k.endswith('_')})
        return resolve(name), out
    return make


E('inverter.sandia_multi', v_dc0_=R('vdc'), v_dc1_=R('vdc'), p_dc0_=R('pdc'),
  p_dc1_=R('pdc'), inverter=SANDIA, make=_multi('inverter.sandia_multi', {}))
E('inverter.pvwatts_multi', pdc0_=R('pdc'), pdc1_=R('pdc'),
  eta_inv_nom=C(None, .95), eta_inv_ref=C(None, .97), make=_multi('inverter.pvwatts_multi',
                                        {'pdc0': 5000.}))
E('pvarray.pvefficiency_adr', effective_irradiance=R('poapos'),
  temp_cell=R('tcell'), k_a=C(100., 18.), k_d=C(-5.8), tc_d=C(.019),
  k_rs=C(.05), k_rsh=C(.21))
E('pvarray.huld', effective_irradiance=R('poapos'), temp_mod=R('tcell'),
  pdc0=C(100., 250.), how=Dep({'cell_type': 'csi'}, {'cell_type': 'cdte'},
                              {'cell_type': 'cis', 'k_version': 'pvgis6'},
                              {'k': (-1.7, -4., -.4, .01, .02, 5e-4)}))
E('pvarray.batzelis', effective_irradiance=R('poapos'), temp_cell=R('tcell'),
  v_mp=C(41.), i_mp=C(8.), v_oc=C(48.), i_sc=C(8.6), alpha_sc=C(.0005),
  beta_voc=C(-.003))
E('transformer.simple_efficiency', input_power=R('pdc'),
  no_load_loss=C(.002), load_loss=C(.007, 0.01), transformer_rating=C(6000.))

# irradiance
E('irradiance.aoi', args=SURF, **SUN)
E('irradiance.aoi_projection', args=SURF, **SUN)
E('irradiance.beam_component', args=SURF, **SUN, dni=R('dni'))
E('irradiance.poa_components', aoi=R('aoi'), dni=R('dni'),
  poa_sky_diffuse=R('dhi'), poa_ground_diffuse=R('dhi'))
E('irradiance.get_ground_diffuse', surface_tilt=RC('tilt'), ghi=R('ghi'),
  how=Dep({}, {'albedo': .3}, {'albedo': R('alb')},
          {'surface_type': 'snow'}))
E('irradiance.isotropic', surface_tilt=RC('tilt'), dhi=R('dhi'),
  return_components=C(None, True))
E('irradiance.klucher', args=SURF, dhi=R('dhi'), ghi=R('ghi'), **SUN)
E('irradiance.haydavies', args=SURF, dhi=R('dhi'), dni=R('dni'),
  dni_extra=RC('ext'), return_components=C(None, True), how=Dep(
      {'solar_zenith': R('zen'), 'solar_azimuth': R('sazi')},
      {'projection_ratio': R('kt')}))
E('irradiance.reindl', args=SURF, dhi=R('dhi'), dni=R('dni'), ghi=R('ghi'),
  dni_extra=RC('ext'), **SUN, return_components=C(None, True))
E('irradiance.king', surface_tilt=RC('tilt'), dhi=R('dhi'), ghi=R('ghi'),
  solar_zenith=R('zen'))
E('irradiance.perez', args=SURF, dhi=R('dhi'), dni=R('dni'),
  dni_extra=RC('ext'), **SUN, airmass=R('am'), model=C(
      None, 'allsitescomposite1988', 'usacomposite1988', 'france1988',
      'capecanaveral1988'), return_components=C(None, True))
E('irradiance.perez_driesse', args=SURF, dhi=R('dhi'), dni=R('dni'),
  dni_extra=RC('ext'), **SUN, airmass=RO('am'),
  return_components=C(None, True))
TRANS = Dep({'model': 'isotropic'}, {'model': 'klucher'},
            {'model': 'haydavies', 'dni_extra': R('ext')},
            {'model': 'reindl', 'dni_extra': R('ext')}, {'model': 'king'},
            {'model': 'perez', 'dni_extra': R('ext'), 'airmass': R('am')},
            {'model': 'perez', 'dni_extra': R('ext')},
            {'model': 'perez-driesse', 'dni_extra': R('ext')})
E('irradiance.get_sky_diffuse', args=SURF, **SUN, dni=R('dni'), ghi=R('ghi'),
  dhi=R('dhi'), how=TRANS, sky=Dep(
      {}, {}, {'model_perez': 'phoenix1988'}, {'return_components': True}))
E('irradiance.get_total_irradiance', args=SURF, **SUN, dni=R('dni'),
  ghi=R('ghi'), dhi=R('dhi'), how=TRANS, alb=Dep(
      {}, {'albedo': .3}, {'albedo': R('alb')}, {'surface_type': 'grass'}),
  sky=Dep({}, {}, {'model_perez': 'phoenix1988'},
          {'diffuse_components': True}))
LIM = dict(min_cos_zenith=C(None, None, .1), max_zenith=C(None, None, 82.))
DOY = Dep({'datetime_or_doy': R('doy')}, {'datetime_or_doy': 172})
for _n, _a in [
        ('disc', dict(ghi=R('ghi'), solar_zenith=R('zen'),
                      pressure=RO('press'), max_airmass=C(None, 10), **LIM)),
        ('erbs', dict(ghi=R('ghi'), zenith=R('zen'), **LIM)),
        ('boland', dict(ghi=R('ghi'), solar_zenith=R('zen'), a_coeff=C(
            None, 8.), b_coeff=C(None, .58), **LIM)),
        ('louche', dict(ghi=R('ghi'), solar_zenith=R('zen'), max_zenith=C(
            None, 85.))),
        ('orgill_hollands', dict(ghi=R('ghi'), zenith=R('zen'), **LIM)),
        ('erbs_driesse', dict(ghi=R('ghi'), zenith=R('zen'), **LIM))]:
    E('irradiance.' + _n, args=_a, how=DOY)
    E('irradiance.' + _n + ':time', args=_a, datetime_or_doy=T(),
      reps='sa')
E('irradiance.erbs_driesse:ext', ghi=R('ghi'), zenith=R('zen'),
  dni_extra=R('ext'))
E('irradiance.orgill_hollands:ext', ghi=R('ghi'), zenith=R('zen'),
  datetime_or_doy=C(1), dni_extra=R('ext'))
E('irradiance.dirint', ghi=R('ghi'), solar_zenith=R('zen'), times=T(),
  pressure=RO('press'), use_delta_kt_prime=C(False), temp_dew=RO('tdew'),
  reps='s', **LIM)
E('irradiance.dirint:delta', ghi=R('ghi'), solar_zenith=R('zen'), times=T(),
  pressure=RO('press'), use_delta_kt_prime=C(True), temp_dew=RO('tdew'),
  **LIM, reps='s', rec=False, order='sorted', min_n=3)
E('irradiance.dirindex', ghi=R('ghi'), ghi_clear=R('ghi'),
  dni_clear=R('dni'), zenith=R('zen'), times=T(), use_delta_kt_prime=C(
      False), temp_dew=RO('tdew'), pressure=RO('press'), **LIM, reps='s')
E('irradiance.dirindex:delta', ghi=R('ghi'), ghi_clear=R('ghi'),
  dni_clear=R('dni'), zenith=R('zen'), times=T(), use_delta_kt_prime=C(
      True), temp_dew=RO('tdew'), pressure=RO('press'), **LIM, reps='s',
  rec=False, min_n=3)
E('irradiance.gti_dirint', poa_global=R('poa'), aoi=R('aoi'), **SUN,
  times=T(), surface_tilt=C(20.), surface_azimuth=C(180.),
  use_delta_kt_prime=C(False), temp_dew=RO('tdew'), albedo=C(None, .3),
  calculate_gt_90=C(None, False), pressure=RO('press'),
  model_perez=C(None, 'france1988'), max_iterations=C(None, 5), reps='s',
  rec=False, min_n=3, heavy=4)
E('irradiance.gti_dirint:delta', poa_global=R('poa'), aoi=R('aoi'), **SUN,
  times=T(), surface_tilt=C(20.), surface_azimuth=C(180.),
  use_delta_kt_prime=C(True), model=C(None, 'haydavies'),
  reps='s', rec=False, min_n=3, heavy=4)
E('irradiance.campbell_norman', zenith=R('zen'), transmittance=RC('frac'),
  pressure=RO('press'), dni_extra=RO('ext'))
E('irradiance.clearness_index', ghi=R('ghi'), solar_zenith=R('zen'),
  extra_radiation=RC('ext'), min_cos_zenith=C(None, .1),
  max_clearness_index=C(None, 1.0))
E('irradiance.clearness_index_zenith_independent', clearness_index=R('kt'),
  airmass=R('am'), max_clearness_index=C(None, 1.))
E('irradiance.clearsky_index', ghi=R('ghi'), ghi_clear=R('ghi'),
  max_clearsky_index=C(None, 1.5))
E('irradiance.complete_irradiance', solar_zenith=R('zen'), how=Dep(
    {'ghi': R('ghi'), 'dhi': R('dhi')}, {'ghi': R('ghi'), 'dni': R('dni')},
    {'dni': R('dni'), 'dhi': R('dhi')},
    {'ghi': R('ghi'), 'dhi': R('dhi'), 'dni_clear': R('dni')}),
  reps='s')
E('irradiance.dni', ghi=R('ghi'), dhi=R('dhi'), zenith=R('zen'),
  dni_clear=RO('dni'), clearsky_tolerance=C(None, 1.05),
  zenith_threshold_for_zero_dni=C(None, 86.),
  zenith_threshold_for_clearsky_limit=C(None, 70.), reps='s')
E('irradiance.diffuse_par_spitters', daily_solar_zenith=R('zenday'),
  global_diffuse_fraction=R('frac'))
for _m in ('spencer', 'pyephem', 'asce', 'nrel'):
    if _m == 'pyephem':
        continue
    E('irradiance.get_extra_radiation:' + _m, datetime_or_doy=T(),
      method=C(_m), solar_constant=C(None, 1361.), epoch_year=C(None, 2020),
      reps='saf')
    if _m != 'nrel':
        E('irradiance.get_extra_radiation:doy_' + _m,
          datetime_or_doy=R('doy'), method=C(_m), reps='saf')
E('irradiance.ghi_from_poa_driesse_2023', args={**SURF, **SUN},
  poa_global=R('poa'), dni_extra=R('ext'), airmass=C(None),
  albedo=RO('alb'), xtol=C(None, .001), rtol=1e-6, atol=1e-3, heavy=6,
  full_output=C(None, True))
E('irradiance.ghi_from_poa_driesse_2024', args={**SURF, **SUN},
  poa_global=R('poa'), dni_extra=R('ext'), airmass=C(None),
  albedo=RO('alb'), xtol=C(None, .001), rtol=1e-6, atol=1e-3, heavy=6,
  full_output=C(None, True))

# shading
E('shading.ground_angle', surface_tilt=R('tilt'), gcr=C(.4, .6),
  slant_height=RC('x01'))
E('shading.masking_angle', surface_tilt=R('tilt'), gcr=C(.4, .6),
  slant_height=C(.2, 0))
E('shading.masking_angle_passias', surface_tilt=R('tilt'), gcr=C(.4, .6))
E('shading.sky_diffuse_passias', masking_angle=R('tilt'))
E('shading.projected_solar_zenith_angle', **SUN, axis_tilt=C(0, 10.),
  axis_azimuth=C(0, 170.))
E('shading.shaded_fraction1d', **SUN, axis_azimuth=C(0., 90.),
  shaded_row_rotation=R('rot'), collector_width=C(1.4, 2.), pitch=C(3.),
  axis_tilt=C(None, 5.), surface_to_axis_offset=C(None, .1),
  cross_axis_slope=C(None, 4.), shading_row_rotation=RO('rot'))
E('shading.direct_martinez', poa_global=R('poapos'), poa_direct=R('dhi'),
  shaded_fraction=R('shade'), shaded_blocks=R('shade'),
  total_blocks=C(1, 3))

# electrical
E('singlediode.bishop88', diode_voltage=R('v'), args=PVR, gradients=C(
    None, True), d2mutau=C(None, 1.5), NsVbi=C(None, 60.), breakdown_factor=C(
        None, .002), breakdown_voltage=C(None, -6.), breakdown_exp=C(
            None, 3.))
BREAK = dict(breakdown_factor=C(None, .002), breakdown_voltage=C(None, -6.),
             breakdown_exp=C(None, 3.), thin=Dep(
                 {}, {}, {'d2mutau': 1.5, 'NsVbi': 60.}), how=Dep(
                 {'method': 'newton'}, {'method': 'brentq'},
                 {'method': 'chandrupatla'},
                 {'method': 'newton', 'method_kwargs': {'maxiter': 80}},
                 {'method': 'newton', 'method_kwargs': {'tol': 1e-9}},
                 {'method': 'brentq', 'method_kwargs': {'maxiter': 300}}))
E('singlediode.bishop88_i_from_v', voltage=R('v'), args=PVR, **BREAK,
  rtol=1e-6, atol=1e-6, heavy=2)
E('singlediode.bishop88_v_from_i', current=R('pow'), args=dict(
    PVR, photocurrent=C(6., 7.)), **BREAK, rtol=1e-6, atol=1e-6, heavy=2)
E('singlediode.bishop88_mpp', args=PVRC, **BREAK, rtol=1e-6, atol=1e-5,
  heavy=2)
# (iterations cut short: the result depends on the batch)
COARSE = dict(rec=False, heavy=2, how=Dep(
    {'method': 'newton'}, {'method': 'newton', 'method_kwargs': {'tol': .3}},
    {'method': 'newton', 'method_kwargs': {'maxiter': 4}},
    {'method': 'brentq'}, {'method': 'brentq', 'method_kwargs': {'xtol': .1}},
    {'method': 'brentq', 'method_kwargs': {'maxiter': 15}}))
E('singlediode.bishop88_i_from_v:coarse', voltage=R('v'), args=PVR, **COARSE)
E('singlediode.bishop88_v_from_i:coarse', current=R('pow'), args=dict(
    PVR, photocurrent=C(6., 7.)), **COARSE)
E('singlediode.bishop88_mpp:coarse', args=PVRC, **COARSE)
E('singlediode.batzelis', args=PVR, rtol=1e-8)
E('singlediode.estimate_voc', photocurrent=R('IL'),
  saturation_current=R('I0'), nNsVth=R('nNsVth'))
METH = C(None, 'lambertw', 'newton', 'brentq', 'chandrupatla')
E('pvsystem.singlediode', args=PVRC, method=METH,
  rtol=1e-6, atol=1e-5, heavy=4)
E('pvsystem.i_from_v', voltage=R('v'), args=PVRC, method=METH, rtol=1e-6,
  atol=1e-6, heavy=2)
E('pvsystem.v_from_i', current=R('pow'), args=dict(
    PVRC, photocurrent=C(6., 7.)), method=METH, rtol=1e-6, atol=1e-6,
  heavy=2)
E('pvsystem.max_power_point', args=PVRC, d2mutau=C(None, 1.5),
  NsVbi=C(None, 60.), method=C(
      None, 'brentq', 'newton', 'chandrupatla'), rtol=1e-6,
  atol=1e-5, heavy=2)
_CEC = {k: plant.CEC_A[k] for k in ('alpha_sc', 'a_ref', 'I_L_ref',
                                    'I_o_ref', 'R_sh_ref', 'R_s')}
_CALC = {k: C(v) for k, v in _CEC.items()}
E('pvsystem.calcparams_desoto', effective_irradiance=R('poapos'),
  temp_cell=R('tcell'), args=_CALC, EgRef=C(None, 1.15),
  dEgdT=C(None, -.0003), irrad_ref=C(None, 900.), temp_ref=C(None, 20.))
E('pvsystem.calcparams_cec', effective_irradiance=R('poapos'),
  temp_cell=R('tcell'), args=_CALC, Adjust=C(8.7, 3.), EgRef=C(None, 1.15),
  irrad_ref=C(None, 900.), dEgdT=C(None, -.0003), temp_ref=C(None, 20.))
E('pvsystem.calcparams_pvsyst', effective_irradiance=R('poapos'),
  temp_cell=R('tcell'), **{k: C(v) for k, v in plant.PVSYST.items() if k in (
      'alpha_sc', 'gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref', 'R_sh_ref',
      'R_sh_0', 'R_s', 'cells_in_series')}, R_sh_exp=C(None, 4.),
  EgRef=C(None, 1.15), irrad_ref=C(None, 900.), temp_ref=C(None, 20.))
E('pvsystem.sapm', effective_irradiance=R('poa'), temp_cell=R('tcell'),
  module=SAPM_MOD, temperature_ref=C(None, 20.), irradiance_ref=C(
      None, 900.))
E('pvsystem.sapm_effective_irradiance', poa_direct=R('dni'),
  poa_diffuse=R('dhi'), airmass_absolute=R('amabs'), aoi=R('aoi'),
  module=SAPM_MOD)
E('pvsystem.pvwatts_dc', effective_irradiance=R('poa'), temp_cell=R('tcell'),
  pdc0=C(220., 310.), gamma_pdc=C(-.003, -.0045), temp_ref=C(None, 20.),
  how=Dep({}, {'k': .005}, {'k': .01, 'cap_adjustment': True}))
E('pvsystem.pvwatts_losses', soiling=RO('pow'), shading=RO('pow'),
  snow=RO('pow'), age=RO('pow'), mismatch=C(None, 1.), wiring=C(None, 3.),
  connections=C(None, .7), lid=C(None, 0), nameplate_rating=C(None, .5),
  availability=RO('pow'), reps='saf', nan=True)
E('pvsystem.dc_ohmic_losses', resistance=C(.05), current=R('i'))
E('pvsystem.dc_ohms_from_percent', vmp_ref=C(40.), imp_ref=C(8.),
  dc_ohmic_percent=C(1.5), modules_per_string=C(None, 9), strings=C(None, 2),
  rec=False)


def _svcp(ctx, kw):
    d = pd.DataFrame({k: ctx.raw(q, k) for k, q in (
        ('i_mp', 'i'), ('v_mp', 'v'), ('p_mp', 'pdc'), ('i_sc', 'i'),
        ('v_oc', 'v'), ('i_x', 'i'), ('i_xx', 'i'))}, index=ctx.index())
    return resolve('pvsystem.scale_voltage_current_power'), dict(kw, data=d)


E('pvsystem.scale_voltage_current_power', voltage=C(None, 9),
  current=C(None, 3), make=_svcp, reps='s')

# sun
DT = Dep({}, {'delta_t': 70.}, {'delta_t': 67.}, {'delta_t': None})


def _loc(fn, **fixed):
    """call with the location's latitude and longitude"""
    def make(ctx, kw):
        lat, lon, tz, alt = ctx.loc()
        return resolve(fn), dict(kw, latitude=lat, longitude=lon, **fixed)
    return make


E('solarposition.ephemeris', time=T(), how=Dep(
    {}, {'pressure': 90000., 'temperature': 20.}, {'pressure': R('press')},
    {'temperature': R('ta')}, {'pressure': R('press'),
                               'temperature': R('ta')}), make=_loc('solarposition.ephemeris'), reps='a',
  rtol=1e-7, atol=2e-5)
E('solarposition.get_solarposition', time=T(), method=C(
    'nrel_numpy', 'nrel_numpy', 'ephemeris'), how=Dep(
        {}, {'altitude': 500.}, {'pressure': 91000.},
        {'pressure': 91000., 'altitude': 20., 'temperature': 3.},
        {'pressure': R('press'), 'temperature': R('ta')}),
  make=_loc('solarposition.get_solarposition'), reps='a', rtol=1e-7,
  atol=2e-5)
E('solarposition.spa_python', time=T(), altitude=C(None, 400.),
  air=Dep({}, {'pressure': 90000., 'temperature': 3.}, {'pressure': R('press')},
          {'pressure': R('press'), 'temperature': R('ta')}), dt=DT,
  atmos_refract=C(None, .6), how=C(None, 'numpy'),
  make=_loc('solarposition.spa_python'), reps='a', atol=1e-7)
E('solarposition.nrel_earthsun_distance', time=T(), dt=DT,
  how=C(None, 'numpy'), reps='a')
E('solarposition.declination_cooper69', dayofyear=R('doy'))
E('solarposition.declination_spencer71', dayofyear=R('doy'))
E('solarposition.equation_of_time_pvcdrom', dayofyear=R('doy'))
E('solarposition.equation_of_time_spencer71', dayofyear=R('doy'))
E('solarposition.solar_azimuth_analytical', latitude=C(.6, -.8),
  hourangle=R('decl'), declination=R('decl'), zenith=R('frac'))
E('solarposition.solar_zenith_analytical', latitude=C(.6, -.8),
  hourangle=R('decl'), declination=R('decl'))
E('solarposition.hour_angle', times=T(), longitude=K('lonr'),
  equation_of_time=R('eot'), reps='sa', make=lambda ctx, kw: (
      resolve('solarposition.hour_angle'), dict(kw, times=_day(
          ctx, {'times': kw['times']}))))


def _day(ctx, kw):
    lat, lon, tz, alt = ctx.loc()
    t = kw.pop('times')
    if t.tz is None:
        t = t.tz_localize('UTC')
    t = t.tz_convert(tz)
    return t


def _sunset(which):
    def make(ctx, kw):
        lat, lon, tz, alt = ctx.loc()
        if abs(lat) > 60:
            lat = 45.
        t = _day(ctx, kw)
        kw = dict(kw, times=t, latitude=lat, longitude=lon)
        if which == 'sun_rise_set_transit_geometric':
            doy = t.dayofyear.to_numpy()
            sp = importlib.import_module('pvlib.solarposition')
            kw['declination'] = sp.declination_spencer71(doy)
            kw['equation_of_time'] = sp.equation_of_time_spencer71(doy)
        return resolve('solarposition.' + which), kw
    return make


E('solarposition.sun_rise_set_transit_spa', times=T(), dt=DT,
  how=C(None, 'numpy'),
  make=_sunset('sun_rise_set_transit_spa'), reps='a')
E('solarposition.sun_rise_set_transit_geometric', times=T(),
  make=_sunset('sun_rise_set_transit_geometric'), reps='a')

SPA = dict(unixtime=R('unix'))
E('spa.solar_position', args=SPA, lat=K('lat'), lon=K('lonr'), elev=C(100.),
  pressure=C(1013., 900.), temp=C(12., -5.), delta_t=C(67., 70.), atmos_refract=C(
      .5667), sst=C(None, True), reps='a', axis=-1, atol=1e-7)
E('spa.solar_position:esd', args=SPA, lat=K('lat'), lon=K('lonr'),
  elev=C(100.), pressure=C(1013.), temp=C(12.), delta_t=C(67., 70.),
  atmos_refract=C(.5667), esd=C(True), reps='a', axis=-1)
E('spa.earthsun_distance', args=SPA, delta_t=C(67., 70.), numthreads=C(1),
  reps='a')


def _tss(ctx, kw):
    d = ctx.raw('unix', 'unix') // 86400 * 86400
    return resolve('spa.transit_sunrise_sunset'), dict(
        kw, dates=d, numthreads=1)


E('spa.transit_sunrise_sunset', lat=C(45., -30.), lon=K('lonr'),
  delta_t=C(67.), make=_tss, reps='a', axis=-1)
E('spa.calculate_deltat', year=C(2015, 1999, 2030), month=C(1, 7),
  rec=False)

# spectrum
SPT = Dep({'module_type': 'multisi'}, {'module_type': 'monosi'},
          {'module_type': 'cigs'}, {'module_type': 'asi'})
E('spectrum.spectral_factor_firstsolar', precipitable_water=R('pw'),
  airmass_absolute=R('amabs'), how=Dep(
      {'module_type': 'cdte'}, {'module_type': 'polysi'},
      {'module_type': 'asi'},
      {'coefficients': (.85, -.02, -.006, .12, .03, -.0018)}),
  lim=Dep({}, {}, {'min_precipitable_water': .5, 'max_airmass_absolute': 6.},
          {'max_precipitable_water': 4., 'min_airmass_absolute': 1.}))
E('spectrum.spectral_factor_sapm', airmass_absolute=R('amabs'),
  module=SAPM_MOD)
E('spectrum.spectral_factor_caballero', precipitable_water=R('pw'),
  airmass_absolute=R('amabs'), aod500=R('aod'), how=Dep(
      *SPT.choices, {'coefficients': np.array(
          [1., -.03, .01, .002, -.001, .01, -.002, .001, .01, .002, .001,
           .001])}))
E('spectrum.spectral_factor_pvspec', airmass_absolute=R('amabs'),
  clearsky_index=R('frac'), how=Dep(
      *SPT.choices, {'coefficients': [.98, -.02, -.01, .03]}))
E('spectrum.spectral_factor_jrc', airmass=R('amabs'),
  clearsky_index=R('frac'), how=Dep({'module_type': 'multisi'},
                                    {'module_type': 'cdte'},
                                    {'coefficients': [.01, -.02, .003]}))
E('spectrum.spectral_factor_polo', precipitable_water=R('pw'),
  airmass_absolute=R('amabs'), aod500=R('aod'), aoi=R('tilt'),
  pressure=R('press'), how=Dep({'module_type': 'monosi'},
                               {'module_type': 'cdte'}),
  albedo=C(None, .3))
E('spectrum.get_reference_spectra', wavelengths=C(
    None, [300, 500.5, 900, 2000], np.array([300, 410, 900.])), standard=C(
        None, 'ASTM G173-03'), rec=False)
E('spectrum.get_example_spectral_response', wavelength=C(
    None, [300, 500.5, 900, 1150], np.array([300, 410, 900.])), rec=False)


def _mismatch(ctx, kw):
    sp = importlib.import_module('pvlib.spectrum')
    wl = np.arange(300, 1500, 100.)
    v = np.column_stack([ctx.raw('poa', f'w{int(w)}') / 500 for w in wl])
    sr = pd.Series(np.interp(wl, [300, 400, 900, 1200], [0, .3, .7, 0]), wl)
    if ctx.rep == 's':
        e = pd.DataFrame(v, columns=wl, index=ctx.index())
    else:
        e = pd.Series(v[0], wl)
    return sp.calc_spectral_mismatch_field, dict(kw, sr=sr, e_sun=e)


E('spectrum.calc_spectral_mismatch_field', make=_mismatch, reps='sf')


def _ape(ctx, kw):
    fn, k = _mismatch(ctx, kw)
    return importlib.import_module('pvlib.spectrum').average_photon_energy, \
        {'spectra': k['e_sun']}


E('spectrum.average_photon_energy', make=_ape, reps='sf')


def _qe(which):
    def make(ctx, kw):
        sp = importlib.import_module('pvlib.spectrum')
        wl = np.arange(300, 1200, 100.)
        v = np.interp(wl, [300, 500, 1000, 1200], [.1, .9, .8, 0])
        v = pd.Series(v, wl, name='q')
        arg = {'sr_to_qe': 'sr', 'qe_to_sr': 'qe'}[which]
        return getattr(sp, which), dict(kw, **{arg: v})
    return make


E('spectrum.sr_to_qe', normalize=C(None, True), make=_qe('sr_to_qe'),
  rec=False)
E('spectrum.qe_to_sr', normalize=C(None, True), make=_qe('qe_to_sr'),
  rec=False)

# temperature
TEMP = dict(poa_global=R('poa'), temp_air=R('ta'), wind_speed=RC('ws'))
E('temperature.faiman', args=TEMP, u0=C(None, 22.), u1=C(None, 5.))
E('temperature.faiman_rad', args=TEMP, ir_down=RO('ir'), sky_view=C(
    None, .9), u0=C(None, 22.), u1=C(None, 5.), emissivity=C(None, .9))
E('temperature.generic_linear', args=TEMP, u_const=C(25.), du_wind=C(5.),
  module_efficiency=C(.18), absorptance=C(.9))
E('temperature.noct_sam', args=TEMP, noct=C(45., 49.),
  module_efficiency=C(.2), effective_irradiance=RO('poa'),
  array_height=C(None, 2), mount_standoff=C(None, 1, 3),
  transmittance_absorptance=C(None, .85))
E('temperature.pvsyst_cell', args=TEMP, u_c=C(None, 20.), u_v=C(None, 2.),
  module_efficiency=C(None, .2), alpha_absorption=C(None, .85))
E('temperature.ross', poa_global=R('poa'), temp_air=R('ta'), how=Dep(
    {'noct': 45.}, {'k': .0208}))
E('temperature.sapm_cell', args=TEMP, a=C(-3.47), b=C(-.0594), deltaT=C(3.),
  irrad_ref=C(None, 900.))
E('temperature.sapm_module', args=TEMP, a=C(-3.47), b=C(-.0594))
E('temperature.sapm_cell_from_module', module_temperature=R('tcell'),
  poa_global=R('poa'), deltaT=C(3., 1.), irrad_ref=C(None, 900.))
E('temperature.fuentes', poa_global=R('poa'), temp_air=R('ta'),
  wind_speed=R('ws'), noct_installed=C(45., 49.), module_height=C(None, 3.),
  wind_height=C(None, 10.), emissivity=C(None, .9), absorption=C(None, .8),
  surface_tilt=C(None, 10), module_width=C(None, 1.), module_length=C(
      None, 1.6), index='time', reps='s',
  rec=False, min_n=3, order='sorted', time=True)
E('temperature.prilliman', temp_cell=R('tcell'), wind_speed=R('ws'),
  index='time', reps='s', rec=False, min_n=5, order='sorted', time=True,
  coefficients=C(None, [.005, .0004, -.0002, -2e-5]), unit_mass=C(
      None, 15.))



def _glm(ctx, kw):
    t = importlib.import_module('pvlib.temperature')

    def build():
        m = t.GenericLinearModel(.19, .88)
        getattr(m, 'use_' + use[0])(**use[1])
        return m
    use = kw.pop('use')
    m = ctx.obj('glm' + use[0] + str(len(use[1])), build)
    if ctx.inst['site'] % 4:
        return m, kw

    def to(model):
        # (the model the caller reads off, in every form)
        return model.get_generic_linear(), model.to_faiman(), \
            model.to_pvsyst(), model.to_noct_sam(), model.to_sapm()
    return to, {'model': m}


E('temperature.GenericLinearModel', args=TEMP, module_efficiency=C(
    None, None, .1), use=C(
        ('faiman', {'u0': 25., 'u1': 6.8}),
        ('pvsyst', {'u_c': 29., 'u_v': 0.}),
        ('pvsyst', {'u_c': 29., 'u_v': 1., 'module_efficiency': .12,
                    'alpha_absorption': .85}),
        ('noct_sam', {'noct': 46.}),
        ('noct_sam', {'noct': 46., 'module_efficiency': .15}),
        ('sapm', {'a': -3.47, 'b': -.0594})), make=_glm)

# tracking
E('tracking.singleaxis', apparent_zenith=R('zen'), solar_azimuth=R('sazi'),
  axis_tilt=C(None, 10.), axis_azimuth=C(None, 170.), max_angle=C(
      None, 60., (-40, 50)), backtrack=C(None, False), gcr=C(None, .4),
  cross_axis_tilt=C(None, 5.), reps='saf')
E('tracking.calc_surface_orientation', tracker_theta=R('rot'),
  axis_tilt=C(None, 10.), axis_azimuth=C(None, 170.))
E('tracking.calc_axis_tilt', slope_azimuth=C(100.), slope_tilt=C(12.),
  axis_azimuth=C(180.), rec=False)
E('tracking.calc_cross_axis_tilt', slope_azimuth=C(100.), slope_tilt=C(12.),
  axis_azimuth=C(180.), axis_tilt=C(5.), rec=False)

# snow, soiling, scaling (records depend on each other)
E('snow.fully_covered_nrel', snowfall=R('pow'), snow_depth=RO('pow'),
  threshold_snowfall=C(None, .5), threshold_depth=C(None, .3),
  index='time', reps='s', rec=False, min_n=4, order='sorted', time=True)
E('snow.coverage_nrel', snowfall=R('v_s'), poa_irradiance=R('poa'),
  temp_air=R('ta'), surface_tilt=C(20., 45.), snow_depth=RO('v_s'),
  initial_coverage=C(None, .4), threshold_snowfall=C(None, 2.),
  threshold_depth=C(None, 1.2), can_slide_coefficient=C(None, -60.),
  slide_amount_coefficient=C(None, .3), index='time', reps='s', rec=False, min_n=4,
  order='sorted', time=True)
E('snow.dc_loss_nrel', snow_coverage=R('cov'), num_strings=C(2, 8))
E('snow.loss_townsend', snow_total=R('v_s'), snow_events=R('v_s'),
  surface_tilt=C(20., 45.), relative_humidity=R('rh'), temp_air=R('ta'),
  poa_global=R('poapos'), slant_height=C(2.5), lower_edge_height=C(.8),
  string_factor=C(None, .75), angle_of_repose=C(None, 35),
  reps='a', rec=False, make=lambda ctx, kw: (
      resolve('snow.loss_townsend'),
      {k: (np.resize(v, 12) if isinstance(v, np.ndarray) else v)
       for k, v in kw.items()}), min_n=12)
E('soiling.kimber', rainfall=R('v_s'), cleaning_threshold=C(None, 2),
  soiling_loss_rate=C(None, .01), grace_period=C(1, 3),
  initial_soiling=C(None, .02), max_soiling=C(None, .03),
  rain_accum_period=C(None, 12), index='time', reps='s', rec=False, min_n=4,
  order='sorted', time=True)
E('soiling.hsu', rainfall=R('v_s'), cleaning_threshold=C(1., 3.),
  surface_tilt=C(20.), pm2_5=C(2e-5), pm10=C(6e-5), depo_veloc=C(
      None, {'2_5': .002, '10': .006}), rain_accum_period=C(
          None, pd.Timedelta('2h')), index='time', reps='s', rec=False,
  min_n=4, order='sorted', time=True)
E('scaling.latlon_to_xy', rec=False, make=lambda ctx, kw: (
    resolve('scaling.latlon_to_xy'), {'coordinates': [
        (40.1, -105.), (40.2, -105.1), (40.15, -105.05)]}))
E('scaling.wvm', clearsky_index=R('frac'), cloud_speed=C(15., 8.),
  positions=C([[0, 0], [100, 0], [0, 150]]), dt=C(None, 3600), index='time',
  reps='s',
  rec=False, min_n=8, order='sorted', time=True)
E('clearsky.detect_clearsky', measured=R('ghi'), clearsky=R('ghi'),
  index='time', reps='s', rec=False, min_n=12, order='sorted', time=True,
  window_length=C(4), return_components=C(None, True), lim=Dep(
      {}, {}, {'mean_diff': 60., 'max_diff': 60.}, {'slope_dev': 10.},
      {'lower_line_length': -20., 'upper_line_length': 40.},
      {'var_diff': .01}, {'max_iterations': 5}),
  make=lambda ctx, kw: (resolve('clearsky.detect_clearsky'),
                        dict(kw, window_length=4 * ctx.inst['step'])))
E('pvsystem.combine_loss_factors', a_=R('pow'), b_=R('pow'), index='time',
  reps='s', rec=False, min_n=3, order='sorted', time=True,
  make=lambda ctx, kw: (
      lambda index, a, b: resolve('pvsystem.combine_loss_factors')(
          index, a, b), dict(index=kw['a_'].index, a=kw['a_'],
                             b=kw['b_'].iloc[::2])))



def _linke(ctx, kw):
    lat, lon, tz, alt = ctx.loc()
    return resolve('clearsky.lookup_linke_turbidity'), dict(
        kw, latitude=lat, longitude=lon, filepath=LINKE)


LINKE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'samples',
                     'linke.h5')         # written by tools/mklinke.py
E('clearsky.lookup_linke_turbidity', time=T(), interp_turbidity=C(
    None, False), make=_linke, reps='a')

# tools
for _n in ('cosd', 'sind', 'tand'):
    E('tools.' + _n, angle=R('rot'))
for _n in ('acosd', 'asind', 'atand'):
    E('tools.' + _n, number=R('pow'))


def _djd(ctx, kw):
    return resolve('tools.datetime_to_djd'), {
        'time': ctx.times()[0].tz_localize(None).to_pydatetime() if
        ctx.tz is None else ctx.times()[0].to_pydatetime()}


E('tools.datetime_to_djd', make=_djd, rec=False, time=True)


def _l2u(ctx, kw):
    lat, lon, tz, alt = ctx.loc()
    import types
    v = ctx.raw('ghi', 'ghi')
    d = pd.DataFrame({'a': v}, index=ctx.times())
    return resolve('tools.localize_to_utc'), {
        'time': d, 'location': plant.build_location(
            {'lat': lat, 'lon': lon, 'tz': tz, 'alt': alt})}


E('tools.localize_to_utc', make=_l2u, reps='s', rec=False, time=True)

# fits (whole-batch by nature)


def _ivcurve(ctx, kw):
    ps = importlib.import_module('pvlib.pvsystem')
    p = [ctx.const(q, q) for q in IVP]
    voc = float(ps.v_from_i(0., *p))
    v = np.linspace(0, voc, 40)
    i = ps.i_from_v(v, *p)
    return v, np.asarray(i)


E('ivtools.sde.fit_sandia_simple', rec=False, make=lambda ctx, kw: (
    resolve('ivtools.sde.fit_sandia_simple'),
    dict(zip(('voltage', 'current'), _ivcurve(ctx, kw)), **kw)), rtol=1e-7,
  vlim=C(None, .3), ilim=C(None, .15))
E('ivtools.utils.rectify_iv_curve', rec=False, decimals=C(None, 3),
  make=lambda ctx, kw: (resolve('ivtools.utils.rectify_iv_curve'),
                        dict(zip(('voltage', 'current'), _ivcurve(ctx, kw)),
                             **kw)))
E('ivtools.utils.astm_e1036', rec=False, make=lambda ctx, kw: (
    resolve('ivtools.utils.astm_e1036'),
    dict(zip(('v', 'i'), _ivcurve(ctx, kw)), **kw)), rtol=1e-7,
  mp_fit_order=C(None, 3), imax_limits=C(None, (.7, 1.1)), vmax_limits=C(
      None, (.7, 1.1)), voc_points=C(None, 4), isc_points=C(None, 4))
E('ivtools.sdm.fit_desoto', rec=False, heavy=4, make=lambda ctx, kw: (
    resolve('ivtools.sdm.fit_desoto'), dict(
        v_mp=31.0, i_mp=8.71, v_oc=38.3, i_sc=9.43, alpha_sc=.005658,
        beta_voc=-.13788, cells_in_series=60)), rtol=1e-5)
E('iam.fit', rec=False, heavy=3, rtol=1e-5, measured_aoi=C(
    [0., 10, 30, 50, 70, 80, 85]), measured_iam=C(
        [1., 1, .99, .97, .86, .7, .5]), model_name=C(
            'ashrae', 'martin_ruiz', 'physical'), xtol=C(None, 1e-6),
  make=lambda ctx, kw: (resolve('iam.fit'), {
      k: np.array(v) if isinstance(v, list) else v for k, v in kw.items()}))
E('iam.convert', rec=False, heavy=3, rtol=1e-5, source_name=C('ashrae'),
  source_params=C({'b': .05}), target_name=C('physical', 'martin_ruiz'),
  xtol=C(None, 1e-6), fix_n=C(None, False))
E('pvarray.fit_pvefficiency_adr', rec=False, heavy=3, rtol=1e-4, atol=1e-5,
  effective_irradiance=C([100., 200, 400, 600, 800, 1000, 1000, 1000]),
  temp_cell=C([25., 25, 25, 25, 25, 25, 50, 75]),
  eta=C([16., 17, 17.8, 18, 18.1, 18, 16.5, 15.]), dict_output=C(
      None, False))
E('inverter.fit_sandia', rec=False, heavy=2, rtol=1e-6, make=lambda ctx, kw: (
    resolve('inverter.fit_sandia'), _fit_inv()))


def _fit_inv():
    pdc = np.tile(np.array([400., 800, 1600, 2400, 3200, 4200]), 3)
    vdc = np.repeat([200., 400., 550.], 6)
    lev = np.repeat(['Vmin', 'Vnom', 'Vmax'], 6)
    pac = pdc * .96 - 20 - 1e-6 * pdc ** 2 + .01 * (vdc - 400)
    return dict(ac_power=pac, dc_power=pdc, dc_voltage=vdc,
                dc_voltage_level=lev, p_ac_0=4000., p_nt=.5)


# -- objects ------------------------------------------------------------------------

def _cfg(ctx):
    return ctx.inst['plant']


def _location(ctx):
    lat, lon, tz, alt = ctx.loc()
    return ctx.obj(('loc', ctx.inst['loc']), lambda: plant.build_location(
        {'lat': lat, 'lon': lon, 'tz': tz, 'alt': alt}))


E('location.get_solarposition', times=T(), pressure=C(None, 90000.),
  temperature=C(None, 3.), method=C(None, 'nrel_numpy', 'ephemeris'),
  make=lambda ctx, kw: (_location(ctx).get_solarposition, kw), reps='a',
  rtol=1e-7, atol=2e-5)
E('location.get_clearsky', times=T(), how=Dep(
    {'model': 'simplified_solis'}, {'model': 'haurwitz'},
    {'model': 'simplified_solis', 'aod700': .2, 'precipitable_water': 2.},
    {'model': 'ineichen', 'linke_turbidity': 3.}),
  make=lambda ctx, kw: (_location(ctx).get_clearsky, kw), reps='a',
  rtol=1e-7, atol=1e-5)
E('location.get_airmass', times=T(), model=C(None, 'simple',
                                             'young1994'),
  make=lambda ctx, kw: (_location(ctx).get_airmass, kw), reps='a', rtol=1e-7,
  atol=1e-5)
E('location.get_sun_rise_set_transit', times=T(), method=C(None, 'spa'),
  make=lambda ctx, kw: (_location(ctx).get_sun_rise_set_transit, dict(
      kw, times=_day(ctx, dict(kw)))), reps='a')
E('location.lookup_altitude', rec=False, make=lambda ctx, kw: (
    resolve('location.lookup_altitude'), dict(zip(
        ('latitude', 'longitude'), ctx.loc()[:2]))))
E('location.Location', rec=False, make=lambda ctx, kw: (
    lambda latitude, longitude: _as_dict(resolve('location.Location')(
        latitude, longitude)), dict(zip(('latitude', 'longitude'),
                                        ctx.loc()[:2]))))


def _as_dict(loc):
    return {k: getattr(loc, k) for k in ('latitude', 'longitude', 'tz',
                                         'altitude', 'name')}


def _system(ctx):
    from dst.core import canon
    return ctx.obj('sys' + canon(_cfg(ctx)), lambda: plant.build_system(
        _cfg(ctx)))


def _plantgen(rng):
    return plant.gen_plant(rng)


def with_plant(f, gen=_plantgen):
    f.plant = gen
    return f


def _per_array(ctx, q, name):
    n = len(_cfg(ctx)['arrays'])
    v = [ctx.wrap(ctx.raw(q, f'{name}{i}' if i else name), name)
         for i in range(n)]
    return tuple(v) if n > 1 else v[0]


def _sys_call(method, quantities, extra=None):
    def make(ctx, kw):
        s = _system(ctx)
        kw = dict(kw)
        for a, q in quantities.items():
            kw[a] = _per_array(ctx, q, a)
        if extra:
            kw.update(extra(ctx))
        return getattr(s, method), kw
    return make


def gen_dc(*dcs):
    def g(rng):
        c = plant.gen_plant(rng)
        while c['dc'] not in dcs:
            c = plant.gen_plant(rng)
        return c
    return g


def gen_temp(rng):
    c = plant.gen_plant(rng)
    while c['temp'] == 'fuentes':
        c = plant.gen_plant(rng)
    return c


E('pvsystem.PVSystem.get_aoi', **SUN, make=with_plant(_sys_call(
    'get_aoi', {})), reps='s')
E('pvsystem.PVSystem.get_irradiance', **SUN, dni=R('dni'), ghi=R('ghi'),
  dhi=R('dhi'), how=TRANS, albedo=RO('alb'), make=with_plant(_sys_call(
      'get_irradiance', {})), reps='s')
E('pvsystem.PVSystem.get_iam', make=with_plant(_sys_call(
    'get_iam', {'aoi': 'aoi'}, lambda ctx: {
        'iam_model': _cfg(ctx)['iam'] if _cfg(ctx)['iam'] != 'no_loss'
        else 'schlick'})), reps='s')
E('pvsystem.PVSystem.get_cell_temperature', make=with_plant(_sys_call(
    'get_cell_temperature', {'poa_global': 'poa', 'temp_air': 'ta',
                             'wind_speed': 'ws'},
    lambda ctx: {'model': _cfg(ctx)['temp']}), gen_temp), reps='s')
for _m, _dc in (('calcparams_desoto', ('desoto', 'cec')),
                ('calcparams_cec', ('cec',)),
                ('calcparams_pvsyst', ('pvsyst',)), ('sapm', ('sapm',)),
                ('pvwatts_dc', ('pvwatts',))):
    E('pvsystem.PVSystem.' + _m, make=with_plant(_sys_call(
        _m, {'effective_irradiance': 'poapos', 'temp_cell': 'tcell'}),
        gen_dc(*_dc)), reps='s')
E('pvsystem.PVSystem.sapm_effective_irradiance', make=with_plant(_sys_call(
    'sapm_effective_irradiance', {'poa_direct': 'dni', 'poa_diffuse': 'dhi',
                                  'aoi': 'aoi'},
    lambda ctx: {'airmass_absolute': ctx.wrap(ctx.raw('amabs', 'am'))}),
    lambda rng: dict(gen_dc('sapm')(rng), iam='sapm')), reps='s')
E('pvsystem.PVSystem.get_ac', make=with_plant(_sys_call(
    'get_ac', {'p_dc': 'pdc', 'v_dc': 'vdc'},
    lambda ctx: {'model': 'sandia'}),
    lambda rng: dict(plant.gen_plant(rng), ac='sandia')), reps='s')
E('pvsystem.Mount.get_orientation', **SUN, make=with_plant(
    lambda ctx, kw: (_system(ctx).arrays[0].mount.get_orientation, kw)),
  reps='s')


def _sdm_curves(ctx, model):
    """measured I-V curves of one module over irradiance and temperature"""
    ps = importlib.import_module('pvlib.pvsystem')
    ee = np.repeat([200., 400., 600., 800., 1000.], 3)
    tc = np.tile([25., 40., 55.], 5)
    d = 1 + ctx.const('pow', 'module') / 20
    if model == 'desoto':
        p = ps.calcparams_desoto(ee, tc, .003, 1.6 * d, 6.1, 3e-10, 300., .3)
    else:
        p = ps.calcparams_pvsyst(ee, tc, .003, 1.1 * d, -.0003, 6.1, 5e-10,
                                 300., 1000., .3, 60)
    r = ps.singlediode(*p)
    r = {k: np.asarray(r[k]) for k in r.keys()}
    v = [np.linspace(0, x, 30) for x in r['v_oc']]
    i = [np.clip(np.asarray(ps.i_from_v(v[j], *[
        float(np.broadcast_to(np.asarray(x), ee.shape)[j]) for x in p])), 0,
        None) for j in range(len(v))]
    return dict(ivcurves=dict(
        i=i, v=v, ee=ee, tc=tc, i_sc=r['i_sc'], v_oc=r['v_oc'],
        i_mp=r['i_mp'], v_mp=r['v_mp']),
        specs={'cells_in_series': 60, 'alpha_sc': .003, 'beta_voc': -.13})


def _fit_curves(model):
    def make(ctx, kw):
        return (resolve(f'ivtools.sdm.fit_{model}_sandia'),
                dict(_sdm_curves(ctx, model), **kw))
    return make


for _m in ('desoto', 'pvsyst'):
    E(f'ivtools.sdm.fit_{_m}_sandia', rec=False, heavy=9, rtol=1e-4,
      atol=1e-5, maxiter=C(2, 3), eps1=C(None, 1e-2), const=C(None, {
          'E0': 1000.0, 'T0': 25.0, 'k': 1.38066e-23, 'q': 1.602e-19}),
      make=_fit_curves(_m))
E('ivtools.sdm.fit_desoto_batzelis', rec=False, v_mp=C(31., 36.), i_mp=C(
    8.71), v_oc=C(38.3 + 6), i_sc=C(9.43), alpha_sc=C(.005658),
  beta_voc=C(-.13788))
E('ivtools.sdm.fit_desoto:guess', rec=False, heavy=4, rtol=1e-5,
  make=lambda ctx, kw: (resolve('ivtools.sdm.fit_desoto'), dict(
      kw, v_mp=31.0, i_mp=8.71, v_oc=38.3, i_sc=9.43, alpha_sc=.005658,
      beta_voc=-.13788, cells_in_series=60)),
  init_guess=C({'Rs_0': .28}, {'IL_0': 9.4, 'Rsh_0': 120.}),
  root_kwargs=C(None, {'options': {'xtol': 1e-10}}))
E('ivtools.sdm.pvsyst_temperature_coeff', rec=False, alpha_sc=C(.003),
  gamma_ref=C(1.1, 1.2), mu_gamma=C(-.0003), I_L_ref=C(6.1), I_o_ref=C(5e-10),
  R_sh_ref=C(300.), R_sh_0=C(1000.), R_s=C(.3), cells_in_series=C(60),
  R_sh_exp=C(None, 6.), EgRef=C(None, 1.15), irrad_ref=C(None, 900.),
  temp_ref=C(None, 20.))


def _iec61853(ctx, kw):
    ps = importlib.import_module('pvlib.pvsystem')
    ee = np.array([100, 100, 200, 200, 400, 400, 400, 600, 600, 600, 600,
                   800, 800, 800, 800, 1000, 1000, 1000, 1000, 1100, 1100,
                   1100], dtype=float)
    tc = np.array([15, 25, 15, 25, 15, 25, 50, 15, 25, 50, 75, 15, 25, 50,
                   75, 15, 25, 50, 75, 25, 50, 75], dtype=float)
    r = ps.singlediode(*ps.calcparams_pvsyst(
        ee, tc, .003, 1.1 + ctx.const('pow', 'module') / 10, -.0003, 6.1,
        5e-10, 300., 1000., .3, 60))
    return resolve('ivtools.sdm.fit_pvsyst_iec61853_sandia_2025'), dict(
        kw, effective_irradiance=ee, temp_cell=tc, cells_in_series=60,
        **{k: np.asarray(r[k]) for k in ('i_sc', 'v_oc', 'i_mp', 'v_mp')})


E('ivtools.sdm.fit_pvsyst_iec61853_sandia_2025', rec=False, heavy=4,
  rtol=1e-4, atol=1e-6, min_Rsh_irradiance=C(None, 300.), EgRef=C(None, 1.1), r_sh_coeff=C(None, .3),
  R_s=C(None, .35), make=_iec61853)

E('spectrum.spectrl2', apparent_zenith=R('zenday'), aoi=R('zenday'),
  surface_tilt=C(20., 45.), ground_albedo=C(.2), surface_pressure=RC('press'),
  relative_airmass=R('am'), precipitable_water=RC('pw'), ozone=C(.31),
  aerosol_turbidity_500nm=RC('aod'), dayofyear=C(75, 200),
  scattering_albedo_400nm=C(None, .9), alpha=C(None, 1.2),
  wavelength_variation_factor=C(None, .1), aerosol_asymmetry_factor=C(
      None, .7),
  reps='a', axis=1, heavy=2, post=lambda r: {
      k: v for k, v in r.items() if k not in ('wavelength', 'dni_extra')})
ANTS = dict(
    SUN, tracker_rotation=R('rot'), axis_azimuth=C(180.), gcr=C(.4, .3),
    height=C(1.5), pitch=C(5.), ghi=R('ghi'), dhi=R('dhi'), dni=R('dni'),
    albedo=C(.2, .3), how=Dep({'model': 'isotropic'}, {
        'model': 'haydavies', 'dni_extra': R('ext')}), max_rows=C(3),
    ground_segments=C(None, 4), axis_tilt=C(None, 5.),
    cross_axis_slope=C(None, 3.))
E('bifacial.ants2d.get_irradiance', args=ANTS, reps='saf', heavy=3)
E('bifacial.ants2d.get_irradiance:segments', args=dict(
    ANTS, row_segments=C(3, [[0, .5], [.5, 1]]),
    return_ground_components=C(None, True)), reps='a', heavy=3, axis=-1)
E('tools.djd_to_datetime', rec=False, djd=C(43910.25, 44000.75), tz=C(
    None, 'America/Denver'))
E('pvsystem.PVSystem.first_solar_spectral_loss', make=with_plant(
    lambda ctx, kw: (_system(ctx).first_solar_spectral_loss, kw),
    lambda rng: dict(plant.gen_plant(rng), spec='first_solar')), pw=R('pw'),
  airmass_absolute=R('amabs'), reps='s')


# the parts of a plant
def _arr_call(method, quantities=None, extra=None):
    def make(ctx, kw):
        a = _system(ctx).arrays[-1]
        kw = dict(kw)
        for k, q in (quantities or {}).items():
            kw[k] = ctx.wrap(ctx.raw(q, k), k)
        if extra:
            kw.update(extra(ctx))
        return getattr(a, method), kw
    return with_plant(make, gen_temp)


E('pvsystem.Array.get_aoi', **SUN, make=_arr_call('get_aoi'), reps='saf')
E('pvsystem.Array.get_irradiance', **SUN, dni=R('dni'), ghi=R('ghi'),
  dhi=R('dhi'), how=Dep(
      {}, {'model': 'isotropic'}, {'model': 'klucher'}, {'model': 'reindl'},
      {'model': 'haydavies', 'dni_extra': K('ext')},
      {'model': 'perez', 'dni_extra': R('ext'), 'airmass': R('am')},
      {'model': 'perez', 'dni_extra': R('ext'), 'airmass': R('am'),
       'model_perez': 'france1988'},
      {'model': 'perez-driesse', 'dni_extra': R('ext')}),
  albedo=RO('alb'), make=_arr_call('get_irradiance'), reps='s',
  index='time', time=True)
E('pvsystem.Array.get_iam', aoi=R('aoi'), make=_arr_call(
    'get_iam', extra=lambda ctx: {
        'iam_model': _cfg(ctx)['iam'] if _cfg(ctx)['iam'] != 'no_loss'
        else 'ashrae'}), reps='saf')
E('pvsystem.Array.get_cell_temperature', poa_global=R('poa'),
  temp_air=R('ta'), wind_speed=R('ws'), make=_arr_call(
      'get_cell_temperature', extra=lambda ctx: {
          'model': _cfg(ctx)['temp']}), reps='saf')
E('pvsystem.Array.dc_ohms_from_percent', rec=False, make=with_plant(
    lambda ctx, kw: (_system(ctx).arrays[-1].dc_ohms_from_percent, kw),
    gen_dc('sapm', 'cec', 'desoto', 'pvsyst')))
E('pvsystem.PVSystem.dc_ohms_from_percent', rec=False, make=with_plant(
    lambda ctx, kw: (_system(ctx).dc_ohms_from_percent, kw),
    gen_dc('sapm', 'cec', 'desoto', 'pvsyst')))
E('pvsystem.PVSystem.pvwatts_losses', rec=False, make=with_plant(
    lambda ctx, kw: (_system(ctx).pvwatts_losses, kw)))
E('pvsystem.PVSystem.get_ac:adr', make=with_plant(_sys_call(
    'get_ac', {'p_dc': 'pdc', 'v_dc': 'vdc'}, lambda ctx: {'model': 'adr'}),
    lambda rng: dict(plant.gen_plant(rng, n_arrays=1), dc='cec',
                     ac='adr')), reps='s')
E('pvsystem.PVSystem.get_ac:pvwatts', make=with_plant(_sys_call(
    'get_ac', {'p_dc': 'pdc'}, lambda ctx: {'model': 'pvwatts'}),
    lambda rng: dict(plant.gen_plant(rng), ac='pvwatts')), reps='s')
E('pvsystem.PVSystem.sapm_spectral_loss', make=with_plant(
    lambda ctx, kw: (_system(ctx).sapm_spectral_loss, kw),
    lambda rng: dict(gen_dc('sapm')(rng), spec='sapm')),
  airmass_absolute=R('amabs'), reps='s')
E('pvsystem.PVSystem.singlediode', **PVR, make=with_plant(
    lambda ctx, kw: (_system(ctx).singlediode, kw)), reps='sa', rtol=1e-6,
  atol=1e-8)
E('pvsystem.PVSystem.i_from_v', voltage=R('cell_v'), **PVR, make=with_plant(
    lambda ctx, kw: (_system(ctx).i_from_v, kw)), reps='sa', rtol=1e-6,
  atol=1e-8)


def _library(ctx, kw):
    """a library of components, some of the entries"""
    def get(**kw):
        df = resolve('pvsystem.retrieve_sam')(**kw)
        part = df.iloc[:, ctx.inst['site'] % 7::97].copy()
        for c in part.columns:       # the library is the caller's own
            df[c] = 'overwritten'
        return part
    return get, kw


E('pvsystem.retrieve_sam', rec=False, heavy=4, make=_library, how=Dep(
    {'name': 'SandiaMod'}, {'name': 'CECInverter'},
    {'name': 'SandiaInverter'}, {'name': 'ADRInverter'}))


def _own(*objects):
    """the attributes of new objects, which are the caller's own"""
    from pvlib import pvsystem
    out = []
    for o in objects:
        if isinstance(o, pvsystem.PVSystem):
            out += [o.inverter_parameters, o.losses_parameters]
            out += _own(*o.arrays)
        else:
            out += [o.module_parameters, o.temperature_model_parameters,
                    o.array_losses_parameters, o.albedo, vars(o.mount)]
    return out


def _new_system(ctx, kw):
    def build(module_type, racking_model, arrays, albedo=None):
        from pvlib import pvsystem
        new = [pvsystem.Array(
            pvsystem.FixedMount(20, 180, racking_model=racking_model),
            albedo=albedo, module_type=module_type) for _ in range(arrays)]
        return _own(pvsystem.PVSystem(arrays=new), pvsystem.PVSystem(
            racking_model=racking_model, module_type=module_type))
    return build, kw


E('pvsystem.PVSystem:new', rec=False, make=_new_system,
  module_type=C('glass_glass', 'glass_polymer'),
  racking_model=C('open_rack', 'close_mount', 'insulated_back',
                  'freestanding', 'insulated', 'semi_integrated'),
  arrays=C(1, 2), albedo=C(None, .3))


def _new_chain(ctx, kw):
    def build(**k):
        from pvlib import location, modelchain, pvsystem
        s = pvsystem.PVSystem(
            module_parameters={'pdc0': 250, 'gamma_pdc': -.004},
            inverter_parameters={'pdc0': 250}, module_type='glass_glass',
            racking_model='open_rack')
        loc = location.Location(10, 20, 'Etc/GMT-1', 100, 'x')
        mc = modelchain.ModelChain.with_pvwatts(s, loc, **k)
        md = modelchain.ModelChain(s, loc, aoi_model='ashrae',
                                   spectral_model='no_loss')
        s2 = pvsystem.PVSystem(
            module_parameters=dict(plant.CS5P),
            inverter_parameters={'pdc0': 250}, module_type='glass_glass',
            racking_model='open_rack')
        ms = modelchain.ModelChain.with_sapm(
            s2, loc, ac_model='pvwatts',
            **{n: v for n, v in k.items() if n != 'aoi_model'})
        return [repr(mc), repr(md), repr(ms), _own(s), _own(s2), vars(loc)]
    return build, kw


E('modelchain.ModelChain:new', rec=False, make=_new_chain,
  temperature_model=C(None, 'sapm'), aoi_model=C(None, 'no_loss', 'ashrae'),
  transposition_model=C(None, 'haydavies', 'isotropic'),
  losses_model=C(None, 'no_loss'), clearsky_model=C(None, 'haurwitz'),
  solar_position_method=C(None, 'ephemeris'),
  airmass_model=C(None, 'simple'))


# whole-plant simulation
def _chain_make(entry_, cols):
    def make(ctx, kw):
        from dst.core import canon
        cfg = _cfg(ctx)
        n = len(cfg['arrays'])
        mc = ctx.obj('mc' + canon(cfg), lambda: plant.build_chain(
            cfg, _system(ctx)))
        frames = []
        for i in range(n):
            d = pd.DataFrame({c: ctx.raw(q, c if i == 0 else f'{c}{i}')
                              for c, q in cols.items()}, index=ctx.times())
            if ctx.tz is None and not ctx.inst.get('naive'):
                d.index = d.index.tz_localize('UTC')
            frames.append(d)
        fn = entry_.split(':')[0]
        arg = 'data' if '_from_' in fn else 'weather'
        w = tuple(frames) if n > 1 else frames[0]

        def run(mc, **kw):
            getattr(mc, fn)(**kw)
            return plant.results_of(mc)
        return functools.partial(run, mc), {arg: w}
    return make


def gen_chain(rng):
    c = plant.gen_plant(rng)
    while c['temp'] == 'fuentes' or c['infer']:
        c = plant.gen_plant(rng)
    if c['spec'] == 'first_solar':
        c['spec'] = 'sapm'
    return c


CHAIN = {'run_model': {'ghi': 'ghi', 'dni': 'dni', 'dhi': 'dhi',
                       'temp_air': 'ta', 'wind_speed': 'ws'},
         'run_model_from_poa': {'poa_global': 'poa', 'poa_direct': 'dni',
                                'poa_diffuse': 'dhi', 'temp_air': 'ta',
                                'wind_speed': 'ws'},
         'run_model_from_effective_irradiance': {
             'effective_irradiance': 'poa', 'poa_global': 'poa',
             'temp_air': 'ta', 'wind_speed': 'ws'}}
CHAIN['run_model:bare'] = {k: CHAIN['run_model'][k]
                           for k in ('ghi', 'dni', 'dhi')}
CHAIN['run_model:more'] = dict(
    CHAIN['run_model'], albedo='alb', precipitable_water='pw',
    cell_temperature='tcell')
CHAIN['run_model:module'] = dict(CHAIN['run_model'],
                                 module_temperature='tcell')
CHAIN['run_model_from_poa:cell'] = dict(CHAIN['run_model_from_poa'],
                                        cell_temperature='tcell')
CHAIN['run_model_from_poa:bare'] = {
    k: CHAIN['run_model_from_poa'][k]
    for k in ('poa_global', 'poa_direct', 'poa_diffuse')}
CHAIN['run_model_from_effective_irradiance:cell'] = {
    'effective_irradiance': 'poa', 'cell_temperature': 'tcell'}
CHAIN['complete_irradiance'] = {k: CHAIN['run_model'][k]
                                for k in ('dni', 'dhi', 'temp_air')}
CHAIN['complete_irradiance:dni'] = {k: CHAIN['run_model'][k]
                                    for k in ('ghi', 'dhi')}
CHAIN['complete_irradiance:dhi'] = {k: CHAIN['run_model'][k]
                                    for k in ('ghi', 'dni')}
CHAIN['prepare_inputs'] = CHAIN['run_model']
CHAIN['prepare_inputs_from_poa'] = CHAIN['run_model_from_poa']
for _k, _c in CHAIN.items():
    E('modelchain.' + _k, make=with_plant(_chain_make(_k, _c), gen_chain),
      reps='s', index='time', time=True, rtol=1e-6, atol=1e-5, heavy=8)


def fn_names(**flags):
    """entries with the given flags"""
    return [k for k, e in ENTRIES.items()
            if all(getattr(e, f) == v for f, v in flags.items())]


# -- results, record by record -------------------------------------------------

class Misshapen(Exception):
    pass


def norm(r, n, axis=0, path='', out=None, index=None, bad=None):
    """{path: array with one row per record}; what is not per record is
    repeated for every record.  index: index every Series or DataFrame with
    one row per record must carry; mismatches are appended to bad."""
    out = {} if out is None else out

    def chk(i, p):
        if index is not None and bad is not None and len(i) == n:
            from dst.snap import index_diff
            d = index_diff(i, index)
            if d:
                bad.append(f'{p or "result"}: {d}')

    def leaf(v, p):
        v = np.asarray(v)
        if v.dtype.kind == 'M':
            v = v.astype('datetime64[ns]').view('i8')
        if v.ndim == 0:
            v = np.repeat(v[None], n, axis=0)
        elif v.ndim == 1 and len(v) == 1 and n != 1:
            v = np.repeat(v, n, axis=0)
        elif v.ndim > 1:
            a = axis if v.shape[axis] == n else (
                [k for k in range(v.ndim) if v.shape[k] == n] or [None])[0]
            if a is None:
                raise Misshapen(f'{p}: shape {v.shape} for {n} records')
            v = np.moveaxis(v, a, 0)
        if len(v) != n:
            raise Misshapen(f'{p}: {len(v)} values for {n} records')
        out[p] = v
    if isinstance(r, pd.DataFrame):
        chk(r.index, path)
        for k in range(r.shape[1]):
            s = r.iloc[:, k]
            leaf(_i8(s), f'{path}[{r.columns[k]}]')
    elif isinstance(r, pd.Series):
        chk(r.index, path)
        leaf(_i8(r), path)
    elif isinstance(r, pd.DatetimeIndex):
        leaf(r.as_unit('ns').asi8, path)
    elif isinstance(r, pd.Index):
        leaf(r.to_numpy(), path)
    elif isinstance(r, dict):
        for k, v in r.items():
            norm(v, n, axis, f'{path}[{k}]', out, index, bad)
    elif isinstance(r, (tuple, list)):
        for k, v in enumerate(r):
            norm(v, n, axis, f'{path}[{k}]', out, index, bad)
    elif r is None or isinstance(r, str):
        out[path] = np.array([r] * n, dtype=object)
    else:
        leaf(r, path)
    return out


def _i8(s):
    if isinstance(s.dtype, pd.DatetimeTZDtype):
        return s.dt.tz_convert('UTC').dt.as_unit('ns').astype(
            'int64').to_numpy()
    return s.to_numpy()


def rows_differ(a, ra, b, rb, rtol, atol):
    """None, or the first path in which rows ra of a differ from rows rb of
    b (a, b: from norm)"""
    from dst.snap import num_diff
    if set(a) != set(b):
        return f'parts {list(a)} / {list(b)}'
    for p in a:
        d = num_diff(a[p][ra], b[p][rb], rtol, atol)
        if d:
            return f'{p or "result"} {d}'
    return None


def bare(r, n, path=''):
    """path of the first part of a result that has one value per record but
    no index"""
    if isinstance(r, (pd.Series, pd.DataFrame, pd.Index)):
        return None
    if isinstance(r, dict):
        it = r.items()
    elif isinstance(r, (tuple, list)):
        it = enumerate(r)
    elif isinstance(r, np.ndarray) and n in r.shape:
        return path or 'result'
    else:
        return None
    for k, v in it:
        b = bare(v, n, f'{path}[{k}]')
        if b:
            return b
    return None


# functions documented (or known) to return bare arrays for Series input
BARE = {
    'bifacial.utils.vf_row_sky_2d_integ',
    'bifacial.utils.vf_row_ground_2d_integ', 'irradiance.disc',
    'irradiance.erbs', 'irradiance.boland', 'irradiance.louche',
    'irradiance.orgill_hollands', 'irradiance.orgill_hollands:ext',
    'irradiance.get_extra_radiation:doy_spencer',
    'irradiance.get_extra_radiation:doy_asce',
    'singlediode.bishop88_i_from_v', 'singlediode.bishop88_v_from_i',
    'singlediode.bishop88_mpp', 'pvsystem.i_from_v', 'pvsystem.v_from_i',
    'pvsystem.PVSystem.i_from_v'}
