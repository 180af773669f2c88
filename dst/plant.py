"""A simulated plant: location, arrays, inverter, model chain and the weather
stream its loggers deliver, all built from plain JSON, so that the same plant
can be built again in another object, process or place.
"""
import copy

import numpy as np
import pandas as pd

from dst.core import h8
from dst.truth import field

CS5P = {'Material': 'c-Si', 'Cells_in_Series': 96, 'Parallel_Strings': 1,
        'A0': 0.928385, 'A1': 0.068093, 'A2': -0.0157738, 'A3': 0.0016606,
        'A4': -6.93E-05, 'B0': 1, 'B1': -0.002438, 'B2': 0.0003103,
        'B3': -0.00001246, 'B4': 2.11E-07, 'B5': -1.36E-09, 'C0': 1.01284,
        'C1': -0.0128398, 'C2': 0.279317, 'C3': -7.24463, 'C4': 0.996446,
        'C5': 0.003554, 'C6': 1.15535, 'C7': -0.155353, 'Isco': 5.09115,
        'Impo': 4.54629, 'Voco': 59.2608, 'Vmpo': 48.3156, 'Aisc': 0.000397,
        'Aimp': 0.000181, 'Bvoco': -0.21696, 'Mbvoc': 0.0,
        'Bvmpo': -0.235488, 'Mbvmp': 0.0, 'N': 1.4032, 'IXO': 4.97599,
        'IXXO': 3.18803, 'FD': 1}
CEC_A = {'Technology': 'Mono-c-Si', 'A_c': 1.7, 'N_s': 96, 'I_sc_ref': 5.1,
         'V_oc_ref': 59.4, 'I_mp_ref': 4.69, 'V_mp_ref': 46.9,
         'alpha_sc': 0.004539, 'beta_oc': -0.22216, 'a_ref': 2.6373,
         'I_L_ref': 5.114, 'I_o_ref': 8.196e-10, 'R_s': 1.065,
         'R_sh_ref': 381.68, 'Adjust': 8.7, 'gamma_r': -0.476}
CEC_B = {'Technology': 'Multi-c-Si', 'A_c': 0.67, 'N_s': 18,
         'I_sc_ref': 7.5, 'V_oc_ref': 10.4, 'I_mp_ref': 6.6, 'V_mp_ref': 8.4,
         'alpha_sc': 0.003, 'beta_oc': -0.04, 'a_ref': 0.473,
         'I_L_ref': 7.545, 'I_o_ref': 1.94e-09, 'R_s': 0.094,
         'R_sh_ref': 15.72, 'Adjust': 10.6, 'gamma_r': -0.5}
PVSYST = {'gamma_ref': 1.05, 'mu_gamma': 0.001, 'I_L_ref': 6.0,
          'I_o_ref': 5e-9, 'EgRef': 1.121, 'R_sh_ref': 300, 'R_sh_0': 1000,
          'R_s': 0.5, 'R_sh_exp': 5.5, 'cells_in_series': 60,
          'alpha_sc': 0.001, 'Vmpp': 30.0, 'Impp': 5.5,
          'Technology': 'Mono-c-Si'}
PVWATTS = {'pdc0': 220.0, 'gamma_pdc': -0.003, 'Technology': 'CdTe'}
IAM_PARAMS = {
    'physical': {'n': 1.526, 'K': 4.0, 'L': 0.002},
    'ashrae': {'b': 0.05}, 'martin_ruiz': {'a_r': 0.16},
    'interp': {'theta_ref': [0, 20, 40, 60, 80, 90],
               'iam_ref': [1.0, 0.99, 0.98, 0.94, 0.6, 0.0]},
    'sapm': {k: CS5P[k] for k in ('B0', 'B1', 'B2', 'B3', 'B4', 'B5')},
    'schlick': {}, 'no_loss': {}}
VARIANTS = {             # of the second and third module
    'physical': [{'n': 1.45, 'K': 6.0, 'L': 0.003},
                 {'n': 1.5, 'K': 4.0, 'L': 0.002, 'n_ar': 1.29}],
    'ashrae': [{'b': 0.08}, {'b': 0.02}],
    'martin_ruiz': [{'a_r': 0.2}, {'a_r': 0.14}],
    'interp': [{'theta_ref': [0, 30, 60, 90], 'iam_ref': [1., .97, .9, 0.]},
               {'theta_ref': [0, 45, 90], 'iam_ref': [1., .98, 0.]}],
    'sapm': [dict(IAM_PARAMS['sapm'], B1=-.002, B2=1e-4),
             dict(IAM_PARAMS['sapm'], B1=-.003)],
    'schlick': [{}, {}], 'no_loss': [{}, {}]}
MODULES = {'sapm': [CS5P, dict(CS5P, Impo=5.2, Vmpo=40.1, FD=0.95, Isco=5.4,
                               Voco=58., C0=.99, C1=.012, C2=.3, C3=-5.,
                               N=1.3, Aisc=.0004, Aimp=.0002, Bvoco=-.2,
                               Bvmpo=-.22, Cells_in_Series=88, A0=.95,
                               A1=.05, A2=-.006, Material='mc-Si')],
           'cec': [CEC_A, CEC_B],
           'desoto': [{k: v for k, v in CEC_A.items() if k != 'Adjust'},
                      {k: v for k, v in CEC_B.items() if k != 'Adjust'}],
           'pvsyst': [PVSYST, dict(
               PVSYST, I_L_ref=8.1, cells_in_series=72, gamma_ref=1.02,
               mu_gamma=-.0003, I_o_ref=1e-9, EgRef=1.13, R_sh_ref=420,
               R_sh_0=1700, R_s=.3, R_sh_exp=5., alpha_sc=.003, Vmpp=37.,
               Impp=7.5, Technology='Multi-c-Si')],
           'pvwatts': [PVWATTS, dict(PVWATTS, pdc0=310.0, gamma_pdc=-0.0045,
                                     Technology='Mono-c-Si')]}
THIRD = {'sapm': ['Isco', 'Voco', 'Impo', 'Vmpo', 'A0', 'FD', 'Aisc'],
         'cec': ['I_L_ref', 'a_ref', 'R_s', 'Adjust', 'V_mp_ref', 'I_mp_ref'],
         'desoto': ['I_L_ref', 'a_ref', 'R_s', 'V_mp_ref', 'I_mp_ref'],
         'pvsyst': ['I_L_ref', 'gamma_ref', 'R_s', 'Vmpp', 'Impp'],
         'pvwatts': ['pdc0', 'gamma_pdc']}
A_SAPM = ('A0', 'A1', 'A2', 'A3', 'A4')
INVERTERS = {
    'sandia': {'Paco': 5000.0, 'Pdco': 5190.0, 'Vdco': 400.0, 'Pso': 25.0,
               'C0': -2.48e-6, 'C1': -9.01e-5, 'C2': 6.69e-4, 'C3': -0.0189,
               'Pnt': 1.5, 'Vdcmax': 600.0},
    'adr': {'Vac': 240., 'Pacmax': 2110., 'Pnom': 2200., 'Vnom': 396.,
            'Vmin': 155., 'Vmax': 413., 'Vdcmax': 500., 'MPPTHi': 450.,
            'MPPTLow': 150., 'Pnt': 0.25,
            'ADRCoefficients': [0.01385, 0.0152, 0.00794, 0.00286, -0.01872,
                                -0.01305, 0.0, 0.0, 0.0]},
    'pvwatts': {'pdc0': 4000.0, 'eta_inv_nom': 0.955}}
TEMPS = {'sapm': [{'a': -3.47, 'b': -.0594, 'deltaT': 3},
                  {'a': -2.98, 'b': -.0471, 'deltaT': 1}],
         'pvsyst': [{'u_c': 29.0, 'u_v': 0}, {'u_c': 15.0, 'u_v': 1.5}],
         'faiman': [{'u0': 25.0, 'u1': 6.84}, {'u0': 20.0, 'u1': 3.2}],
         'fuentes': [{'noct_installed': 45}, {'noct_installed': 49}],
         'noct_sam': [{'noct': 45, 'module_efficiency': 0.2},
                      {'noct': 49, 'module_efficiency': 0.16}]}
LOCATIONS = [(32.2, -111.0, 'Etc/GMT+7', 700), (52.5, 13.4, 'Europe/Berlin',
                                                35),
             (-33.9, 18.4, 'Africa/Johannesburg', 60),
             (64.1, -21.9, 'UTC', 10), (1.3, 103.8, 'Asia/Singapore', 15),
             (-36.8, 174.7, 'Pacific/Auckland', 20)]
CLEARSKY = 'simplified_solis'      # ineichen needs a table not shipped here


# -- configuration ------------------------------------------------------------
RACKING = {'sapm': 'open_rack', 'pvsyst': 'freestanding'}


def gen_plant(rng, n_arrays=None, simple=False):
    n = n_arrays if n_arrays is not None else rng.choice([1, 1, 1, 2, 2, 3])
    dc = rng.choice(sorted(MODULES))
    temp = rng.choice(['sapm', 'sapm', 'pvsyst', 'faiman', 'noct_sam',
                       'fuentes'])
    ac = rng.choice(['pvwatts', 'pvwatts', 'sandia', 'adr'])
    if dc == 'pvwatts':
        ac = 'pvwatts'        # the pvwatts inverter takes pvwatts DC power
    elif ac == 'pvwatts' or n > 1:
        ac = 'sandia'
    iam = rng.choice(sorted(IAM_PARAMS))
    spec = rng.choice(['no_loss', 'no_loss', 'sapm', 'first_solar'])
    ohmic = 'no_loss'
    if dc != 'pvwatts' and rng.random() < .4:
        ohmic = 'dc_ohms_from_percent'
    arrays = []
    for i in range(n):
        m = {'kind': 'fixed', 'tilt': rng.choice([0, 10, 25, 45, 90]),
             'azimuth': rng.choice([90, 135, 180, 225, 270, 0])}
        if rng.random() < .35:
            m = {'kind': 'sat', 'axis_tilt': rng.choice([0, 0, 10]),
                 'axis_azimuth': rng.choice([0, 180, 170]),
                 'max_angle': rng.choice([45, 60, 90]),
                 'backtrack': rng.random() < .6,
                 'gcr': rng.choice([0.28, 0.4])}
        if rng.random() < .3:
            m['module_height'] = rng.choice([2.0, 5.0])
        arrays.append({
            'mount': m, 'albedo': rng.choice([None, None, 0.2, 0.35]),
            'surface_type': rng.choice([None, None, 'grass', 'snow']),
            'module': rng.randrange(3), 'temp': rng.randrange(2),
            'mps': rng.choice([1, 4, 8, 9]), 'strings': rng.choice([1, 2, 3]),
            'ohmic_percent': rng.choice([1.5, 3.0]), 'name': f'array{i}'})
    lat, lon, tz, alt = rng.choice(LOCATIONS)
    return {'lat': lat, 'lon': lon, 'tz': tz, 'alt': alt, 'dc': dc,
            'ac': ac, 'iam': iam, 'spec': spec, 'temp': temp,
            'ohmic': ohmic,
            'losses': rng.choice(['no_loss', 'no_loss', 'pvwatts']),
            'transposition': rng.choice(['isotropic', 'klucher', 'haydavies',
                                         'reindl', 'perez', 'king']),
            'solpos': rng.choice(['nrel_numpy', 'nrel_numpy', 'ephemeris']),
            'airmass': rng.choice(['kastenyoung1989', 'simple',
                                   'pickering2002', 'young1994']),
            'infer': rng.random() < .3, 'custom': None, 'arrays': arrays}


def module_params(cfg, arr):
    kind = arr['module']
    mp = dict(MODULES[cfg['dc']][kind % 2])
    if kind == 2:
        for k in THIRD[cfg['dc']]:
            mp[k] *= 1.04
    if cfg['dc'] != 'sapm':
        for k in ('B0', 'B1', 'B2', 'B3', 'B4', 'B5'):
            mp.pop(k, None)
    iam = VARIANTS[cfg['iam']][kind - 1] if kind else IAM_PARAMS[cfg['iam']]
    mp.update(copy.deepcopy(iam))
    if cfg['spec'] == 'sapm' or cfg['dc'] == 'sapm':
        for k in A_SAPM:
            mp.setdefault(k, CS5P[k] * (1 - .03 * kind))
    if cfg['temp'] == 'pvsyst':
        mp['module_efficiency'] = 0.18 - .02 * kind
        mp['alpha_absorption'] = 0.9 - .03 * kind
    return mp


def build_array(cfg, arr):
    from pvlib import pvsystem
    m = arr['mount']
    if m['kind'] == 'fixed':
        mount = pvsystem.FixedMount(m['tilt'], m['azimuth'],
                                    racking_model=RACKING.get(cfg['temp']),
                                    module_height=m.get('module_height'))
    else:
        mount = pvsystem.SingleAxisTrackerMount(
            axis_tilt=m['axis_tilt'], axis_azimuth=m['axis_azimuth'],
            max_angle=m['max_angle'], backtrack=m['backtrack'],
            gcr=m['gcr'], racking_model=RACKING.get(cfg['temp']),
            module_height=m.get('module_height'))
    return pvsystem.Array(
        mount, albedo=arr['albedo'], surface_type=arr['surface_type'],
        module_parameters=module_params(cfg, arr),
        temperature_model_parameters=dict(TEMPS[cfg['temp']][arr['temp']]),
        modules_per_string=arr['mps'], strings=arr['strings'],
        array_losses_parameters={'dc_ohmic_percent': arr['ohmic_percent']},
        name=arr['name'])


def build_location(cfg):
    from pvlib.location import Location
    return Location(cfg['lat'], cfg['lon'], tz=cfg['tz'],
                    altitude=cfg['alt'], name='site')


def inverter_params(cfg):
    p = dict(INVERTERS[cfg['ac']])
    if 'ADRCoefficients' in p:
        p['ADRCoefficients'] = list(p['ADRCoefficients'])
    return p


def build_system(cfg, which=None):
    from pvlib import pvsystem
    arrs = cfg['arrays'] if which is None else [cfg['arrays'][i]
                                                for i in which]
    return pvsystem.PVSystem(
        arrays=[build_array(cfg, a) for a in arrs],
        inverter_parameters=inverter_params(cfg),
        losses_parameters={'soiling': cfg.get('soiling', 1.0),
                           'shading': 2.0}, name='plant')


class Kept:
    """User-supplied model that keeps the objects it hands out (e.g. a
    measured or precomputed profile) and reuses them on the next call."""

    def __init__(self, kind, frame=False):
        self.kind = kind
        self.frame = frame
        self.cache = {}

    def __call__(self, mc):
        res = mc.results
        if self.kind == 'dc':
            eff = res.effective_irradiance
            tup = isinstance(eff, tuple)
            key = h8(''.join(
                e.to_csv() for e in (eff if tup else (eff,))) + str(tup))
            if key not in self.cache:
                one = [e * 2.0 for e in (eff if tup else (eff,))]
                if self.frame:
                    one = [pd.DataFrame({'i_mp': e / 80, 'v_mp': 40.0,
                                         'p_mp': e}) for e in one]
                self.cache[key] = tuple(one) if tup else one[0]
            res.dc = self.cache[key]
        elif self.kind == 'temp':
            eff = res.effective_irradiance
            tup = isinstance(eff, tuple)
            out = tuple(20 + e * 0.03 for e in (eff if tup else (eff,)))
            res.cell_temperature = out if tup else out[0]
        elif self.kind == 'losses':
            res.losses = 0.97
            if isinstance(res.dc, tuple):
                res.dc = tuple(d * 0.97 for d in res.dc)
            else:
                res.dc = res.dc * 0.97
        elif self.kind == 'aoi':
            a = res.aoi
            f = [np.cos(np.radians(x)).clip(lower=0) ** .1 for x in
                 (a if isinstance(a, tuple) else (a,))]
            res.aoi_modifier = tuple(f) if isinstance(a, tuple) else f[0]
        elif self.kind == 'spec':
            n = mc.system.num_arrays
            am = res.airmass['airmass_absolute']
            f = tuple((1 + 0.001 * i) - 0.002 * am.fillna(10)
                      for i in range(n))
            res.spectral_modifier = f if n > 1 else f[0]
        return mc


def build_chain(cfg, system=None, location=None, which=None):
    from pvlib.modelchain import ModelChain
    system = system or build_system(cfg, which)
    location = location or build_location(cfg)
    kw = dict(clearsky_model=CLEARSKY,
              transposition_model=cfg['transposition'],
              solar_position_method=cfg['solpos'],
              airmass_model=cfg['airmass'], dc_model=cfg['dc'],
              ac_model=cfg['ac'], aoi_model=cfg['iam'],
              spectral_model=cfg['spec'], temperature_model=cfg['temp'],
              dc_ohmic_model=cfg['ohmic'], losses_model=cfg['losses'],
              name='chain')
    if cfg.get('infer'):
        kw['dc_model'] = kw['ac_model'] = kw['temperature_model'] = None
    c = cfg.get('custom')
    if c:
        kw[{'dc': 'dc_model', 'temp': 'temperature_model',
            'losses': 'losses_model', 'aoi': 'aoi_model',
            'spec': 'spectral_model'}[c]] = Kept(c, cfg['ac'] != 'pvwatts')
    return ModelChain(system, location, **kw)


# -- weather --------------------------------------------------------------------

def gen_weather(rng, n=None, regular=True, cols=None):
    start = pd.Timestamp('2019-01-01') + pd.Timedelta(
        hours=rng.randrange(0, 365 * 24))
    w = {'start': start.isoformat(), 'n': n or rng.choice([1, 2, 3, 5, 8,
                                                           13, 24]),
         'step': rng.choice([60, 60, 30, 15, 180]),
         'tz': rng.choice(['UTC', 'local', 'local', None]),
         'site': rng.randrange(1000), 'night': rng.random() < .2}
    return w


def weather_index(w, cfg):
    idx = pd.date_range(w['start'], periods=w['n'],
                        freq=f"{w['step']}min", tz='UTC')
    if not w.get('night'):
        # centre the record on local noon of the site
        noon = pd.Timestamp(w['start'], tz='UTC').normalize() + pd.Timedelta(
            hours=12 - cfg['lon'] / 15.0)
        off = noon - idx[len(idx) // 2]
        idx = idx + off.round('min')
    if w['tz'] == 'local':
        idx = idx.tz_convert(cfg['tz'])
    elif w['tz'] is None:
        idx = idx.tz_localize(None)
    idx = pd.DatetimeIndex(idx)
    idx.freq = None
    return idx


def build_weather(w, cfg, i=0):
    """Frame with every column any entry point may use, for array i."""
    idx = weather_index(w, cfg)
    ep = np.arange(w['n'], dtype=np.int64) + 1_000_000 * (w['site'] + 1)

    def f(var, lo, hi, dec=2):
        return field(var, f"{w['site']}/{i}", ep, lo, hi, dec)
    ghi = f('ghi', 30, 1000)
    d = pd.DataFrame({
        'ghi': ghi, 'dni': f('dni', 0, 900), 'dhi': np.round(
            ghi * f('kd', .1, .9), 2),
        'temp_air': f('temp_air', -5, 38), 'wind_speed': f('ws', 0, 9),
        'precipitable_water': f('pw', .3, 5), 'albedo': f('alb', .1, .7),
        'pressure': f('p', 90000, 103000, 0),
        'poa_direct': f('pd', 0, 800), 'poa_diffuse': f('pdf', 10, 300),
        'effective_irradiance': f('eff', 0, 1050),
        'cell_temperature': f('ct', -5, 70),
        'module_temperature': f('mt', -5, 65)}, index=idx)
    d['poa_global'] = d['poa_direct'] + d['poa_diffuse']
    return d


ENTRY_COLS = {
    'run_model': (['ghi', 'dni', 'dhi'],
                  ['temp_air', 'wind_speed', 'albedo', 'pressure',
                   'cell_temperature', 'module_temperature']),
    'run_model_from_poa': (['poa_global', 'poa_direct', 'poa_diffuse'],
                           ['temp_air', 'wind_speed', 'pressure',
                            'cell_temperature', 'module_temperature']),
    'run_model_from_effective_irradiance': (
        ['effective_irradiance'],
        ['temp_air', 'wind_speed', 'poa_global', 'cell_temperature',
         'module_temperature']),
    'complete_irradiance': (['ghi', 'dni', 'dhi'],
                            ['temp_air', 'wind_speed']),
    'prepare_inputs': (['ghi', 'dni', 'dhi'],
                       ['temp_air', 'wind_speed', 'albedo', 'pressure']),
    'prepare_inputs_from_poa': (
        ['poa_global', 'poa_direct', 'poa_diffuse'],
        ['temp_air', 'wind_speed', 'pressure'])}
ENTRIES = sorted(ENTRY_COLS)


def gen_cols(rng, entry, cfg, n):
    """Columns of each array's frame (a list of lists; one list if the same
    for all)."""
    req, opt = ENTRY_COLS[entry]
    out = []
    same = rng.random() < .6
    for _ in range(n):
        if out and same:
            out.append(list(out[0]))
            continue
        c = list(req)
        if entry == 'complete_irradiance':
            if rng.random() < .8:
                c.remove(rng.choice(c))
        c += [o for o in opt if rng.random() < (.15 if 'temperature' in o
                                                else .5)]
        if cfg['spec'] == 'first_solar' and 'eff' not in entry:
            c.append('precipitable_water')
        out.append(c)
    return out


def result_fields():
    """Every public field of the results container (new ones included)."""
    import dataclasses
    from pvlib.modelchain import ModelChainResult
    return [f.name for f in dataclasses.fields(ModelChainResult)
            if not f.name.startswith('_')]


def results_of(mc):
    return {f: getattr(mc.results, f, None) for f in result_fields()}
