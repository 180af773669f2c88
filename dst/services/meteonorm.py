"""Meteonorm API."""
import numpy as np
import pandas as pd

from .. import truth
from ..net import Reply
from . import register
from .base import Service, gen_site, need, same_number

MAP = {"global_horizontal_irradiance": "ghi",
       "diffuse_horizontal_irradiance": "dhi",
       "direct_normal_irradiance": "dni",
       "direct_horizontal_irradiance": "bhi",
       "global_clear_sky_irradiance": "ghi_clear",
       "diffuse_clear_sky_irradiance": "dhi_clear",
       "direct_normal_clear_sky_irradiance": "dni_clear",
       "direct_horizontal_clear_sky_irradiance": "bhi_clear",
       "diffuse_tilted_irradiance": "poa_diffuse",
       "direct_tilted_irradiance": "poa_direct",
       "global_tilted_irradiance": "poa",
       "temperature": "temp_air", "dew_point_temperature": "temp_dew",
       "relative_humidity": "relative_humidity",
       "cloud_cover": "cloud_cover"}
ALIAS = {v: k for k, v in MAP.items()}
STEPS = {'1_hour': 3600, '15_minutes': 900, '1_minute': 60}
ALIASES = {'1h': '1_hour', 'h': '1_hour', '15min': '15_minutes',
           '1min': '1_minute', 'min': '1_minute'}
NOW = 1_700_000_000 // 3600 * 3600


class Meteonorm(Service):
    error_text = 'outside of the valid range'
    endpoint = None
    steps_allowed = ('1h', 'h', '1_hour', '15min', '15_minutes', '1min',
                     'min', '1_minute')
    relative = False
    tmy = False

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng)
        p['start'] = rng.randrange(1_100_000_000, 1_650_000_000, 3600)
        p['hours'] = rng.choice([1, 2, 24])
        p['how'] = truth.gen_caller(rng)
        p['how_end'] = p['how'] if rng.random() < 0.7 else \
            truth.gen_caller(rng)
        p['rel'] = cls.relative and rng.random() < 0.4
        names = sorted(MAP)
        r = rng.random()
        if r < 0.3:
            p['parameters'] = None
        elif r < 0.5:
            p['parameters'] = rng.choice(names + sorted(ALIAS))
        else:
            p['parameters'] = [MAP[x] if rng.random() < 0.5 else x
                               for x in rng.sample(names, rng.randint(1, 6))]
        p['tilt'] = rng.choice([0, 0, 10, 32.5])
        p['azimuth'] = rng.choice([180, 180, 90, 250.5])
        p['horizon'] = rng.choice([None, None, 'flat', [0, 0.2, 80, 5]])
        p['step'] = rng.choice([None] + list(cls.steps_allowed))
        p['interval'] = rng.random() < 0.3
        p['nulls'] = rng.random() < 0.3
        p['missing'] = rng.random() < 0.3
        p['url'] = rng.choice([None, None, 'https://mn.example.org/v1/'])
        return p

    def times(self):
        p = self.p
        if p['rel']:
            return 'now', '+%dhours' % p['hours']
        return (truth.caller_time(p['start'], p['how']),
                truth.caller_time(p['start'] + p['hours'] * 3600,
                                  p['how_end']))

    def kw(self):
        p = self.p
        kw = dict(map_variables=p['map_variables'])
        if p['parameters'] is not None:
            kw['parameters'] = p['parameters'] if isinstance(
                p['parameters'], str) else list(p['parameters'])
        if p['tilt'] != 0:
            kw['surface_tilt'] = p['tilt']
        if p['azimuth'] != 180:
            kw['surface_azimuth'] = p['azimuth']
        if p['horizon'] is not None:
            kw['horizon'] = p['horizon']
        if p['interval']:
            kw['interval_index'] = True
        if p['url']:
            kw['url'] = p['url']
        if p['step'] and self.steps_allowed:
            kw['time_step'] = p['step']
        return kw

    def func(self):
        from pvlib import iotools
        return getattr(iotools, 'get_' + self.name)

    def call(self):
        p = self.p
        a, b = self.times()
        return self.func()(p['lat'], p['lon'], a, b, 'the-api-key',
                           **self.kw())

    extra = ()

    def handle(self, req, net):
        base = self.p['url'] or 'https://api.meteonorm.com/v1/'
        need(req.url.split('?')[0] == base + self.endpoint,
             'not found ' + req.url, 404)
        need(req.method == 'GET', 'method', 405)
        need(req.headers.get('authorization') == 'Bearer the-api-key',
             'no valid API key', 403)
        q = req.params
        known = {'lat', 'lon', 'start', 'end', 'parameters', 'surface_tilt',
                 'surface_azimuth', 'horizon', 'frequency',
                 'response_format'} | set(self.extra)
        need(set(q) <= known, f'unknown {set(q) - known}')
        need(q.get('response_format') == 'json', 'format')
        pars = q['parameters'].split(',')
        if pars == ['all']:
            pars = list(MAP)
        for x in pars:
            need(x in MAP, f'unknown parameter {x}')
        freq = q.get('frequency')
        if self.steps_allowed:
            need(freq in STEPS, f'frequency {freq}')
        else:
            need(freq is None, 'frequency not allowed')
        if self.tmy:
            need('start' not in q and 'end' not in q, 'start/end')
            t0, t1 = None, None
        else:
            t0, t1 = self.instant(q['start']), self.instant(q['end'])
        opts = {k: v for k, v in q.items()
                if k in self.extra}
        key = self.key(q['lat'], q['lon'], q.get('surface_tilt', 0),
                       q.get('surface_azimuth', 180),
                       q.get('horizon', 'auto'), opts)
        left, right, cols = self.series(pars, key, freq or '1_hour', t0, t1)
        vals = {}
        for k, v in cols.items():
            vals[k] = None if v is None else [
                None if np.isnan(x) else float(x) for x in v]
        return Reply(200, {
            'values': vals, 'start_times': [truth.iso(e) for e in left],
            'end_times': [truth.iso(e) for e in right],
            'meta': {'lat': float(q['lat']), 'lon': float(q['lon']),
                     'altitude': 290, 'frequency': freq or '1_hour',
                     'parameters': [{'name': x, 'unit': {'name': 'u'}}
                                    for x in pars],
                     'surface_azimuth': float(q.get('surface_azimuth', 180)),
                     'surface_tilt': float(q.get('surface_tilt', 0)),
                     'time_zone': 0.0,
                     'request_timestamp': '2024-01-01T00:00:00Z'}})

    def instant(self, s):
        if s == 'now':
            return NOW
        if s.startswith('+') and s.endswith('hours'):
            return NOW + int(s[1:-5]) * 3600
        need(s.endswith('Z') and len(s) == 20, f'time {s!r}')
        return truth.parse_instant(s)

    def key(self, lat, lon, tilt, az, hor, opts):
        o = []
        for k in sorted(opts):
            v = opts[k]
            try:
                v = float(v)
            except (TypeError, ValueError):
                v = str(v)
            o.append((k, v))
        return (float(lat), float(lon), float(tilt), float(az), str(hor),
                tuple(o))

    def series(self, pars, key, freq, t0, t1):
        step = STEPS[freq]
        if t0 is None:
            t0, t1 = 1104537600, 1104537600 + 86400
        need(t1 > t0, 'empty period')
        n = int(-(-(t1 - t0) // step))
        left = truth.epochs(t0, n, step)
        cols = {}
        for x in pars:
            if self.p['nulls'] and len(pars) > 1 and \
                    x == 'relative_humidity':
                cols[x] = None
                continue
            v = truth.field('mn' + self.endpoint + x, key + (freq,), left,
                            0, 900, 1)
            if self.p['missing'] and len(left) > 2:
                v = np.where(np.arange(len(left)) % 5 == 2, np.nan, v)
            cols[x] = v
        return left, left + step, cols

    default_step = '15_minutes'

    def options(self):
        return {}

    def expected(self):
        p = self.p
        pars = p['parameters']
        if pars is None:
            pars = list(MAP)
        elif isinstance(pars, str):
            pars = [pars]
        pars = [ALIAS.get(x, x) for x in pars]
        freq = '1_hour'
        if self.steps_allowed:
            freq = ALIASES.get(p['step'], p['step']) or self.default_step
        h = p['horizon']
        hor = 'auto' if h is None else h if isinstance(h, str) else \
            ','.join(map(str, h))
        if self.tmy:
            t0 = t1 = None
        elif p['rel']:
            t0, t1 = NOW, NOW + p['hours'] * 3600
        else:
            t0, t1 = p['start'], p['start'] + p['hours'] * 3600
        key = self.key(p['lat'], p['lon'], p['tilt'], p['azimuth'], hor,
                       self.options())
        left, right, cols = self.series(pars, key, freq, t0, t1)
        mp = p['map_variables']
        cols = {MAP[k] if mp else k: v for k, v in cols.items()
                if v is not None}
        meta = {('latitude' if mp else 'lat'): p['lat'],
                ('longitude' if mp else 'lon'): p['lon'], 'altitude': 290,
                'frequency': freq}
        e = dict(cols=cols, meta=meta)
        if p['interval']:
            e.update(index=(left, right), index_kind='interval', left=left,
                     right=right)
        else:
            e.update(index=(left + right) // 2)
        return e

    def error(self, req, status, text=None):
        return Reply(status, {'error': {'code': status, 'message':
                                        text or self.error_text}})


@register
class ForecastBasic(Meteonorm):
    name = 'meteonorm_forecast_basic'
    endpoint = 'forecast/basic'
    steps_allowed = ()
    relative = True


@register
class ForecastPrecision(Meteonorm):
    name = 'meteonorm_forecast_precision'
    endpoint = 'forecast/precision'
    relative = True


@register
class Realtime(Meteonorm):
    name = 'meteonorm_observation_realtime'
    endpoint = 'observation/realtime'


@register
class Training(Meteonorm):
    name = 'meteonorm_observation_training'
    endpoint = 'observation/training'


@register
class Tmy(Meteonorm):
    name = 'meteonorm_tmy'
    endpoint = 'climate/tmy'
    tmy = True
    default_step = '1_hour'
    extra = ('situation', 'turbidity', 'clear_sky_radiation_model',
             'random_seed', 'future_scenario', 'future_year', 'albedo')

    @classmethod
    def gen(cls, rng):
        p = super().gen(rng)
        p['opts'] = {}
        pool = {'terrain_situation': ['sea', 'city'],
                'turbidity': ['auto', [5.2, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 4]],
                'random_seed': [7], 'clear_sky_radiation_model': ['solis'],
                'future_scenario': ['ssp1_26'], 'future_year': [2040],
                'albedo': [0.17]}
        for k in rng.sample(sorted(pool), rng.choice([0, 1, 2, 4])):
            p['opts'][k] = rng.choice(pool[k])
        return p

    def call(self):
        p = self.p
        return self.func()(p['lat'], p['lon'], 'the-api-key', **self.kw(),
                           **p['opts'])

    def options(self):
        o = {'situation': 'open', 'turbidity': 'auto',
             'clear_sky_radiation_model': 'esra'}
        for k, v in self.p['opts'].items():
            k = {'terrain_situation': 'situation'}.get(k, k)
            o[k] = ','.join(map(str, v)) if isinstance(v, list) else v
        return o
