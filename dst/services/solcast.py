"""Solcast."""
import numpy as np
import pandas as pd

from .. import truth
from ..net import Reply
from . import register
from .base import Service, gen_site, need

VARS = {'air_temp': ('temp_air', 0, 40, 0, lambda x: x),
        'surface_pressure': ('pressure', 900, 1040, 1, lambda x: x * 100),
        'dewpoint_temp': ('temp_dew', -10, 20, 0, lambda x: x),
        'gti': ('poa_global', 0, 1100, 0, lambda x: x),
        'wind_speed_10m': ('wind_speed', 0, 20, 1, lambda x: x),
        'wind_direction_10m': ('wind_direction', 0, 360, 0, lambda x: x),
        'azimuth': ('solar_azimuth', -180, 180, 0, lambda x: (-x) % 360),
        'precipitable_water': ('precipitable_water', 0, 60, 1,
                               lambda x: x / 10),
        'zenith': ('solar_zenith', 0, 180, 0, lambda x: x),
        'clearsky_dhi': ('dhi_clear', 0, 300, 0, lambda x: x),
        'clearsky_dni': ('dni_clear', 0, 1000, 0, lambda x: x),
        'clearsky_ghi': ('ghi_clear', 0, 1100, 0, lambda x: x),
        'clearsky_gti': ('poa_global_clear', 0, 1100, 0, lambda x: x),
        'ghi': ('ghi', 0, 1100, 0, lambda x: x),
        'dhi': ('dhi', 0, 400, 0, lambda x: x),
        'dni': ('dni', 0, 1000, 0, lambda x: x),
        'relative_humidity': ('relative_humidity', 0, 100, 1, lambda x: x),
        'cloud_opacity': ('cloud_opacity', 0, 100, 0, lambda x: x)}
DEFAULT = ['air_temp', 'dni', 'ghi']
NOW = 1_700_000_000 // 3600 * 3600


class Solcast(Service):
    endpoint = None
    root = 'estimated_actuals'
    error_text = 'Site not found or not authorised'

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng)
        p['start'] = rng.randrange(1_100_000_000, 1_650_000_000, 300)
        p['hours'] = rng.choice([2, 5, 24])
        p['how'] = truth.gen_caller(rng)
        p['how_end'] = p['how'] if rng.random() < 0.6 else \
            truth.gen_caller(rng)
        p['use_end'] = rng.random() < 0.5
        p['period'] = rng.choice([None, 'PT60M', 'PT30M', 'PT5M', 'PT10M',
                                  'PT15M', 'PT20M'])
        p['params'] = None if rng.random() < 0.3 else \
            rng.sample(sorted(VARS), rng.randint(1, 8))
        p['tilt'] = rng.choice([None, 20, 35.5])
        p['az'] = rng.choice([None, -90, 150])
        p['array_type'] = rng.choice([None, 'horizontal_single_axis'])
        p['hoursarg'] = rng.choice([None, 4, 12])
        p['missing'] = rng.random() < 0.3
        return p

    def kw(self):
        p = self.p
        kw = dict(map_variables=p['map_variables'])
        if p['params'] is not None:
            kw['output_parameters'] = ','.join(p['params']) \
                if p['start'] % 600 else list(p['params'])
        for a, b in (('period', 'period'), ('tilt', 'tilt'),
                     ('az', 'azimuth'), ('array_type', 'array_type')):
            if p[a] is not None:
                kw[b] = p[a]
        if self.uses_hours and p['hoursarg'] is not None:
            kw['hours'] = p['hoursarg']
        return kw

    uses_hours = True

    def call(self):
        from pvlib import iotools
        fn = getattr(iotools, 'get_' + self.name)
        return fn(self.p['lat'], self.p['lon'], 'the-api-key', **self.kw())

    def handle(self, req, net):
        need(req.url.split('?')[0] == 'https://api.solcast.com.au/data/' +
             self.endpoint, 'not found ' + req.url, 404)
        need(req.method == 'GET', 'method', 405)
        need(req.headers.get('authorization') == 'Bearer the-api-key',
             'unauthorised', 401)
        q = req.params
        known = {'latitude', 'longitude', 'format', 'output_parameters',
                 'period', 'tilt', 'azimuth', 'array_type', 'hours',
                 'start', 'end', 'duration', 'api_key'}
        need(set(q) <= known, f'unknown {set(q) - known}')
        need(q['format'] == 'json', 'format')
        pars = []
        for k, v in req.query:
            if k == 'output_parameters':
                pars += v.split(',')
        for x in pars:
            need(x in VARS, f'unknown output parameter {x}')
        key = self.key(q['latitude'], q['longitude'], q.get('tilt'),
                       q.get('azimuth'), q.get('array_type'))
        t0, t1 = self.window(q)
        end, step, cols = self.series(pars or DEFAULT, key,
                                      q.get('period', 'PT30M'), t0, t1)
        rows = []
        for i, e in enumerate(end):
            r = {c: None if np.isnan(v[i]) else float(v[i])
                 for c, v in cols.items()}
            r['period_end'] = truth.iso(e, suffix='.0000000Z')
            r['period'] = q.get('period', 'PT30M')
            rows.append(r)
        return Reply(200, {self.root: rows})

    def window(self, q):
        return NOW, NOW + int(q.get('hours', 24)) * 3600

    def key(self, *a):
        return tuple(None if x is None else float(x) if i != 4 else x
                     for i, x in enumerate(a))

    def series(self, pars, key, period, t0, t1):
        step = int(period[2:-1]) * 60
        n = max(1, int((t1 - t0) // step))
        end = truth.epochs(t0 + step, n, step)
        cols = {}
        for x in pars:
            _, lo, hi, dec, _ = VARS[x]
            v = truth.field('sc' + self.endpoint + x, key + (step,), end, lo,
                            hi, dec)
            if self.p['missing']:
                v = np.where(np.arange(n) % 4 == 1, np.nan, v)
            cols[x] = v
        return end, step, cols

    def my_window(self):
        h = self.p['hoursarg'] if self.uses_hours else None
        return NOW, NOW + (h or 24) * 3600

    def expected(self):
        p = self.p
        key = self.key(p['lat'], p['lon'], p['tilt'], p['az'],
                       p['array_type'])
        t0, t1 = self.my_window()
        end, step, cols = self.series(p['params'] or DEFAULT, key,
                                      p['period'] or 'PT30M', t0, t1)
        meta = dict(latitude=p['lat'], longitude=p['lon'])
        if not p['map_variables']:
            cols['period_end'] = [truth.iso(e, suffix='.0000000Z')
                                  for e in end]
            cols['period'] = [p['period'] or 'PT30M'] * len(end)
            return dict(index=list(range(len(end))), index_kind='range',
                        cols=cols, meta=meta)
        out = {VARS[c][0]: VARS[c][4](v) for c, v in cols.items()}
        return dict(index=end - step // 2, cols=out, meta=meta)

    def error(self, req, status, text=None):
        return Reply(status, {'response_status': {
            'error_code': 'X', 'message': text or self.error_text,
            'errors': []}})


@register
class SolcastTmy(Solcast):
    name = 'solcast_tmy'
    endpoint = 'tmy/radiation_and_weather'
    uses_hours = False


@register
class SolcastForecast(Solcast):
    name = 'solcast_forecast'
    endpoint = 'forecast/radiation_and_weather'
    root = 'forecasts'


@register
class SolcastLive(Solcast):
    name = 'solcast_live'
    endpoint = 'live/radiation_and_weather'


@register
class SolcastHistoric(Solcast):
    name = 'solcast_historic'
    endpoint = 'historic/radiation_and_weather'
    uses_hours = False

    def call(self):
        from pvlib import iotools
        p = self.p
        kw = self.kw()
        if p['use_end']:
            kw['end'] = truth.caller_time(p['start'] + p['hours'] * 3600,
                                          p['how_end'])
        else:
            kw['duration'] = f'PT{p["hours"]}H'
        return iotools.get_solcast_historic(
            p['lat'], p['lon'], truth.caller_time(p['start'], p['how']),
            'the-api-key', **kw)

    def window(self, q):
        need(('end' in q) != ('duration' in q), 'end or duration')
        t0 = truth.parse_instant(q['start'])
        if 'end' in q:
            return t0, truth.parse_instant(q['end'])
        need(q['duration'].startswith('P'), 'duration')
        return t0, t0 + int(pd.Timedelta(q['duration']).total_seconds())

    def my_window(self):
        return self.p['start'], self.p['start'] + self.p['hours'] * 3600
