"""MERRA-2 (Giovanni) and NASA POWER."""
import numpy as np
import pandas as pd

from .. import truth
from ..net import Reply
from . import register
from .base import Service, gen_site, need

MERRA = {'SWGDN': ('ghi', 0, 1100), 'SWGDNCLR': ('ghi_clear', 0, 1100),
         'ALBEDO': ('albedo', 0, 1), 'LWGNT': ('longwave_net', -200, 50),
         'LWGAB': ('longwave_down', 100, 500), 'T2M': ('temp_air', 240, 310),
         'PS': ('pressure', 80000, 103000), 'TOTEXTTAU': ('aod550', 0, 2),
         'TQV': ('precipitable_water', 0, 60), 'U10M': ('U10M', -20, 20),
         'TO3': ('TO3', 200, 400)}
MERRA_SET = {'SWGDN': 'M2T1NXRAD.5.12.4', 'SWGDNCLR': 'M2T1NXRAD.5.12.4',
             'ALBEDO': 'M2T1NXRAD.5.12.4', 'LWGNT': 'M2T1NXRAD.5.12.4',
             'LWGAB': 'M2T1NXLFO.5.12.4', 'T2M': 'M2T1NXSLV.5.12.4',
             'PS': 'M2T1NXSLV.5.12.4', 'TQV': 'M2T1NXSLV.5.12.4',
             'U10M': 'M2T1NXSLV.5.12.4', 'TO3': 'M2T1NXSLV.5.12.4',
             'TOTEXTTAU': 'M2T1NXAER.5.12.4'}


@register
class Merra2(Service):
    name = 'merra2'
    steps = 2
    body_is_json = False
    detects_truncation = False

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng, dec=rng.choice([1, 3, 6]))
        year = rng.randrange(1985, 2024)
        t0 = int(pd.Timestamp(year, 1, 1, tz='UTC').timestamp())
        p['start'] = t0 + rng.randrange(0, 360 * 24) * 3600
        p['hours'] = rng.choice([1, 5, 30])
        p['how'] = truth.gen_caller(rng)
        one = rng.random() < 0.5
        if one:
            ds = rng.choice(sorted(set(MERRA_SET.values())))
            vs = [v for v in MERRA if MERRA_SET[v] == ds]
            p['dataset'] = ds
        else:
            vs = list(MERRA)
        p['variables'] = rng.sample(vs, rng.randint(1, min(4, len(vs))))
        if not one:
            p['dataset'] = [MERRA_SET[v] for v in p['variables']]
        p['missing'] = rng.random() < 0.3
        return p

    def call(self):
        from pvlib import iotools
        p = self.p
        return iotools.get_merra2(
            p['lat'], p['lon'], truth.caller_time(p['start'], p['how']),
            truth.caller_time(p['start'] + p['hours'] * 3600, p['how']),
            'user', 'pass word', p['dataset'], list(p['variables']),
            map_variables=p['map_variables'])

    def handle(self, req, net):
        if req.host == 'urs.earthdata.nasa.gov':
            need(req.path == '/api/users/find_or_create_token', 'path', 404)
            need(req.method == 'POST', 'method', 405)
            import base64
            want = 'Basic ' + base64.b64encode(b'user:pass word').decode()
            need(req.headers.get('authorization') == want, 'login', 401)
            return Reply(200, {'access_token': 'tok123',
                               'token_type': 'Bearer'})
        need(req.host == 'api.giovanni.earthdata.nasa.gov' and
             req.path == '/timeseries', 'not found ' + req.url, 404)
        need(req.method == 'GET', 'method', 405)
        need(req.headers.get('authorization') == 'Bearer tok123', 'token',
             401)
        q = req.params
        need(set(q) == {'location', 'time', 'data'}, 'parameters')
        loc = q['location']
        need(loc[0] == '[' and loc[-1] == ']', 'location')
        lat, lon = map(float, loc[1:-1].split(','))
        a, b = q['time'].split('/')
        for x in (a, b):
            need(pd.Timestamp(x).tzinfo is None, 'time must be plain UTC')
        need(a[:4] == b[:4], 'one year per request')
        ds = q['data']
        var = ds.rsplit('_', 1)[-1]
        need(var in MERRA and ds == MERRA_SET[var].replace('.', '_') + '_' +
             var, 'unknown data ' + ds, 404)
        ep, val, g = self.series(var, lat, lon, truth.parse_instant(a),
                                 truth.parse_instant(b))
        lines = [f'prod_name,{MERRA_SET[var]}', 'doi,10.5067/XYZ',
                 f'param_short_name,{var}',
                 f'param_name,"Name of {var}, time average"', 'unit,1',
                 'undef,1e+15', f'begin_time,{truth.iso(ep[0], " ", "")}',
                 f'end_time,{truth.iso(ep[-1], " ", "")}', f'lat,{g[0]}',
                 f'lon,{g[1]}', 'mean,1', '', 'Timestamp (UTC),Data']
        for e, v in zip(ep, val):
            lines.append(f'{truth.iso(e, " ", "")},'
                         f'{"1e+15" if np.isnan(v) else repr(float(v))}')
        return Reply(200, '\n'.join(lines) + '\n', 'text/csv')

    def series(self, var, lat, lon, a, b):
        g = (round(lat * 2) / 2, round(round(lon / 0.625) * 0.625, 3))
        first = -((-(a - 1800)) // 3600) * 3600 + 1800
        n = (b - first) // 3600 + 1
        need(n > 0, 'empty period')
        ep = truth.epochs(first, n, 3600)
        _, lo, hi = MERRA[var]
        v = truth.field('merra' + var, (round(lat, 4), round(lon, 4)), ep,
                        lo, hi, 4)
        if self.p['missing']:
            v = np.where(ep // 3600 % 3 == 1, np.nan, v)
        return ep, v, g

    def expected(self):
        p = self.p
        cols = {}
        for v in p['variables']:
            ep, val, g = self.series(v, round(p['lat'], 4),
                                     round(p['lon'], 4), p['start'],
                                     p['start'] + p['hours'] * 3600)
            name = v
            if p['map_variables']:
                name = MERRA[v][0]
                if v == 'T2M':
                    val = val - 273.15
            cols[name] = val
        return dict(index=ep, cols=cols, meta=dict(
            latitude=g[0], longitude=g[1], dataset=p['dataset']))

    def error(self, req, status, text=None):
        return Reply(status, text or 'error', 'text/plain')


POWER = {'ALLSKY_SFC_SW_DWN': ('ghi', 0, 1100),
         'ALLSKY_SFC_SW_DIFF': ('dhi', 0, 500),
         'ALLSKY_SFC_SW_DNI': ('dni', 0, 1000),
         'ALLSKY_SRF_ALB': ('albedo', 0, 1),
         'ALLSKY_SFC_LW_DWN': ('longwave_down', 100, 500),
         'CLRSKY_SFC_SW_DIFF': ('dhi_clear', 0, 400),
         'CLRSKY_SFC_SW_DNI': ('dni_clear', 0, 1000),
         'CLRSKY_SFC_SW_DWN': ('ghi_clear', 0, 1100),
         'PS': ('pressure', 80, 103), 'RH2M': ('relative_humidity', 0, 100),
         'T2M': ('temp_air', -30, 45), 'T2MDEW': ('temp_dew', -30, 30),
         'TQV': ('precipitable_water', 0, 60),
         'TOA_SW_DWN': ('ghi_extra', 0, 1400),
         'WS2M': ('wind_speed_2m', 0, 20), 'WS10M': ('wind_speed', 0, 25),
         'QV2M': ('QV2M', 0, 20)}
POWER_ALIAS = {v[0]: k for k, v in POWER.items()}


@register
class NasaPower(Service):
    name = 'nasa_power'
    error_text = 'is not a valid parameter'

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng)
        p['day'] = rng.randrange(12000, 20000)
        p['ndays'] = rng.choice([1, 2, 3])
        p['hour'] = rng.randrange(24)
        p['hour_end'] = rng.randrange(p['hour'], 24) if p['ndays'] == 1 \
            else rng.randrange(24)
        p['how'] = truth.gen_caller(rng)
        p['parameters'] = None if rng.random() < 0.4 else rng.sample(
            sorted(POWER), rng.randint(1, 6))
        if p['parameters'] and rng.random() < 0.6:
            p['parameters'] = [POWER[x][0] if rng.random() < 0.6 else x
                               for x in p['parameters']]
        if p['parameters'] and len(p['parameters']) == 1 and \
                rng.random() < 0.5:
            p['parameters'] = p['parameters'][0]
        p['community'] = rng.choice(['re', 're', 'sb', 'ag'])
        p['elevation'] = rng.choice([None, None, 0, 350])
        p['wind'] = rng.choice([None, [50, 'vegtype_1'], [10, 'airportice']])
        p['missing'] = rng.random() < 0.3
        p['url'] = rng.choice([None, None, 'https://power.example.org/h'])
        return p

    @property
    def fill(self):
        return -99.0 if self.p['day'] % 3 == 0 else -999.0

    def _times(self):
        p = self.p
        return (p['day'] * 86400 + p['hour'] * 3600,
                (p['day'] + p['ndays'] - 1) * 86400 + p['hour_end'] * 3600)

    def call(self):
        from pvlib import iotools
        p = self.p
        a, b = self._times()
        kw = {}
        if p['url']:
            kw['url'] = p['url']
        if p['parameters'] is not None:
            kw['parameters'] = p['parameters'] if isinstance(
                p['parameters'], str) else list(p['parameters'])
        if p['community'] != 're':
            kw['community'] = p['community']
        if p['elevation'] is not None:
            kw['elevation'] = p['elevation']
        if p['wind']:
            kw['wind_height'], kw['wind_surface'] = p['wind']
        return iotools.get_nasa_power(
            p['lat'], p['lon'], truth.caller_time(a, p['how']),
            truth.caller_time(b, p['how']),
            map_variables=p['map_variables'], **kw)

    def key(self, lat, lon, comm, elev, wh, ws):
        f = [None if x is None else float(x) for x in (lat, lon, elev, wh)]
        return (*f, comm, ws)

    def handle(self, req, net):
        base = self.p['url'] or \
            'https://power.larc.nasa.gov/api/temporal/hourly/point'
        need(req.url.split('?')[0] == base, 'not found ' + req.url, 404)
        need(req.method == 'GET', 'method', 405)
        q = req.params
        known = {'latitude', 'longitude', 'start', 'end', 'community',
                 'parameters', 'format', 'user', 'header', 'time-standard',
                 'site-elevation', 'wind-elevation', 'wind-surface'}
        need(set(q) <= known, f'unknown parameters {set(q) - known}', 422)
        need(q.get('format') == 'json', 'format', 422)
        need(q.get('time-standard', 'lst').lower() == 'utc',
             'this client wants utc', 422)
        need(str(q.get('header', 'true')).lower() == 'true', 'header', 422)
        pars = q['parameters'].split(',')
        need(len(set(pars)) == len(pars) and len(pars) <= 15, 'duplicate',
             422)
        for x in pars:
            need(x in POWER, f'{x} is not a valid parameter', 422)
        need(q['community'].lower() in ('re', 'sb', 'ag'), 'community', 422)
        need(len(q['start']) == 8 and len(q['end']) == 8, 'dates', 422)
        t0 = int(pd.Timestamp(q['start'], tz='UTC').timestamp())
        t1 = int(pd.Timestamp(q['end'], tz='UTC').timestamp())
        need(t1 >= t0, 'end before start', 422)
        key = self.key(q['latitude'], q['longitude'], q['community'],
                       q.get('site-elevation'), q.get('wind-elevation'),
                       q.get('wind-surface'))
        ep, cols = self.series(pars, key, t0, t1)
        par = {x: {truth.iso(e, fmt='%Y%m%d%H'):
                   self.fill if np.isnan(v) else float(v)
                   for e, v in zip(ep, cols[x])} for x in pars}
        return Reply(200, {
            'type': 'Feature',
            'geometry': {'type': 'Point', 'coordinates': [
                float(q['longitude']), float(q['latitude']), 705.88]},
            'properties': {'parameter': par},
            'header': {'title': 'NASA/POWER', 'api': {'version': 'v2'},
                       'sources': ['SYN1DEG'], 'fill_value': self.fill,
                       'time_standard': 'UTC', 'start': q['start'],
                       'end': q['end']},
            'messages': [],
            'parameters': {x: {'units': 'u', 'longname': x} for x in pars},
            'times': {'data': 0.1, 'process': 0.02}})

    def series(self, pars, key, t0, t1):
        ep = truth.epochs(t0, (t1 - t0) // 3600 + 24, 3600)
        cols = {}
        for x in pars:
            _, lo, hi = POWER[x]
            v = truth.field('power' + x, key, ep, lo, hi, 2)
            if self.p['missing']:
                v = np.where(ep // 3600 % 5 == 2, np.nan, v)
            cols[x] = v
        return ep, cols

    def expected(self):
        p = self.p
        a, b = self._times()
        pars = p['parameters'] or ['dni', 'dhi', 'ghi', 'temp_air',
                                   'wind_speed']
        pars = [pars] if isinstance(pars, str) else pars
        pars = [POWER_ALIAS.get(x, x) for x in pars]
        wh, ws = p['wind'] or (None, None)
        key = self.key(p['lat'], p['lon'], p['community'], p['elevation'],
                       wh, ws)
        ep, cols = self.series(pars, key, a // 86400 * 86400,
                               b // 86400 * 86400)
        if p['map_variables']:
            out = {}
            for x, v in cols.items():
                n = POWER[x][0]
                if n == 'pressure':
                    v = v * 1000
                if n == 'precipitable_water':
                    v = v / 10
                out[n] = v
            cols = out
        return dict(index=ep, cols=cols, meta=dict(
            latitude=p['lat'], longitude=p['lon'], altitude=705.88,
            fill_value=self.fill))

    def error(self, req, status, text=None):
        return Reply(status, {'header': 'The POWER API rejected the request',
                              'messages': [text or self.error_text]})
