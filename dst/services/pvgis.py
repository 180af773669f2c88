"""PVGIS: hourly series, TMY, horizon."""
import json

import numpy as np
import pandas as pd

from .. import truth
from ..core import Violation
from ..net import Reply
from . import register
from .base import Service, gen_site, need

MAP = {'G(h)': 'ghi', 'Gb(n)': 'dni', 'Gd(h)': 'dhi', 'G(i)': 'poa_global',
       'Gb(i)': 'poa_direct', 'Gd(i)': 'poa_sky_diffuse',
       'Gr(i)': 'poa_ground_diffuse', 'H_sun': 'solar_elevation',
       'T2m': 'temp_air', 'RH': 'relative_humidity', 'SP': 'pressure',
       'WS10m': 'wind_speed', 'WD10m': 'wind_direction'}
DESC = {'P': 'PV system power (W)', 'G(i)': 'Global irradiance (W/m2)',
        'Gb(i)': 'Beam irradiance (W/m2)', 'Gd(i)': 'Diffuse (W/m2)',
        'Gr(i)': 'Reflected (W/m2)', 'H_sun': 'Sun height (degree)',
        'T2m': '2-m air temperature (degree Celsius)',
        'WS10m': '10-m total wind speed (m/s)',
        'Int': '1 means solar radiation values are reconstructed'}
BASE = 'https://re.jrc.ec.europa.eu/api/'


class Pvgis(Service):
    error_text = 'Location over the sea. Please, select another location'

    def base(self):
        return self.p['url'] or BASE

    def error(self, req, status, text=None):
        return Reply(status, {'message': text or self.error_text,
                              'status': status})


def flag(v, what):
    need(v in ('0', '1'), f'{what} must be 0 or 1, got {v!r}')
    return int(v)


@register
class PvgisHourly(Pvgis):
    name = 'pvgis_hourly'

    @staticmethod
    def detects_truncation(p):
        return p['fmt'] != 'csv'

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng)
        p['fmt'] = rng.choice(['json', 'csv', None])
        p['year'] = rng.choice([None, 2005, 2013, 2016])
        p['nyears'] = rng.choice([1, 1, 2])
        p['start_as'] = rng.choice(['int', 'ts', 'str'])
        p['db'] = rng.choice([None, 'PVGIS-SARAH2', 'PVGIS-ERA5'])
        p['components'] = rng.choice([None, True, False])
        p['tilt'] = rng.choice([None, 0, 30, 41.5])
        p['azimuth'] = rng.choice([None, 180, 90, 225.5, 0])
        p['usehorizon'] = rng.choice([None, None, False])
        p['userhorizon'] = rng.choice([
            None, None, [0, 10, 5.5, 3], [0, 10.125, 5.0625, 3, 12.375]])
        p['pv'] = rng.random() < 0.4
        p['peak'] = rng.choice([1, 10.5])
        p['tech'] = rng.choice([None, 'CIS', 'CdTe'])
        p['mount'] = rng.choice([None, 'building'])
        p['loss'] = rng.choice([None, 14])
        p['track'] = rng.choice([None, None, 1, 2, 5])
        p['opt'] = rng.choice([None, None, 'tilt', 'both'])
        p['url'] = rng.choice([None, None, 'https://pvgis.example.org/api/'])
        p['timeout'] = rng.choice([None, 60])
        return p

    def kw(self):
        p = self.p
        kw = dict(map_variables=p['map_variables'])
        if p['fmt']:
            kw['outputformat'] = p['fmt']
        if p['year'] is not None:
            for k, y in (('start', p['year']),
                         ('end', p['year'] + p['nyears'] - 1)):
                kw[k] = {'int': y, 'ts': pd.Timestamp(y, 3, 4),
                         'str': f'{y}-11-30'}[p['start_as']]
        for a, b in (('db', 'raddatabase'), ('components', 'components'),
                     ('tilt', 'surface_tilt'), ('azimuth', 'surface_azimuth'),
                     ('usehorizon', 'usehorizon'),
                     ('userhorizon', 'userhorizon'), ('tech',
                                                      'pvtechchoice'),
                     ('mount', 'mountingplace'), ('loss', 'loss'),
                     ('track', 'trackingtype'), ('url', 'url'),
                     ('timeout', 'timeout')):
            if p[a] is not None:
                kw[b] = p[a]
        if p['pv']:
            kw['pvcalculation'] = True
            kw['peakpower'] = p['peak']
        if p['opt'] == 'tilt':
            kw['optimal_surface_tilt'] = True
        elif p['opt'] == 'both':
            kw['optimalangles'] = True
        return kw

    def call(self):
        from pvlib import iotools
        return iotools.get_pvgis_hourly(self.p['lat'], self.p['lon'],
                                        **self.kw())

    def handle(self, req, net):
        need(req.url.split('?')[0] == self.base() + 'seriescalc',
             'not found ' + req.url, 404)
        need(req.method == 'GET', 'method', 405)
        q = req.params
        known = {'lat', 'lon', 'usehorizon', 'userhorizon', 'raddatabase',
                 'startyear', 'endyear', 'pvcalculation', 'peakpower',
                 'pvtechchoice', 'mountingplace', 'loss', 'trackingtype',
                 'angle', 'aspect', 'optimalinclination', 'optimalangles',
                 'components', 'outputformat', 'browser'}
        need(set(q) <= known, f'unknown {set(q) - known}')
        fmt = q['outputformat']
        need(fmt in ('json', 'csv'), 'outputformat')
        f = {k: flag(q.get(k, d), k) for k, d in (
            ('components', '0'), ('usehorizon', '1'), ('pvcalculation', '0'),
            ('optimalangles', '0'), ('optimalinclination', '0'))}
        if f['pvcalculation']:
            need('peakpower' in q, 'peakpower is mandatory')
        need(-180 <= float(q['aspect']) <= 180, 'aspect')
        y0 = int(q['startyear']) if 'startyear' in q else None
        y1 = int(q['endyear']) if 'endyear' in q else None
        key = self.key(q['lat'], q['lon'], q['angle'], q['aspect'],
                       f['usehorizon'], q.get('userhorizon'),
                       q.get('raddatabase'), f['pvcalculation'],
                       q.get('peakpower'), q['pvtechchoice'],
                       q['mountingplace'], q['loss'], q['trackingtype'],
                       f['optimalangles'], f['optimalinclination'])
        ep, cols = self.series(key, f['components'], f['pvcalculation'], y0,
                               y1)
        lat, lon = float(q['lat']), float(q['lon'])
        if fmt == 'json':
            rows = [{'time': truth.iso(e, fmt='%Y%m%d:%H%M'),
                     **{c: float(v[i]) for c, v in cols.items()}}
                    for i, e in enumerate(ep)]
            return Reply(200, {
                'inputs': {'location': {'latitude': lat, 'longitude': lon,
                                        'elevation': 250.0},
                           'meteo_data': {'radiation_db': q.get(
                               'raddatabase', 'PVGIS-SARAH3')}},
                'outputs': {'hourly': rows},
                'meta': {'inputs': {'location': {'description': 'Selected'}},
                         'outputs': {'hourly': {'type': 'time series'}}}})
        lines = [f'Latitude (decimal degrees):\t{lat!r}',
                 f'Longitude (decimal degrees):\t{lon!r}',
                 'Elevation (m):\t250', 'Radiation database:\t' +
                 q.get('raddatabase', 'PVGIS-SARAH3'), '', '',
                 f'Slope: {q["angle"]} deg. ', 'Azimuth: '
                 f'{q["aspect"]} deg. ']
        if f['pvcalculation']:
            lines += ['Nominal power of the PV system (c-Si) (kWp):\t10',
                      'System losses (%):\t5.0']
        lines.append(','.join(['time'] + list(cols)))
        for i, e in enumerate(ep):
            lines.append(truth.iso(e, fmt='%Y%m%d:%H%M') + ',' + ','.join(
                repr(float(v[i])) for v in cols.values()))
        lines.append('')
        lines += [f'{c}: {DESC[c]}' for c in cols]
        lines += ['', '', '', 'PVGIS (c) European Union, 2001-2024']
        return Reply(200, '\r\n'.join(lines), 'text/csv')

    def key(self, *a):
        out = []
        for x in a:
            try:
                out.append(float(x))
            except (TypeError, ValueError):
                out.append(str(x))
        return tuple(out)

    def series(self, key, components, pv, y0, y1):
        y0, y1 = y0 or 2005, y1 or y0 or 2005
        need(y1 >= y0, 'endyear')
        ep = []
        for y in range(y0, y1 + 1):        # a day around each year boundary
            t = int(pd.Timestamp(y, 1, 1).timestamp()) + 600
            ep += list(range(t, t + 20 * 3600, 3600))
            t = int(pd.Timestamp(y, 12, 31).timestamp()) + 600
            ep += list(range(t + 3600 * 12, t + 86400, 3600))
        ep = np.array(ep)
        names = (['P'] if pv else []) + (
            ['Gb(i)', 'Gd(i)', 'Gr(i)'] if components else ['G(i)']) + \
            ['H_sun', 'T2m', 'WS10m', 'Int']
        cols = {}
        for n in names:
            lo, hi = {'T2m': (-20, 40), 'WS10m': (0, 15),
                      'H_sun': (0, 60)}.get(n, (0, 900))
            cols[n] = truth.field('pvgis' + n, key, ep, lo, hi, 2)
            if n == 'Int':
                cols[n] = (cols[n] > 450).astype(float)
        return ep, cols

    def expected(self):
        p = self.p

        def d(k, default):
            return default if p[k] is None else p[k]
        uh = p['userhorizon']
        comp = int(d('components', True))
        key = self.key(p['lat'], p['lon'], d('tilt', 0),
                       d('azimuth', 180) - 180, int(d('usehorizon', True)),
                       None if uh is None else ','.join(map(str, uh)),
                       p['db'], int(p['pv']), p['peak'] if p['pv'] else None,
                       d('tech', 'crystSi'), d('mount', 'free'),
                       d('loss', 0), d('track', 0), int(p['opt'] == 'both'),
                       int(p['opt'] == 'tilt'))
        y0 = p['year']
        y1 = None if y0 is None else y0 + p['nyears'] - 1
        ep, cols = self.series(key, comp, p['pv'], y0, y1)
        if p['map_variables']:
            cols = {MAP.get(k, k): v for k, v in cols.items()}
        meta = {'inputs': {'latitude': p['lat'], 'longitude': p['lon'],
                           'elevation': 250}}
        if p['fmt'] != 'csv':
            return dict(index=ep, cols=cols, meta={}, location=meta['inputs'])
        return dict(index=ep, cols=cols, meta=meta)

    def check(self, value):
        from .base import check_result
        e = self.expected()
        check_result(value, e, self.name)
        if 'location' in e:
            got = value[1]['inputs']['location']
            for k, v in e['location'].items():
                if got[k] != v:
                    raise Violation('wrong-metadata', f'{k}: {got[k]}')


TMY_COLS = {'T2m': (-20, 40), 'RH': (0, 100), 'G(h)': (0, 1000),
            'Gb(n)': (0, 900), 'Gd(h)': (0, 500), 'IR(h)': (150, 400),
            'WS10m': (0, 15), 'WD10m': (0, 360), 'SP': (90000, 103000)}


@register
class PvgisTmy(Pvgis):
    name = 'pvgis_tmy'

    @staticmethod
    def detects_truncation(p):
        return p['fmt'] != 'epw'

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng)
        p['fmt'] = rng.choice(['json', 'csv', 'epw', None])
        p['usehorizon'] = rng.choice([None, True, False])
        p['userhorizon'] = rng.choice([
            None, None, [0, 10, 20, 30, 15], [0.125, 10, 20.375, 30, 15]])
        p['startyear'] = rng.choice([None, 2006])
        p['endyear'] = rng.choice([None, 2018])
        p['roll'] = rng.choice([None, None, -8, 0, 3, 12, -1])
        p['coerce'] = rng.choice(['default', None, 2001, 1990])
        p['offset'] = rng.random() < 0.5
        p['url'] = rng.choice([None, None, 'https://pvgis.example.org/api/'])
        p['timeout'] = rng.choice([None, 60])
        p['slim'] = True
        return p

    def call(self):
        from pvlib import iotools
        p = self.p
        kw = dict(map_variables=p['map_variables'])
        for a, b in (('fmt', 'outputformat'), ('usehorizon', 'usehorizon'),
                     ('userhorizon', 'userhorizon'),
                     ('startyear', 'startyear'), ('endyear', 'endyear'),
                     ('roll', 'roll_utc_offset'), ('url', 'url'),
                     ('timeout', 'timeout')):
            if p[a] is not None:
                kw[b] = p[a]
        if p['coerce'] != 'default':
            kw['coerce_year'] = p['coerce']
        return iotools.get_pvgis_tmy(p['lat'], p['lon'], **kw)

    def handle(self, req, net):
        need(req.url.split('?')[0] == self.base() + 'tmy',
             'not found ' + req.url, 404)
        need(req.method == 'GET', 'method', 405)
        q = req.params
        need(set(q) <= {'lat', 'lon', 'usehorizon', 'userhorizon',
                        'startyear', 'endyear', 'outputformat', 'browser'},
             'unknown parameter')
        fmt = q['outputformat']
        need(fmt in ('json', 'csv', 'epw'), 'outputformat')
        uh = flag(q.get('usehorizon', '1'), 'usehorizon')
        lat, lon = float(q['lat']), float(q['lon'])
        key = (lat, lon, uh, q.get('userhorizon'),
               str(q.get('startyear')), str(q.get('endyear')))
        years, ep, cols = self.series(key)
        return Reply(200, self.body(fmt, lat, lon, years, ep, cols),
                     'application/json' if fmt == 'json' else 'text/csv')

    def series(self, key):
        k = sum(map(ord, repr(key)))
        years = [2005 + (k * 7 + 5 * m) % 15 for m in range(12)]
        ep = []
        for m, y in enumerate(years):
            a = pd.Timestamp(y, m + 1, 1)
            n = {2: 28}.get(m + 1, a.days_in_month)
            ep.append(truth.epochs(int(a.timestamp()), n * 24, 3600))
        ep = np.concatenate(ep)
        cols = {c: truth.field('pvgistmy' + c, key, ep, lo, hi, 1)
                for c, (lo, hi) in TMY_COLS.items()}
        return years, ep, cols

    def body(self, fmt, lat, lon, years, ep, cols):
        t = pd.to_datetime(ep, unit='s')
        stamps = list(t.strftime('%Y%m%d:%H%M'))
        if fmt == 'json':
            df = pd.DataFrame({'time(UTC)': stamps, **cols})
            return json.dumps({
                'inputs': {'location': {'latitude': lat, 'longitude': lon,
                                        'elevation': 250.0}},
                'outputs': {'months_selected': [
                    {'month': i + 1, 'year': y}
                    for i, y in enumerate(years)],
                    'tmy_hourly': df.to_dict('records')},
                'meta': {'inputs': {'location': {}}, 'outputs': {}}})
        if fmt == 'csv':
            df = pd.DataFrame({'time(UTC)': stamps, **cols})
            head = [f'Latitude (decimal degrees): {lat!r}',
                    f'Longitude (decimal degrees): {lon!r}',
                    'Elevation (m): 250.0']
            if self.p['offset']:
                head.append('Irradiance Time Offset (h): 0.1761')
            head.append('month,year')
            head += [f'{i + 1},{y}' for i, y in enumerate(years)]
            s = '\r\n'.join(head) + '\r\n'
            s += df.to_csv(index=False, lineterminator='\r\n')
            s += '\r\n' + '\r\n'.join(
                [f'{c}: about {c} (u)' for c in cols] +
                ['', 'PVGIS (c) European Union, 2001-2025'])
            return s
        head = [f'LOCATION,unknown,-,unknown,ECMWF/ERA,unknown,{lat!r},'
                f'{lon!r},0,250.0', 'DESIGN CONDITIONS,1,x',
                'TYPICAL/EXTREME PERIODS,0', 'GROUND TEMPERATURES,0',
                'HOLIDAYS/DAYLIGHT SAVINGS,Yes,0,0,0',
                'COMMENTS 1,x', 'COMMENTS 2,y',
                'DATA PERIODS,1,1,Data,Sunday,1/1,12/31']
        n = len(ep)
        z = ['0'] * n
        f = {c: [repr(float(x)) for x in v] for c, v in cols.items()}
        flds = [list(map(str, t.year)), list(map(str, t.month)),
                list(map(str, t.day)), list(map(str, t.hour + 1)),
                ['60'] * n, ['_'] * n, f['T2m'], ['99.9'] * n, f['RH'],
                f['SP'], z, z, f['IR(h)'], f['G(h)'], f['Gb(n)'],
                f['Gd(h)'], z, z, z, z, f['WD10m'], f['WS10m']] + [z] * 13
        rows = [','.join(r) for r in zip(*flds)]
        return '\r\n'.join(head + rows) + '\r\n'

    def expected(self):
        p = self.p
        uh = p['userhorizon']
        key = (p['lat'], p['lon'], int(p['usehorizon'] is not False),
               None if uh is None else ','.join(map(str, uh)),
               str(p['startyear']), str(p['endyear']))
        key = (float(key[0]), float(key[1])) + key[2:]
        years, ep, cols = self.series(key)
        fmt = p['fmt'] or 'json'
        coerce = 1990 if p['coerce'] == 'default' else p['coerce']
        off = None
        if coerce is not None or p['roll'] is not None:
            off = p['roll'] or 0
            coerce = coerce or 1990
            # hour of the typical year, in UTC
            hour = np.arange(8760)
            t = pd.DatetimeIndex(pd.to_datetime(ep, unit='s'))
            local = pd.DatetimeIndex([x.replace(year=coerce) for x in t])
            # the record of local hour h is the one of UTC hour h - off
            order = (hour - off) % 8760
            cols = {c: v[order] for c, v in cols.items()}
            ep = np.asarray(local.as_unit('s').asi8) - off * 3600
            off *= 3600
        meta = {}
        mp = p['map_variables']
        if fmt == 'epw':
            names = {'T2m': 'temp_air', 'RH': 'relative_humidity',
                     'SP': 'atmospheric_pressure', 'G(h)': 'ghi',
                     'Gb(n)': 'dni', 'Gd(h)': 'dhi',
                     'WS10m': 'wind_speed', 'WD10m': 'wind_direction'}
            cols = {names[c]: v for c, v in cols.items() if c in names}
            meta = {'latitude': p['lat'], 'longitude': p['lon'],
                    'altitude': 250}
            return dict(index=ep, cols=cols, meta=meta, offset=off,
                        subset=True)
        if mp:
            cols = {MAP.get(c, c): v for c, v in cols.items()}
        if fmt == 'csv':
            meta = {'inputs': {'latitude': p['lat'], 'longitude': p['lon'],
                               'elevation': 250}}
        return dict(index=ep, cols=cols, meta=meta, offset=off, years=years)

    def check(self, value):
        from .base import check_result
        e = self.expected()
        if e.get('subset'):
            value = (value[0][list(e['cols'])], value[1])
        check_result(value, e, self.name)
        if 'years' in e:
            got = [(m['month'], m['year'])
                   for m in value[1]['months_selected']]
            if got != list(zip(range(1, 13), e['years'])):
                raise Violation('wrong-metadata', f'months_selected {got}')


@register
class PvgisHorizon(Pvgis):
    name = 'pvgis_horizon'

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng)
        p['step'] = rng.choice([7.5, 15, 45])
        p['url'] = rng.choice([None, None, 'https://pvgis.example.org/api/'])
        return p

    def call(self):
        from pvlib import iotools
        kw = {'url': self.p['url']} if self.p['url'] else {}
        return iotools.get_pvgis_horizon(self.p['lat'], self.p['lon'], **kw)

    def profile(self, lat, lon):
        az = np.arange(-180, 180 + 1e-9, self.p['step'])
        h = truth.field('hor', (float(lat), float(lon)),
                        (az * 10).astype(int) % 3600, 0, 30, 1)
        return az, h

    def handle(self, req, net):
        need(req.url.split('?')[0] == self.base() + 'printhorizon',
             'not found ' + req.url, 404)
        need(req.method == 'GET', 'method', 405)
        q = req.params
        need(q['outputformat'] == 'json', 'outputformat')
        az, h = self.profile(q['lat'], q['lon'])
        return Reply(200, {'inputs': {'location': {}}, 'outputs': {
            'horizon_profile': [{'A': float(a), 'H_hor': float(b)}
                                for a, b in zip(az, h)]},
            'meta': {'inputs': {'location': {'description': 'x'}},
                     'lat': q['lat']}})

    def check(self, value):
        s, meta = value
        az, h = self.profile(self.p['lat'], self.p['lon'])
        az, h = az[:-1] + 180, h[:-1]
        if not isinstance(s, pd.Series) or len(s) != len(az) or \
                not np.allclose(s.index.values.astype(float), az):
            raise Violation('wrong-index', f'{s!r}')
        if not np.array_equal(s.values.astype(float), h):
            raise Violation('wrong-values', 'horizon profile')
