"""NSRDB PSM4 downloads (six end points)."""
import numpy as np
import pandas as pd

from .. import truth
from ..net import Reply
from . import register
from .base import Service, gen_site, need

# request name -> (column name in the file, pvlib name, lo, hi, decimals)
ATTR = {'ghi': ('GHI', 'ghi', 0, 1100, 0), 'dhi': ('DHI', 'dhi', 0, 500, 0),
        'dni': ('DNI', 'dni', 0, 1000, 0),
        'clearsky_ghi': ('Clearsky GHI', 'ghi_clear', 0, 1100, 0),
        'clearsky_dhi': ('Clearsky DHI', 'dhi_clear', 0, 500, 0),
        'clearsky_dni': ('Clearsky DNI', 'dni_clear', 0, 1000, 0),
        'solar_zenith_angle': ('Solar Zenith Angle', 'solar_zenith', 0, 180,
                               2),
        'air_temperature': ('Temperature', 'temp_air', -30, 45, 1),
        'dew_point': ('Dew Point', 'temp_dew', -30, 30, 1),
        'relative_humidity': ('Relative Humidity', 'relative_humidity', 0,
                              100, 2),
        'surface_pressure': ('Pressure', 'pressure', 700, 1040, 0),
        'wind_speed': ('Wind Speed', 'wind_speed', 0, 20, 1),
        'wind_direction': ('Wind Direction', 'wind_direction', 0, 360, 0),
        'surface_albedo': ('Surface Albedo', 'albedo', 0, 1, 2),
        'total_precipitable_water': ('Precipitable Water',
                                     'precipitable_water', 0, 6, 1),
        'aod': ('AOD', 'aod', 0, 1, 3),
        'cloud_type': ('Cloud Type', 'Cloud Type', 0, 12, 0),
        'ozone': ('Ozone', 'Ozone', .2, .4, 3)}
PVNAME = {v[1]: k for k, v in ATTR.items()}
DEFAULT = ['air_temperature', 'dew_point', 'dhi', 'dni', 'ghi',
           'surface_albedo', 'surface_pressure', 'wind_direction',
           'wind_speed']
UNITS = ('Clearsky DHI', 'Clearsky DNI', 'Clearsky GHI', 'Dew Point', 'DHI',
         'DNI', 'GHI', 'Solar Zenith Angle', 'Temperature', 'Pressure',
         'Relative Humidity', 'Precipitable Water', 'Wind Direction',
         'Wind Speed')


def local_rows(year, step, leap_day, tmy, tmy_years):
    """local wall-clock times of a few days of the year"""
    rows = []
    for month, day in ((1, 1), (2, 28), (2, 29), (3, 1), (12, 31)):
        y = tmy_years[month - 1] if tmy else year
        try:
            t0 = pd.Timestamp(y, month, day)
        except ValueError:
            continue
        if (month, day) == (2, 29) and (not leap_day or tmy):
            continue
        off = 30 if (tmy or step == 60) else 0
        for k in range(0, 1440, step):
            rows.append(t0 + pd.Timedelta(minutes=k + off))
    return rows


class Psm4(Service):
    body_is_json = False
    detects_truncation = False
    error_text = 'The wkt parameter cannot be resolved to a location'
    tmy = False
    tail = None

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng, dec=rng.choice([0, 2, 4, 6]))
        p['year'] = rng.choice(['tmy', 'tmy-2022', 'tgy-2020']) if cls.tmy \
            else rng.choice([2003, 2012, 2020, 2021, '2016'])
        if cls.tmy and rng.random() < 0.5:
            p['year'] = None
        p['step'] = None if rng.random() < 0.4 else \
            60 if cls.tmy else rng.choice([5, 15, 30, 60])
        r = rng.random()
        names = sorted(ATTR)
        p['parameters'] = None if r < 0.3 else [
            ATTR[x][1] if rng.random() < 0.5 and ATTR[x][1].islower()
            else x
            for x in rng.sample(names, rng.randint(1, 7))]
        p['leap'] = rng.choice([None, True, False])
        p['utc'] = rng.choice([None, True, False])
        p['tz'] = rng.choice([-7, -5, 0, 3, 8, -10])
        p['names'] = rng.random() < 0.3
        p['url'] = rng.choice([None, None, 'https://nsrdb.example.org/d.csv'])
        p['timeout'] = rng.choice([None, 90])
        p['crlf'] = rng.random() < 0.3
        p['quoted'] = rng.random() < 0.3
        return p

    def call(self):
        from pvlib import iotools
        p = self.p
        kw = dict(map_variables=p['map_variables'])
        if p['step'] is not None:
            kw['time_step'] = p['step']
        if p['parameters'] is not None:
            kw['parameters'] = list(p['parameters'])
        if p['leap'] is not None:
            kw['leap_day'] = p['leap']
        if p['utc'] is not None:
            kw['utc'] = p['utc']
        if p['names']:
            kw['full_name'], kw['affiliation'] = 'Jane Doe', 'Acme & Sons'
        if p['url']:
            kw['url'] = p['url']
        if p['timeout']:
            kw['timeout'] = p['timeout']
        if p['year'] is not None:
            kw['year'] = p['year']
        fn = getattr(iotools, 'get_' + self.name)
        return fn(p['lat'], p['lon'], 'the-api-key', 'jane+doe@example.org',
                  **kw)

    def leap(self):
        d = not self.tmy
        return d if self.p['leap'] is None else self.p['leap']

    def handle(self, req, net):
        p = self.p
        base = p['url'] or 'https://developer.nlr.gov/api/nsrdb/v2/solar/' \
            + self.tail
        need(req.url.split('?')[0] == base, 'not found ' + req.url, 404)
        need(req.method == 'GET', 'method', 405)
        q = req.params
        need(q.get('api_key') == 'the-api-key', 'API_KEY_INVALID', 403)
        need(q.get('email') == 'jane+doe@example.org', 'email')
        need(q.get('full_name') == ('Jane Doe' if p['names'] else
                                    'pvlib python'), 'full_name')
        need(q.get('affiliation') == ('Acme & Sons' if p['names'] else
                                      'pvlib python'), 'affiliation')
        need(q['wkt'].startswith('POINT(') and q['wkt'].endswith(')'), 'wkt')
        xy = q['wkt'][6:-1].split(' ')
        need(len(xy) == 2, 'wkt')
        lon, lat = map(float, xy)
        need(-180 <= lon <= 180 and -90 <= lat <= 90, 'wkt')
        need(q['leap_day'] in ('true', 'false'), 'leap_day')
        need(q['utc'] in ('true', 'false'), 'utc')
        need(q['interval'] in ('5', '15', '30', '60'), 'interval')
        attrs = q['attributes'].split(',')
        for a in attrs:
            need(a in ATTR, f'unknown attribute {a}')
        tmy = not q['names'].isdigit()
        need(tmy == self.tmy, 'names not available here')
        t, cols, tz = self.series(attrs, lon, lat, q['names'],
                                  int(q['interval']),
                                  q['leap_day'] == 'true',
                                  q['utc'] == 'true')
        meta = {'Source': 'NSRDB', 'Location ID': '401182', 'City': '-',
                'State': '-', 'Country': '-',
                'Latitude': f'{lat}', 'Longitude': f'{lon}',
                'Time Zone': str(tz), 'Elevation': '2168',
                'Local Time Zone': str(p['tz'])}
        if p['quoted']:
            meta['City'] = '"Brussels, Belgium"'
        for u in UNITS:
            meta[u + ' Units'] = 'u'
        meta['Version'] = '4.0.1'
        head = ['Year', 'Month', 'Day', 'Hour', 'Minute']
        pad = max(0, len(meta) - len(head) - len(attrs)) if p['crlf'] else 0
        nl = '\r\n' if p['crlf'] else '\n'
        lines = [','.join(meta), ','.join(meta.values()),
                 ','.join(head + [ATTR[a][0] for a in attrs]) + ',' * pad]
        arr = [cols[a] for a in attrs]
        for i, x in enumerate(t):
            vals = [str(int(c[i])) if ATTR[a][4] == 0 else repr(float(c[i]))
                    for a, c in zip(attrs, arr)]
            lines.append(f'{x.year},{x.month},{x.day},{x.hour},{x.minute},'
                         + ','.join(vals) + ',' * pad)
        return Reply(200, nl.join(lines) + nl, 'text/csv')

    def series(self, attrs, lon, lat, name, step, leap, utc):
        years = [2003 + (7 * m + len(name)) % 15 for m in range(12)]
        t = local_rows(0 if self.tmy else int(name), step, leap, self.tmy,
                       years)
        tz = 0 if utc else self.p['tz']
        ep = np.array([int(x.timestamp()) for x in t]) - tz * 3600
        cols = {}
        for a in attrs:
            _, _, lo, hi, dec = ATTR[a]
            cols[a] = truth.field('psm' + self.name + a,
                                  (lon, lat, str(name), step), ep, lo, hi,
                                  dec)
        return t, cols, tz

    def expected(self):
        p = self.p
        attrs = [PVNAME.get(x, x) for x in (p['parameters'] or DEFAULT)]
        lat = float('%.4f' % p['lat'])
        lon = float('%.4f' % p['lon'])
        name = 'tmy' if p['year'] is None else str(p['year'])
        t, cols, tz = self.series(attrs, lon, lat, name, p['step'] or 60,
                                  self.leap(), bool(p['utc']))
        ep = np.array([int(x.timestamp()) for x in t]) - tz * 3600
        out = {'Year': [x.year for x in t], 'Month': [x.month for x in t],
               'Day': [x.day for x in t], 'Hour': [x.hour for x in t],
               'Minute': [x.minute for x in t]}
        mp = p['map_variables']
        for a, v in cols.items():
            out[ATTR[a][1] if mp else ATTR[a][0]] = v
        meta = {'Time Zone': tz, 'Local Time Zone': p['tz'],
                'Version': '4.0.1', 'Source': 'NSRDB',
                'City': 'Brussels, Belgium' if p['quoted'] else '-'}
        for a, b, v in (('latitude', 'Latitude', lat),
                        ('longitude', 'Longitude', lon),
                        ('altitude', 'Elevation', 2168)):
            meta[a if mp else b] = v
        return dict(index=ep, cols=out, meta=meta, offset=tz * 3600)

    def error(self, req, status, text=None):
        if status == 403:
            # key errors come as plain text
            return Reply(403, text or self.error_text, 'text/plain')
        return Reply(status, {'inputs': {}, 'metadata': {}, 'status': status,
                              'errors': [text or self.error_text]})


def _make(nm, tail, tmy):
    register(type('Psm4_' + nm, (Psm4,), dict(
        name='nsrdb_psm4_' + nm, tail=tail, tmy=tmy)))


_make('aggregated', 'nsrdb-GOES-aggregated-v4-0-0-download.csv', False)
_make('tmy', 'nsrdb-GOES-tmy-v4-0-0-download.csv', True)
_make('conus', 'nsrdb-GOES-conus-v4-0-0-download.csv', False)
_make('full_disc', 'nsrdb-GOES-full-disc-v4-0-0-download.csv', False)
_make('polar', 'nsrdb-polar-v4-0-0-download.csv', False)
_make('polar_tmy', 'nsrdb-polar-tmy-v4-0-0-download.csv', True)
