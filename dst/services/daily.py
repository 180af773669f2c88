"""ACIS daily climate data (GridData, StnData, StnMeta)."""
import numpy as np
import pandas as pd

from .. import truth
from ..core import Violation
from ..net import Reply
from . import register
from .base import Service, gen_site, need

ELEM = {'pcpn': ('precipitation', 0, 40), 'maxt': ('temp_air_max', 0, 40),
        'mint': ('temp_air_min', -30, 15),
        'avgt': ('temp_air_average', -10, 25),
        'obst': ('temp_air_observation', -20, 35),
        'cdd': ('cooling_degree_days', 0, 20),
        'hdd': ('heating_degree_days', 0, 40),
        'gdd': ('growing_degree_days', 0, 30),
        'snow': ('snowfall', 0, 50), 'snwd': ('snowdepth', 0, 150)}
DEGREES = ('maxt', 'mint', 'avgt', 'obst', 'cdd', 'hdd', 'gdd')
GRIDS = {'1': ('nrcc', True), '3': ('nrcc', True), '21': ('prism', True),
         '2': ('mpe', False)}


def day_iso(d):
    return truth.iso(d * 86400)[:10]


def day_of(s):
    need(isinstance(s, str) and len(s) == 10, f'date {s!r}')
    return int(pd.Timestamp(s).timestamp()) // 86400


class Acis(Service):
    error_text = 'no data for the selected parameters'
    tail = 'GridData'
    grid = None

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng, (25, 49), (-124, -67))
        p['day'] = rng.randrange(11000, 20000)
        p['ndays'] = rng.choice([1, 2, 7, 40])
        p['style'] = rng.choice(['str', 'ts', 'dt', 'date', 'tz'])
        p['missing'] = rng.random() < 0.5
        p['url'] = rng.choice([None, None, 'https://acis.example.org/X'])
        p['timeout'] = rng.choice([None, 30])
        return p

    def date(self, d):
        import datetime as dt
        ts = pd.Timestamp(d * 86400, unit='s')
        s = self.p['style']
        if s == 'str':
            return ts.strftime('%Y-%m-%d')
        if s == 'dt':
            return ts.to_pydatetime()
        if s == 'date':
            return dt.date(ts.year, ts.month, ts.day)
        if s == 'tz':
            return ts.tz_localize('America/Denver')
        return ts

    def base(self):
        return self.p['url'] or 'https://data.rcc-acis.org/' + self.tail

    def kw(self):
        kw = {}
        if self.p['url']:
            kw['url'] = self.p['url']
        if self.p['timeout']:
            kw['timeout'] = self.p['timeout']
        return kw

    def args(self):
        p = self.p
        return (p['lat'], p['lon'], self.date(p['day']),
                self.date(p['day'] + p['ndays'] - 1))

    def common_checks(self, req):
        need(req.method == 'POST', 'method', 405)
        need(req.url.split('?')[0] == self.base(), 'not found ' + req.url,
             404)
        return req.json

    def elems(self, q, known=None):
        names = []
        for e in q['elems']:
            need(e['name'] in (known or ELEM), f'element {e}')
            need(e['interval'] == 'dly', 'interval')
            need(e.get('units') == ('degreeC' if e['name'] in DEGREES else
                                    'cm' if e['name'] in ('snow', 'snwd')
                                    else 'mm'), f'units {e}')
            names.append(e['name'])
        return names

    def series(self, kind, key, d0, d1, names):
        need(d1 >= d0, 'edate before sdate')
        days = np.arange(d0, d1 + 1)
        out = {}
        for n in names:
            _, lo, hi = ELEM[n]
            v = truth.field('acis' + n, (kind,) + tuple(key), days * 86400,
                            lo, hi, 1)
            if self.p['missing']:
                v = np.where(days % 4 == len(n) % 4, np.nan, v)
            out[n] = v
        return days, out

    def handle(self, req, net):
        q = self.common_checks(req)
        need(q.get('output') == 'json', 'output')
        g = str(q['grid'])
        need(g in GRIDS, 'grid')
        lon, lat = map(float, q['loc'].split(','))
        names = self.elems(q)
        if not GRIDS[g][1]:
            need(names == ['pcpn'] and 'elev' not in q['meta'],
                 'not supported for this grid')
        days, cols = self.series('grid' + g, (lat, lon), day_of(q['sdate']),
                                 day_of(q['edate']), names)
        rows = [[day_iso(d)] + [-999 if np.isnan(cols[n][i]) else
                                float(cols[n][i]) for n in names]
                for i, d in enumerate(days)]
        meta = {}
        if 'll' in q['meta']:
            meta['ll'] = [lon, lat]
        if 'elev' in q['meta']:
            meta['elev'] = 1234
        return Reply(200, {'meta': meta, 'data': rows})

    names = ['pcpn', 'maxt', 'mint', 'avgt', 'cdd', 'hdd', 'gdd']

    def expected(self):
        p = self.p
        days, cols = self.series(
            'grid' + str(p.get('grid', self.grid)), (p['lat'], p['lon']),
            p['day'], p['day'] + p['ndays'] - 1, self.names)
        mp = p['map_variables']
        meta = {('latitude' if mp else 'lat'): p['lat'],
                ('longitude' if mp else 'lon'): p['lon']}
        if self.names != ['pcpn']:
            meta['altitude' if mp else 'elev'] = 1234 * 0.3048
        return dict(index=days * 86400, index_kind='naive', meta=meta,
                    cols={ELEM[n][0] if mp else n: v
                          for n, v in cols.items()})

    def error(self, req, status, text=None):
        # ACIS reports errors as HTTP 200 with an error member
        return Reply(200 if text is None or status == 400 else status,
                     {'error': text or self.error_text})


@register
class AcisPrism(Acis):
    name = 'acis_prism'
    grid = '21'

    def call(self):
        from pvlib import iotools
        return iotools.get_acis_prism(
            *self.args(), map_variables=self.p['map_variables'], **self.kw())


@register
class AcisNrcc(Acis):
    name = 'acis_nrcc'

    @classmethod
    def gen(cls, rng):
        p = super().gen(rng)
        p['grid'] = rng.choice([1, 3])
        return p

    def call(self):
        from pvlib import iotools
        return iotools.get_acis_nrcc(
            *self.args(), self.p['grid'],
            map_variables=self.p['map_variables'], **self.kw())


@register
class AcisMpe(Acis):
    name = 'acis_mpe'
    grid = '2'
    names = ['pcpn']

    def call(self):
        from pvlib import iotools
        return iotools.get_acis_mpe(
            *self.args(), map_variables=self.p['map_variables'], **self.kw())


@register
class AcisStation(Acis):
    name = 'acis_station'
    tail = 'StnData'
    names = ['maxt', 'mint', 'avgt', 'obst', 'pcpn', 'snow', 'snwd', 'cdd',
             'hdd', 'gdd']

    @classmethod
    def gen(cls, rng):
        p = super().gen(rng)
        p['station'] = rng.choice(['ORD', 'KDEN', 94290, '262573'])
        p['trace'] = rng.choice([None, 0, 0.05])
        return p

    def call(self):
        from pvlib import iotools
        p = self.p
        kw = self.kw()
        if p['trace'] is not None:
            kw['trace_val'] = p['trace']
        return iotools.get_acis_station_data(
            p['station'], *self.args()[2:],
            map_variables=p['map_variables'], **kw)

    def traces(self, days):
        return days % 5 == 1

    def handle(self, req, net):
        q = self.common_checks(req)
        need(q.get('output') == 'json', 'output')
        need(isinstance(q['sid'], str) and q['sid'], 'sid')
        names = self.elems(q)
        days, cols = self.series('stn', (q['sid'],), day_of(q['sdate']),
                                 day_of(q['edate']), names)
        rows = []
        for i, d in enumerate(days):
            row = [day_iso(d)]
            for n in names:
                v = cols[n][i]
                if np.isnan(v):
                    row.append('M')
                elif n in ('pcpn', 'snow', 'snwd') and d % 5 == 1:
                    row.append('T')
                else:
                    row.append(f'{v:.1f}')
            rows.append(row)
        full = {'name': 'STATION ' + q['sid'], 'state': 'IL',
                'sids': [q['sid'] + ' 3'], 'sid_dates': [['94290 1', 'a',
                                                          'b']],
                'll': [-87.90, 41.96], 'elev': 674.0, 'uid': 32,
                'county': '36055', 'climdiv': 'NY10',
                'valid_daterange': [['1938-11-01', '2024-01-01']] * 3,
                'tzo': -5.0, 'network': 'x'}
        meta = {k: full[k] for k in q['meta'].split(',')}
        return Reply(200, {'meta': meta, 'data': rows})

    def expected(self):
        p = self.p
        days, cols = self.series('stn', (str(p['station']),), p['day'],
                                 p['day'] + p['ndays'] - 1, self.names)
        tr = 0.001 if p['trace'] is None else p['trace']
        for n in ('pcpn', 'snow', 'snwd'):
            cols[n] = np.where((days % 5 == 1) & ~np.isnan(cols[n]), tr,
                               cols[n])
        mp = p['map_variables']
        meta = {('latitude' if mp else 'lat'): 41.96,
                ('longitude' if mp else 'lon'): -87.90,
                ('altitude' if mp else 'elev'): 674 * 0.3048,
                'name': f'STATION {p["station"]}', 'tzo': -5.0}
        return dict(index=days * 86400, index_kind='naive', meta=meta,
                    cols={ELEM[n][0] if mp else n: v
                          for n, v in cols.items()})


@register
class AcisStations(Acis):
    name = 'acis_stations'
    tail = 'StnMeta'

    @classmethod
    def gen(cls, rng):
        p = super().gen(rng)
        p['period'] = rng.random() < 0.5
        p['box'] = [round(rng.uniform(0.5, 3), 2),
                    round(rng.uniform(0.5, 3), 2)]
        p['n'] = rng.choice([1, 3, 8])
        return p

    def call(self):
        from pvlib import iotools
        p = self.p
        a = self.args()
        kw = self.kw()
        if p['period']:
            kw['start'], kw['end'] = a[2], a[3]
        return iotools.get_acis_available_stations(
            [p['lat'], round(p['lat'] + p['box'][0], 4)],
            [p['lon'], round(p['lon'] + p['box'][1], 4)], **kw)

    def stations(self, w, s, e, n, d0=None, d1=None):
        out = []
        for i in range(self.p['n']):
            u = truth.field('stnpos', (w, s, e, n, i), [1, 2, 3], 0, 1, 6)
            out.append({'name': f'S{i}', 'state': 'VA',
                        'sids': [f'{i} 2'], 'sid_dates': [[f'{i} 2', 'a',
                                                           'b']],
                        'll': [round(w + u[0] * (e - w), 4),
                               round(s + u[1] * (n - s), 4)],
                        'elev': round(float(u[2]) * 1000, 1), 'uid': i,
                        'county': '5', 'climdiv': 'VA01', 'tzo': -5,
                        'network': f'{d0}/{d1}'})
        return out

    def handle(self, req, net):
        q = self.common_checks(req)
        w, s, e, n = map(float, q['bbox'].split(','))
        need(w < e and s < n, 'bbox')
        d0 = d1 = None
        if 'sdate' in q or 'edate' in q or 'elems' in q:
            need(q['elems'], 'elems')
            d0, d1 = day_of(q['sdate']), day_of(q['edate'])
            need(d1 >= d0, 'dates')
        st = self.stations(w, s, e, n, d0, d1)
        keep = q['meta'].split(',')
        return Reply(200, {'meta': [{k: x[k] for k in keep} for x in st]})

    def check(self, df):
        p = self.p
        d0 = d1 = None
        if p['period']:
            d0, d1 = p['day'], p['day'] + p['ndays'] - 1
        st = self.stations(p['lon'], p['lat'],
                           round(p['lon'] + p['box'][1], 4),
                           round(p['lat'] + p['box'][0], 4), d0, d1)
        if not isinstance(df, pd.DataFrame) or len(df) != len(st):
            raise Violation('wrong-number-of-records', f'{type(df)}')
        for i, x in enumerate(st):
            r = df.iloc[i]
            got = (r['name'], float(r['longitude']), float(r['latitude']),
                   float(r['altitude']), r['network'], r['uid'])
            want = (x['name'], x['ll'][0], x['ll'][1], x['elev'],
                    x['network'], x['uid'])
            if got != want:
                raise Violation('wrong-values', f'station {i}: {got}, '
                                f'published {want}')
