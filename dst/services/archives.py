"""Measurement-station archives that are downloaded as a sequence of files:
SURFRAD, SOLRAD (daily files over HTTP), SRML (monthly, HTTP), BSRN (monthly,
gzip, FTP).  file_text() functions follow the networks' format descriptions."""
import calendar
import datetime as dt
import gzip

import numpy as np
import pandas as pd

from .. import truth
from ..net import Reply
from .base import Service, need

DAY = 86400


def day_of(n):
    return dt.date(1970, 1, 1) + dt.timedelta(days=n)


def _num(v, width, dec, missing):
    return f'{(missing if np.isnan(v) else v):{width}.{dec}f}'


# -- SURFRAD -----------------------------------------------------------------

SURF_VARS = ['dw_solar', 'uw_solar', 'direct_n', 'diffuse', 'dw_ir',
             'dw_casetemp', 'dw_dometemp', 'uw_ir', 'uw_casetemp',
             'uw_dometemp', 'uvb', 'par', 'netsolar', 'netir', 'totalnet',
             'temp', 'rh', 'windspd', 'winddir', 'pressure']
SURF_NAMES = {'zen': 'solar_zenith', 'dw_solar': 'ghi', 'direct_n': 'dni',
              'diffuse': 'dhi', 'temp': 'temp_air', 'rh': 'relative_humidity',
              'windspd': 'wind_speed', 'winddir': 'wind_direction'}


def holes(values, key, rate):
    """mark some values as missing, deterministically"""
    values = values.copy()
    if rate:
        pick = truth.field('hole' + key, rate, np.arange(len(values)), 0, 1,
                           6) < rate
        values[pick] = np.nan
    return values


def surfrad_data(site, epochs, rate=0.0):
    cols = {'zen': truth.field('zen', site, epochs, 0, 180, 2)}
    for v in SURF_VARS:
        x = holes(truth.field(v, site, epochs, -10, 999, 1),
                  f'{v}{site}{epochs[0]}', rate)
        cols[v] = x
        cols[v + '_flag'] = np.isnan(x).astype(int)
    return cols


def surfrad_text(name, lat, lon, elev, epochs, cols, nl='\n'):
    lines = [f' {name}', f'   {lat:5.2f}  {lon:6.2f} {elev} m version 1']
    for i, e in enumerate(epochs):
        t = dt.datetime(1970, 1, 1) + dt.timedelta(seconds=int(e))
        row = (f' {t.year:4d}{t.timetuple().tm_yday:4d}{t.month:3d}'
               f'{t.day:3d}{t.hour:3d}{t.minute:3d}'
               f'{t.hour + t.minute / 60:7.3f}{cols["zen"][i]:7.2f}')
        for v in SURF_VARS:
            row += _num(cols[v][i], 8, 1, -9999.9)
            row += f'{cols[v + "_flag"][i]:2d}'
        lines.append(row)
    return nl.join(lines) + nl


def surfrad_frame(epochs, cols, mapped):
    out = {}
    for k, v in cols.items():
        base = k[:-5] if k.endswith('_flag') else k
        n = SURF_NAMES.get(base, base) if mapped else base
        out[n + ('_flag' if k.endswith('_flag') else '')] = v
    ts = pd.to_datetime(epochs, unit='s')
    for n in ('year', 'month', 'day', 'hour', 'minute'):
        out[n] = np.asarray(getattr(ts, n))
    out['jday'] = np.asarray(ts.dayofyear)
    return out


# -- SOLRAD ------------------------------------------------------------------

def solrad_layout(station):
    base = ['ghi', 'dni', 'dhi', 'uvb', 'uvb_temp']
    std = ['std_dw_psp', 'std_direct', 'std_diffuse', 'std_uvb']
    if station == 'msn':
        return base + ['dpir', 'dpirc', 'dpird'], \
            std + ['std_dpir', 'std_dpirc', 'std_dpird']
    return base, std


def solrad_data(station, site, epochs, rate=0.0):
    flagged, std = solrad_layout(station)
    cols = {'solar_zenith': truth.field('zen', site, epochs, 0, 180, 2)}
    for v in flagged:
        x = holes(truth.field('sol' + v, site, epochs, -5, 999, 1),
                  f'{v}{site}{epochs[0]}', rate)
        cols[v] = x
        cols[v + '_flag'] = np.isnan(x).astype(int)
    for v in std:
        # a last digit of 0: read_solrad cuts the last column one short
        cols[v] = truth.field('sol' + v, site, epochs, 0, 50, 2)
    return cols


def solrad_text(station, name, lat, lon, elev, tz, epochs, cols):
    flagged, std = solrad_layout(station)
    lines = [f' {name}', f'   {lat:8.5f} {lon:9.5f} {elev} {tz}  version 1']
    for i, e in enumerate(epochs):
        t = dt.datetime(1970, 1, 1) + dt.timedelta(seconds=int(e))
        row = (f' {t.year:4d}{t.timetuple().tm_yday:4d}{t.month:3d}'
               f'{t.day:3d}{t.hour:3d}{t.minute:3d}'
               f'{t.hour + t.minute / 60:7.3f}{cols["solar_zenith"][i]:7.2f}')
        for v in flagged:
            row += _num(cols[v][i], 8, 1, -9999.9)
            row += f'{cols[v + "_flag"][i]:2d}'
        for v in std:
            row += _num(cols[v][i], 10, 3, -9999.9)
        lines.append(row)
    return '\n'.join(lines) + '\n'


# -- SRML --------------------------------------------------------------------

SRML_COLS = [('1000', 'ghi_0'), ('2010', 'dni_0'), ('3001', 'dhi_1'),
             ('9300', 'temp_air_0'), ('9210', 'wind_speed_0'),
             ('7008', '7008')]


def srml_data(site, epochs, rate=0.0):
    cols = {}
    for c, _ in SRML_COLS:
        dec = 1 if c[0] in '79' else 0
        cols[c] = holes(truth.field('srml' + c, site, epochs, 0, 999, dec),
                        f'{c}{site}{epochs[0]}', rate)
    return cols


def srml_text(station_no, step, epochs, cols):
    """epochs: starts of the intervals, in local standard time (UTC-8)"""
    t0 = dt.datetime(1970, 1, 1)
    year = (t0 + dt.timedelta(seconds=int(epochs[0]))).year
    head = [str(station_no), str(year)]
    for c, _ in SRML_COLS:
        head += [c, '0']
    lines = ['\t'.join(head)]
    for i, e in enumerate(epochs):
        t = t0 + dt.timedelta(seconds=int(e))
        m = t.hour * 60 + t.minute + step          # end of the interval
        hhmm = (m // 60) * 100 + m % 60
        row = [str(t.timetuple().tm_yday), str(hhmm)]
        for c, _ in SRML_COLS:
            v = cols[c][i]
            row += ['0', '99'] if np.isnan(v) else [f'{v:g}', '12']
        lines.append('\t'.join(row))
    return '\n'.join(lines) + '\n'


# -- BSRN --------------------------------------------------------------------

LR0100 = [['ghi', 'dni'], ['dhi', 'lwd']]


def bsrn_data(site, epochs, records, rate=0.0):
    """{record: {column: values}}"""
    out = {}
    for lr in records:
        cols = {}
        if lr == '0100':
            names = [(v + s, 0 if s != '_std' else 1)
                     for v in ('ghi', 'dni', 'dhi', 'lwd')
                     for s in ('', '_std', '_min', '_max')]
            names += [('temp_air', 1), ('relative_humidity', 1),
                      ('pressure', 0)]
        elif lr == '0300':
            names = [(v + s, 0 if s != '_std' else 1)
                     for v in ('gri', 'lwu', 'net_radiation')
                     for s in ('', '_std', '_min', '_max')]
        else:
            names = [(v + s, 1) for v in ('uva_global', 'uvb_direct',
                                          'uvb_global', 'uvb_diffuse',
                                          'uvb_reflected')
                     for s in ('', '_std', '_min', '_max')]
        for n, dec in names:
            hi = 99 if n in ('temp_air', 'relative_humidity') or dec else 999
            cols[n] = holes(truth.field('bsrn' + n, site, epochs, 0, hi, dec),
                            f'{n}{site}{epochs[0]}', rate)
        out[lr] = cols
    return out


def _b(v, width, dec):
    miss = -99.9 if dec else -999
    return _num(v, width, dec, miss)


def _four(c, v, i):
    return (f'{_b(c[v][i], 4, 0)} {_b(c[v + "_std"][i], 5, 1)} '
            f'{_b(c[v + "_min"][i], 4, 0)} {_b(c[v + "_max"][i], 4, 0)}')


def bsrn_text(station_id, year, month, site, epochs, data, horizon=True,
              others=('0001', '0002')):
    lat, lon, alt = site
    L = ['*U0001', f' {station_id:2d} {month:2d} {year:4d}  1',
         '       2       3       4       5      21      22      23      -1',
         '*U0002', ' -1 -1 -1', 'A. Scientist            041 22 33', '*U0003',
         'XXX', '*U0004', ' 1  0  0', ' 11  3',
         ' Station Road 1, Somewhere',
         ' 0041-26-6626211     0041-26-6626212 ',
         ' 192.0.2.77     station@example.org',
         f' {lat + 90:7.3f} {lon + 180:7.3f} {alt:4d} 06610', ' 1  0  0']
    if horizon:
        L += ['   0  7  10  6  20  5  30  4  40  3  50  2  60  1',
              ' 300  2 310  4 -1 -1']
    L += ['*U0008', ' 1  0  0  N', 'Kipp & Zonen                   CM21']
    for lr in ('0100', '0300', '0500'):
        if lr not in data:
            continue
        c = data[lr]
        L.append(('*C' if lr == '0100' else '*U') + lr)
        for i, e in enumerate(epochs):
            t = dt.datetime(1970, 1, 1) + dt.timedelta(seconds=int(e))
            head = f' {t.day:2d} {t.hour * 60 + t.minute:4d}'
            if lr == '0100':
                L.append(f'{head}   {_four(c, "ghi", i)}   '
                         f'{_four(c, "dni", i)}')
                L.append(f'{"":8}   {_four(c, "dhi", i)}   '
                         f'{_four(c, "lwd", i)}    '
                         f'{_b(c["temp_air"][i], 5, 1)} '
                         f'{_b(c["relative_humidity"][i], 5, 1)} '
                         f'{_b(c["pressure"][i], 4, 0)}')
            elif lr == '0300':
                L.append(f'{head}   {_four(c, "gri", i)}   '
                         f'{_four(c, "lwu", i)}   '
                         f'{_four(c, "net_radiation", i)}')
            else:
                def six(names):
                    return ''.join(
                        ' ' + _b(c[n + s][i], 5, 1) for n in names
                        for s in ('', '_std', '_min', '_max'))
                L.append(head + six(['uva_global', 'uvb_direct']))
                L.append(f'{"":8}' + six(['uvb_global', 'uvb_diffuse',
                                          'uvb_reflected']))
    return '\n'.join(L) + '\n'


# -- the archives ------------------------------------------------------------

class Archive(Service):
    """p: start/end (epoch), how, missing (list of file numbers), rows"""
    body_is_json = False
    detects_truncation = False
    fidelity = False
    host = None

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['holes'] = rng.choice([0, 0.1])
        return p

    def rel(self, i):
        """path of file i under the base url"""
        raise NotImplementedError

    def nfiles(self):
        raise NotImplementedError

    def files(self):
        """[(relative path, bytes, epochs, expected columns)]"""
        if not hasattr(self, '_files'):
            self._files = [self.make(i) for i in range(self.nfiles())]
        return self._files

    def held(self):
        return [i for i in range(self.nfiles())
                if i not in self.p['missing']]

    @classmethod
    def gen_missing(cls, rng, n):
        if rng.random() < 0.35:
            return []
        k = rng.choice([0.2, 0.5, 1.0])
        return [i for i in range(n) if rng.random() < k]

    def handle(self, req, net):
        base = self.base()
        need(req.url.startswith(base), 'unknown host ' + req.url, 404)
        need(req.method == 'GET', 'method', 405)
        rest = req.url[len(base):]
        for i in self.held():
            if self.files()[i][0] == rest:
                return Reply(200, self.files()[i][1], 'text/plain')
        return Reply(404, '<html><body><h1>Not Found</h1></body></html>',
                     'text/html')

    def error(self, req, status, text=None):
        return Reply(status, '<html><body>error</body></html>', 'text/html')

    def meta(self):
        p = self.p
        return {'latitude': p['lat'], 'longitude': p['lon']}


class Daily(Archive):
    default_url = None

    @classmethod
    def gen(cls, rng):
        p = super().gen(rng)
        p['station'] = rng.choice(cls.stations)
        p['upper'] = rng.random() < 0.3
        # around year ends and leap days as well
        p['day'] = rng.choice([
            rng.randrange(9000, 19500),
            (dt.date(rng.randrange(1996, 2023), 12, 29)
             - dt.date(1970, 1, 1)).days,
            (dt.date(rng.choice([1996, 2000, 2016, 2020, 2019]), 2, 27)
             - dt.date(1970, 1, 1)).days])
        p['ndays'] = rng.choice([1, 1, 2, 3, 5])
        p['sod'] = rng.choice([0, 0, 3600, 43200, 86340])
        p['eod'] = rng.choice([0, 0, 60, 43200, 86340])
        if p['ndays'] == 1 and p['eod'] < p['sod']:
            p['eod'] = p['sod']
        p['how'] = {'style': rng.choice(['naive_str', 'naive_ts', 'naive_dt',
                                         'tz_ts', 'tz_dt']), 'tz': 'UTC'}
        p['step'] = rng.choice([60, 3600, 14400])
        p['rows'] = rng.choice([2, 4, 6])
        p['missing'] = cls.gen_missing(rng, p['ndays'])
        p['lat'] = round(rng.uniform(25, 65), 2)
        p['lon'] = round(rng.uniform(-150, 20), 2)
        p['url'] = rng.choice([None, None,
                               'https://mirror.example.org/radiation/',
                               'https://mirror.example.org/msn-copy/'])
        return p

    def base(self):
        return self.p['url'] or self.default_url

    def nfiles(self):
        return self.p['ndays']

    def rel(self, i):
        d = day_of(self.p['day'] + i)
        s = self.p['station']
        return (f'{s}/{d.year}/{s}{d.year % 100:02d}'
                f'{d.timetuple().tm_yday:03d}.dat')

    def args(self):
        p = self.p
        s = p['station'].upper() if p['upper'] else p['station']
        kw = {'url': p['url']} if p['url'] else {}
        a = truth.caller_time(p['day'] * DAY + p['sod'], p['how'])
        b = truth.caller_time((p['day'] + p['ndays'] - 1) * DAY + p['eod'],
                              p['how'])
        return s, a, b, kw


class Surfrad(Daily):
    name = 'surfrad'
    default_url = 'https://gml.noaa.gov/aftp/data/radiation/surfrad/'
    stations = ['bon', 'fpk', 'slv', 'psu']

    def call(self):
        from pvlib import iotools
        s, a, b, kw = self.args()
        if not self.p['map_variables']:
            kw['map_variables'] = False
        return iotools.get_surfrad(s, a, b, **kw)

    def own(self, path):
        from pvlib import iotools
        return iotools.read_surfrad(path,
                                    map_variables=self.p['map_variables'])

    def make(self, i):
        p = self.p
        ep = truth.epochs((p['day'] + i) * DAY, p['rows'], p['step'])
        cols = surfrad_data(p['station'], ep, p['holes'])
        text = surfrad_text('Bondville', p['lat'], p['lon'], 213, ep, cols)
        return (self.rel(i), text.encode(), ep,
                surfrad_frame(ep, cols, p['map_variables']))


class Solrad(Daily):
    name = 'solrad'
    default_url = 'https://gml.noaa.gov/aftp/data/radiation/solrad/'
    stations = ['abq', 'msn', 'slc']

    def call(self):
        from pvlib import iotools
        s, a, b, kw = self.args()
        return iotools.get_solrad(s, a, b, **kw)

    def own(self, path):
        from pvlib import iotools
        return iotools.read_solrad(path)

    def make(self, i):
        p = self.p
        ep = truth.epochs((p['day'] + i) * DAY, p['rows'], p['step'])
        cols = solrad_data(p['station'], p['station'], ep, p['holes'])
        text = solrad_text(p['station'], 'Albuquerque', p['lat'], p['lon'],
                           1617, -7, ep, cols)
        return self.rel(i), text.encode(), ep, cols


class Monthly(Archive):
    @classmethod
    def gen(cls, rng):
        p = super().gen(rng)
        p['ym'] = rng.choice([rng.randrange(1995 * 12, 2023 * 12),
                              rng.randrange(1998, 2020) * 12 + 10])
        p['nmonths'] = rng.choice([1, 1, 2, 3, 4])
        p['d0'] = rng.choice([1, 1, 15, 28])
        p['d1'] = rng.choice([1, 28, 10])
        if p['nmonths'] == 1 and p['d1'] < p['d0']:
            p['d1'] = p['d0']
        p['sod'] = rng.choice([0, 0, 3600, 82800])
        p['how'] = {'style': rng.choice(['naive_str', 'naive_ts',
                                         'naive_dt']), 'tz': None}
        p['rows'] = rng.choice([2, 4])
        p['missing'] = cls.gen_missing(rng, p['nmonths'])
        p['lat'] = round(rng.uniform(-80, 80), 3)
        p['lon'] = round(rng.uniform(-170, 170), 3)
        return p

    def nfiles(self):
        return self.p['nmonths']

    def ym(self, i):
        return divmod(self.p['ym'] + i, 12)

    def t0(self, i, day=1):
        y, m = self.ym(i)
        return calendar.timegm((y, m + 1, day, 0, 0, 0))

    def period(self):
        p = self.p
        a = self.t0(0, p['d0']) + p['sod']
        b = self.t0(p['nmonths'] - 1, p['d1']) + p['sod']
        return (truth.caller_time(a, p['how']), truth.caller_time(b, p['how']))


class Srml(Monthly):
    name = 'srml'
    TYPES = {'PO': 1, 'RO': 1, 'PF': 5, 'RF': 5, 'PQ': 15, 'RQ': 15,
             'PH': 60, 'RH': 60}

    @classmethod
    def gen(cls, rng):
        p = super().gen(rng)
        p['station'] = rng.choice(['EU', 'BU', 'HE'])
        p['filetype'] = rng.choice(['PO', 'RO', 'PF', 'PQ', 'PH', 'RH'])
        p['url'] = rng.choice([None, None, 'https://mirror.example.org/s/'])
        return p

    def base(self):
        return self.p['url'] or 'http://solardata.uoregon.edu/download/Archive/'

    def rel(self, i):
        y, m = self.ym(i)
        return (f"{self.p['station']}{self.p['filetype']}{y % 100:02d}"
                f'{m + 1:02d}.txt')

    def call(self):
        from pvlib import iotools
        p = self.p
        a, b = self.period()
        kw = {'url': p['url']} if p['url'] else {}
        if p['filetype'] != 'PO':
            kw['filetype'] = p['filetype']
        return iotools.get_srml(p['station'], a, b,
                                map_variables=p['map_variables'], **kw)

    def own(self, path):
        from pvlib import iotools
        return iotools.read_srml(path,
                                 map_variables=self.p['map_variables']), {}

    def make(self, i):
        p = self.p
        step = self.TYPES[p['filetype']]
        # rows around an hour and a midnight boundary
        ep = np.concatenate([
            truth.epochs(self.t0(i), p['rows'], step * 60),
            truth.epochs(self.t0(i) + DAY - 2 * step * 60, 4, step * 60)])
        cols = srml_data(p['station'] + p['filetype'], ep, p['holes'])
        text = srml_text(94255, step, ep, cols)
        out = {}
        for c, n in SRML_COLS:
            n = n if p['map_variables'] else c
            out[n] = cols[c]
            out[n + '_flag'] = np.where(np.isnan(cols[c]), 99, 12)
        return self.rel(i), text.encode(), ep + 8 * 3600, out

    def meta(self):
        return {'station': self.p['station'],
                'filetype': self.p['filetype']}


class Bsrn(Monthly):
    name = 'bsrn'

    @classmethod
    def gen(cls, rng):
        p = super().gen(rng)
        p['station'] = rng.choice(['pay', 'cab', 'lyu'])
        p['upper'] = rng.random() < 0.3
        p['records'] = rng.choice([['0100'], ['0100'], ['0300'],
                                   ['0100', '0300'],
                                   ['0100', '0300', '0500']])
        p['in_file'] = rng.choice([['0100'], ['0100', '0300'],
                                   ['0100', '0300', '0500'],
                                   ['0100', '0300', '0500']])
        p['records'] = [r for r in p['records'] if r in p['in_file']] or \
            ['0100']
        p['save'] = rng.random() < 0.6
        p['horizon'] = rng.random() < 0.8
        p['alt'] = rng.randrange(0, 3000)
        return p

    def rel(self, i):
        y, m = self.ym(i)
        return f"{self.p['station']}{m + 1:02d}{y % 100:02d}.dat.gz"

    def setup(self, net):
        net.ftp_creds = ('user', 'secret')
        net.ftp_files = {f"{self.p['station']}/{self.files()[i][0]}":
                         self.files()[i][1] for i in self.held()}
        net.ftp_files.setdefault(f"{self.p['station']}/readme.txt", b'x')
        net.ftp_files['xyz/xyz0199.dat.gz'] = b'x'

    def call(self, save_path=None):
        from pvlib import iotools
        p = self.p
        a, b = self.period()
        s = p['station'].upper() if p['upper'] else p['station']
        kw = {'save_path': save_path} if save_path else {}
        return iotools.get_bsrn(s, a, b, 'user', 'secret',
                                logical_records=tuple(p['records']), **kw)

    def own(self, path):
        from pvlib import iotools
        return iotools.read_bsrn(path, logical_records=self.p['records'])

    def make(self, i):
        p = self.p
        y, m = self.ym(i)
        ep = truth.epochs(self.t0(i, 1), p['rows'], 60)
        ep = np.concatenate([ep, truth.epochs(self.t0(i, 27), 2, 60)])
        data = bsrn_data(p['station'], ep, p['in_file'], p['holes'])
        text = bsrn_text(21, y, m + 1, (p['lat'], p['lon'], p['alt']), ep,
                         data, p['horizon'])
        cols = {}
        for lr in p['records']:
            cols.update(data[lr])
        return (self.rel(i), gzip.compress(text.encode(), mtime=0), ep, cols)

    def meta(self):
        p = self.p
        return {'latitude': p['lat'], 'longitude': p['lon'],
                'altitude': p['alt'],
                'station identification number': 21}


ARCHIVES = {c.name: c for c in (Surfrad, Solrad, Srml, Bsrn)}
