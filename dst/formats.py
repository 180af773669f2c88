"""Weather-file formats: how to make a file of each and how to read it.

Fmt.gen(rng) -> p (JSON); Fmt.data(p) -> bytes; Fmt.call(p, src) reads from a
path, a buffer or a URL.  `sources`: which kinds of source the reader's
documentation accepts.
"""
import gzip
import io
import json
import os

import numpy as np
import pandas as pd

from . import truth
from .services import archives as A
from .services import misc as M
from .services import pvgis as P

HERE = os.path.dirname(os.path.abspath(__file__))
_cache = {}


def sample(name):
    if name not in _cache:
        from . import seams
        with seams.real_open(os.path.join(HERE, 'samples', name), 'rb') as f:
            _cache[name] = f.read()
    return _cache[name]


class Fmt:
    name = None
    ext = '.txt'
    sources = ('path', 'Path')
    encoding = None           # of the text buffer the caller would open
    binary = False            # buffer has to be binary
    header = 2                # lines before the first record
    footer = 0
    values = ()               # how a scenario may vary the reader's options

    @classmethod
    def gen(cls, rng):
        p = {'rows': rng.choice([1, 2, 5, 12, 1000]),
             'nl': rng.choice(['\n', '\n', '\r\n'])}
        cls.more(p, rng)
        return p

    @classmethod
    def more(cls, p, rng):
        p['sample'] = rng.choice(cls.samples)

    @classmethod
    def fname(cls, p):
        return 'f' + cls.ext

    @classmethod
    def data(cls, p):
        lines = sample(p['sample']).split(b'\n')
        if lines and lines[-1] == b'':
            lines.pop()
        lines = [x.rstrip(b'\r') for x in lines]
        end = len(lines) - cls.footer
        body = lines[cls.header:end][:p['rows']]
        lines = lines[:cls.header] + body + lines[end:]
        nl = p['nl'].encode()
        return nl.join(lines) + nl


class Sampled(Fmt):
    samples = ()


FORMATS = {}


def register(cls):
    FORMATS[cls.name] = cls
    return cls


def io_mod():
    from pvlib import iotools
    return iotools


@register
class Crn(Sampled):
    name, samples, header = 'crn', ('crn.txt', 'crn2.txt'), 0
    sources = ('path', 'Path', 'text', 'memory')

    @classmethod
    def more(cls, p, rng):
        super().more(p, rng)
        p['mapped'] = rng.random() < .7
        p['nl'] = '\n'

    @classmethod
    def call(cls, p, src):
        return io_mod().read_crn(src, map_variables=p['mapped']), {}


@register
class Midc(Sampled):
    name, samples, header = 'midc', ('midc.txt', 'midc_raw.txt'), 1
    sources = ('path', 'Path', 'text', 'memory')

    @classmethod
    def call(cls, p, src):
        raw = 'raw' in p['sample']
        vmap = {} if p['rows'] % 2 else {
            'Global PSP [W/m^2]': 'ghi', 'Direct Normal [W/m^2]': 'dni'}
        return io_mod().read_midc(src, variable_map=vmap, raw_data=raw), {}


@register
class Panond(Sampled):
    name, samples, header = 'panond', ('module.PAN', 'inverter.OND'), 0
    sources = ('path', 'Path')

    @classmethod
    def more(cls, p, rng):
        super().more(p, rng)
        p['rows'] = 1000
        p['encoding'] = 'utf-8-sig' if 'OND' in p['sample'] else \
            rng.choice([None, 'utf-8'])

    @classmethod
    def fname(cls, p):
        return p['sample']

    @classmethod
    def call(cls, p, src):
        return io_mod().read_panond(src, encoding=p['encoding'])


@register
class SolarAnywhere(Sampled):
    name, header = 'solaranywhere', 2
    samples = ('solaranywhere_tgy.csv', 'solaranywhere_ts.csv')
    ext = '.csv'

    @classmethod
    def call(cls, p, src):
        return io_mod().read_solaranywhere(src)


@register
class Tmy3(Sampled):
    name, header, ext = 'tmy3', 2, '.csv'
    samples = ('tmy3_a.csv', 'tmy3_b.csv', 'tmy3_sa.csv')
    sources = ('path', 'Path', 'text', 'memory')

    @classmethod
    def more(cls, p, rng):
        super().more(p, rng)
        p['coerce'] = rng.choice([None, None, 1990])
        p['mapped'] = rng.random() < .7
        p['encoding'] = 'iso-8859-1' if 'sa' in p['sample'] else \
            rng.choice([None, 'utf-8'])
        p['rows'] = max(p['rows'], 2)

    @classmethod
    def enc(cls, p):
        return p['encoding']

    @classmethod
    def call(cls, p, src):
        return io_mod().read_tmy3(src, coerce_year=p['coerce'],
                                  map_variables=p['mapped'],
                                  encoding=p['encoding'])


@register
class Tmy2(Sampled):
    name, header, ext = 'tmy2', 1, '.tm2'
    samples = ('miami.tm2',)

    @classmethod
    def call(cls, p, src):
        return io_mod().read_tmy2(src)


@register
class Psm4(Sampled):
    name, header, ext = 'psm4', 3, '.csv'
    samples = ('psm4.csv',)
    sources = ('path', 'Path', 'text', 'memory')

    @classmethod
    def more(cls, p, rng):
        super().more(p, rng)
        p['mapped'] = rng.random() < .7

    @classmethod
    def call(cls, p, src):
        return io_mod().read_nsrdb_psm4(src, map_variables=p['mapped'])


@register
class PvgisHourly(Sampled):
    name = 'pvgis_hourly'
    samples = ('pvgis_hourly.csv', 'pvgis_hourly.json')
    sources = ('path', 'Path', 'text', 'memory')

    @classmethod
    def more(cls, p, rng):
        super().more(p, rng)
        p['mapped'] = rng.random() < .7
        p['given'] = rng.random() < .5

    @classmethod
    def fname(cls, p):
        return p['sample']

    @classmethod
    def data(cls, p):
        s = sample(p['sample'])
        if p['sample'].endswith('json'):
            d = json.loads(s)
            d['outputs']['hourly'] = d['outputs']['hourly'][:p['rows']]
            return json.dumps(d, indent=p['rows'] % 2 or None).encode()
        lines = s.replace(b'\r', b'').split(b'\n')
        h = [i for i, x in enumerate(lines) if x.startswith(b'time,')][0] + 1
        e = [i for i, x in enumerate(lines) if i > h and not x.strip()][0]
        lines = lines[:h] + lines[h:e][:p['rows']] + lines[e:]
        return p['nl'].encode().join(lines)

    @classmethod
    def call(cls, p, src):
        fmt = p['sample'].rsplit('.', 1)[1]
        buf = hasattr(src, 'read')
        return io_mod().read_pvgis_hourly(
            src, pvgis_format=fmt if buf or p['given'] else None,
            map_variables=p['mapped'])


@register
class PvgisTmy(Fmt):
    name = 'pvgis_tmy'
    sources = ('path', 'Path', 'text', 'memory')

    @classmethod
    def more(cls, p, rng):
        p.update(fmt=rng.choice(['csv', 'csv', 'json', 'epw']),
                 mapped=rng.random() < .7, given=rng.random() < .5,
                 lat=round(rng.uniform(-60, 60), 3),
                 lon=round(rng.uniform(-170, 170), 3),
                 offset=rng.random() < .5)

    @classmethod
    def fname(cls, p):
        return 'tmy.' + p['fmt']

    @classmethod
    def isbinary(cls, p):
        return p['fmt'] == 'csv'

    @classmethod
    def data(cls, p):
        key = ('tmy', p['fmt'], p['lat'], p['lon'], p['offset'])
        if key not in _cache:
            s = P.PvgisTmy({'offset': p['offset'], 'startyear': None,
                            'endyear': None}, None)
            years, ep, cols = s.series((p['lat'], p['lon'], 2005, 2015))
            b = s.body(p['fmt'], p['lat'], p['lon'], years, ep, cols)
            _cache[key] = b.encode()
        return _cache[key]

    @classmethod
    def call(cls, p, src):
        buf = hasattr(src, 'read')
        return io_mod().read_pvgis_tmy(
            src, pvgis_format=p['fmt'] if buf or p['given'] else None,
            map_variables=p['mapped'])


@register
class Epw(Sampled):
    name, header, ext = 'epw', 8, '.epw'
    samples = ('amsterdam.epw', 'generated')
    sources = ('path', 'Path', 'text', 'memory', 'url')

    @classmethod
    def more(cls, p, rng):
        super().more(p, rng)
        p['coerce'] = rng.choice([None, 2001])
        p.update(lat=round(rng.uniform(-60, 60), 2),
                 lon=round(rng.uniform(-170, 170), 2),
                 tz=rng.choice([-7.0, 0.0, 5.5]), start=1_500_000_000,
                 hours=min(p['rows'], 30))

    @classmethod
    def data(cls, p):
        if p['sample'] == 'generated':
            text, _ = M.epw_text(p, 's%g' % p['lat'])
            return text.replace('é', 'e').encode()
        return super().data(p)

    @classmethod
    def call(cls, p, src):
        return io_mod().read_epw(src, coerce_year=p['coerce'])


@register
class Cams(Sampled):
    name, ext = 'cams', '.csv'
    samples = ('cams_mcclear_1min_verbose.csv', 'cams_mcclear_monthly.csv',
               'cams_radiation_1min_verbose.csv',
               'cams_radiation_monthly.csv', 'generated')
    sources = ('path', 'Path', 'text', 'memory')

    @classmethod
    def more(cls, p, rng):
        super().more(p, rng)
        p.update(label=rng.choice([None, None, 'left', 'right']),
                 integrated=rng.random() < .3, mapped=rng.random() < .7,
                 step=rng.choice(['1h', '15min', '1d']))

    @classmethod
    def data(cls, p):
        if p['sample'] == 'generated':
            n = min(p['rows'], 20)
            step = {'1h': 3600, '15min': 900, '1d': 86400}[p['step']]
            left = truth.epochs(1_600_041_600, n, step)
            cols = {c: truth.field('cams' + c, 's', left, 0, 900, 4)
                    for c in ('TOA', 'Clear sky GHI', 'Clear sky BHI', 'GHI',
                              'BHI', 'DHI', 'BNI', 'Reliability')}
            cols['GHI'] = np.where(cols['GHI'] < 200, np.nan, cols['GHI'])
            return M.cams_text(44.5, -3.25, 12.0, p['step'], left,
                               left + step, cols).encode()
        s = sample(p['sample'])
        lines = s.split(b'\n')
        h = [i for i, x in enumerate(lines) if x.startswith(b'#')][-1] + 1
        lines = lines[:h] + [x for x in lines[h:] if x][:p['rows']]
        return p['nl'].encode().join(x.rstrip(b'\r') for x in lines) + \
            p['nl'].encode()

    @classmethod
    def call(cls, p, src):
        return io_mod().read_cams(src, integrated=p['integrated'],
                                  label=p['label'],
                                  map_variables=p['mapped'])


class Net(Fmt):
    @classmethod
    def more(cls, p, rng):
        p.update(site=[round(rng.uniform(20, 60), 2),
                       round(rng.uniform(-120, -60), 2),
                       rng.randrange(1, 3000)],
                 n=rng.choice([2, 3, 10, 40]),
                 start=rng.randrange(1_300_000_000, 1_700_000_000) // 86400
                 * 86400, rate=rng.choice([0, 0.2]),
                 mapped=rng.random() < .7)
        p['nl'] = '\n'


@register
class Surfrad(Net):
    name, ext = 'surfrad', '.dat'
    sources = ('path', 'Path', 'url')

    @classmethod
    def data(cls, p):
        ep = truth.epochs(p['start'], p['n'], 60)
        lat, lon, alt = p['site']
        return A.surfrad_text('Table Mountain', lat, lon, alt, ep,
                              A.surfrad_data('s', ep, p['rate'])).encode()

    @classmethod
    def call(cls, p, src):
        return io_mod().read_surfrad(src, map_variables=p['mapped'])


@register
class Solrad(Net):
    name, ext = 'solrad', '.dat'
    sources = ('path', 'Path', 'url')

    @classmethod
    def more(cls, p, rng):
        super().more(p, rng)
        p['station'] = rng.choice(['abq', 'msn'])

    @classmethod
    def fname(cls, p):
        return p['station'] + '19056.dat'

    @classmethod
    def data(cls, p):
        ep = truth.epochs(p['start'], p['n'], 60)
        lat, lon, alt = p['site']
        return A.solrad_text(p['station'], 'Station', lat, lon, alt, -7, ep,
                             A.solrad_data(p['station'], 's', ep,
                                           p['rate'])).encode()

    @classmethod
    def call(cls, p, src):
        return io_mod().read_solrad(src)


@register
class Srml(Net):
    name = 'srml'
    sources = ('path', 'Path', 'url', 'text', 'memory')

    @classmethod
    def more(cls, p, rng):
        super().more(p, rng)
        p['step'] = rng.choice([1, 5, 15, 60])
        p['n'] = max(p['n'], 2)

    @classmethod
    def data(cls, p):
        ep = truth.epochs(p['start'], p['n'], p['step'] * 60)
        return A.srml_text(94255, p['step'], ep,
                           A.srml_data('s', ep, p['rate'])).encode()

    @classmethod
    def call(cls, p, src):
        return io_mod().read_srml(src, map_variables=p['mapped']), {}


@register
class Bsrn(Net):
    name = 'bsrn'
    sources = ('path', 'Path', 'text', 'memory', 'gz')

    @classmethod
    def more(cls, p, rng):
        super().more(p, rng)
        p['records'] = rng.choice([['0100'], ['0100', '0300'],
                                   ['0100', '0300', '0500'], ['0300']])
        p['held'] = rng.choice([['0100'], ['0100', '0300'],
                                ['0100', '0300', '0500']])
        p['horizon'] = rng.random() < .7

    @classmethod
    def data(cls, p):
        m = pd.Timestamp(p['start'], unit='s')
        t0 = int(pd.Timestamp(m.year, m.month, 1).timestamp())
        ep = truth.epochs(t0, p['n'], 60)
        lat, lon, alt = p['site']
        return A.bsrn_text(9, m.year, m.month, (lat, lon, alt), ep,
                           A.bsrn_data('s', ep, p['held'], p['rate']),
                           horizon=p['horizon']).encode('latin1')

    @classmethod
    def call(cls, p, src):
        return io_mod().read_bsrn(src, logical_records=tuple(p['records']))


@register
class Sam(Sampled):
    name, header, ext = 'sam', 3, '.csv'
    samples = ('adr.csv', 'cecinv.csv', 'sandiamod.csv')
    sources = ('path', 'url')

    @classmethod
    def call(cls, p, src):
        from pvlib import pvsystem
        return pvsystem.retrieve_sam(path=src), {}


def is_binary(F, p):
    return F.isbinary(p) if hasattr(F, 'isbinary') else F.binary


def text_encoding(F, p):
    return F.enc(p) if hasattr(F, 'enc') else F.encoding


def gz(data):
    out = io.BytesIO()
    with gzip.GzipFile(fileobj=out, mode='wb', mtime=0) as f:
        f.write(data)
    return out.getvalue()


# -- comparison --------------------------------------------------------------

def unpack(value):
    """reader result -> (frame or None, metadata/dict)"""
    if isinstance(value, tuple) and len(value) == 2:
        return value[0], value[1]
    if isinstance(value, dict):
        return None, value
    return value, {}


def same_value(a, b):
    if isinstance(a, (float, np.floating)) or isinstance(
            b, (float, np.floating)):
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if isinstance(a, str) or isinstance(b, str):
            return False
        return fa == fb or (fa != fa and fb != fb)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(
            same_value(a[k], b[k]) for k in a)
    if isinstance(a, pd.Series):
        return isinstance(b, pd.Series) and a.equals(b) and \
            a.index.equals(b.index)
    if a is None or b is None:
        return a is b
    try:
        if bool(pd.isna(a)) and bool(pd.isna(b)):
            return True
    except (TypeError, ValueError):
        pass
    if isinstance(a, str) != isinstance(b, str):
        return False
    return bool(a == b)


def diff_results(a, b):
    """None, or what differs between two reads of the same bytes"""
    (fa, ma), (fb, mb) = unpack(a), unpack(b)
    if (fa is None) != (fb is None):
        return 'one has data, the other not'
    if fa is not None:
        if list(fa.columns) != list(fb.columns):
            return f'columns {list(fa.columns)} / {list(fb.columns)}'
        if len(fa) != len(fb):
            return f'{len(fa)} / {len(fb)} records'
        if not fa.index.equals(fb.index) or str(fa.index.dtype) != str(
                fb.index.dtype):
            return f'index {fa.index[:3]} / {fb.index[:3]}'
        for i in range(fa.shape[1]):
            x, y = fa.iloc[:, i], fb.iloc[:, i]
            if x.dtype != y.dtype:
                return f'{fa.columns[i]}: dtype {x.dtype} / {y.dtype}'
            if not x.equals(y):
                if x.dtype == object and same_value(list(x), list(y)):
                    continue
                return f'{fa.columns[i]}: values differ'
    if not same_value(ma, mb):
        return f'metadata {ma} / {mb}'[:400]
    return None
