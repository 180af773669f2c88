"""Solargis, CAMS/SoDa, MIDC raw data, EPW and SAM library downloads."""
import re
import xml.etree.ElementTree as ET

import numpy as np
import pandas as pd

from .. import truth
from ..core import Violation
from ..net import Reply
from . import register
from .base import BadRequest, Service, gen_site, need

SG = {'GHI': ('ghi', 0, 1100), 'GHIc': ('ghi_clear', 0, 1100),
      'DNI': ('dni', 0, 1000), 'DNIc': ('dni_clear', 0, 1000),
      'DIF': ('dhi', 0, 500), 'GTI': ('poa_global', 0, 1100),
      'GTIc': ('poa_global_clear', 0, 1100),
      'SE': ('solar_elevation', -60, 60), 'SA': ('solar_azimuth', -180, 180),
      'TEMP': ('temp_air', -20, 40), 'TD': ('temp_dew', -20, 20),
      'AP': ('pressure', 900, 1040), 'RH': ('relative_humidity', 0, 100),
      'WS': ('wind_speed', 0, 20), 'WD': ('wind_direction', 0, 360),
      'INC': ('aoi', 0, 90), 'PWAT': ('precipitable_water', 0, 60),
      'KT': ('KT', 0, 1), 'SDWE': ('SDWE', 0, 100)}
SG_NA9 = ('GHI', 'GHIc', 'DNI', 'DNIc', 'DIF', 'GTI', 'KT', 'PWAT', 'SDWE')
SG_CONV = {'SA': lambda x: x + 180, 'AP': lambda x: x * 100,
           'PWAT': lambda x: x / 10}
SG_RES = {5: 300, 10: 600, 15: 900, 30: 1800, 60: 3600, 'PT05M': 300,
          'PT5M': 300, 'PT10M': 600, 'PT15M': 900, 'PT30': 1800,
          'PT30M': 1800, 'PT60M': 3600, 'PT1H': 3600, 'P1D': 86400,
          'MIN_30': 1800, 'HOURLY': 3600, 'hourly': 3600}
SG_NAMES = {'MIN_5': 300, 'MIN_10': 600, 'MIN_15': 900, 'MIN_30': 1800,
            'HOURLY': 3600, 'DAILY': 86400}


@register
class Solargis(Service):
    name = 'solargis'
    body_is_json = False
    error_text = 'request fromDate is before the available start date'

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng)
        p['day'] = rng.randrange(11000, 19000)
        p['ndays'] = rng.choice([1, 1, 2])
        p['style'] = rng.choice(['str', 'ts', 'dt'])
        p['vars'] = rng.sample(sorted(SG), rng.choice([1, 2, 4, 8]))
        p['res'] = rng.choice([k for k in SG_RES if SG_RES[k] >= 600])
        p['label'] = rng.choice([None, 'start', 'center', 'end'])
        p['tz'] = rng.choice([None, None, 1, -7, 10])
        p['shading'] = rng.choice([None, True, False])
        p['missing'] = rng.random() < 0.5
        p['url'] = rng.choice([None, None, 'https://sg.example.org/req'])
        p['timeout'] = rng.choice([None, 60])
        return p

    def call(self):
        from pvlib import iotools
        p = self.p
        kw = dict(map_variables=p['map_variables'])
        if p['label']:
            kw['timestamp_type'] = p['label']
        if p['tz'] is not None:
            kw['tz'] = 'GMT%+03d' % p['tz']
        if p['shading'] is not None:
            kw['terrain_shading'] = p['shading']
        for k in ('url', 'timeout'):
            if p[k]:
                kw[k] = p[k]

        def d(day):
            ts = pd.Timestamp(day * 86400, unit='s')
            return {'str': ts.strftime('%Y-%m-%d'), 'ts': ts,
                    'dt': ts.to_pydatetime()}[p['style']]
        return iotools.get_solargis(
            p['lat'], p['lon'], d(p['day']), d(p['day'] + p['ndays'] - 1),
            list(p['vars']), 'demo-key', p['res'], **kw)

    def handle(self, req, net):
        p = self.p
        base = p['url'] or \
            'https://solargis.info/ws/rest/datadelivery/request'
        need(req.url.split('?')[0] == base, 'not found ' + req.url, 404)
        need(req.method == 'POST', 'method', 405)
        need(req.params.get('key') == 'demo-key', 'invalid key', 403)
        need('xml' in req.headers.get('content-type', ''), 'content-type',
             415)
        try:
            root = ET.fromstring(req.body.decode('utf-8'))
        except ET.ParseError as e:
            raise BadRequest(f'invalid XML: {e}')
        ws = '{http://geomodel.eu/schema/ws/data}'
        ns = '{http://geomodel.eu/schema/data/request}'
        need(root.tag == ws + 'dataDeliveryRequest', 'root ' + root.tag)
        site = root.find(ns + 'site')
        lat, lon = float(site.get('lat')), float(site.get('lng'))
        need(site.get('id'), 'site id')
        pr = root.find(ns + 'processing')
        vs = pr.get('key').split()
        for v in vs:
            need(v in SG, f'unknown parameter {v}')
        res = pr.get('summarization')
        need(res in SG_NAMES, f'unknown summarization {res}')
        need(pr.get('terrainShading') in ('true', 'false'), 'shading')
        lab = pr.find(ns + 'timestampType').text
        need(lab in ('START', 'CENTER', 'END'), 'timestampType')
        tz = pr.find(ns + 'timeZone').text
        m = re.fullmatch(r'GMT([+-]\d\d)', tz)
        need(m, f'timeZone {tz}')
        off = int(m.group(1))
        d0 = int(pd.Timestamp(root.get('dateFrom')).timestamp())
        d1 = int(pd.Timestamp(root.get('dateTo')).timestamp())
        need(d1 >= d0 and (d1 - d0) < 31 * 86400, 'period')
        key = (lat, lon, pr.get('terrainShading'))
        ep, cols = self.series(vs, key, SG_NAMES[res], lab, off, d0, d1)
        out = ['<?xml version="1.0" encoding="UTF-8"?>'
               '<dataDeliveryResponse xmlns="http://geomodel.eu/schema/ws/'
               'data" xmlns:ns2="http://geomodel.eu/schema/common/geo">'
               f'<site id="{site.get("id")}" lat="{lat}" lng="{lon}">'
               '<metadata>#HOURLY VALUES OF SOLAR RADIATION\n#\n'
               '#Issued: 2024-05-01 12:30\n#\n#Site name: Demo: A\n'
               f'#Latitude: {lat!r}\n#Longitude: {lon!r}\n'
               '#Elevation: 313.0 m a.s.l.\n#http://solargis.info\n#\n'
               '#Summarization type: instantaneous\n'
               '#Summarization period: 28/04/2014 - 28/04/2014\n#\n'
               f'</metadata><columns>{" ".join(vs)}</columns>']
        for i, e in enumerate(ep):
            vals = ' '.join('-9.0' if np.isnan(cols[v][i]) else
                            repr(float(cols[v][i])) for v in vs)
            t = truth.iso(e + off * 3600, suffix='.000')
            out.append(f'<row dateTime="{t}{off:+03d}:00" values="{vals}"/>')
        out.append('</site></dataDeliveryResponse>')
        return Reply(200, ''.join(out), 'application/xml')

    def series(self, vs, key, res, lab, off, d0, d1):
        t0 = d0 - off * 3600
        n = (d1 - d0 + 86400) // res
        ep = truth.epochs(t0, n, res) + {'START': 0, 'CENTER': res // 2,
                                         'END': res}[lab]
        cols = {}
        for v in vs:
            _, lo, hi = SG[v]
            x = truth.field('sg' + v, key + (res,), ep, lo, hi, 1)
            if self.p['missing'] and v in SG_NA9 and n > 2:
                x = np.where(np.arange(n) % 4 == len(v) % 4, np.nan, x)
            cols[v] = x
        return ep, cols

    def expected(self):
        p = self.p
        key = (float(p['lat']), float(p['lon']),
               'false' if p['shading'] is False else 'true')
        off = p['tz'] or 0
        ep, cols = self.series(
            p['vars'], key, SG_RES[p['res']],
            (p['label'] or 'center').upper(), off, p['day'] * 86400,
            (p['day'] + p['ndays'] - 1) * 86400)
        if p['map_variables']:
            cols = {SG[v][0]: SG_CONV.get(v, lambda x: x)(x)
                    for v, x in cols.items()}
        return dict(index=ep, cols=cols, offset=off * 3600, meta=dict(
            latitude=p['lat'], longitude=p['lon'], altitude=313.0))

    def error(self, req, status, text=None):
        return Reply(status, {'error': text or self.error_text})


CAMS = {'TOA': 'ghi_extra', 'Clear sky GHI': 'ghi_clear',
        'Clear sky BHI': 'bhi_clear', 'Clear sky DHI': 'dhi_clear',
        'Clear sky BNI': 'dni_clear', 'GHI': 'ghi', 'BHI': 'bhi',
        'DHI': 'dhi', 'BNI': 'dni', 'sza': 'solar_zenith',
        'GHI no corr': 'GHI no corr', 'Reliability': 'Reliability',
        'tco3': 'tco3', 'AOD BC': 'AOD BC'}
CAMS_STEP = {'1min': ('PT01M', '0 year 0 month 0 day 0 h 1 min 0 s', 60),
             '15min': ('PT15M', '0 year 0 month 0 day 0 h 15 min 0 s', 900),
             '1h': ('PT01H', '0 year 0 month 0 day 1 h 0 min 0 s', 3600),
             '1d': ('P01D', '0 year 0 month 1 day 0 h 0 min 0 s', 86400),
             '1M': ('P01M', '0 year 1 month 0 day 0 h 0 min 0 s', None)}
CAMS_PLAIN = ('sza', 'Reliability', 'tco3', 'AOD BC')


def cams_text(lat, lon, alt, step, left, right, cols):
    """a CAMS csv file"""
    def iso(e):
        return truth.iso(e, suffix='.0')
    head = ['Coding: utf-8', 'File format version: 2',
            'Title: CAMS Radiation Service v3.2 all-sky irradiation',
            'Content: A time-series of solar radiation received on '
            'horizontal plane',
            '          Returns the global, beam and diffuse irradiations',
            'More information at: http://www.soda-pro.com/x',
            f'Date begin (ISO 8601): {iso(left[0])}',
            f'Date end (ISO 8601): {iso(right[-1])}',
            f'Latitude (positive North, ISO 19115): {lat}',
            f'Longitude (positive East, ISO 19115): {lon}',
            f'Altitude (m): {alt:.2f}',
            'Time reference: Universal time (UT)', '',
            'Encoding partly from D2.8.III.13-14 INSPIRE',
            '    uom:"Wh m-2" [unit]',
            'Summarization (integration) period: ' + CAMS_STEP[step][1],
            'noValue: nan', 'File generated on: 2024-02-26', '', 'Columns:',
            ' 1. Observation period (ISO 8601)']
    head += [f'{i + 2:2d}. {c}. explained (Wh/m2)'
             for i, c in enumerate(cols)]
    lines = ['# ' + h if h else '#' for h in head]
    lines += ['#', '# Observation period;' + ';'.join(cols)]
    for i in range(len(left)):
        lines.append(f'{iso(left[i])}/{iso(right[i])};' + ';'.join(
            'nan' if np.isnan(v[i]) else f'{v[i]:.4f}'
            for v in cols.values()))
    return '\n'.join(lines) + '\n'


def cams_expected(step, integrated, label, mapped, left, right, cols):
    hours = (right - left) / 3600.0
    out = {}
    for c, v in cols.items():
        if not integrated and c not in CAMS_PLAIN:
            v = v / hours
        out[CAMS[c] if mapped else c] = v
    out['Observation period'] = [
        truth.iso(a, suffix='.0') + '/' + truth.iso(b, suffix='.0')
        for a, b in zip(left, right)]
    lab = label or ('right' if step == '1M' else 'left')
    idx = left if lab == 'left' else right
    kind = 'utc'
    if step in ('1d', '1M'):
        kind = 'naive'
        if step == '1M' and lab == 'right':
            idx = idx - 86400
    return dict(index=idx, index_kind=kind, cols=out)


@register
class Cams(Service):
    name = 'cams'
    body_is_json = False
    detects_truncation = False
    error_text = 'Please, register yourself at www.soda-pro.com'

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng, dec=rng.choice([1, 4]))
        p['day'] = rng.randrange(12500, 19000)
        p['step'] = rng.choice(sorted(CAMS_STEP))
        p['ndays'] = {'1min': 1, '15min': 2, '1h': 3, '1d': 40,
                      '1M': 100}[p['step']]
        p['style'] = rng.choice(['str', 'ts', 'dt'])
        p['ident'] = rng.choice([None, 'mcclear', 'cams_radiation'])
        p['altitude'] = rng.choice([None, None, 0, 80.5])
        p['ref'] = rng.choice([None, 'UT', 'TST'])
        p['verbose'] = rng.random() < 0.3
        p['integrated'] = rng.random() < 0.4
        p['label'] = rng.choice([None, None, 'left', 'right'])
        p['url'] = rng.choice([None, None, 'soda.example.org'])
        p['timeout'] = rng.choice([None, 90])
        p['missing'] = rng.random() < 0.3
        return p

    def call(self):
        from pvlib import iotools
        p = self.p
        kw = dict(map_variables=p['map_variables'],
                  integrated=p['integrated'], time_step=p['step'])
        for a, b in (('ident', 'identifier'), ('altitude', 'altitude'),
                     ('ref', 'time_ref'), ('label', 'label'),
                     ('url', 'url'), ('timeout', 'timeout')):
            if p[a] is not None:
                kw[b] = p[a]
        if p['verbose']:
            kw['verbose'] = True

        def d(day):
            ts = pd.Timestamp(day * 86400, unit='s')
            return {'str': ts.strftime('%Y-%m-%d'), 'ts': ts,
                    'dt': ts.to_pydatetime()}[p['style']]
        return iotools.get_cams(
            p['lat'], p['lon'], d(p['day']), d(p['day'] + p['ndays'] - 1),
            'jane@example.org', **kw)

    def handle(self, req, net):
        p = self.p
        host = p['url'] or 'api.soda-solardata.com'
        need(req.url.split('?')[0] == f'https://{host}/service/wps',
             'not found ' + req.url, 404)
        need(req.method == 'GET', 'method', 405)
        q = req.params
        need(q.get('Service') == 'WPS' and q.get('Request') == 'Execute' and
             q.get('version') == '1.0.0' and
             q.get('RawDataOutput') == 'irradiation', 'WPS')
        ident = q['Identifier']
        need(ident in ('get_mcclear', 'get_cams_radiation'), 'Identifier')
        d = dict(x.split('=') for x in q['DataInputs'].split(';'))
        need(set(d) <= {'latitude', 'longitude', 'altitude', 'date_begin',
                        'date_end', 'time_ref', 'summarization', 'username',
                        'verbose'}, 'DataInputs')
        need(d['username'] == 'jane%40example.org', 'Please, register '
             'yourself at www.soda-pro.com')
        need(d['time_ref'] in ('UT', 'TST'), 'time_ref')
        step = {v[0]: k for k, v in CAMS_STEP.items()}.get(
            d['summarization'])
        need(step, 'summarization')
        need(d['verbose'] in ('true', 'false'), 'verbose')
        verbose = d['verbose'] == 'true'
        need(not verbose or (step == '1min' and d['time_ref'] == 'UT'),
             'verbose')
        lat, lon = float(d['latitude']), float(d['longitude'])
        alt = float(d['altitude'])
        t0 = int(pd.Timestamp(d['date_begin']).timestamp())
        t1 = int(pd.Timestamp(d['date_end']).timestamp()) + 86400
        need(t1 > t0, 'period')
        left, right, cols = self.series(
            (lat, lon, alt, d['time_ref'], ident), step, verbose, t0, t1)
        return Reply(200, cams_text(lat, lon, 39.0 if alt == -999 else alt,
                                    step, left, right, cols), 'text/csv')

    def series(self, key, step, verbose, t0, t1):
        if step == '1M':
            b = pd.date_range(pd.Timestamp(t0, unit='s').replace(day=1),
                              pd.Timestamp(t1 - 1, unit='s')
                              + pd.DateOffset(months=1), freq='MS')
            b = np.asarray(b.as_unit('s').asi8)
            left, right = b[:-1], b[1:]
        else:
            s = CAMS_STEP[step][2]
            left = truth.epochs(t0, (t1 - t0) // s, s)
            right = left + s
        names = ['TOA', 'Clear sky GHI', 'Clear sky BHI', 'Clear sky DHI',
                 'Clear sky BNI']
        if key[-1] == 'get_cams_radiation':
            names += ['GHI', 'BHI', 'DHI', 'BNI', 'Reliability']
            if verbose:
                names += ['GHI no corr']
        if verbose:
            names += ['sza', 'tco3', 'AOD BC']
        cols = {}
        for n in names:
            v = truth.field('cams' + n, key + (step,), left, 0, 700, 4)
            if self.p['missing'] and n != 'TOA' and len(left) > 2:
                v = np.where(np.arange(len(left)) % 5 == 2, np.nan, v)
            cols[n] = v
        return left, right, cols

    def expected(self):
        p = self.p
        verbose = p['verbose'] and p['step'] == '1min' and p['ref'] != 'TST'
        alt = -999.0 if p['altitude'] is None else float(p['altitude'])
        key = (float(p['lat']), float(p['lon']), alt, p['ref'] or 'UT',
               'get_' + (p['ident'] or 'mcclear'))
        left, right, cols = self.series(
            key, p['step'], verbose, p['day'] * 86400,
            (p['day'] + p['ndays']) * 86400)
        e = cams_expected(p['step'], p['integrated'], p['label'],
                          p['map_variables'], left, right, cols)
        e['meta'] = dict(latitude=p['lat'], longitude=p['lon'],
                         altitude=39.0 if alt == -999 else alt,
                         time_step=p['step'],
                         radiation_unit='Wh/m^2' if p['integrated'] else
                         'W/m^2')
        return e

    def error(self, req, status, text=None):
        return Reply(status, '<?xml version="1.0" encoding="utf-8"?>\n'
                     '<ows:ExceptionReport><ows:Exception exceptionCode='
                     '"NoApplicableCode" locator="None">\n'
                     '<ows:ExceptionText>Failed to execute WPS process: '
                     f'{text or self.error_text}</ows:ExceptionText>\n'
                     '</ows:Exception></ows:ExceptionReport>', 'text/xml')


@register
class MidcRaw(Service):
    name = 'midc_raw'
    body_is_json = False
    detects_truncation = False

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['site'] = rng.choice(['BMS', 'UAT', 'UOSMRL'])
        p['day'] = rng.randrange(13000, 19000)
        p['ndays'] = rng.choice([1, 2])
        p['style'] = rng.choice(['str', 'ts', 'dt'])
        p['tz'] = rng.choice(['MST', 'PST', 'CST', 'EST'])
        p['short'] = rng.random() < 0.3
        p['map'] = rng.random() < 0.5
        p['timeout'] = rng.choice([None, 60])
        return p

    OFF = {'MST': -7, 'PST': -8, 'CST': -6, 'EST': -5}
    COLS = ['Global [W/m^2]', 'Direct Normal [W/m^2]', 'Temp [deg C]']

    def call(self):
        from pvlib import iotools
        p = self.p
        kw = {}
        if p['map']:
            kw['variable_map'] = {'Global [W/m^2]': 'ghi', 'absent': 'dni'}
        if p['timeout']:
            kw['timeout'] = p['timeout']

        def d(day):
            ts = pd.Timestamp(day * 86400, unit='s')
            return {'str': ts.strftime('%Y-%m-%d'), 'ts': ts,
                    'dt': ts.to_pydatetime()}[p['style']]
        return iotools.read_midc_raw_data_from_nrel(
            p['site'], d(p['day']), d(p['day'] + p['ndays'] - 1), **kw)

    def series(self, site, d0, d1):
        t = truth.epochs(d0 * 86400, (d1 - d0 + 1) * 48, 1800)
        return t, {c: truth.field('midc' + c, site, t, 0, 900, 3)
                   for c in self.COLS}

    def handle(self, req, net):
        need(req.url.split('?')[0] ==
             'https://midcdmz.nlr.gov/apps/data_api.pl',
             'not found ' + req.url, 404)
        q = req.params
        need(q['site'] in ('BMS', 'UAT', 'UOSMRL'), 'site')
        d = []
        for k in ('begin', 'end'):
            need(len(q[k]) == 8, 'date')
            d.append(int(pd.Timestamp(q[k]).timestamp()) // 86400)
        need(d[1] >= d[0], 'dates')
        t, cols = self.series(q['site'], *d)
        head = ['', 'Year', 'DOY', self.p['tz']] + self.COLS
        lines = [','.join(head)]
        for i, e in enumerate(t):
            ts = pd.Timestamp(int(e), unit='s')
            row = [i, ts.year, ts.dayofyear, ts.hour * 100 + ts.minute] + [
                repr(float(cols[c][i])) for c in self.COLS]
            if self.p['short']:
                row += [-7999, -7999]
            lines.append(','.join(map(str, row)))
        return Reply(200, '\n'.join(lines) + '\n', 'text/csv')

    def check(self, df):
        from .base import check_frame
        p = self.p
        t, cols = self.series(p['site'], p['day'],
                              p['day'] + p['ndays'] - 1)
        off = self.OFF[p['tz']] * 3600
        if p['map']:
            cols = {'ghi' if c == 'Global [W/m^2]' else c: v
                    for c, v in cols.items()}
        if not isinstance(df, pd.DataFrame):
            raise Violation('wrong-type', type(df).__name__)
        check_frame(df[[c for c in df.columns if c in cols]],
                    dict(index=t - off, cols=cols, offset=off), self.name)

    def error(self, req, status, text=None):
        return Reply(status, 'error', 'text/plain')


def epw_text(p, site):
    """an EPW file of a few days; returns text, expected frame"""
    n = p['hours']
    ep = truth.epochs(p['start'] // 86400 * 86400, n, 3600)
    t = pd.to_datetime(ep, unit='s')
    cols = {}
    names = ['temp_air', 'temp_dew', 'relative_humidity',
             'atmospheric_pressure', 'etr', 'etrn', 'ghi_infrared', 'ghi',
             'dni', 'dhi', 'global_hor_illum', 'direct_normal_illum',
             'diffuse_horizontal_illum', 'zenith_luminance',
             'wind_direction', 'wind_speed', 'total_sky_cover',
             'opaque_sky_cover', 'visibility', 'ceiling_height',
             'present_weather_observation', 'present_weather_codes',
             'precipitable_water', 'aerosol_optical_depth', 'snow_depth',
             'days_since_last_snowfall', 'albedo',
             'liquid_precipitation_depth', 'liquid_precipitation_quantity']
    for c in names:
        cols[c] = truth.field('epw' + c, site, ep, 0, 900, 1)
    head = [f'LOCATION,Denver,CO,USA,TMY3,724666,{p["lat"]},{p["lon"]},'
            f'{p["tz"]:.1f},1829.0', 'DESIGN CONDITIONS,1,Climate',
            'TYPICAL/EXTREME PERIODS,6,Summer', 'GROUND TEMPERATURES,3,.5',
            'HOLIDAYS/DAYLIGHT SAVINGS,No,0,0,0', 'COMMENTS 1,é text',
            'COMMENTS 2,more', 'DATA PERIODS,1,1,Data,Sunday,1/1,12/31']
    rows = []
    for i, x in enumerate(t):
        rows.append(f'{x.year},{x.month},{x.day},{x.hour + 1},60,?9?9,' +
                    ','.join(repr(float(cols[c][i])) for c in names))
    text = p.get('nl', '\n').join(head + rows) + p.get('nl', '\n')
    exp = dict(cols)
    exp.update(year=[x.year for x in t], month=[x.month for x in t],
               day=[x.day for x in t], hour=[x.hour + 1 for x in t],
               minute=[60] * n, data_source_unct=['?9?9'] * n)
    off = int(p['tz'] * 3600)
    idx = ep - off
    if p.get('coerce'):
        exp['year'] = [p['coerce']] * n
        idx = np.array([int(x.replace(year=p['coerce']).timestamp())
                        for x in t]) - off
    return text, dict(index=idx, cols=exp, offset=off, meta=dict(
        latitude=p['lat'], longitude=p['lon'], TZ=p['tz'], altitude=1829.0,
        city='Denver', country='USA', WMO_code='724666'))


@register
class EpwUrl(Service):
    name = 'epw_url'
    body_is_json = False
    detects_truncation = False

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng)
        p['start'] = rng.randrange(600_000_000, 1_600_000_000)
        p['hours'] = rng.choice([24, 48])
        p['tz'] = rng.choice([-7.0, 0.0, 5.5, 12.0])
        p['coerce'] = rng.choice([None, None, 2001])
        if p['coerce']:
            p['start'] = 86400 * 40 + p['start'] // 31536000 * 31536000
        p['nl'] = rng.choice(['\n', '\r\n'])
        p['url'] = 'http://weather.example.org/ep%20w/DENVER.epw'
        return p

    def call(self):
        from pvlib import iotools
        kw = {'coerce_year': self.p['coerce']} if self.p['coerce'] else {}
        return iotools.read_epw(self.p['url'], **kw)

    def handle(self, req, net):
        need(req.url == self.p['url'], 'not found ' + req.url, 404)
        need('mozilla' in req.headers.get('user-agent', '').lower(),
             'browser needed', 403)
        return Reply(200, epw_text(self.p, 'u')[0].encode('latin-1'),
                     'text/plain')

    def expected(self):
        return epw_text(self.p, 'u')[1]

    def error(self, req, status, text=None):
        return Reply(status, 'error', 'text/plain')


@register
class SamUrl(Service):
    name = 'sam_url'
    body_is_json = False
    detects_truncation = False

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['n'] = rng.choice([1, 3, 6])
        p['url'] = rng.choice(['https://raw.example.org/CEC%20Inverters.csv',
                               'HTTPS://raw.example.org/Mixed/Case.CSV'])
        p['seed'] = rng.randrange(1000)
        return p

    def call(self):
        from pvlib import pvsystem
        return pvsystem.retrieve_sam(path=self.p['url'])

    def data(self):
        p = self.p
        names = [f'Maker: Model-{i}.{p["seed"]} (x) [208V]'
                 for i in range(p['n'])]
        cols = ['Vac', 'Pso', 'Paco', 'C0', 'CEC_Type']
        v = {c: truth.field('sam' + c, p['seed'], np.arange(p['n']), 0, 500,
                            4) for c in cols[:-1]}
        return names, cols, v

    def handle(self, req, net):
        need(req.url.split('://')[1] == self.p['url'].split('://')[1],
             'not found ' + req.url, 404)
        names, cols, v = self.data()
        lines = ['Name,' + ','.join(cols), 'Units' + ',V' * len(cols),
                 '[0]' + ',x' * len(cols)]
        for i, n in enumerate(names):
            lines.append(n + ',' + ','.join(
                repr(float(v[c][i])) for c in cols[:-1]) + ',Utility')
        return Reply(200, '\n'.join(lines) + '\n', 'text/csv')

    def check(self, df):
        names, cols, v = self.data()
        norm = [''.join('_' if c in ' -.()[]:+/",' else c for c in n)
                for n in names]
        if list(df.columns) != norm:
            raise Violation('wrong-columns', f'{list(df.columns)[:2]}')
        if list(df.index) != cols:
            raise Violation('wrong-index', f'{list(df.index)}')
        for i, n in enumerate(norm):
            got = [float(df[n][c]) for c in cols[:-1]]
            want = [float(v[c][i]) for c in cols[:-1]]
            if got != want or df[n]['CEC_Type'] != 'Utility':
                raise Violation('wrong-values', f'{n}: {got} != {want}')

    def error(self, req, status, text=None):
        return Reply(status, 'error', 'text/plain')
