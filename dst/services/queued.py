"""Services that queue jobs: ERA5 (Copernicus CDS) and SolarAnywhere."""
import io
import json
import zipfile

import numpy as np
import pandas as pd

from .. import truth
from ..net import Reply
from . import register
from .base import BadRequest, Service, gen_site, need

ERA5_LONG = {
    '2m_dewpoint_temperature': ('d2m', 250, 300),
    '2m_temperature': ('t2m', 250, 310),
    'surface_pressure': ('sp', 80000, 103000),
    'surface_solar_radiation_downwards': ('ssrd', 0, 3.6e6),
    'total_sky_direct_solar_radiation_at_surface': ('fdir', 0, 3.6e6),
    'total_precipitation': ('tp', 0, 0.05),
    'surface_thermal_radiation_downwards': ('strd', 0, 1.5e6),
    'sea_surface_temperature': ('sst', 270, 303),
    '10m_u_component_of_wind': ('u10', -20, 20),
    '100m_v_component_of_wind': ('v100', -20, 20),
    'mean_sea_level_pressure': ('msl', 95000, 104000),
    'skin_temperature': ('skt', 250, 330),
}
ERA5_ALIAS = {'temp_dew': '2m_dewpoint_temperature',
              'temp_air': '2m_temperature', 'pressure': 'surface_pressure',
              'ghi': 'surface_solar_radiation_downwards',
              'bhi': 'total_sky_direct_solar_radiation_at_surface',
              'precipitation': 'total_precipitation',
              'longwave_down': 'surface_thermal_radiation_downwards'}
ERA5_OUT = {'d2m': 'temp_dew', 't2m': 'temp_air', 'sp': 'pressure',
            'ssrd': 'ghi', 'fdir': 'bhi', 'tp': 'precipitation',
            'strd': 'longwave_down'}
ERA5_UNIT = {'d2m': lambda x: x - 273.15, 't2m': lambda x: x - 273.15,
             'sst': lambda x: x - 273.15, 'skt': lambda x: x - 273.15,
             'ssrd': lambda x: x / 3600, 'fdir': lambda x: x / 3600,
             'strd': lambda x: x / 3600, 'tp': lambda x: x * 100}


class Queued(Service):
    def __init__(self, p, sim):
        super().__init__(p, sim)
        self.jobs = {}
        self.polls = []          # (t_arrival, job, state told, t_reply)
        self.told_outcome = None
        self.t_accepted = None
        self.results_fetched = []
        # jobs of other users of the service, already finished
        for i in range(2):
            self.jobs[f'other-{i}'] = dict(
                t0=sim.now - 1000, dur=1, fail=False, req=None, other=i)

    def state(self, job):
        j = self.jobs[job]
        age = self.sim.now - j['t0']
        if 'other' not in j and self.p.get('dismiss_at') is not None and \
                j['dur'] > self.p['dismiss_at'] <= age:
            return 'dismissed'
        if age < 0.25 * j['dur']:
            return 'queued'
        if age < j['dur']:
            # a job may be sent back to the queue
            return 'queued' if self.p.get('flap') and \
                int(age * 2) % 3 == 0 else 'running'
        return 'failed' if j['fail'] else 'done'

    def ready(self, job):
        """whether there is something to fetch; of a failed job there may be
        what was ready before it failed"""
        st = self.state(job)
        return st == 'done' or st == 'failed' and self.p.get(
            'fail_form', 'message') != 'message'


@register
class Era5(Queued):
    name = 'era5'
    steps = 4
    phases = ['/execution', '/jobs/', '/results', 'object-store']
    error_text = 'the request you have submitted is not valid'

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng)
        p['day'] = rng.randrange(7305, 19000)        # 1990..2022
        p['hour'] = rng.randrange(24)
        p['hour_end'] = rng.randrange(24)
        p['ndays'] = rng.choice([1, 1, 2, 3])
        if p['ndays'] == 1 and p['hour_end'] < p['hour']:
            p['hour_end'] = p['hour']
        p['how'] = truth.gen_caller(rng)
        names = list(ERA5_LONG) + list(ERA5_ALIAS)
        vs = []
        for v in rng.sample(names, rng.randint(1, 5)):
            if ERA5_ALIAS.get(v, v) not in [ERA5_ALIAS.get(x, x) for x in vs]:
                vs.append(v)
        p['variables'] = vs
        p['duration'] = rng.choice([0, 0.5, 3, 20])
        p['fail'] = False
        p['timeout'] = 60
        p['grid_gap'] = rng.random() < 0.2
        p['gaps'] = rng.choice([0, 0, 0.05, 0.3])
        p['url'] = rng.choice([None, None, 'https://cds.example.org/api/v2/'])
        return p

    def _times(self):
        p = self.p
        start = p['day'] * 86400 + p['hour'] * 3600
        end = (p['day'] + p['ndays'] - 1) * 86400 + p['hour_end'] * 3600
        return start, end

    def base(self):
        return self.p['url'] or \
            'https://cds.climate.copernicus.eu/api/retrieve/v1/'

    def call(self):
        from pvlib import iotools
        p = self.p
        start, end = self._times()
        kw = {}
        if p['url']:
            kw['url'] = p['url']
        return iotools.get_era5(
            p['lat'], p['lon'], truth.caller_time(start, p['how']),
            truth.caller_time(end, p['how']), list(p['variables']),
            'the-api-key', map_variables=p['map_variables'],
            timeout=p['timeout'], **kw)

    def handle(self, req, net):
        base = self.base()
        if not req.url.startswith(base):
            if req.host == 'object-store.example.org':
                need(req.method == 'GET', 'method', 405)
                job = req.path.rsplit('/', 1)[-1].split('.')[0]
                need(job in self.jobs, 'no such object', 404)
                need(self.ready(job), 'not ready', 404)
                self.results_fetched.append(job)
                return Reply(200, self.archive(self.jobs[job]),
                             'application/zip', latency=0.5)
            raise BadRequest('unknown host ' + req.url, 404)
        need(req.headers.get('private-token') == 'the-api-key',
             'authentication failed', 401)
        tail = req.url[len(base):]
        if tail == ('processes/reanalysis-era5-single-levels-timeseries/'
                    'execution'):
            need(req.method == 'POST', 'method', 405)
            inp = req.json['inputs']
            for v in inp['variable']:
                need(v in ERA5_LONG, f'unknown variable {v}')
            need(inp['data_format'] == 'csv', 'data_format')
            d = inp['date']
            need(len(d) == 1 and len(d[0].split('/')) == 2, 'date')
            for x in d[0].split('/'):
                pd.Timestamp(x)
                need(len(x) == 10, 'date format')
            loc = inp['location']
            need(set(loc) == {'latitude', 'longitude'}, 'location')
            need(-90 <= loc['latitude'] <= 90 and
                 -180 <= loc['longitude'] <= 360, 'location out of range')
            job = f'job-{len(self.jobs)}'
            self.jobs[job] = dict(t0=self.sim.now, dur=self.p['duration'],
                                  fail=self.p['fail'], req=inp)
            self.my_job = job
            self.t_accepted = self.sim.now
            return Reply(201, {'jobID': job, 'status': 'accepted',
                               'processID': 'reanalysis-era5',
                               'metadata': {'origin': 'api', 'messages':
                                            ['maintenance announced']}})
        need(tail.startswith('jobs/'), 'no such resource', 404)
        need(req.method == 'GET', 'method', 405)
        rest = tail[5:].split('/')
        need(rest[0] in self.jobs, 'no such job', 404)
        st = self.state(rest[0])
        if len(rest) == 1:
            told = {'queued': 'accepted', 'running': 'running',
                    'done': 'successful', 'failed': 'failed',
                    'dismissed': 'dismissed'}[st]
            self.polls.append((self.sim.now, rest[0], told))
            if told in ('successful', 'failed') and not self.told_outcome:
                self.told_outcome = (told, len(self.seen))
            return Reply(200, {'jobID': rest[0], 'status': told,
                               'processID': 'reanalysis-era5'})
        need(rest[1] == 'results', 'no such resource', 404)
        need(self.ready(rest[0]), 'results not ready', 404)
        return Reply(200, {'asset': {'value': {
            'type': 'application/zip',
            'href': 'https://object-store.example.org/cache/'
                    f'{rest[0]}.zip'}}})

    def grid(self, loc):
        return (round(loc['latitude'] * 4) / 4,
                round(loc['longitude'] * 4) / 4)

    def series(self, inp, site):
        a, b = inp['date'][0].split('/')
        t0 = int(pd.Timestamp(a, tz='UTC').timestamp())
        n = int((pd.Timestamp(b) - pd.Timestamp(a)).days + 1) * 24
        if n <= 0:
            raise BadRequest('end before start')
        ep = truth.epochs(t0, n, 3600)
        out = {}
        for v in inp['variable']:
            short, lo, hi = ERA5_LONG[v]
            x = np.array(truth.field('era5' + short, site, ep, lo, hi,
                                     5 if short == 'tp' else 2), dtype=float)
            if self.p.get('gaps'):          # hours without a value
                gone = truth.field('era5gap' + short, site, ep, 0, 1, 3)
                x[np.asarray(gone) < self.p['gaps']] = np.nan
            out[short] = x
        return ep, out

    def archive(self, job):
        if job['req'] is None:
            inp = {'variable': ['2m_temperature'], 'location':
                   {'latitude': 1.0, 'longitude': 2.0},
                   'date': ['2001-01-01/2001-01-01']}
        else:
            inp = job['req']
        site = self.grid(inp['location'])
        ep, out = self.series(inp, site)
        lines = [','.join(['valid_time'] + list(out) +
                          ['latitude', 'longitude'])]
        for i, e in enumerate(ep):
            lines.append(','.join(
                [truth.iso(e, ' ', '')] +
                ['' if np.isnan(out[c][i]) else repr(float(out[c][i]))
                 for c in out]
                + [str(site[0]), str(site[1])]))
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, 'w', zipfile.ZIP_DEFLATED) as z:
            zi = zipfile.ZipInfo('reanalysis-era5-single-levels.csv',
                                 (2024, 1, 1, 0, 0, 0))
            z.writestr(zi, '\n'.join(lines) + '\n')
        return buf.getvalue()

    def expected(self):
        p = self.p
        start, end = self._times()
        inp = {'variable': [ERA5_ALIAS.get(v, v) for v in p['variables']],
               'location': {'latitude': p['lat'], 'longitude': p['lon']},
               'date': [truth.iso(start)[:10] + '/' + truth.iso(end)[:10]]}
        site = self.grid(inp['location'])
        ep, out = self.series(inp, site)
        if p['map_variables']:
            out = {ERA5_OUT.get(k, k): ERA5_UNIT.get(k, lambda x: x)(v)
                   for k, v in out.items()}
        return dict(index=ep, cols=out, meta=dict(
            latitude=site[0], longitude=site[1],
            jobID=getattr(self, 'my_job', None)))

    def error(self, req, status, text=None):
        if not req.url.startswith(self.base()):      # the object store
            self.unexplained = True
            return Reply(status, '<Error><Code>AccessDenied</Code></Error>',
                         'application/xml')
        return Reply(status, {'type': 'error', 'title': self.error_text,
                              'status': status,
                              'detail': text or self.error_text,
                              'traceback': ''})


SA_VARS = {
    'GlobalHorizontalIrradiance_WattsPerMeterSquared': ('ghi', 0, 1100),
    'DirectNormalIrradiance_WattsPerMeterSquared': ('dni', 0, 1000),
    'DiffuseHorizontalIrradiance_WattsPerMeterSquared': ('dhi', 0, 500),
    'AmbientTemperature_DegreesC': ('temp_air', -30, 45),
    'WindSpeed_MetersPerSecond': ('wind_speed', 0, 20),
    'RelativeHumidity_Percent': ('relative_humidity', 0, 100),
    'ClearSkyGHI_WattsPerMeterSquared': ('ghi_clear', 0, 1100),
    'ClearSkyDNI_WattsPerMeterSquared': ('dni_clear', 0, 1000),
    'ClearSkyDHI_WattsPerMeterSquared': ('dhi_clear', 0, 500),
    'Albedo_Unitless': ('albedo', 0, 1),
    'SnowDepth_Meters': ('SnowDepth_Meters', 0, 2),
}
SA_DEFAULT = ['StartTime', 'ObservationTime', 'EndTime',
              'GlobalHorizontalIrradiance_WattsPerMeterSquared',
              'DirectNormalIrradiance_WattsPerMeterSquared',
              'DiffuseHorizontalIrradiance_WattsPerMeterSquared',
              'AmbientTemperature_DegreesC', 'WindSpeed_MetersPerSecond',
              'Albedo_Unitless', 'DataVersion']


@register
class SolarAnywhere(Queued):
    name = 'solaranywhere'
    steps = 2
    phases = ['/WeatherData', '/WeatherDataResult/']
    error_text = 'The requested simulation cannot be run'
    job_error_text = 'outside of our coverage area'

    @classmethod
    def gen(cls, rng):
        p = cls.common(rng)
        p['lat'], p['lon'] = gen_site(rng)
        p['start'] = rng.randrange(1_000_000_000, 1_600_000_000, 3600)
        p['hours'] = rng.choice([1, 3, 24, 48])
        p['how'] = truth.gen_caller(rng)
        p['how_end'] = p['how'] if rng.random() < 0.7 else \
            truth.gen_caller(rng)
        p['tmy'] = rng.random() < 0.2
        p['res'] = 60 if p['tmy'] else rng.choice([60, 30, 15, 5])
        p['sres'] = rng.choice([0.1, 0.01, 0.005])
        p['td'] = p['res'] == 5 and rng.random() < 0.6
        p['poe'] = rng.choice([None, 10, 95]) if p['tmy'] else None
        p['variables'] = None if rng.random() < 0.5 else \
            ['ObservationTime'] + rng.sample(sorted(SA_VARS),
                                             rng.randint(1, 5))
        p['missing'] = rng.choice(['FillAverage', 'Omit'])
        p['offset'] = rng.choice([-5, 0, -8, 5.5])
        p['duration'] = rng.choice([0, 4, 12, 40])
        p['fail'] = False
        p['timeout'] = 300
        p['url'] = rng.choice([None, None, 'https://sa.example.org/api/v2'])
        return p

    def base(self):
        return self.p['url'] or 'https://service.solaranywhere.com/api/v2'

    def call(self):
        from pvlib import iotools
        p = self.p
        kw = {}
        if p['url']:
            kw['url'] = p['url']
        if p['variables'] is not None:
            kw['variables'] = list(p['variables'])
        if not p['tmy']:
            kw['start'] = truth.caller_time(p['start'], p['how'])
            kw['end'] = truth.caller_time(p['start'] + p['hours'] * 3600,
                                          p['how_end'])
            kw['source'] = 'SolarAnywhere3_6'
        else:
            kw['source'] = 'SolarAnywhereTGYLatest'
        if p['poe'] is not None:
            kw['source'] = 'SolarAnywherePOELatest'
            kw['probability_of_exceedance'] = p['poe']
        if p['td']:
            kw['true_dynamics'] = True
        if p['missing'] != 'FillAverage':
            kw['missing_data'] = p['missing']
        return iotools.get_solaranywhere(
            p['lat'], p['lon'], 'the-api-key', time_resolution=p['res'],
            spatial_resolution=p['sres'], timeout=p['timeout'],
            map_variables=p['map_variables'], **kw)

    def handle(self, req, net):
        base = self.base()
        need(req.url.startswith(base), 'unknown host ' + req.url, 404)
        need(req.headers.get('x-api-key') == 'the-api-key', 'bad key', 403)
        tail = req.url[len(base):]
        if tail == '/WeatherData':
            need(req.method == 'POST', 'method', 405)
            need('json' in req.headers.get('content-type', ''), 'type', 415)
            body = req.json
            site = body['Sites'][0]
            need(len(body['Sites']) == 1, 'one site')
            float(site['Latitude']), float(site['Longitude'])
            opt = dict(body['Options'])
            need(opt['SummaryOutputFields'] == [], 'summary')
            known = {'OutputFields', 'SummaryOutputFields',
                     'SpatialResolution_Degrees', 'TimeResolution_Minutes',
                     'WeatherDataSource', 'MissingDataHandling',
                     'ApplyTrueDynamics', 'ProbabilityOfExceedance',
                     'StartTime', 'EndTime'}
            need(set(opt) <= known, f'unknown options {set(opt) - known}')
            need('ObservationTime' in opt['OutputFields'], 'ObservationTime')
            for f in opt['OutputFields']:
                need(f in SA_VARS or f in SA_DEFAULT, f'unknown field {f}')
            need(opt['TimeResolution_Minutes'] in (60, 30, 15, 5), 'res')
            need(opt['SpatialResolution_Degrees'] in (.1, .01, .005), 'sres')
            need(opt['MissingDataHandling'] in ('Omit', 'FillAverage'),
                 'missing')
            typ = opt['WeatherDataSource'].startswith(
                ('SolarAnywhereTGY', 'SolarAnywhereTDY', 'SolarAnywherePOE'))
            if typ:
                need('StartTime' not in opt and 'EndTime' not in opt,
                     'start and end time must be null')
            else:
                need('StartTime' in opt and 'EndTime' in opt,
                     'simulation start and end time')
                for k in ('StartTime', 'EndTime'):
                    need(pd.Timestamp(opt[k]).tzinfo is not None,
                         'time zone missing')
            job = f'job-{len(self.jobs)}'
            self.jobs[job] = dict(t0=self.sim.now, dur=self.p['duration'],
                                  fail=self.p['fail'], req=body)
            self.my_job = job
            self.t_accepted = self.sim.now
            return Reply(200, {'WeatherRequestId': job})
        need(tail.startswith('/WeatherDataResult/'), 'not found', 404)
        need(req.method == 'GET', 'method', 405)
        job = tail.split('/')[-1]
        need(job in self.jobs, 'no such request', 404)
        st = self.state(job)
        told = {'queued': 'Pending', 'running': 'InProgress',
                'done': 'Done', 'failed': 'Done',
                'dismissed': 'Cancelled'}[st]
        self.polls.append((self.sim.now, job, told))
        if st in ('done', 'failed') and not self.told_outcome:
            self.told_outcome = ('successful' if st == 'done' else 'failed',
                                 len(self.seen))
        if st in ('queued', 'running', 'dismissed'):
            return Reply(200, {'Type': 'WeatherDataResult', 'Status': told})
        if st == 'failed':
            form = self.p.get('fail_form', 'message')
            doc = self.result(self.jobs[job]) if form != 'message' else {
                'Status': 'Done', 'WeatherDataResults': [{}]}
            # ('partial', 'bare': as much as there was before the failure)
            doc['WeatherDataResults'][0].update(
                Status='Failure', ErrorMessages=[] if form == 'bare' else [
                    {'Message': 'Location is outside of our coverage area'}])
            return Reply(200, doc)
        self.results_fetched.append(job)
        return Reply(200, self.result(self.jobs[job]), latency=0.5)

    def data(self, body):
        opt = body['Options']
        site = (float(body['Sites'][0]['Latitude']),
                float(body['Sites'][0]['Longitude']))
        res = opt['TimeResolution_Minutes'] * 60
        key = (site, res, opt['SpatialResolution_Degrees'],
               opt['WeatherDataSource'], opt.get('ApplyTrueDynamics', False),
               opt.get('ProbabilityOfExceedance'),
               opt['MissingDataHandling'])
        if 'StartTime' in opt:
            t0 = truth.parse_instant(opt['StartTime'])
            t1 = truth.parse_instant(opt['EndTime'])
        else:
            t0, t1 = 946684800, 946684800 + 48 * 3600
        n = max(0, (t1 - t0) // res)
        if n <= 0:
            raise BadRequest('empty period')
        ep = truth.epochs(t0, n, res)
        cols = {}
        for f in opt['OutputFields']:
            if f in SA_VARS:
                _, lo, hi = SA_VARS[f]
                cols[f] = truth.field(f, key, ep, lo, hi, 2)
        return ep, res, cols

    def _iso(self, e):
        off = self.p['offset']
        s = truth.iso(e + int(off * 3600), suffix='')
        sign = '-' if off < 0 else '+'
        a = abs(off)
        return s + f'{sign}{int(a):02d}:{int(a * 60) % 60:02d}'

    def result(self, job):
        body = job['req'] or {
            'Sites': [{'Latitude': 1, 'Longitude': 1}], 'Options': {
                'OutputFields': SA_DEFAULT, 'TimeResolution_Minutes': 60,
                'SpatialResolution_Degrees': .01,
                'WeatherDataSource': 'SolarAnywhereTGYLatest',
                'MissingDataHandling': 'FillAverage'}}
        ep, res, cols = self.data(body)
        opt = body['Options']
        rows = []
        for i, e in enumerate(ep):
            r = {}
            for f in opt['OutputFields']:
                if f == 'StartTime':
                    r[f] = self._iso(e)
                elif f == 'ObservationTime':
                    r[f] = self._iso(e + res // 2)
                elif f == 'EndTime':
                    r[f] = self._iso(e + res)
                elif f == 'DataVersion':
                    r[f] = '3.6'
                else:
                    r[f] = float(cols[f][i])
            rows.append(r)
        site = body['Sites'][0]
        return {'Type': 'WeatherDataResult', 'Status': 'Done',
                'WeatherDataResults': [{
                    'Status': 'Success',
                    'WeatherDataPeriods': {
                        'TimeResolution_Minutes':
                            opt['TimeResolution_Minutes'],
                        'WeatherDataPeriods': rows},
                    'WeatherSourceInformation': {
                        'Latitude': str(site['Latitude']),
                        'Longitude': str(site['Longitude']),
                        'Elevation_Meters': '41',
                        'WeatherSiteName': opt['WeatherDataSource'],
                        'ApplyTrueDynamics':
                            bool(opt.get('ApplyTrueDynamics', False)),
                    }}]}

    def request_body(self):
        p = self.p
        opt = {'OutputFields': p['variables'] or SA_DEFAULT,
               'SummaryOutputFields': [],
               'SpatialResolution_Degrees': p['sres'],
               'TimeResolution_Minutes': p['res'],
               'WeatherDataSource': 'SolarAnywhereTGYLatest' if p['tmy']
               else 'SolarAnywhere3_6',
               'MissingDataHandling': p['missing']}
        if p['td']:
            opt['ApplyTrueDynamics'] = True
        if p['poe'] is not None:
            opt['ProbabilityOfExceedance'] = p['poe']
            opt['WeatherDataSource'] = 'SolarAnywherePOELatest'
        if not p['tmy']:
            opt['StartTime'] = truth.iso(p['start'])
            opt['EndTime'] = truth.iso(p['start'] + p['hours'] * 3600)
        return {'Sites': [{'Latitude': p['lat'], 'Longitude': p['lon']}],
                'Options': opt}

    def expected(self):
        p = self.p
        body = self.request_body()
        ep, res, cols = self.data(body)
        out = {}
        for f in body['Options']['OutputFields']:
            if f in cols:
                out[SA_VARS[f][0] if p['map_variables'] else f] = cols[f]
            else:
                out[f] = ('any',)
        return dict(index=ep + res // 2, cols=out, meta=dict(
            latitude=p['lat'], longitude=p['lon'], altitude=41,
            time_resolution=p['res'], spatial_resolution=p['sres'],
            WeatherSiteName=body['Options']['WeatherDataSource'],
            ApplyTrueDynamics=bool(p['td'])))

    def error(self, req, status, text=None):
        return Reply(status, {'Message': text or self.error_text})
