"""C15: results depend on the instant, not on how the clock writes it."""
import contextlib
import datetime as dt
import os
import time as _time
import zoneinfo

import numpy as np
import pandas as pd

from dst import catalog as cat
from dst import plant, snap, zones
from dst.core import call

ID = 'C15'
QUICK_RUNS, THOROUGH_RUNS = 3000, 400000
SHRINK = ['clocks', 'items']
RULE = ('a run = one calculation on a simulated record whose clock is then '
        'set differently: other time zones (28 zones, written as name, '
        'zoneinfo, pytz, dateutil or fixed offset; naive), other time stamp '
        'resolutions, index with or without frequency, other time zone of '
        'the machine (TZ + tzset); records lie around the instants at which '
        'the station clock jumps (spring, autumn, at midnight, by 30 min, 2 '
        'h or a whole day). batch: a function of the catalogue must give '
        'the same value for every instant and carry the index it was given. '
        'stamp: the same instant as datetime, Timestamp, datetime64, with '
        'every kind of tzinfo. day: hour angle, sunrise, sunset and transit '
        'against closed formulas for the local calendar day, the same '
        'function on a clock with a fixed offset, and the sun\'s elevation. '
        'place: Location time zones and localize_to_utc. Non-trivial: at '
        'least one comparison was made. Distinct: (kind, function, '
        'settings, clocks).')
MEASURE = 'tuples (kind, function, settings, clocks)'
REAL = ['every function of the catalogue that takes time stamps or '
        'time-indexed data, Location, ModelChain, pvlib.tools time helpers']
STUB = ['station clock and machine clock zone', 'telemetry']
ASSUMPTIONS = ['hour angles are compared modulo 360 degrees',
               'hour_angle may raise for a day whose local midnight is '
               'ambiguous (documented behaviour)',
               'pyephem and spa_c are not installed']
OWNZONE = {'tools.localize_to_utc', 'solarposition.hour_angle'}
LOCAL = {'tools.localize_to_utc'}         # naive means local there
STAMPS = ['datetime', 'timestamp', 'datetime64', 'string']


def near_jump(rng, zone=None):
    zone = zone or rng.choice(zones.JUMPING)
    js = zones.jumps(zone)
    t, d = js[rng.randrange(len(js))]
    return zone, t


def gen_start(rng, zone, step, n):
    """a start such that the records lie around a jump of the zone's clock"""
    if zone not in zones.JUMPING or rng.random() < .25:
        zone = rng.choice(zones.JUMPING)
    _, t = near_jump(rng, zone)
    back = rng.randrange(0, max(1, n)) * step + 15 * rng.randrange(4)
    return (pd.Timestamp(t).floor('15min') -
            pd.Timedelta(minutes=back)).isoformat()


def timed(e):
    return e.time or e.index == 'time'


def generate(rng, tier, index):
    kind = rng.choice(['batch'] * 12 + ['stamp'] * 3 + ['day'] * 6 +
                      ['place'] * 2)
    if kind == 'batch':
        if rng.random() < .7:
            inst = cat.gen(rng, timed)
        else:
            inst = cat.gen(rng, lambda e: 's' in e.reps, rep='s')
        e = cat.entry(inst['fn'])
        if inst['rep'] == 'f':
            inst['rep'] = e.reps[0]
        inst['index'] = 'time'
        cs = [zones.gen(rng) for _ in range(rng.choice([2, 3, 4]))]
        inst['start'] = gen_start(rng, cs[0]['zone'], inst['step'],
                                  inst['n'])
        inst['tz'] = 'UTC'
        inst['naive'] = True
        p = inst['plant']
        if p and inst['fn'].startswith('modelchain.') and \
                rng.random() < .3 and len(p['arrays']) == 1:
            p['temp'] = 'fuentes'
            inst['n'] = max(inst['n'], 4)
        return {'kind': kind, 'call': inst, 'clocks': cs, 'items': []}
    if kind == 'stamp':
        zone, t = near_jump(rng)
        t = pd.Timestamp(t) + pd.Timedelta(
            minutes=rng.choice([-90, -31, -1, 0, 1, 30, 59, 61, 600]),
            microseconds=rng.choice([0, 0, 1, 250000, 999999]))
        return {'kind': kind, 'fn': rng.choice(list(STAMPFN)),
                't': t.isoformat(), 'clocks': [
                    dict(zones.gen(rng, unit=False), form=rng.choice(STAMPS))
                    for _ in range(rng.choice([2, 3, 5]))],
                'lat': rng.choice([40., -33.5, 64.1, 0.]),
                'lon': rng.choice([-105., 13.4, 174.7, 0.]), 'items': []}
    if kind == 'day':
        zone, t = near_jump(rng)
        if rng.random() < .2:
            zone = rng.choice(zones.ZONES)
        n = rng.choice([1, 2, 5, 9])
        step = rng.choice([30, 60, 180, 720, 1440])
        lon = round(zones.offset(zone, t).total_seconds() / 240
                    + rng.randrange(-25, 26), 2)
        return {'kind': kind, 'fn': rng.choice(
            ['hour_angle', 'spa', 'geometric', 'location_spa',
             'location_geometric']), 'zone': zone,
            'how': rng.choice(['name', 'zoneinfo', 'pytz', 'dateutil']),
            'unit': rng.choice(['ns', 'us', 's']),
            'machine': rng.choice([None] + zones.ZONES),
            't': (pd.Timestamp(t).floor('15min') - pd.Timedelta(
                minutes=rng.randrange(n) * step +
                15 * rng.randrange(-30, 50))).isoformat(),
            'step': step, 'n': n,
            'lat': rng.choice([40., -33.5, 5., 52.1, -58.]),
            'lon': (lon + 180) % 360 - 180, 'eot': rng.random() < .5,
            'naive': rng.random() < .08, 'clocks': [], 'items': []}
    zone, t = near_jump(rng)
    return {'kind': 'place', 'zone': zone, 'items': [
        {'t': (pd.Timestamp(t) + pd.Timedelta(minutes=rng.choice(
            [-1440, -181, -61, -1, 0, 1, 31, 61, 121, 900]))).isoformat(),
         'form': rng.choice(['frame', 'series', 'index', 'datetime',
                             'timestamp']),
         'aware': rng.choice([None, None, 'same', 'other']),
         'other': rng.choice(zones.ZONES), 'how': rng.choice(zones.HOWS)}
        for _ in range(rng.choice([2, 3, 4]))],
        'tzform': rng.choice(['name', 'zoneinfo', 'pytz', 'int', 'float']),
        'hours': rng.randrange(-12, 15),
        'machine': rng.choice([None] + zones.ZONES), 'clocks': []}


@contextlib.contextmanager
def machine(tz, sim):
    """the time zone setting of the machine"""
    if tz is None:
        yield
        return
    old = os.environ.get('TZ')
    os.environ['TZ'] = tz
    _time.tzset()
    sim.fault('machine_zone', tz)
    try:
        yield
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        _time.tzset()


def clock(c, t):
    """tz argument for a clock"""
    if c['zone'] is None:
        return None
    return zones.write(c['zone'], c['how'], t)


def label(c):
    return '/'.join(str(c.get(k)) for k in ('zone', 'how', 'unit', 'freq',
                                            'machine', 'form') if k in c)


# -- a batch of records on other clocks ---------------------------------------

def index_of(kw):
    for k, v in kw.items():
        if k in ('sr', 'spectra'):
            continue
        if isinstance(v, (tuple, list)) and v and hasattr(v[0], 'iloc'):
            v = v[0]
        if isinstance(v, pd.DatetimeIndex):
            return v
        if hasattr(v, 'iloc') and hasattr(v, 'index') and isinstance(
                v.index, pd.DatetimeIndex):
            return v.index
    return None


def batch(scn, sim):
    inst = scn['call']
    e = cat.entry(inst['fn'])
    n = inst['n']
    if inst['rep'] == 'f' and 'f' not in e.reps:
        return
    t0 = dt.datetime.fromisoformat(inst['start'])

    def one(c):
        fn, kw = cat.bind(inst, tz=clock(c, t0), unit=c.get('unit'),
                          freq=c.get('freq'))
        idx = index_of(kw)
        sim.steps += 1
        with machine(c.get('machine'), sim):
            out = call(fn, **kw)
        return out, idx, kw

    out0, idx0, _ = one({'zone': 'UTC', 'how': 'name', 'unit': 'ns'})
    if out0.ok:
        with sim.judging('differs', inst['fn']):
            base = rows(out0.value, n, e)
    sim.event('base', inst['fn'], out0.brief())
    for c in scn['clocks']:
        if c['zone'] is None and inst['fn'] in LOCAL:
            continue
        if c['zone'] != 'UTC':
            sim.fault('station_zone' if c['zone'] else 'naive_clock',
                      str(c['zone']))
        out, idx, kw = one(c)
        if out.ok != out0.ok:
            sim.violate('fails', f'{inst["fn"]}: {out0.brief()} in UTC, '
                        f'{out.brief()} with clock {label(c)}', inst['fn'])
            return
        if not out.ok:
            sim.probe('rejected')
            continue
        bad = []
        with sim.judging('differs', inst['fn']):
            v = rows(out.value, n, e, idx, bad)
            if bad and inst['rep'] == 's' and inst['fn'] not in OWNZONE:
                sim.violate('index', f'{inst["fn"]} clock {label(c)}: result '
                            f'does not carry the index of its input: '
                            f'{bad[0]}', inst['fn'])
                return
            if e.rec:
                k = list(range(n))
                df = cat.rows_differ(v, k, base, k, e.rtol, e.atol)
            else:
                df = snap.compare(v, base, e.rtol, e.atol)
            if df:
                key = inst['fn']
                if key.startswith('irradiance.gti_dirint') and local_day(
                        idx, idx0, kw, out, out0):
                    key = 'gti_dirint_local_day'
                sim.violate('differs', f'{inst["fn"]} clock {label(c)}: {df} '
                            f'(this clock / UTC)', key)
                return
        sim.probe('compared')
    sim.sign('batch', inst['fn'], sorted(inst['ch'].items()),
             [label(c) for c in scn['clocks']])


def local_day(idx, idx0, kw, out, out0):
    """gti_dirint: do only records with the sun behind the plane differ, and
    does the calendar of the two clocks divide the records differently?"""
    def parts(i):
        return list(np.diff(i.tz_localize(None).normalize().asi8) != 0)
    front = np.asarray(kw['aoi'] < 90)
    a = out.value.to_numpy()[front]
    b = out0.value.to_numpy()[front]
    return parts(idx) != parts(idx0) and \
        snap.num_diff(a, b, 1e-9, 1e-9) is None


def rows(v, n, e, idx=None, bad=None):
    """values of a result with every time written in UTC"""
    if e.rec:
        return cat.norm(v, n, e.axis, index=idx, bad=bad)
    if idx is not None and isinstance(v, (pd.Series, pd.DataFrame)) and \
            len(v) == len(idx):
        d = snap.index_diff(v.index, idx)
        if d:
            bad.append(d)
    return utc(v)


def utc(v):
    if isinstance(v, (pd.Series, pd.DataFrame)):
        if isinstance(v.index, pd.DatetimeIndex):
            v = v.copy()
            v.index = utc(v.index)
        return v
    if isinstance(v, pd.DatetimeIndex):
        v = v.as_unit('ns')
        return v.tz_localize('UTC') if v.tz is None else v.tz_convert('UTC')
    if isinstance(v, dict):
        return {k: utc(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return type(v)(utc(x) for x in v) if type(v) in (tuple, list) else v
    return v


# -- one instant written in many ways -----------------------------------------

def _mod(name):
    import importlib
    return importlib.import_module('pvlib.' + name)


def _f(v):
    return np.asarray(v, float).ravel()


STAMPFN = {
    'extra_spencer': lambda t, s: _f(_mod('irradiance').get_extra_radiation(
        t)),
    'extra_asce': lambda t, s: _f(_mod('irradiance').get_extra_radiation(
        t, method='asce')),
    'extra_nrel': lambda t, s: _f(_mod('irradiance').get_extra_radiation(
        t, method='nrel')),
    'solpos': lambda t, s: _f(_mod('solarposition').get_solarposition(
        t, s['lat'], s['lon'])),
    'solpos_ephemeris': lambda t, s: _f(
        _mod('solarposition').get_solarposition(
            t, s['lat'], s['lon'], method='ephemeris')),
    'spa': lambda t, s: _f(_mod('solarposition').spa_python(
        t, s['lat'], s['lon'])),
    'earthsun': lambda t, s: _f(_mod('solarposition').nrel_earthsun_distance(
        t)),
    'djd': lambda t, s: _f(_mod('tools').datetime_to_djd(t)),
    'djd_roundtrip': lambda t, s: _f(
        _mod('tools').djd_to_datetime(_mod('tools').datetime_to_djd(t),
                                      tz=s['zone']).timestamp()),
}
# what a function does not take
NOT = {'djd': ('datetime64', 'string'), 'djd_roundtrip': ('datetime64',
                                                          'string'),
       'solpos': ('datetime64', 'string'),
       'solpos_ephemeris': ('datetime64', 'string'),
       'extra_spencer': ('string',), 'extra_asce': ('string',),
       'extra_nrel': ('string',)}


def write_stamp(scn, c):
    t = pd.Timestamp(scn['t'])                       # UTC
    u = dt.datetime.fromisoformat(scn['t'])
    f = c['form']
    if f == 'datetime64' or (f == 'string' and c['zone'] is None):
        v = np.datetime64(scn['t'])
        return v if f == 'datetime64' else scn['t']
    tz = clock(c, u)
    if isinstance(tz, str):
        tz = zoneinfo.ZoneInfo(tz)
    if f == 'timestamp':
        return t if tz is None else t.tz_localize('UTC').tz_convert(tz)
    if tz is None:
        return u
    v = u.replace(tzinfo=dt.timezone.utc).astimezone(tz)
    if f == 'string':
        return v.isoformat()
    return v


def stamp(scn, sim):
    fn = STAMPFN[scn['fn']]
    s = dict(scn, zone='UTC')
    ref = call(fn, pd.Timestamp(scn['t']).tz_localize('UTC'), s)
    if not ref.ok:
        sim.violate('fails', f'{scn["fn"]}: {ref.brief()} for a UTC '
                    'Timestamp', scn['fn'])
        return
    for c in scn['clocks']:
        if c['form'] in NOT.get(scn['fn'], ()):
            c = dict(c, form='timestamp')
        v = write_stamp(scn, c)
        sim.fault('stamp_' + c['form'])
        s = dict(scn, zone=c['zone'] or 'UTC')
        with machine(c.get('machine'), sim):
            o = call(fn, v, s)
        sim.steps += 1
        if not o.ok:
            sim.violate('fails', f'{scn["fn"]}: {o.brief()} for {v!r} with '
                        f'machine zone {c.get("machine")}', scn['fn'])
            return
        at = 2e-5 if scn['fn'] == 'djd_roundtrip' else 1e-9
        if 'solpos' in scn['fn'] or scn['fn'] == 'spa':
            at = 2e-5
        rt = 1e-13 if scn['fn'] == 'djd' else 1e-9
        if scn['fn'] == 'djd_roundtrip':
            rt, at = 0, 2e-5
        d = snap.num_diff(o.value, ref.value, rt, at)
        if d:
            sim.violate('differs', f'{scn["fn"]} {v!r} machine '
                        f'{c.get("machine")}: {d} (this / UTC Timestamp)',
                        scn['fn'])
            return
        sim.probe('compared')
    sim.sign('stamp', scn['fn'], [label(c) for c in scn['clocks']])


# -- quantities of the local day ------------------------------------------------

def day(scn, sim):
    sp = _mod('solarposition')
    t0 = pd.Timestamp(scn['t'], tz='UTC')
    utc = t0 + pd.to_timedelta(np.arange(scn['n']) * scn['step'], unit='min')
    utc = pd.DatetimeIndex(utc)
    tz = zones.write(scn['zone'], scn['how'])
    times = utc.tz_convert(tz).as_unit(scn['unit'])
    lat, lon = scn['lat'], scn['lon']
    wall = times.tz_localize(None)
    date = pd.DatetimeIndex(wall.normalize()).as_unit('ns')
    doy = date.dayofyear.to_numpy()
    eot = np.asarray(sp.equation_of_time_spencer71(doy), float) \
        if scn['eot'] else np.linspace(-5., 9., scn['n'])
    decl = np.asarray(sp.declination_spencer71(doy), float)
    fn = scn['fn']
    sim.fault('clock_jump_day', scn['zone'])
    if scn['naive']:
        for k, f in (('hour_angle', lambda: sp.hour_angle(wall, lon, eot)),
                     ('spa', lambda: sp.sun_rise_set_transit_spa(
                         wall, lat, lon)),
                     ('geometric', lambda: sp.sun_rise_set_transit_geometric(
                         wall, lat, lon, decl, eot))):
            o = call(f)
            if o.ok or not isinstance(o.exc, ValueError):
                sim.violate('naive', f'{k}: naive times must be refused with '
                            f'ValueError, got {o.brief()}', k)
                return
        sim.probe('compared')
        return
    amb = [zones.ambiguous_midnight(scn['zone'], d) for d in date]

    def location():
        return plant.build_location({'lat': lat, 'lon': lon,
                                     'tz': scn['zone'], 'alt': 100.})
    with machine(scn['machine'], sim):
        if fn == 'hour_angle':
            o = call(sp.hour_angle, times, lon, eot)
        elif fn == 'spa':
            o = call(sp.sun_rise_set_transit_spa, times, lat, lon)
        elif fn == 'geometric':
            o = call(sp.sun_rise_set_transit_geometric, times, lat, lon,
                     decl, eot)
        elif fn == 'location_spa':
            o = call(lambda: location().get_sun_rise_set_transit(times))
        else:
            o = call(lambda: location().get_sun_rise_set_transit(
                times, method='geometric', declination=decl,
                equation_of_time=eot))
    sim.steps += 1
    sim.event(fn, o.brief())
    if not o.ok:
        if fn == 'hour_angle' and any(amb):
            sim.probe('ambiguous_midnight')
            return
        sim.violate('fails', f'{fn} fails for {scn["zone"]} '
                    f'{list(map(str, times))}: {o.brief()}', fn)
        return
    with sim.judging('differs', fn):
        if fn == 'hour_angle':
            h = ((utc - utc.normalize()) / pd.Timedelta('1h')).to_numpy()
            want = 15. * (h - 12.) + lon + eot / 4.
            d = (np.asarray(o.value, float) - want + 180) % 360 - 180
            if np.abs(d).max() > 1e-6 or np.isnan(d).any():
                k = int(np.nanargmax(np.abs(d)))
                sim.violate('differs', f'hour_angle at {times[k]}: '
                            f'{o.value[k]}, expected {want[k]} (mod 360)',
                            fn)
            sim.probe('compared')
            sim.sign('day', fn, scn['zone'], scn['unit'], scn['machine'])
            return
        v = o.value
        if fn == 'geometric':
            v = pd.DataFrame({'sunrise': v[0], 'sunset': v[1],
                              'transit': v[2]}, index=times)
        d = snap.index_diff(v.index, times)
        if d:
            sim.violate('index', f'{fn}: {d}', fn)
            return
        got = {k: pd.DatetimeIndex(v[k]) for k in ('sunrise', 'sunset',
                                                   'transit')}
        for k, x in got.items():
            if x.tz is None or (x.tz_localize(None) - x.tz_convert(
                    'UTC').tz_localize(None) != pd.DatetimeIndex(
                        x.tz_convert(tz)).tz_localize(None) - x.tz_convert(
                            'UTC').tz_localize(None)).any():
                sim.violate('zone', f'{fn}: {k} is not in the zone of its '
                            f'input: {x.tz} / {tz}', fn)
                return
        off = wall.as_unit('ns') - utc.tz_localize(None).as_unit('ns')
        noon = date + pd.to_timedelta(12. - lon / 15. - (
            eot if 'geometric' in fn else 0) / 60., unit='h')
        noon -= ((noon + off).normalize() - date)     # on the local day
        noon = noon.tz_localize('UTC')
        tol = 2_000_000_000
        if 'geometric' in fn:
            ang = np.degrees(np.arccos(-np.tan(decl) * np.tan(
                np.radians(lat))))
            want = {'transit': noon,
                    'sunrise': noon - pd.to_timedelta(ang / 15., unit='h'),
                    'sunset': noon + pd.to_timedelta(ang / 15., unit='h')}
        else:
            u = (12. - lon / 15.) % 24
            if u < .5 or u > 23.5:
                # the solar noon drifts over midnight UTC in the year, and
                # SPA knows days of UTC only
                sim.probe('noon_at_utc_midnight')
                return
            want = {k: [] for k in got}
            for j in range(len(times)):
                one = times[j:j + 1].tz_convert(dt.timezone(
                    off[j].to_pytimedelta()))
                w = sp.sun_rise_set_transit_spa(one, lat, lon)
                for k in want:
                    want[k].append(w[k].iloc[0].tz_convert('UTC'))
            want = {k: pd.DatetimeIndex(v) for k, v in want.items()}
            far = np.abs((got['transit'].tz_convert('UTC') - noon) /
                         pd.Timedelta('1min'))
            if not (far < 25).all():
                j = int(np.argmax(far))
                sim.violate('wrong-day', f'{fn}: transit for {times[j]} is '
                            f'{got["transit"][j]}', fn)
                return
        for k in got:
            g = got[k].tz_convert('UTC').as_unit('ns').asi8
            w = want[k].tz_convert('UTC').as_unit('ns').asi8
            bad = np.abs(g - w) > tol
            if bad.any():
                j = int(np.flatnonzero(bad)[0])
                sim.violate('differs', f'{fn}: {k} for {times[j]} is '
                            f'{got[k][j]}, expected '
                            f'{want[k].tz_convert(tz)[j]}', fn)
                return
        if 'spa' in fn:
            # at sunrise and sunset the sun's centre is about 0.83 deg below
            # the horizon
            for k in ('sunrise', 'sunset'):
                el = sp.get_solarposition(got[k].tz_convert('UTC'), lat, lon
                                          )['elevation'].to_numpy()
                if not (np.abs(el + .8333) < 2).all():
                    sim.violate('elevation', f'{fn}: elevation at {k} is '
                                f'{el.tolist()}', fn)
                    return
        sim.probe('compared')
    sim.sign('day', fn, scn['zone'], scn['unit'], scn['machine'], scn['step'])


# -- places -----------------------------------------------------------------------

def place(scn, sim):
    loc_mod, tools = _mod('location'), _mod('tools')
    zone = scn['zone']
    tf = scn['tzform']
    h = scn['hours']
    if tf in ('int', 'float'):
        arg = h if tf == 'int' else float(h)
    else:
        arg = zones.write(zone, tf)
    with machine(scn['machine'], sim):
        o = call(loc_mod.Location, 40., -100., tz=arg, altitude=10.)
        if not o.ok:
            sim.violate('fails', f'Location(tz={arg!r}): {o.brief()}',
                        'Location')
            return
        loc = o.value
        z = zoneinfo.ZoneInfo(loc.tz)
        for it in scn['items']:
            u = dt.datetime.fromisoformat(it['t'])
            off = z.utcoffset(u.replace(tzinfo=dt.timezone.utc).astimezone(
                z))
            want = dt.timedelta(hours=h) if tf in ('int', 'float') else \
                zones.offset(zone, u)
            aware = u.replace(tzinfo=dt.timezone.utc).astimezone(z)
            if aware.utcoffset() != want:
                sim.violate('zone', f'Location(tz={arg!r}).tz is {loc.tz}: '
                            f'UTC offset {aware.utcoffset()} instead of '
                            f'{want} at {u} UTC', 'Location')
                return
            t = pd.Timestamp(u, tz='UTC')
            if it['aware'] == 'same':
                src = t.tz_convert(z)
            elif it['aware'] == 'other':
                src = t.tz_convert(zones.write(it['other'], it['how'], u))
            else:
                src = t.tz_convert(z).tz_localize(None)
                a = src.to_pydatetime().replace(tzinfo=z, fold=0)
                if a.utcoffset() != a.replace(fold=1).utcoffset():
                    sim.probe('ambiguous')
                    continue
            sim.fault('local_clock', str(it['aware']))
            idx = pd.DatetimeIndex([src])
            f = it['form']
            x = {'frame': pd.DataFrame({'a': [1.5]}, index=idx),
                 'series': pd.Series([1.5], index=idx), 'index': idx,
                 'datetime': src.to_pydatetime(), 'timestamp': src}[f]
            o = call(tools.localize_to_utc, x, loc)
            sim.steps += 1
            if not o.ok:
                sim.violate('fails', f'localize_to_utc({x!r}): {o.brief()}',
                            'localize_to_utc')
                return
            with sim.judging('differs', 'localize_to_utc'):
                r = o.value
                if f in ('frame', 'series'):
                    if len(r) != 1 or np.asarray(r).ravel()[0] != 1.5:
                        sim.violate('differs', 'localize_to_utc changed the '
                                    'data', 'localize_to_utc')
                        return
                    r = r.index
                r = pd.Timestamp(r[0] if f in ('frame', 'series', 'index')
                                 else r)
                if r.tz is None or r != t or \
                        r.utcoffset() != dt.timedelta(0):
                    sim.violate('differs', f'localize_to_utc({x!r}) in '
                                f'{loc.tz} is {r}, expected {t}',
                                'localize_to_utc')
                    return
                sim.probe('compared')
    sim.sign('place', zone, tf, h, [(i['form'], i['aware']) for i in
                                    scn['items']])


def execute(scn, sim):
    {'batch': batch, 'stamp': stamp, 'day': day, 'place': place}[
        scn['kind']](scn, sim)


def nontrivial(scn, sim):
    return bool(sim.probes.get('compared'))


def simplify(scn):
    if scn['kind'] == 'batch':
        c = scn['call']
        e = cat.entry(c['fn'])
        for n in (max(1, e.min_n), 2, c['n'] - 1):
            if e.min_n <= n < c['n']:
                yield dict(scn, call=dict(c, n=n))
        if c['special']:
            yield dict(scn, call=dict(c, special=0))
    for i, c in enumerate(scn['clocks']):
        for k, v in (('machine', None), ('freq', False), ('unit', 'ns'),
                     ('how', 'name')):
            if k in c and c[k] != v:
                cs = list(scn['clocks'])
                cs[i] = dict(c, **{k: v})
                yield dict(scn, clocks=cs)
    if scn['kind'] == 'day' and scn['n'] > 1:
        yield dict(scn, n=1)
