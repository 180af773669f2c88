"""The simulated world's weather: a deterministic number for every (variable,
site, instant), so that any value, column, shift or site mix-up shows."""
import hashlib

import numpy as np
import pandas as pd


def _mix(x):
    x = (x ^ (x >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
    x = (x ^ (x >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
    return x ^ (x >> np.uint64(31))


def field(var, site, epochs, lo=0.0, hi=1000.0, dec=1):
    """Values of variable `var` at `site` (any string/tuple) for epoch
    seconds; rounded to dec decimals, in [lo, hi]."""
    epochs = np.asarray(epochs, dtype=np.int64)
    h = int.from_bytes(hashlib.sha256(f'{var}|{site}'.encode()).digest()[:8],
                       'big')
    with np.errstate(over='ignore'):
        z = _mix(epochs.astype(np.uint64) * np.uint64(0x9E3779B97F4A7C15)
                 + np.uint64(h))
    u = (z >> np.uint64(11)).astype(float) / float(1 << 53)
    return np.round(lo + u * (hi - lo), dec)


def epochs(start, periods, step):
    return np.int64(start) + np.arange(periods, dtype=np.int64) * np.int64(
        step)


def iso(epoch, sep='T', suffix='Z', fmt=None):
    import datetime as dt
    d = dt.datetime(1970, 1, 1) + dt.timedelta(seconds=int(epoch))
    if fmt:
        return d.strftime(fmt)
    return d.strftime(f'%Y-%m-%d{sep}%H:%M:%S') + suffix


ZONES = ['UTC', 'Etc/GMT+7', 'America/New_York', 'Asia/Kolkata',
         'Australia/Adelaide', 'Pacific/Auckland', 'Europe/Berlin',
         'Asia/Kathmandu', 'America/St_Johns']


def caller_time(epoch, how):
    """The instant as the caller writes it.  how: {'style':..., 'tz':...}"""
    import datetime as dt
    style, tz = how.get('style', 'ts'), how.get('tz')
    ts = pd.Timestamp(int(epoch), unit='s', tz='UTC')
    if style == 'naive_str':
        return ts.tz_localize(None).strftime('%Y-%m-%d %H:%M:%S')
    if style == 'iso_str':
        return ts.tz_convert(tz or 'UTC').isoformat()
    if style == 'naive_ts':
        return ts.tz_localize(None)
    if style == 'naive_dt':
        return ts.tz_localize(None).to_pydatetime()
    if style == 'tz_ts':
        return ts.tz_convert(tz or 'UTC')
    if style == 'tz_dt':
        return ts.tz_convert(tz or 'UTC').to_pydatetime()
    raise ValueError(style)


def gen_caller(rng, styles=('naive_str', 'iso_str', 'naive_ts', 'naive_dt',
                            'tz_ts', 'tz_ts', 'tz_dt')):
    return {'style': rng.choice(styles), 'tz': rng.choice(ZONES)}


def parse_instant(s):
    """epoch seconds of an ISO time with zone designator (naive: UTC)"""
    t = pd.Timestamp(s)
    if t.tzinfo is None:
        t = t.tz_localize('UTC')
    return int(round(t.timestamp()))
