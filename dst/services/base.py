import json

import numpy as np
import pandas as pd

from ..core import Violation
from ..net import Reply


class BadRequest(Exception):
    """The service rejects the request; text explains."""

    def __init__(self, msg, status=400):
        super().__init__(msg)
        self.status = status


def need(cond, msg, status=400):
    if not cond:
        raise BadRequest(msg, status)


class Service:
    """One simulated service as seen by one download function.

    gen(rng) -> params (JSON) ; call(p) -> invokes pvlib ; handle(req, net) ->
    Reply ; expected(p) -> dict(index=epoch seconds or list of strings,
    cols={name: array}, meta={...}, tz=...) ; error(req, status) -> Reply in
    the service's documented error form, error_text -> text that must surface.
    """
    name = None
    steps = 1
    # fault kinds that make no sense or cannot be noticed for this service
    skip_faults = ()
    error_text = None           # text of documented error replies
    error_statuses = (400, 401, 403, 404, 422, 429, 500, 503)
    body_is_json = True
    # a 200 reply cut short without a length header cannot be told from a
    # complete one when the format has no end marker
    detects_truncation = True

    def __init__(self, p, sim):
        self.p, self.sim = p, sim
        self.rejections = []
        self.seen = []

    def __call__(self, req, net):
        self.seen.append(req)
        try:
            rep = self.handle(req, net)
        except BadRequest as e:
            self.rejections.append(str(e))
            self.sim.event('rejected', str(e))
            rep = self.error(req, e.status, str(e))
        except (KeyError, ValueError, TypeError, AttributeError) as e:
            # malformed beyond what handle() expects
            msg = f'malformed request: {type(e).__name__}: {e}'
            self.rejections.append(msg)
            self.sim.event('rejected', msg)
            rep = self.error(req, 400, msg)
        lat = self.p.get('latency')
        if lat:
            rep.latency = lat[(len(self.seen) - 1) % len(lat)]
        return rep

    def error(self, req, status, text=None):
        return Reply(status, {'error': text or 'error'})

    @classmethod
    def common(cls, rng):
        return dict(latency=[rng.choice([0.01, 0.2, 1.5, 8.0])
                             for _ in range(3)],
                    map_variables=rng.random() < 0.7)


def gen_site(rng, lat=(-60, 60), lon=(-180, 180), dec=None):
    d = dec if dec is not None else rng.choice([0, 1, 2, 3, 4])
    la, lo = round(rng.uniform(*lat), d), round(rng.uniform(*lon), d)
    # plain and negative-fraction edge values
    if rng.random() < 0.1:
        la = round(rng.uniform(-1, 1), 3)
    if rng.random() < 0.1:
        lo = round(rng.uniform(-1, 1), 3)
    return la, lo


def same_number(a, b, tol=1e-9):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(b))


def check_frame(df, exp, what=''):
    """Compare a returned frame with exp; raises Violation."""
    if not isinstance(df, pd.DataFrame):
        raise Violation('wrong-type', f'{what}: {type(df).__name__}')
    cols = exp['cols']
    want, got = set(cols), set(map(str, df.columns))
    optional = set(exp.get('optional', ()))
    if len(df.columns) != len(set(df.columns)):
        raise Violation('duplicate-columns', f'{what}: {list(df.columns)}')
    if want - got or got - want - optional:
        raise Violation('wrong-columns', f'{what}: missing '
                        f'{sorted(want - got)}, unexpected '
                        f'{sorted(got - want - optional)}')
    idx = exp['index']
    n = len(idx[0]) if isinstance(idx, tuple) else len(idx)
    if len(df) != n:
        raise Violation('wrong-number-of-records', f'{what}: {len(df)} '
                        f'records, published {n}')
    check_index(df.index, exp, what)
    for c, v in cols.items():
        check_column(df[c], v, f'{what}[{c}]')


def check_index(index, exp, what):
    idx = exp['index']
    kind = exp.get('index_kind', 'utc')
    if kind == 'range':
        if list(index) != list(idx):
            raise Violation('wrong-index', f'{what}: {list(index)[:3]}')
        return
    if kind == 'interval' or isinstance(index, pd.IntervalIndex):
        if kind != 'interval' or not isinstance(index, pd.IntervalIndex):
            raise Violation('wrong-index', f'{what}: '
                            f'{type(index).__name__}, expected {kind}')
        for side, ep in ((index.left, exp['left']), (index.right,
                                                     exp['right'])):
            got = np.array([t.timestamp() for t in side])
            if not np.allclose(got, ep, atol=1e-3, rtol=0):
                raise Violation('wrong-times', f'{what}: interval edges')
        return
    if not isinstance(index, pd.DatetimeIndex):
        raise Violation('wrong-index', f'{what}: {type(index).__name__}')
    if kind == 'naive':
        if index.tz is not None:
            raise Violation('wrong-time-zone', f'{what}: {index.tz}, '
                            'documented as naive')
        got = np.asarray(index.as_unit('ns').asi8) / 1e9
    else:
        if index.tz is None:
            raise Violation('wrong-time-zone', f'{what}: index not localized')
        got = np.asarray(index.tz_convert('UTC').as_unit('ns').asi8) / 1e9
        off = exp.get('offset')
        if off is not None and len(index):
            o = index[0].utcoffset().total_seconds()
            if o != off:
                raise Violation('wrong-time-zone', f'{what}: offset {o}, '
                                f'expected {off}')
    bad = np.nonzero(np.abs(got - np.asarray(idx, float)) > 1e-3)[0]
    if len(bad):
        i = bad[0]
        raise Violation('wrong-times', f'{what}: record {i} is labelled '
                        f'{index[i]}, service says '
                        f'{pd.Timestamp(float(idx[i]), unit="s")} UTC '
                        f'({len(bad)} of {len(idx)} differ)')


def check_column(s, v, what):
    if isinstance(v, tuple) and v and v[0] == 'any':
        return
    if len(v) and isinstance(v[0], str):
        got = [str(x) for x in s]
        if got != list(v):
            i = [a == b for a, b in zip(got, v)].index(False)
            raise Violation('wrong-values', f'{what}: record {i} is '
                            f'{got[i]!r}, published {v[i]!r}')
        return
    try:
        got = np.asarray(s, dtype=float)
    except (TypeError, ValueError) as e:
        raise Violation('wrong-values', f'{what}: not numeric: {e}')
    v = np.asarray(v, dtype=float)
    ok = (np.isnan(got) & np.isnan(v)) | (
        np.abs(got - v) <= 1e-9 + 1e-9 * np.abs(v))
    if not ok.all():
        i = int(np.nonzero(~ok)[0][0])
        raise Violation('wrong-values', f'{what}: record {i} is {got[i]!r}, '
                        f'published value is {v[i]!r} '
                        f'({int((~ok).sum())} of {len(v)} differ)')


def check_meta(meta, exp, what):
    if not isinstance(meta, dict):
        raise Violation('wrong-type', f'{what} metadata: '
                        f'{type(meta).__name__}')
    for k, v in exp.items():
        if k not in meta:
            raise Violation('missing-metadata', f'{what}: no {k!r} in '
                            f'metadata {sorted(map(str, meta))}')
        g = meta[k]
        if isinstance(v, dict):
            for kk, vv in v.items():
                if not isinstance(g, dict) or not same_number(g.get(kk), vv):
                    raise Violation('wrong-metadata', f'{what}: {k}.{kk} is '
                                    f'{g!r}, expected {vv!r}')
            continue
        if isinstance(v, list):
            if list(g) != v:
                raise Violation('wrong-metadata', f'{what}: {k} is {g!r}, '
                                f'expected {v!r}')
            continue
        if isinstance(v, bool) or v is None or isinstance(v, str):
            if isinstance(v, str):
                if str(g) != v:
                    raise Violation('wrong-metadata', f'{what}: {k} is '
                                    f'{g!r}, expected {v!r}')
            elif g is not v:
                raise Violation('wrong-metadata', f'{what}: {k} is {g!r}, '
                                f'expected {v!r}')
            continue
        if not same_number(g, v):
            raise Violation('wrong-metadata', f'{what}: {k} is {g!r}, '
                            f'expected {v!r}')


def check_result(value, exp, what):
    if exp.get('frame_only'):
        df, meta = value, None
    else:
        if not isinstance(value, tuple) or len(value) < 2:
            raise Violation('wrong-type', f'{what}: returned '
                            f'{type(value).__name__}')
        df, meta = value[0], value[-1]
    check_frame(df, exp, what)
    if meta is not None or exp.get('meta'):
        check_meta(meta, exp.get('meta', {}), what)
