"""Operations on the library that several properties put into histories:
calls of the modelling catalogue, the solar position in either implementation,
readers and downloads.  An operation is plain JSON."""
import contextlib
import copy
import functools
import warnings

import numpy as np
import pandas as pd

from dst import catalog as cat
from dst import services, snap
from dst.core import Outcome, SimStop, call
from dst.disk import Disk
from dst.formats import FORMATS
from dst.net import Net

SPA = ['spa_python', 'sun_rise_set_transit_spa', 'nrel_earthsun_distance',
       'get_solarposition', 'get_extra_radiation']
BAD = ['none', 'text', 'short', 'empty', 'list', 'missing', 'unknown',
       'object', 'dict', 'nan', 'int', 'readonly', 'key']


def gen_bad(rng):
    return {'arg': rng.randrange(10 ** 4) / 10 ** 4, 'how': rng.choice(BAD)}


def gen_call(rng, **kw):
    return {'op': 'call', 'call': cat.gen(rng, **kw), 'bad': None}


def gen_spa(rng):
    return {'op': 'spa', 'fn': rng.choice(SPA), 'how': rng.choice(
        ['numba', 'numba', 'numpy', 'numpy', 'nonsense'] if rng.random() < .2
        else ['numba', 'numpy']),
        'n': rng.choice([1, 2, 5]), 'threads': rng.choice([1, 2, 4]),
        'day': rng.randrange(365), 'delta_t': rng.choice([67.0, None])}


def gen_read(rng, names=None):
    names = names or sorted(n for n in FORMATS if n != 'pvgis_tmy')
    F = FORMATS[rng.choice(names)]
    return {'op': 'read', 'fmt': F.name, 'p': F.gen(rng),
            'source': rng.choice(list(F.sources)), 'garbage': None,
            'faults': []}


def gen_download(rng, names=None):
    from props import c03
    name = rng.choice(names or c03.fidelity_services())
    return {'op': 'download', 'service': name,
            'p': services.get(name).gen(rng), 'faults': []}


def spoil(kw, bad):
    """one argument as a careless caller would pass it"""
    names = sorted(kw)
    if not names:
        return kw, 'nothing'
    how = bad['how']
    if how == 'unknown':
        strs = [k for k in names if isinstance(kw[k], str)]
        if strs:
            k = strs[int(bad['arg'] * len(strs))]
            kw[k] = 'no-such-thing'
        else:
            k = 'no_such_argument'
            kw[k] = 1
        return kw, f'{k}:{how}'
    if how == 'key':        # a table that lacks an entry
        tables = [k for k in names if isinstance(kw[k], dict) and kw[k]]
        if not tables:
            return kw, 'nothing'
        k = tables[int(bad['arg'] * len(tables))]
        v = sorted(kw[k])
        kw[k] = dict(kw[k])
        del kw[k][v[int(bad['arg'] * 7919) % len(v)]]
        return kw, f'{k}:{how}'
    k = names[int(bad['arg'] * len(names))]
    v = kw[k]
    if how == 'missing':
        del kw[k]
    elif how == 'none':
        kw[k] = None
    elif how == 'text':
        kw[k] = 'ERR'
    elif how == 'dict':
        kw[k] = {'a': 1.0}
    elif how == 'int' and hasattr(v, 'astype') and not isinstance(
            v, pd.Index):
        with contextlib.suppress(Exception), np.errstate(all='ignore'):
            kw[k] = v.astype(int)
    elif isinstance(v, (pd.Series, pd.DataFrame, np.ndarray, pd.Index)) and \
            getattr(v, 'ndim', 0):
        if how == 'short':
            kw[k] = v[:-1]
        elif how == 'empty':
            kw[k] = v[:0]
        elif how == 'list':
            kw[k] = list(v) if not isinstance(v, pd.DataFrame) else v
        elif how == 'object' and not isinstance(v, pd.Index) and len(v):
            v = v.astype(object)
            if isinstance(v, np.ndarray):
                v.flat[0] = 'ERR'
            elif isinstance(v, pd.Series):
                v.iloc[0] = 'ERR'
            kw[k] = v
        elif how == 'nan' and hasattr(v, 'dtype') and v.dtype.kind == 'f':
            v = v.copy()
            if isinstance(v, np.ndarray):
                v.flat[0] = np.nan
            elif isinstance(v, pd.Series):
                v.iloc[0] = np.nan
            kw[k] = v
        elif how == 'readonly' and isinstance(v, np.ndarray):
            v = v.copy()
            v.flags.writeable = False
            kw[k] = v
    elif isinstance(v, dict) and v and how in ('short', 'empty'):
        v = dict(v)
        for x in sorted(v)[:1 if how == 'short' else None]:
            del v[x]
        kw[k] = v
    else:
        kw[k] = float('nan')
    return kw, f'{k}:{how}'


class World:
    """What one process keeps between operations: its objects, files, net."""

    def __init__(self, sim, objs=None):
        self.sim = sim
        self.objs = {} if objs is None else objs
        self.disk = None

    def __enter__(self):
        import numba
        self._jit = numba.jit
        numba.jit = lambda *a, **k: (lambda f: f)
        self.sim.disk = self.disk = Disk(self.sim)
        return self

    def __exit__(self, *a):
        import numba
        numba.jit = self._jit
        self.disk.cleanup()


def label(op):
    return {'call': lambda: op['call']['fn'], 'spa': lambda: op['fn'] + ':' +
            op['how'], 'read': lambda: 'read_' + op['fmt'],
            'download': lambda: 'get_' + op['service']}[op['op']]()


def bind(op, world):
    """-> callable without arguments, objects passed in"""
    return globals()['_' + op['op']](op, world)


def _call(op, world):
    with warnings.catch_warnings(), np.errstate(all='warn'):
        warnings.simplefilter('ignore')
        fn, kw = cat.bind(op['call'], objs=world.objs)
    if op['bad']:
        kw, what = spoil(kw, op['bad'])
        world.sim.fault('bad_argument', what)
    return functools.partial(fn, **kw), kw


def _spa(op, world):
    from pvlib import irradiance, solarposition as sp
    t = pd.date_range('2021-01-01', periods=op['n'], freq='5h',
                      tz='America/Denver') + pd.Timedelta(days=op['day'])
    loc = (40.1, -105.2)
    kw = dict(how=op['how'], numthreads=op['threads'])
    n = op['fn']
    if op.get('delta_t') is None and n != 'get_extra_radiation':
        kw['delta_t'] = None
    if n in ('spa_python', 'sun_rise_set_transit_spa'):
        fn = functools.partial(getattr(sp, n), t, *loc, **kw)
    elif n == 'nrel_earthsun_distance':
        fn = functools.partial(sp.nrel_earthsun_distance, t, **kw)
    elif n == 'get_extra_radiation':
        fn = functools.partial(irradiance.get_extra_radiation, t,
                               method='nrel', **kw)
    else:
        kw.pop('how')
        fn = functools.partial(sp.get_solarposition, t, *loc,
                               method='nrel_' + op['how'], **kw)
    return fn, {'time': t}


def _read(op, world):
    from props import c05
    F, p = FORMATS[op['fmt']], copy.deepcopy(op['p'])
    data = F.data(p)
    if op['garbage']:
        data = c05.garble(data, *op['garbage'])
    disk = world.disk

    def fn():
        disk.faults = []
        with contextlib.ExitStack() as stack:
            src, mine, _ = c05.open_source(op['source'], F, p, disk,
                                           world.sim, data)
            if mine is not None:
                stack.callback(mine.close)
            disk.nreads = disk.nopens = 0
            disk.faults = [dict(f) for f in op['faults']]
            try:
                return F.call(p, src)
            finally:
                disk.faults = []
    return fn, {'p': p}


def _download(op, world):
    cls = services.get(op['service'])
    p = copy.deepcopy(op['p'])

    def fn():
        srv = cls(p, world.sim)
        world.sim.net = net = Net(world.sim, srv, [dict(f) for f in
                                                   op['faults']])
        if hasattr(srv, 'setup'):
            srv.setup(net)
        return srv.call()
    return fn, {'p': p}


def perform(op, world, tracer=None):
    """-> Outcome (with any exception caught)"""
    fn, _ = bind(op, world)
    return run(fn, tracer)


def run(fn, tracer=None):
    return call((lambda: tracer.run(fn)) if tracer else fn,
                catch=BaseException)


# -- what a fresh process answers -----------------------------------------------

def answer(out):
    """picklable form of an outcome"""
    if out.ok:
        return ('ok', out.value)
    return ('raised', type(out.exc).__name__, str(out.exc)[:200])


def differs(got, want, rtol=1e-12, atol=1e-14):
    """None, or how the outcome here differs from the fresh one"""
    got = answer(got)
    if got[0] != want[0]:
        return f'{brief(got)} / {brief(want)}'
    if got[0] == 'raised':
        return None if got[1] == want[1] else f'{brief(got)} / {brief(want)}'
    d = snap.compare(got[1], want[1], rtol, atol)
    if d is None and type(got[1]) is not type(want[1]):
        d = f'{type(got[1]).__name__} / {type(want[1]).__name__}'
    return d


def brief(a):
    return f'{a[0]} {type(a[1]).__name__}' if a[0] == 'ok' else \
        f'{a[1]}: {a[2][:120]}'


def scribble(o, depth=0):
    """What a caller may do to a result that is his now."""
    if depth > 6:
        return
    if isinstance(o, dict):
        for v in list(o.values()):
            scribble(v, depth + 1)
        o.clear()
    elif isinstance(o, list):
        for v in o:
            scribble(v, depth + 1)
        o.clear()
    elif isinstance(o, tuple):
        for v in o:
            scribble(v, depth + 1)
    elif isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype.kind in 'fiub':
            o[...] = 77
    elif isinstance(o, pd.DataFrame):
        for k in range(o.shape[1]):
            if o.dtypes.iloc[k].kind in 'fi':
                o.isetitem(k, -777.0)
        o.attrs['scribble'] = 1
        if o.shape[1]:
            o.drop(columns=o.columns[0], inplace=True)
    elif isinstance(o, pd.Series):
        if o.dtype.kind == 'f' and len(o):
            o.iloc[:] = -777.0
        o.name = 'scribble'
    elif isinstance(o, pd.Index):
        o.name = 'scribble'


__all__ = ['Outcome', 'SimStop']
