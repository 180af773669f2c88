"""Deep snapshots and comparisons of anything a call takes or returns."""
import dataclasses
import functools
import hashlib
import inspect
import types
import warnings

import numpy as np
import pandas as pd


def _arr(a):
    a = np.asarray(a)
    if a.dtype == object:
        return ('obj', a.shape, tuple(freeze(x) for x in a.ravel().tolist()))
    return (str(a.dtype), a.shape,
            hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest())


def _index(i):
    if isinstance(i, pd.MultiIndex):
        return ('MI', tuple(i.names), tuple(_index(i.get_level_values(k))
                                            for k in range(i.nlevels)))
    if isinstance(i, pd.DatetimeIndex):
        return ('DTI', str(i.dtype), str(i.name), str(i.freq),
                _arr(i.asi8))
    return (type(i).__name__, str(i.dtype), repr(i.name),
            _arr(i.to_numpy()) if str(i.dtype) != 'str' else
            tuple(i.tolist()))


def _col(s):
    dt = str(s.dtype)
    if isinstance(s.dtype, np.dtype):
        return (dt,) + _arr(s.to_numpy())
    return (dt, tuple(repr(x) for x in s.tolist()))


def freeze(o, depth=0):
    """Hashable deep value of o: equal iff nothing observable changed."""
    if depth > 12:
        return ('deep',)
    if o is None or isinstance(o, (bool, int, str, bytes, complex)):
        return (type(o).__name__, o)
    if isinstance(o, float):
        return ('float', repr(o))
    if isinstance(o, np.generic):
        return ('np', str(o.dtype), repr(o.item()))
    if isinstance(o, np.ndarray):
        return ('nd',) + _arr(o) + (o.flags.writeable,)
    if isinstance(o, pd.DataFrame):
        return ('DF', _index(o.index), _index(o.columns),
                tuple(_col(o.iloc[:, k]) for k in range(o.shape[1])),
                tuple(sorted((str(k), freeze(v, depth + 1))
                             for k, v in o.attrs.items())))
    if isinstance(o, pd.Series):
        return ('S', repr(o.name), _index(o.index), _col(o))
    if isinstance(o, pd.Index):
        return _index(o)
    if isinstance(o, (pd.Timestamp, pd.Timedelta, pd.tseries.offsets.
                      DateOffset)):
        return (type(o).__name__, repr(o))
    if isinstance(o, dict):
        return (type(o).__name__,) + tuple(
            (freeze(k, depth + 1), freeze(v, depth + 1))
            for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(freeze(x, depth + 1) for x in o)
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__,) + tuple(sorted(
            repr(freeze(x, depth + 1)) for x in o))
    if isinstance(o, functools.partial):
        return ('partial', freeze(o.func, depth + 1),
                freeze(o.keywords, depth + 1))
    if isinstance(o, types.MethodType):
        return ('method', o.__func__.__qualname__)
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type,
                      np.ufunc)):
        return ('fn', getattr(o, '__qualname__', str(o)))
    if isinstance(o, types.ModuleType):
        return ('module', o.__name__)
    if hasattr(o, 'tolist') and hasattr(o, 'dtype'):
        return ('arr', str(o.dtype), repr(o.tolist()))
    if dataclasses.is_dataclass(o) or (type(o).__module__ or
                                       '').startswith(('pvlib', 'dst')):
        return ('obj', type(o).__name__) + tuple(
            (k, freeze(v, depth + 1)) for k, v in public(o))
    return ('other', type(o).__name__, str(o) if 'object at 0x' not in
            str(o) else '')


def public(o):
    """Public attributes and properties of an object; what it keeps for
    itself (caches, say) is its own business."""
    d = {k: v for k, v in getattr(o, '__dict__', {}).items()
         if not k.startswith('_')}
    for k in dir(type(o)):
        if k.startswith('_') or not isinstance(
                inspect.getattr_static(type(o), k, None), property):
            continue
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                d[k] = getattr(o, k)
            except Exception as e:
                d[k] = ('raises', type(e).__name__)
    return sorted(d.items())


def where(a, b, path=''):
    """Path to the first place in which two snapshots differ."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                p = path
                if isinstance(x, tuple) and len(x) == 2 and isinstance(
                        x[0], (str, tuple)) and x[0] == y[0]:
                    k = x[0]
                    p += '.' + str(k[1] if isinstance(k, tuple) and
                                   len(k) == 2 else k)
                    return where(x[1], y[1], p) or p
                return where(x, y, f'{p}[{i}]')
    return f'{path}: {str(a)[:120]} -> {str(b)[:120]}'


# -- comparison of results -----------------------------------------------------

def num_diff(x, y, rtol, atol):
    """None or the position of the first differing number"""
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return f'shape {x.shape} / {y.shape}'
    if x.dtype.kind in 'OUSMm' or y.dtype.kind in 'OUSMm':
        for i, (u, v) in enumerate(zip(x.ravel().tolist(),
                                       y.ravel().tolist())):
            if not (u == v or (u is None and v is None) or
                    (u != u and v != v) or (pd.isna(u) and pd.isna(v))):
                d = compare(u, v, rtol, atol) if isinstance(
                    u, (list, tuple, np.ndarray, pd.Series,
                        pd.DataFrame)) else ''
                if d is not None:
                    return f'at {i}: {u!r} / {v!r} {d}'
        return None
    if x.dtype.kind == 'b' and y.dtype.kind == 'b':
        bad = x != y
    else:
        with np.errstate(all='ignore'):
            xf, yf = x.astype(complex if x.dtype.kind == 'c' else float), \
                y.astype(complex if y.dtype.kind == 'c' else float)
            bad = ~((xf == yf) | (np.isnan(xf) & np.isnan(yf)) |
                    (np.abs(xf - yf) <= atol + rtol * np.abs(yf)))
    if bad.any():
        i = int(np.flatnonzero(bad.ravel())[0])
        return f'at {i}: {x.ravel()[i]!r} / {y.ravel()[i]!r} ' \
               f'({int(bad.sum())} of {bad.size})'
    return None


def compare(a, b, rtol=1e-11, atol=1e-13, index=True, types_=True, path=''):
    """None if two results are the same, else what differs.  Numbers are
    compared within rtol/atol (atol: absolute)."""
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        if not (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame)):
            return f'{path}: {type(a).__name__} / {type(b).__name__}'
        if list(a.columns) != list(b.columns):
            return f'{path}: columns {list(a.columns)} / {list(b.columns)}'
        if index:
            d = index_diff(a.index, b.index)
            if d:
                return f'{path}: {d}'
        elif len(a) != len(b):
            return f'{path}: {len(a)} / {len(b)} rows'
        for k in range(a.shape[1]):
            d = num_diff(a.iloc[:, k].to_numpy(), b.iloc[:, k].to_numpy(),
                         rtol, atol)
            if d:
                return f'{path}.{a.columns[k]}: {d}'
        return None
    if isinstance(a, pd.Series) or isinstance(b, pd.Series):
        if not (isinstance(a, pd.Series) and isinstance(b, pd.Series)):
            return f'{path}: {type(a).__name__} / {type(b).__name__}'
        if index:
            d = index_diff(a.index, b.index)
            if d:
                return f'{path}: {d}'
        d = num_diff(a.to_numpy(), b.to_numpy(), rtol, atol)
        return f'{path}: {d}' if d else None
    if isinstance(a, pd.Index) or isinstance(b, pd.Index):
        if not (isinstance(a, pd.Index) and isinstance(b, pd.Index)):
            return f'{path}: {type(a).__name__} / {type(b).__name__}'
        d = index_diff(a, b)
        return f'{path}: {d}' if d else None
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return f'{path}: {type(a).__name__} / {type(b).__name__}'
        if list(a) != list(b):
            return f'{path}: keys {list(a)} / {list(b)}'
        for k in a:
            d = compare(a[k], b[k], rtol, atol, index, types_,
                        f'{path}[{k!r}]')
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and
                isinstance(b, (list, tuple))):
            return f'{path}: {type(a).__name__} / {type(b).__name__}'
        if len(a) != len(b):
            return f'{path}: length {len(a)} / {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = compare(x, y, rtol, atol, index, types_, f'{path}[{i}]')
            if d:
                return d
        return None
    if isinstance(a, (np.ndarray, np.generic, int, float, complex)) and \
            isinstance(b, (np.ndarray, np.generic, int, float, complex)):
        if types_ and isinstance(a, np.ndarray) != isinstance(b, np.ndarray):
            return f'{path}: {type(a).__name__} / {type(b).__name__}'
        d = num_diff(a, b, rtol, atol)
        return f'{path}: {d}' if d else None
    if dataclasses.is_dataclass(a) and type(a) is type(b):
        return compare(vars(a), vars(b), rtol, atol, index, types_, path)
    if (type(a).__module__ or '').startswith('pvlib') and \
            type(a) is type(b):
        d = where(freeze(a), freeze(b), path)
        return d
    fa, fb = freeze(a), freeze(b)
    return None if fa == fb else f'{path}: {str(a)[:100]} / {str(b)[:100]}'


def index_diff(a, b):
    if len(a) != len(b):
        return f'{len(a)} / {len(b)} rows'
    if isinstance(a, pd.DatetimeIndex) != isinstance(b, pd.DatetimeIndex):
        return f'index {type(a).__name__} / {type(b).__name__}'
    if isinstance(a, pd.DatetimeIndex):
        if str(a.tz) != str(b.tz):
            return f'index zone {a.tz} / {b.tz}'
        if not (a.as_unit('ns').asi8 == b.as_unit('ns').asi8).all():
            return f'index {a[:2]} / {b[:2]}'
        return None
    if not a.equals(b):
        return f'index {a[:3]} / {b[:3]}'
    return None
