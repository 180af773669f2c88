"""What belongs to the process, not to a call: settings and defaults."""
import importlib
import inspect
import locale
import logging
import os
import pkgutil
import signal
import socket
import sys
import time
import types
import warnings

import numpy as np
import pandas as pd

from dst import snap


def settings():
    """{name: value} of the process-wide settings"""
    import pandas._config.config as pc
    out = {
        'environment': tuple(sorted(os.environ.items())),
        'numpy error handling': tuple(sorted(np.geterr().items())),
        'numpy error callback': str(np.geterrcall()),
        'numpy printing': snap.freeze(dict(np.get_printoptions())),
        'warning filters': tuple(
            (f[0], getattr(f[1], 'pattern', f[1]), f[2].__name__,
             getattr(f[3], 'pattern', f[3]), f[4])
            for f in warnings.filters),
        'pandas options': snap.freeze(pc._global_config),
        'time zone': (time.tzname, time.timezone),
        'working directory': os.getcwd(),
        'locale': locale.setlocale(locale.LC_ALL),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'socket timeout': socket.getdefaulttimeout(),
        'logging': (logging.root.level, len(logging.root.handlers),
                    logging.root.manager.disable),
        'float formatting': snap.freeze(np.get_printoptions().get(
            'formatter')),
    }
    try:
        out['signals'] = tuple(str(signal.getsignal(s)) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGALRM))
    except ValueError:
        pass
    return out


def modules():
    import pvlib
    out = []
    for m in pkgutil.walk_packages(pvlib.__path__, 'pvlib.'):
        if 'spa_c_files' in m.name or m.name.endswith('_deprecation'):
            continue
        try:
            out.append(importlib.import_module(m.name))
        except ImportError:
            pass
    return out


DATA = (dict, list, set, tuple, np.ndarray, pd.DataFrame, pd.Series, str,
        int, float, bool)


def defaults():
    """Default arguments and public tables of the library, by name"""
    out = {}
    for m in modules():
        if m.__name__ == 'pvlib.spa':
            # switching the implementation reloads this module
            names = {k: v for k, v in vars(m).items() if isinstance(
                v, np.ndarray) or k.startswith(('TABLE', 'L', 'B', 'R'))
                and isinstance(v, (list, tuple, dict))}
        else:
            names = vars(m)
        for k, v in list(names.items()):
            if k.startswith('_'):
                continue
            q = f'{m.__name__}.{k}'
            if isinstance(v, types.FunctionType):
                if v.__module__ != m.__name__:
                    continue
                func(out, q, v)
            elif inspect.isclass(v):
                if v.__module__ != m.__name__:
                    continue
                for n, a in vars(v).items():
                    if isinstance(a, types.FunctionType):
                        func(out, f'{q}.{n}', a)
                    elif isinstance(a, DATA) and not n.startswith('_'):
                        out[f'{q}.{n}'] = snap.freeze(a)
            elif isinstance(v, DATA) and not memo(v):
                out[q] = snap.freeze(v)
    return out


def memo(v):
    """A table that is empty when the library has just been imported holds no
    defaults: it is where the library remembers something, whose effect on
    later calls is judged by their results (C08, C17)."""
    if id(v) not in MEMO and isinstance(v, (dict, list, set)) and not v:
        MEMO[id(v)] = v
    return id(v) in MEMO


MEMO = {}


def func(out, q, f):
    for k, v in list(enumerate(f.__defaults__ or ())) + list(
            (f.__kwdefaults__ or {}).items()):
        if isinstance(v, (dict, list, set, np.ndarray, pd.DataFrame,
                          pd.Series)):
            out[f'{q} default {k}'] = snap.freeze(v)


def diff(a, b):
    """None, or what differs between two snapshots"""
    for k in a:
        if k not in b:
            return f'{k} is gone'
        if a[k] != b[k]:
            return f'{k}: {snap.where(a[k], b[k]) or (a[k], b[k])}'
    return None
