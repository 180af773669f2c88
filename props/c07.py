"""C07: calls leave the caller's data and the process's settings alone."""
import contextlib
import copy
import functools
import os
import warnings

import numpy as np
import pandas as pd

from dst import catalog as cat
from dst import interrupt as intr
from dst import plant, services, snap, state
from dst.core import Outcome, SimStop
from dst.disk import Disk
from dst.formats import FORMATS
from dst.net import Net
from dst.ops import BAD, spoil
from props import c02, c03, c05

ID = 'C07'
QUICK_RUNS, THOROUGH_RUNS = 3900, 200000
QUICK_BUDGET = 240
SHRINK = ['ops']
COST = 60000           # statements of interrupted calls per operation
RULE = ('a run = a process with its own settings (warning filters, floating '
        'point error handling, PVLIB_USE_NUMBA) and a history of 1-12 calls: '
        'any function of the modelling catalogue, the construction of a '
        'model chain, any reader on any source, any download, the solar '
        'position in either implementation; with valid arguments, with '
        'arguments spoilt (missing, None, text, wrong length, wrong type, a '
        'table without an entry, unknown option), with transport and file '
        'faults, or interrupted '
        '(KeyboardInterrupt, MemoryError, RuntimeError, OSError) at a chosen '
        'statement inside the library. After every call all arguments of '
        'this and of earlier calls, the objects the method belongs to, the '
        'process settings and the public default tables are compared with '
        'what they were. Non-trivial: at least one call got as far as the '
        'library. Distinct: (function, settings, container, spoilt '
        'argument, kind and place of the interruption).')
MEASURE = 'tuples (function, options, spoilt argument, place interrupted)'
REAL = ['every public function of the catalogue (modelling, readers, '
        'downloads)', 'pandas', 'requests', 'importlib (module reload)']
STUB = ['telemetry', 'services, sockets, raw files', 'numba.jit (identity: '
        'the switch of implementation and the worker threads are real)']
ASSUMPTIONS = ['no interruption strikes between the header of a with or try '
               'statement and its body, nor inside handlers and finally '
               'blocks', 'warning filters that other packages (statsmodels) '
               'add when they are imported for the first time do not count']


def prepare():
    import numba  # noqa: F401  (imported for real before any run)
    import scipy.optimize  # noqa: F401
    import scipy.special  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.stats  # noqa: F401
    import statsmodels.api  # noqa: F401
    import h5py  # noqa: F401
    services.load_all()
    state.defaults()
    state.settings()


def gen_cut(rng):
    return {'kind': rng.choice(sorted(intr.KINDS)),
            'at': rng.randrange(10 ** 6) / 10 ** 6}


def gen_call(rng, name=None):
    op = {'op': 'call', 'call': cat.gen(rng, names=name and [name]),
          'bad': None, 'again': rng.random() < .2}
    if rng.random() < .3:
        op['bad'] = {'arg': rng.randrange(10 ** 4) / 10 ** 4,
                     'how': rng.choice(BAD)}
        if rng.random() < .4 and any(
                isinstance(c, dict) for a in cat.entry(
                    op['call']['fn']).args.values() if a.kind == 'C'
                for c in a.choices):
            op['bad']['how'] = 'key'
    return op


def gen_read(rng, name=None):
    F = FORMATS[name or rng.choice(formats())]
    op = {'op': 'read', 'fmt': F.name, 'p': F.gen(rng), 'source':
          rng.choice(list(F.sources)), 'garbage': None, 'faults': []}
    x = rng.random()
    if x < .2:
        op['garbage'] = [rng.choice(['cut', 'noise', 'empty', 'swap']),
                         rng.randrange(10 ** 4) / 10 ** 4]
    elif x < .35 and op['source'] != 'url':
        op['faults'] = [{'op': 'read', 'nth': rng.randrange(4), 'kind':
                         rng.choice(['eio', 'interrupt', 'nomem'])}]
    return op


def gen_download(rng, name=None):
    name = name or rng.choice(c03.fidelity_services())
    cls = services.get(name)
    op = {'op': 'download', 'service': name, 'p': cls.gen(rng),
          'faults': []}
    if rng.random() < .35:
        op['faults'] = [{'call': 0, 'step': rng.randrange(cls.steps),
                         'kind': rng.choice(c02.kinds_for(cls, op['p'])),
                         'arg': rng.randrange(10 ** 3) / 10 ** 3,
                         'count': 1}]
    return op


def gen_spa(rng, name=None):
    return {'op': 'spa', 'fn': name or rng.choice(SPA),
            'how': rng.choice(['numba', 'numba', 'numpy', 'nonsense']),
            'n': rng.choice([1, 2, 5]), 'threads': rng.choice([1, 2, 4]),
            'day': rng.randrange(365)}


def gen_chain(rng, name=None):
    return {'op': 'chain', 'plant': plant.gen_plant(rng)}


SPA = ['spa_python', 'sun_rise_set_transit_spa', 'nrel_earthsun_distance',
       'get_solarposition', 'get_extra_radiation']


def formats():
    return sorted(n for n in FORMATS if n != 'pvgis_tmy')


def gen_op(rng, index, j):
    r = rng.random()
    op = (gen_call if r < .5 else gen_read if r < .68 else
          gen_download if r < .84 else gen_chain if r < .9 else gen_spa)(rng)
    op['cut'] = gen_cut(rng) if rng.random() < .4 else None
    return op


def generate(rng, tier, index):
    if index % 3 == 1:
        return sweep(rng, index // 3)
    if index % 3 == 2:
        return options(rng, index // 3)
    ops = [gen_op(rng, index, j) for j in range(rng.choice([1, 1, 2, 3, 4]))]
    return {'ops': ops, 'env': rng.choice([None, None, '0', '1']),
            'np': rng.choice([None, None, None, 'raise', 'ignore']),
            'warn': rng.choice(['ignore', 'ignore', 'default', 'error'])}


def options(rng, index):
    """one function with many combinations of its options, arguments
    complete and spoilt"""
    names = sorted(cat.ENTRIES)
    name = names[index % len(names)]
    ops = []
    for _ in range(max(3, 12 // cat.entry(name).heavy)):
        op = gen_call(rng, name)
        op.update(cut=None, again=False)
        ops.append(op)
    return {'ops': ops, 'env': None, 'np': rng.choice([None, 'ignore']),
            'warn': rng.choice(['ignore', 'default'])}


def sweep(rng, index):
    """every function of the catalogue in turn, interrupted at statements
    all over it, a different selection every time"""
    names = [(gen_call, k) for k in sorted(cat.ENTRIES)] + [
        (gen_read, k) for k in formats()] + [
        (gen_download, k) for k in c03.fidelity_services()] + [
        (gen_spa, k) for k in SPA] + [(gen_chain, None)]
    gen, name = names[index % len(names)]
    at = (index // len(names) * .618034 + rng.randrange(1000) / 1000 * .02)
    op = gen(rng, name)
    heavy = cat.entry(name).heavy if gen is gen_call else 1
    op.update(cut=None, again=False)
    if rng.random() < .7:
        op.update({k: v for k, v in (('bad', None), ('garbage', None),
                                     ('faults', [])) if k in op})
    k = max(2, 16 // heavy)
    op['cuts'] = [{'kind': rng.choice(sorted(intr.KINDS)),
                   'by': rng.choice(['own', 'own', 'line']),
                   'at': (at + i / k) % 1} for i in range(k)]
    return {'ops': [op], 'env': rng.choice([None, None, '0', '1']),
            'np': rng.choice([None, None, None, 'raise', 'ignore']),
            'warn': rng.choice(['ignore', 'ignore', 'default', 'error'])}


# -- what must stay as it was -----------------------------------------------------

def owners(fn, out=None):
    """objects a callable carries along: the system, location, chain"""
    out = [] if out is None else out
    if isinstance(fn, functools.partial):
        for a in list(fn.args) + list(fn.keywords.values()):
            owners(a, out)
        owners(fn.func, out)
    elif hasattr(fn, '__wrapped__'):
        owners(fn.__wrapped__, out)
    elif hasattr(fn, '__self__') and not isinstance(
            fn.__self__, type(os)) and type(
            fn.__self__).__module__.startswith('pvlib'):
        out.append(fn.__self__)
    elif type(fn).__module__.startswith('pvlib'):
        out.append(fn)
    return out


def freeze_owner(o):
    if type(o).__name__ == 'ModelChain':
        return snap.freeze({k: v for k, v in snap.public(o)
                            if k in ('system', 'location')})
    return snap.freeze(o)


def is_file(v):
    return hasattr(v, 'read') and not isinstance(v, type)


class Watch:
    """Arguments of the outermost pvlib.iotools call, before and after."""

    def __init__(self):
        self.depth = 0
        self.calls = []

    @contextlib.contextmanager
    def on(self):
        from pvlib import iotools
        saved = {}
        for k in dir(iotools):
            f = getattr(iotools, k)
            if k.startswith(('get_', 'read_', 'parse_')) and callable(f):
                saved[k] = f
                setattr(iotools, k, self.wrap(k, f))
        try:
            yield self
        finally:
            for k, f in saved.items():
                setattr(iotools, k, f)

    def wrap(self, name, f):
        @functools.wraps(f)
        def wrapped(*args, **kw):
            if self.depth:
                return f(*args, **kw)
            it = {**{f'argument {i}': a for i, a in enumerate(args)}, **kw}
            it = {k: v for k, v in it.items() if not is_file(v)}
            self.calls.append([name, it, snap.freeze(it)])
            self.depth += 1
            try:
                return f(*args, **kw)
            finally:
                self.depth -= 1
        return wrapped


class Process:
    """The simulated process: its settings, and everything it handed out."""

    def __init__(self, scn, sim):
        self.sim = sim
        self.kept = []               # [label, object, snapshot, freezer]
        self.defaults = state.defaults()
        self.watch = Watch()

    def keep(self, label, obj, freezer=snap.freeze):
        self.kept.append([label, obj, freezer(obj), freezer])

    def call(self, label, fn, tracer=None):
        """one call under watch; -> Outcome"""
        before = state.settings()
        n = len(self.watch.calls)
        try:
            v = tracer.run(fn) if tracer else fn()
            out = Outcome(True, v)
        except SimStop:
            raise
        except BaseException as e:
            out = Outcome(False, exc=e)
        after = state.settings()
        how = f'{label} ({out.brief()[:150]})'
        d = state.diff(before, after)
        if d:
            self.sim.violate('setting-changed', f'{how}: {d}',
                             label.split(' ')[0])
            restore(before)
        now = state.defaults()
        d = state.diff(self.defaults, now)
        if d:
            self.sim.violate('default-changed', f'{how}: {d}',
                             label.split(' ')[0])
            self.defaults = now
        for name, it, was in self.watch.calls[n:]:
            self.kept.append([f'{name} argument', it, was, snap.freeze])
        for k in self.kept:
            now = k[3](k[1])
            if now != k[2]:
                self.sim.violate('argument-changed', f'{how}: {k[0]} '
                                 f'{snap.where(k[2], now)}', k[0])
                k[2] = now
        out.exc = None if out.ok else out.exc.with_traceback(None)
        return out


def restore(before):
    env = dict(before['environment'])
    for k in list(os.environ):
        if k not in env:
            del os.environ[k]
    os.environ.update(env)


def execute(scn, sim):
    import numba
    old = numba.jit
    disk = None
    if scn['env'] is None:
        os.environ.pop('PVLIB_USE_NUMBA', None)
    else:
        os.environ['PVLIB_USE_NUMBA'] = scn['env']
    sim.disk = disk = Disk(sim)
    sim.sign(scn['env'], scn['np'], scn['warn'])
    try:
        with warnings.catch_warnings(), np.errstate(
                **({'all': scn['np']} if scn['np'] else {})):
            warnings.simplefilter(scn['warn'])
            numba.jit = lambda *a, **k: (lambda f: f)
            pr = Process(scn, sim)
            with pr.watch.on():
                for j, op in enumerate(scn['ops']):
                    globals()['op_' + op['op']](pr, sim, op, j)
                    if sim.violations:
                        return
    finally:
        numba.jit = old
        disk.cleanup()


def twice(pr, sim, op, label, fn):
    """the call, counted; and again, interrupted"""
    sim.steps += 1
    cuts = op.get('cuts') or ([op['cut']] if op['cut'] else [])
    t = intr.Tracer(record=True) if cuts else None
    out = pr.call(label, fn, t)
    sim.event('call', label, out.brief()[:80])
    if out.ok or label.startswith(('get_', 'read_')):
        sim.probe('completed')
    sim.probe('called')
    cost = 0
    for cut in cuts:
        if sim.violations or cost > COST:
            break
        kind = cut['kind']
        x = intr.cutter(cut, t.n, t.places)
        got = pr.call(f'{label} interrupted', fn, x)
        cost += x.n
        if x.fired:
            sim.fault('interrupt_' + kind, x.fired[1])
            sim.probe('interrupted')
        sim.event('interrupted', label, x.fired, got.brief()[:80])
        sim.sign(kind, (x.fired or ('', ''))[1])
    return out


def op_call(pr, sim, op, j):
    inst = op['call']
    with warnings.catch_warnings(), np.errstate(all='warn'):
        warnings.simplefilter('ignore')
        fn, kw = cat.bind(inst)
    what = ''
    if op['bad']:
        kw, what = spoil(kw, op['bad'])
        sim.fault('bad_argument', what)
    sim.sign(inst['fn'], inst['rep'], what,
             ','.join(f'{k}{v}' for k, v in sorted(inst['ch'].items())))
    for o in owners(fn):
        pr.keep(f'{inst["fn"]} {type(o).__name__}', o, freeze_owner)
    for k, v in kw.items():
        pr.keep(f'{inst["fn"]} {k}', v)
    twice(pr, sim, op, inst['fn'], lambda: fn(**kw))
    if op['again'] and not sim.violations:
        twice(pr, sim, dict(op, cut=None), inst['fn'], lambda: fn(**kw))


def op_chain(pr, sim, op, j):
    cfg = op['plant']
    # (no warnings or floating point errors arise here)
    system = plant.build_system(cfg)
    location = plant.build_location(cfg)
    pr.keep('ModelChain system', system)
    pr.keep('ModelChain location', location)
    sim.sign('chain', cfg['dc'], cfg['temp'], len(cfg['arrays']))
    twice(pr, sim, op, 'ModelChain', lambda: plant.build_chain(
        cfg, system, location))


def op_read(pr, sim, op, j):
    F, p = FORMATS[op['fmt']], op['p']
    data = F.data(p)
    if op['garbage']:
        data = c05.garble(data, *op['garbage'])
        sim.fault('file_garbage', op['garbage'][0])
    sim.sign('read', F.name, op['source'], (op['garbage'] or ['-'])[0],
             len(op['faults']))
    disk = sim.disk

    def fn():
        disk.faults = []
        with contextlib.ExitStack() as stack:
            try:
                src, mine, _ = c05.open_source(op['source'], F, p, disk, sim,
                                               data)
            except UnicodeDecodeError:
                return None
            if mine is not None:
                stack.callback(mine.close)
            disk.nreads = disk.nopens = 0
            disk.faults = [dict(f) for f in op['faults']]
            try:
                return F.call(p, src)
            finally:
                disk.faults = []
    twice(pr, sim, op, 'read_' + F.name, fn)


def op_download(pr, sim, op, j):
    cls = services.get(op['service'])
    p = copy.deepcopy(op['p'])
    sim.sign('download', op['service'],
             (op['faults'] or [{'kind': '-'}])[0]['kind'])
    pr.keep('request parameters', p)

    def fn():
        srv = cls(p, sim)
        sim.net = net = Net(sim, srv, [dict(f) for f in op['faults']])
        if hasattr(srv, 'setup'):
            srv.setup(net)
        return srv.call()
    twice(pr, sim, op, 'get_' + op['service'], fn)


def op_spa(pr, sim, op, j):
    from pvlib import irradiance, solarposition as sp
    t = pd.date_range('2021-01-01', periods=op['n'], freq='5h',
                      tz='America/Denver') + pd.Timedelta(days=op['day'])
    loc = (40.1, -105.2)
    kw = dict(how=op['how'], numthreads=op['threads'])
    n = op['fn']
    if n in ('spa_python', 'sun_rise_set_transit_spa'):
        fn = functools.partial(getattr(sp, n), t, *loc, **kw)
    elif n == 'nrel_earthsun_distance':
        fn = functools.partial(sp.nrel_earthsun_distance, t, **kw)
    elif n == 'get_extra_radiation':
        fn = functools.partial(irradiance.get_extra_radiation, t,
                               method='nrel', **kw)
    else:
        fn = functools.partial(sp.get_solarposition, t, *loc,
                               method='nrel_' + op['how'],
                               numthreads=op['threads'])
    pr.keep(f'{n} time', t)
    sim.sign(n, op['how'], op['n'], op['threads'])
    twice(pr, sim, op, f'{n}', fn)


def nontrivial(scn, sim):
    return bool(sim.probes.get('called'))


def simplify(scn):
    for i, op in enumerate(scn['ops']):
        cuts = op.get('cuts') or []
        for part in (cuts[:len(cuts) // 2], cuts[len(cuts) // 2:],
                     cuts[:-1], cuts[1:]):
            if len(part) < len(cuts):
                s = copy.deepcopy(scn)
                s['ops'][i]['cuts'] = part
                yield s
    for k in ('env', 'np'):
        if scn[k]:
            yield dict(scn, **{k: None})
    if scn['warn'] != 'ignore':
        yield dict(scn, warn='ignore')
    for i, o in enumerate(scn['ops']):
        for k, v in (('cut', None), ('bad', None), ('again', False),
                     ('garbage', None), ('faults', [])):
            if o.get(k):
                s = copy.deepcopy(scn)
                s['ops'][i][k] = v
                yield s
        if o['op'] == 'call' and o['call']['n'] > 1:
            s = copy.deepcopy(scn)
            s['ops'][i]['call']['n'] = 1
            yield s
        if o['cut'] and o['cut']['kind'] != 'error':
            s = copy.deepcopy(scn)
            s['ops'][i]['cut']['kind'] = 'error'
            yield s
