"""C11: an interrupted simulation leaves nothing broken behind."""
import copy
import pickle

from dst import catalog as cat
from dst import interrupt as intr
from dst import ops, seams, snap
from dst.core import Sim, call, canon
from dst.fresh import Fresh
from props import c17

ID = 'C11'
QUICK_RUNS, THOROUGH_RUNS = 1100, 200000
QUICK_BUDGET = 240
SHRINK = ['tries', 'after']
COST = 30000           # statements after which no further attempt is made
RULE = ('a run = a call (a simulation with a model chain through any entry '
        'point, a method of a location, system, array or mount, any function '
        'of the modelling catalogue, a solar position in the numpy or numba '
        'implementation, a reader or download) of which one to '
        'thirty attempts, possibly with other inputs or through another entry point '
        'of the same object, are interrupted by KeyboardInterrupt, '
        'MemoryError, RuntimeError or OSError at a chosen statement inside '
        'the library; the objects are then kept, copied, deep-copied, '
        'pickled, or pickled and restored in a new process, in which the '
        'call is made again without interruption; on the objects and in the '
        'process of the attempts it is made as well, followed by calls of '
        'other functions. All results are compared with those of fresh '
        'processes that make only the one call. Non-trivial: an interruption '
        'struck and the repeat was compared. Distinct: (function, entry '
        'points, kinds and places of the interruptions, way of saving).')
MEASURE = 'tuples (function, place and kind of interruptions, way of saving)'
REAL = ['pvlib.modelchain, pvsystem, location and every function of the '
        'catalogue, readers and downloads', 'copy and pickle',
        'process fork (new processes)', 'module reload of pvlib.spa']
STUB = ['telemetry', 'services, sockets, raw files', 'numba.jit (identity)']
ASSUMPTIONS = ['no interruption strikes between the header of a with or try '
               'statement and its body, nor inside handlers and finally '
               'blocks']

SAVE = ['none', 'none', 'copy', 'deepcopy', 'pickle', 'process']
OBJECT = ('location.', 'pvsystem.PVSystem', 'pvsystem.Array',
          'pvsystem.SingleAxis', 'pvsystem.Fixed')
prepare = c17.prepare


def gen_cut(rng):
    return {'kind': rng.choice(sorted(intr.KINDS)),
            'by': rng.choice(['stmt', 'line', 'line', 'file']),
            'at': rng.randrange(10 ** 6) / 10 ** 6}


def gen_target(rng):
    r = rng.random()
    if r < .4:
        return ops.gen_call(rng, where=lambda e: e.name.startswith(
            'modelchain.'))
    if r < .6:
        return ops.gen_call(rng, where=lambda e: e.name.startswith(OBJECT))
    if r < .8:
        return ops.gen_call(rng, where=c17.light)
    if r < .92:
        return ops.gen_spa(rng)
    return ops.gen_read(rng) if r < .96 else ops.gen_download(rng)


def relative(rng, op):
    """another call on the same objects"""
    if op['op'] == 'spa':
        return ops.gen_spa(rng)
    if op['op'] != 'call':
        return copy.deepcopy(op)
    mine = op['call']
    fn = mine['fn']
    if fn.startswith('modelchain.'):
        names = [k for k in cat.ENTRIES if k.startswith('modelchain.')]
    elif mine['plant'] or fn.startswith('location.'):
        head = fn.rpartition('.')[0]
        names = [k for k in cat.ENTRIES if k.rpartition('.')[0] == head]
    else:
        names = [fn]
    new = ops.gen_call(rng, names=names)
    if new['call']['plant'] is not None and mine['plant'] is not None:
        new['call']['plant'] = copy.deepcopy(mine['plant'])
    new['call']['loc'] = mine['loc']
    if rng.random() < .5:
        for k in ('start', 'step', 'n', 'tz'):
            new['call'][k] = mine[k]
        if new['call']['n'] < cat.entry(new['call']['fn']).min_n:
            new['call']['n'] = cat.entry(new['call']['fn']).min_n
    return new


def sweep(rng, index):
    """every function in turn, with other settings or data each time it is
    interrupted, at statements all over it"""
    names = sorted(k for k, e in cat.ENTRIES.items() if c17.light(e) and
                   not k.startswith('modelchain.'))
    if index % 5 == 4:
        # (objects more often)
        names = [k for k in sorted(cat.ENTRIES) if k.startswith(
            OBJECT + ('modelchain.',))]
        index //= 5
    else:
        index = index // 5 * 4 + index % 5
    e = cat.entry(names[index % len(names)])
    target = ops.gen_call(rng, names=[e.name], rep=rng.choice(['a', None]),
                          n=max(e.min_n, rng.choice([2, 3, 5])))
    mine = target['call']
    k = max(3, 40 // e.heavy)
    by = rng.choice(['own', 'own', 'line'])
    tries, op = [], None
    for i in range(k):
        if i % 4 == 0:
            op = relative(rng, target) if rng.random() < .25 else \
                copy.deepcopy(target) if rng.random() < .8 else None
            if op and op['call']['fn'] == e.name:
                for name, n in mine['ch'].items():
                    op['call']['ch'][name] = rng.randrange(
                        len(e.args[name].choices))
                for name in mine['rc']:
                    op['call']['rc'][name] = rng.choice('cr')
                if rng.random() < .3:
                    op['call']['site'] += 1
        tries.append({'op': copy.deepcopy(op), 'cut': {
            'kind': rng.choice(sorted(intr.KINDS)), 'by': by,
            'at': (i * 7 % k + rng.randrange(1000) / 1000) / k},
            'then': True})
    return {'target': target, 'tries': tries, 'save': rng.choice(SAVE),
            'after': []}


def generate(rng, tier, index):
    target = gen_target(rng)
    if index % 2:
        return sweep(rng, index // 2)
    heavy = cat.entry(target['call']['fn']).heavy if target['op'] == 'call' \
        else 2
    tries = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        tries.append({'op': relative(rng, target) if rng.random() < .4
                      else None, 'cut': gen_cut(rng) if tries == [] or
                      rng.random() < .8 else None,
                      'then': rng.random() < .5})
    if rng.random() < .6:
        # at places all over the call
        k = max(2, rng.choice([8, 16, 24]) // heavy)
        tries += [{'op': None, 'cut': {
            'kind': rng.choice(sorted(intr.KINDS)), 'by': 'line',
            'at': (i + rng.randrange(1000) / 1000) / k}, 'then': True}
            for i in range(k)]
    after = [relative(rng, target) if rng.random() < .6 else
             ops.gen_call(rng, where=c17.light)
             for _ in range(rng.choice([0, 0, 1]))]
    return {'target': target, 'tries': tries, 'save': rng.choice(SAVE),
            'after': after}


# -- in the fresh process ----------------------------------------------------------

def handler(req):
    what, op, now, extra = req
    sim = Sim(now)
    with seams.active(sim):
        if what == 'restored':
            objs, kw = pickle.loads(extra)
            with ops.World(sim, objs) as w:
                fn, mine = ops.bind(op, w)
                if kw is not None:
                    fn = with_args(fn, kw)
                return ops.answer(ops.run(fn))
        with ops.World(sim) as w:
            if what == 'count':
                t = intr.Tracer(record=True)
                got = ops.answer(ops.run(ops.bind(op, w)[0], t))
                return got, t.n, t.places
            return ops.answer(ops.run(ops.bind(op, w)[0]))


def with_args(fn, kw):
    """the callable of a catalogue call with restored arguments"""
    fn = copy.copy(fn)
    return lambda: fn.func(*fn.args, **{**fn.keywords, **kw})


# -- the history ---------------------------------------------------------------------

def execute(scn, sim):
    target = scn['target']
    name = ops.label(target)
    with Fresh(handler) as fresh, ops.World(sim) as world:
        known = {}

        def count(op):
            key = canon(op), sim.now
            if key not in known:
                known[key] = fresh.ask(('count', op, sim.now, None))
            return known[key]
        want, n, places = count(target)
        sim.sign(name, scn['save'])
        bound, cost = None, 0
        for t in scn['tries']:
            op = t['op'] or target
            what = ops.label(op)
            if t['op'] is None and bound is None:
                bound = ops.bind(op, world)
            fn = ops.bind(op, world)[0] if t['op'] else bound[0]
            if sim.steps and cost > COST:
                break
            now = sim.now
            if not t['cut']:
                got = ops.run(fn)
                check(sim, got, fresh.ask(('alone', op, now, None)), what,
                      'attempt')
                continue
            m, p = n, places
            if t['op']:
                _, m, p = count(op)
            x = intr.cutter(t['cut'], m, p)
            got = ops.run(fn, x)
            cost += x.n + (n if t['then'] else 0) + 100
            sim.steps += 1
            if x.fired:
                sim.fault('interrupt_' + t['cut']['kind'], x.fired[1])
                sim.probe('struck')
            sim.sign(what, t['cut']['kind'], x.fired)
            sim.event('attempt', what, x.fired, got.brief()[:80])
            if t['then']:
                fn = bound[0] if bound else ops.bind(target, world)[0]
                check(sim, ops.run(fn), want, name, 'repeated')
            if sim.violations:
                return
        saved(scn, sim, world, fresh, target, name, bound, want)
        if sim.violations:
            return
        # and on the objects and in the process of the attempts
        fn = bound[0] if bound else ops.bind(target, world)[0]
        check(sim, ops.run(fn), want, name, 'repeated')
        for op in scn['after']:
            now = sim.now
            got = ops.perform(op, world)
            check(sim, got, fresh.ask(('alone', op, now, None)),
                  ops.label(op), 'afterwards')


def check(sim, got, want, what, how):
    if sim.violations:
        return
    with sim.judging('differs', key=what):
        d = ops.differs(got, want)
        if d:
            sim.violate('interruption-shows', f'{what} {how}: {d} (here / '
                        'uninterrupted)', what)
    sim.probe('compared')


def saved(scn, sim, world, fresh, target, name, bound, want):
    """the call on copies or restored objects"""
    how = scn['save']
    if how == 'none':
        return
    objs = world.objs
    kw = bound[1] if bound and target['op'] == 'call' else None
    try:
        if how == 'copy':
            new = {k: copy.copy(o) for k, o in objs.items()}, None
        elif how == 'deepcopy':
            new = copy.deepcopy((objs, kw))
        else:
            data = pickle.dumps((objs, kw))
            new = pickle.loads(data) if how == 'pickle' else None
    except Exception as e:
        plain = ops.World(sim)
        with plain:
            ops.bind(target, plain)
            if call(pickle.dumps if how != 'deepcopy' else copy.deepcopy,
                    plain.objs).ok:
                sim.violate('cannot-be-saved', f'{name} {how}: '
                            f'{type(e).__name__}: {e}', name)
        return
    sim.fault('save_' + how)
    if how == 'process':
        got = fresh.ask(('restored', target, sim.now, data))
        with sim.judging('differs', key=name):
            if got[0] != want[0]:
                d = f'{ops.brief(got)} / {ops.brief(want)}'
            elif got[0] == 'raised':
                d = None if got[1] == want[1] else \
                    f'{ops.brief(got)} / {ops.brief(want)}'
            else:
                d = snap.compare(got[1], want[1], 1e-12, 1e-14)
            if d:
                sim.violate('interruption-shows', f'{name} restored in a new '
                            f'process: {d} (restored / uninterrupted)', name)
        sim.probe('compared')
        return
    world.objs = new[0]
    fn = ops.bind(target, world)[0]
    if new[1] is not None:
        fn = with_args(fn, new[1])
    check(sim, ops.run(fn), want, name, 'on ' + how)
    world.objs = objs


def nontrivial(scn, sim):
    return sim.probes.get('struck', 0) >= 1 and sim.probes.get(
        'compared', 0) >= 1


def simplify(scn):
    if scn['save'] != 'none':
        yield dict(scn, save='none')
    if scn['target']['op'] == 'call':
        c = scn['target']['call']
        e = cat.entry(c['fn'])
        if c['n'] > max(1, e.min_n):
            s = copy.deepcopy(scn)
            s['target']['call']['n'] = max(1, e.min_n)
            yield s
    for i, t in enumerate(scn['tries']):
        if t['op'] is not None:
            s = copy.deepcopy(scn)
            s['tries'][i]['op'] = None
            yield s
        if t['cut'] and t['cut']['by'] != 'stmt':
            continue
