"""C17: a call's answer does not depend on the calls made before it."""
import copy

from dst import catalog as cat
from dst import ops, seams, services, state
from dst import interrupt as intr
from dst.core import Sim
from dst.fresh import Fresh

ID = 'C17'
QUICK_RUNS, THOROUGH_RUNS = 1200, 200000
QUICK_BUDGET = 240
SHRINK = ['ops']
RULE = ('a run = one process making 3-8 calls, some of which share the '
        'function with other arguments, the same location, system and chain '
        'objects or the same implementation module: any function of the '
        'modelling catalogue, the solar position in the numpy or numba '
        'implementation, readers and downloads; some calls are given bad '
        'arguments, some are interrupted, and the caller overwrites some of '
        'the results and inputs that are his. Every uninterrupted call is '
        'also made alone in a fresh process; value, index, types or kind of '
        'exception must be the same. Non-trivial: two or more calls were '
        'compared. Distinct: (sequence of functions, faults, scribbles).')
MEASURE = 'tuples (sequence of functions with options, faults, scribbles)'
REAL = ['every function of the catalogue, readers, downloads, module reload '
        'of pvlib.spa', 'process fork (fresh processes)']
STUB = ['telemetry', 'services, sockets, raw files', 'numba.jit (identity)']
ASSUMPTIONS = ['objects the caller shares between calls are not modified by '
               'the caller']


def prepare():
    import h5py  # noqa: F401
    import numba  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.special  # noqa: F401
    import scipy.stats  # noqa: F401
    import statsmodels.api  # noqa: F401
    services.load_all()
    state.modules()


def module_of(name):
    return name.split(':')[0].rpartition('.')[0]


def light(e):
    return e.heavy < 9


def generate(rng, tier, index):
    n = rng.choice([3, 4, 5, 6, 8])
    seq = []
    theme = rng.random()
    base = cat.gen(rng, light)
    if index % 2:
        # every function in turn
        theme = 0
        names = sorted(k for k, e in cat.ENTRIES.items() if light(e))
        base = cat.gen(rng, names=[names[index // 2 % len(names)]])
    mates = [k for k, e in cat.ENTRIES.items() if light(e) and
             module_of(k) == module_of(base['fn'])]
    names_read = sorted(x for x in ops.FORMATS if x != 'pvgis_tmy')
    one_fmt = rng.choice(names_read)
    from props import c03
    one_srv = rng.choice(c03.fidelity_services())
    for j in range(n):
        if theme < .5:
            # one function, or its module, over and over
            r = rng.random()
            if r < .55:
                i = cat.gen(rng, names=[base['fn']])
                if rng.random() < .5:
                    for k in ('loc', 'plant', 'start', 'step', 'n', 'tz'):
                        i[k] = copy.deepcopy(base[k])
                elif rng.random() < .5:
                    i = copy.deepcopy(base)
                    for k in i['ch']:
                        if rng.random() < .5:
                            i['ch'][k] = rng.randrange(len(cat.entry(
                                base['fn']).args[k].choices))
                op = {'op': 'call', 'call': i, 'bad': None}
            elif r < .8:
                op = ops.gen_call(rng, names=mates)
                op['call']['loc'] = base['loc']
                if base['plant'] and op['call']['plant']:
                    op['call']['plant'] = copy.deepcopy(base['plant']) if \
                        op['call']['fn'] == base['fn'] else \
                        op['call']['plant']
            else:
                op = ops.gen_call(rng, where=light)
        elif theme < .7:
            op = ops.gen_spa(rng) if rng.random() < .75 else \
                ops.gen_call(rng, where=lambda e: light(e) and e.name.split(
                    '.')[0] in ('solarposition', 'spa', 'location',
                                'irradiance'))
        elif theme < .8:
            op = ops.gen_read(rng, [one_fmt] if rng.random() < .6 else None)
        elif theme < .9:
            op = ops.gen_download(rng, [one_srv] if rng.random() < .6
                                  else None)
        else:
            r = rng.random()
            op = ops.gen_call(rng, where=light) if r < .6 else \
                ops.gen_spa(rng) if r < .75 else ops.gen_read(rng) \
                if r < .9 else ops.gen_download(rng)
        if op['op'] == 'call' and rng.random() < .15 and not \
                op['call']['fn'].startswith('spa.'):
            # (what pvlib.spa does with nonsense differs between numpy and
            # compiled code, of which only a stand-in runs here)
            op['bad'] = ops.gen_bad(rng)
        op['scribble'] = rng.random() < .35
        op['cut'] = None
        if j < n - 1 and rng.random() < .12:
            op['cut'] = {'kind': rng.choice(sorted(intr.KINDS)),
                         'at': rng.randrange(10 ** 6) / 10 ** 6}
        seq.append(op)
    mine = [o for o in seq if o['op'] == 'call' and not o['cut'] and
            o['call']['fn'] == base['fn']]
    if index % 2 and not mine:
        mine = [{'op': 'call', 'call': copy.deepcopy(base), 'bad': None,
                 'cut': None}]
        seq.insert(0, mine[0])
    if index % 2:
        # the same call again after the caller used the results as he liked
        mine[0]['scribble'] = True
        op = copy.deepcopy(mine[0])
        op.update(scribble=False)
        seq.append(op)
    elif rng.random() < .6:
        # a call made before, once more
        op = copy.deepcopy(rng.choice(seq))
        op.update(cut=None, bad=None)
        seq.append(op)
    return {'ops': seq}


def handler(req):
    op, now = req
    sim = Sim(now)
    with seams.active(sim), ops.World(sim) as w:
        return ops.answer(ops.perform(op, w))


def execute(scn, sim):
    with Fresh(handler) as fresh, ops.World(sim) as world:
        for j, op in enumerate(scn['ops']):
            what = ops.label(op)
            if op['cut']:
                cut(op, world, sim, what)
                continue
            now = sim.now
            fn, args = ops.bind(op, world)
            got = ops.run(fn)
            sim.steps += 1
            want = fresh.ask((op, now))
            with sim.judging('differs', key=what):
                d = ops.differs(got, want)
                if d:
                    sim.violate('depends-on-history', f'call {j} {what} '
                                f'after {[ops.label(o) for o in scn["ops"][:j]]}'
                                f': {d} (here / fresh process)', what)
            if sim.violations:
                return
            sim.probe('compared')
            sim.event('call', what, 'ok' if got.ok else
                      type(got.exc).__name__)
            sim.sign(what, (op.get('bad') or {}).get('how'), op['scribble'],
                     got.ok)
            if op['scribble']:
                sim.fault('caller_overwrites_result')
                if got.ok:
                    ops.scribble(got.value)
                for v in args.values():
                    ops.scribble(v)
                world.objs.clear()


def cut(op, world, sim, what):
    """an aborted call in the history"""
    fn, _ = ops.bind(op, world)
    dry = intr.Tracer()
    with intr_sandbox(world):
        ops.run(ops.bind(op, world)[0], dry)
    x = intr.Tracer(min(dry.n - 1, int(op['cut']['at'] * dry.n))
                    if dry.n else 0, intr.KINDS[op['cut']['kind']](
                        'injected'))
    ops.run(fn, x)
    if x.fired:
        sim.fault('interrupt_' + op['cut']['kind'], x.fired[1])
        sim.sign(what, op['cut']['kind'], x.fired[1])


class intr_sandbox:
    """the dry run uses objects of its own"""

    def __init__(self, world):
        self.world = world

    def __enter__(self):
        self.objs, self.world.objs = self.world.objs, {}

    def __exit__(self, *a):
        self.world.objs = self.objs


def nontrivial(scn, sim):
    return sim.probes.get('compared', 0) >= 2


def simplify(scn):
    for i, o in enumerate(scn['ops']):
        for k, v in (('cut', None), ('bad', None), ('scribble', False)):
            if o.get(k):
                s = copy.deepcopy(scn)
                s['ops'][i][k] = v
                yield s
        if o['op'] == 'call' and o['call']['n'] > cat.entry(
                o['call']['fn']).min_n:
            s = copy.deepcopy(scn)
            s['ops'][i]['call']['n'] = max(1, cat.entry(
                o['call']['fn']).min_n)
            yield s
