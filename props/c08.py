"""C08: concurrent callers get the results they would get alone."""
import copy
import threading

from dst import catalog as cat
from dst import interrupt as intr
from dst import ops, seams
from dst.core import Outcome, Sim, SimStop, canon
from dst.fresh import Fresh
from dst.sched import Sched
from props import c17

ID = 'C08'
QUICK_RUNS, THOROUGH_RUNS = 1000, 200000
QUICK_BUDGET = 240
SHRINK = ['rounds']
RULE = ('a run = two to four threads of one process making one to three '
        'calls each: any function of the modelling catalogue, methods of '
        'shared location, system, mount and array objects, simulations with '
        'chains of their own over a shared system, the solar position in the '
        'numpy and numba implementation (which are switched by replacing a '
        'module), readers and downloads; equal calls share their argument '
        'objects. The schedule names statements of the library at which a '
        'thread loses the processor, and to which other thread; locks, '
        'imports and threads the library starts are scheduled too. Every '
        'result must be the one of the same call alone in a fresh process. '
        'Non-trivial: a thread was stopped inside the library while another '
        'ran. Distinct: (functions, places of preemption).')
MEASURE = ('pairs (statement at which a thread was stopped, function the '
           'other thread was running)')
REAL = ['every function of the catalogue, readers, downloads', 'threading '
        '(one thread runs at a time)', 'module loading', 'process fork '
        '(fresh processes)']
STUB = ['telemetry', 'services, sockets, raw files', 'numba.jit (identity)',
        'locks, thread start/join of threading, module locks (blocking is '
        'decided by the scheduler)']
ASSUMPTIONS = ['statements of the library are atomic (a thread is not '
               'stopped inside numpy, pandas or scipy)', 'a ModelChain is '
               'used by one thread at a time (it holds the results)']
prepare = c17.prepare
ROUND = 100            # what a round costs, in statements
STEPS = 20000          # statements after which no further round is begun


def gen_switch(rng, nthreads):
    return {'thread': rng.randrange(nthreads), 'op': rng.randrange(3),
            'by': rng.choice(['stmt', 'line', 'line', 'file']),
            'at': rng.randrange(10 ** 6) / 10 ** 6, 'to': rng.randrange(4)}


def sweep(rng, index):
    """every function in turn; one thread is stopped at every line of it in
    turn while another calls it with other settings, or a relative of it"""
    names = sorted(k for k, e in cat.ENTRIES.items() if c17.light(e))
    e = cat.entry(names[index % len(names)])
    n = max(e.min_n, rng.choice([3, 5, 8]))
    base = cat.gen(rng, names=[e.name], n=n, rep=rng.choice(['a', None]))
    mates = [k for k in names if c17.module_of(k) == c17.module_of(e.name)]
    threads = [[base]]
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = cat.gen(rng, names=[e.name] if rng.random() < .85 else mates)
        i['loc'] = base['loc']
        if i['fn'] == e.name:
            if i['plant'] and base['plant']:
                i['plant'] = copy.deepcopy(base['plant'])
            # (other settings; the same data, half of the time)
            many = [k for k, n in i['ch'].items()
                    if len(e.args[k].choices) > 1]
            if rng.random() < .5:
                # neither of them the first, which is often the default
                for k in many:
                    m = len(e.args[k].choices)
                    if m > 2:
                        a, b = rng.sample(range(1, m), 2)
                    else:
                        a, b = rng.sample(range(m), 2)
                    base['ch'][k], i['ch'][k] = (
                        a if len(threads) == 1 else base['ch'][k]), b
            if many and i['ch'] == base['ch']:
                k = rng.choice(many)
                i['ch'][k] = (i['ch'][k] + 1) % len(e.args[k].choices)
            if rng.random() < .5:
                for k in many:           # nothing in common
                    m = len(e.args[k].choices)
                    if i['ch'][k] == base['ch'][k]:
                        i['ch'][k] = (i['ch'][k] + rng.randrange(1, m)) % m
            if many and rng.random() < .5:
                for k in ('site', 'start', 'step', 'n', 'tz', 'rep',
                          'index'):
                    i[k] = base[k]
                if 'ts' in base:
                    i['ts'] = base['ts']
        threads.append([i])
    if rng.random() < .3:
        threads.append(threads.pop(0))
    threads = [[{'op': 'call', 'call': i, 'bad': None} for i in t]
               for t in threads]
    k = max(4, 64 // e.heavy)
    x = rng.randrange(len(threads))
    by = rng.choice(['own', 'own', 'own', 'line'])
    return {'threads': threads, 'rounds': [gen_round(rng, len(threads))] + [
        {'switches': [{'thread': x, 'op': 0, 'by': by, 'at': (
            i + rng.randrange(1000) / 1000) / k, 'to': 0}],
         'dense': [], 'picks': [x], 'sweep': True}
        for i in rng.sample(range(k), k)]}


def generate(rng, tier, index):
    if index % 4:
        return sweep(rng, index // 4 * 3 + index % 4 - 1)
    nth = rng.choice([2, 2, 2, 3, 4])
    theme = rng.random()
    threads = []
    names = sorted(k for k, e in cat.ENTRIES.items() if c17.light(e))
    base = cat.gen(rng, names=names)
    mates = [k for k, e in cat.ENTRIES.items() if c17.light(e) and
             c17.module_of(k) == c17.module_of(base['fn'])]
    chain = ops.gen_call(rng, where=lambda e: e.name.startswith(
        'modelchain.'))
    fmt = rng.choice(sorted(x for x in ops.FORMATS if x != 'pvgis_tmy'))
    from props import c03
    srv = rng.choice(c03.fidelity_services())
    for t in range(nth):
        seq = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if theme < .4:
                # one function or module, from several threads
                r = rng.random()
                i = cat.gen(rng, names=[base['fn']] if r < .6 else mates)
                if r < .15:
                    i = copy.deepcopy(base)
                else:
                    i['loc'] = base['loc']
                    if i['plant'] and base['plant'] and \
                            i['fn'] == base['fn']:
                        i['plant'] = copy.deepcopy(base['plant'])
                    if r < .4 and i['fn'] == base['fn']:
                        for k in ('start', 'step', 'n', 'tz'):
                            i[k] = copy.deepcopy(base[k])
                op = {'op': 'call', 'call': i, 'bad': None}
            elif theme < .6:
                op = ops.gen_spa(rng) if rng.random() < .8 else \
                    ops.gen_call(rng, where=lambda e: c17.light(e) and
                                 e.name.split('.')[0] in (
                                     'solarposition', 'spa', 'location',
                                     'irradiance'))
            elif theme < .75:
                op = copy.deepcopy(chain)
                if rng.random() < .8:
                    op['call'].update({k: v for k, v in ops.gen_call(
                        rng, names=[chain['call']['fn']])['call'].items()
                        if k in ('site', 'start', 'step', 'n', 'tz')})
            elif theme < .8:
                op = ops.gen_read(rng, [fmt])
            elif theme < .85:
                op = ops.gen_download(rng, [srv])
            else:
                r = rng.random()
                op = ops.gen_call(rng, where=c17.light) if r < .7 else \
                    ops.gen_spa(rng) if r < .85 else ops.gen_read(rng)
            seq.append(op)
        threads.append(seq)
    rounds = [gen_round(rng, nth) for _ in range(rng.choice([1, 3, 5]))]
    if theme < .4 or rng.random() < .4:
        # stop one thread at places all over its first call, while the
        # others make theirs
        k = max(4, 64 // cat.entry(base['fn']).heavy)
        x, by = rng.randrange(nth), rng.choice(['own', 'own', 'line'])
        rounds += [{'switches': [{'thread': x, 'op': 0, 'by': by,
                                  'at': (i + rng.randrange(1000) / 1000) / k,
                                  'to': 0}], 'dense': [], 'picks': [x],
                    'sweep': True} for i in rng.sample(range(k), k)]
    return {'threads': threads, 'rounds': rounds}


def gen_round(rng, nth):
    r = {'switches': [], 'dense': [],
         'picks': [rng.randrange(8) for _ in range(6)]}
    if rng.random() < .7:
        r['switches'] = [gen_switch(rng, nth) for _ in range(
            rng.choice([1, 1, 2, 3, 5, 8]))]
    if rng.random() < .45 or not r['switches']:
        g = rng.choice([0, 1, 3, 10, 40, 200])
        r['dense'] = [[rng.randrange(2 * g + 1), rng.randrange(4)]
                      for _ in range(rng.choice([5, 20, 60, 200]))]
    return r


def handler(req):
    op, now = req
    sim = Sim(now)
    with seams.active(sim), ops.World(sim) as w:
        t = intr.Tracer(record=True)
        got = ops.answer(ops.run(ops.bind(op, w)[0], t))
        return got, t.n, t.places


class Objects(dict):
    """objects of one thread: a chain of its own, everything else shared"""

    def __init__(self, shared):
        self.shared = shared

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.shared

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.shared[k]

    def __setitem__(self, k, v):
        if isinstance(k, str) and k.startswith('mc'):
            dict.__setitem__(self, k, v)
        else:
            self.shared[k] = v


class PerThread:
    """the network of the thread that asks"""

    def __init__(self):
        self.nets = {}

    def put(self, net):
        self.nets[threading.get_ident()] = net

    def __getattr__(self, k):
        return getattr(self.nets[threading.get_ident()], k)


class ThreadSim:
    """lets each thread have its own network"""

    def __init__(self, sim, nets):
        self.__dict__['_sim'] = sim
        self.__dict__['_nets'] = nets

    def __getattr__(self, k):
        return getattr(self._sim, k)

    def __setattr__(self, k, v):
        if k == 'net':
            self._nets.put(v)
        else:
            setattr(self._sim, k, v)


class Folder:
    """the part of the disk one thread uses"""

    def __init__(self, disk, name):
        self.__dict__.update(_disk=disk, _name=name)

    def put(self, name, data):
        return self._disk.put(f'{self._name}/{name}', data)

    def __getattr__(self, k):
        return getattr(self._disk, k)

    def __setattr__(self, k, v):
        setattr(self._disk, k, v)


def execute(scn, sim):
    with Fresh(handler) as fresh, ops.World(sim) as world:
        now = sim.now
        nets = sim.net = PerThread()
        shared, args, fns = {}, {}, []
        known = {}
        for k, seq in enumerate(scn['threads']):
            mine = ops.World(ThreadSim(sim, nets), Objects(shared))
            mine.disk = Folder(world.disk, f't{k}')
            calls = []
            for op in seq:
                key = canon(op)
                if key not in known:
                    known[key] = fresh.ask((op, now))
                fn, kw = ops.bind(op, mine)
                if op['op'] == 'call':
                    kw = args.setdefault(key, kw)
                    fn = with_args(fn, kw)
                calls.append(fn)
            fns.append(calls)
        want = [[known[canon(op)][0] for op in seq]
                for seq in scn['threads']]
        done = set()
        for r in scn['rounds']:
            at, place = {}, {}
            for k, seq in enumerate(scn['threads']):
                offset = 0
                for j, op in enumerate(seq):
                    _, n, places = known[canon(op)]
                    for s in r['switches']:
                        if s['thread'] % len(scn['threads']) != k or \
                                s['op'] % len(seq) != j:
                            continue
                        i, p, m = intr.where(places, n, s['at'], s['by'])
                        if j == 0 and p:
                            place[(k,) + p] = [m, s['to']]
                        else:
                            at[k, offset + i] = s['to']
                    offset += n
            if r.get('sweep'):
                if tuple(place) in done:
                    continue           # this place has had its turn
                done.add(tuple(place))
                if len(done) > 1:
                    sim.steps += ROUND
            go(scn, sim, r, fns, want, at, place)
            if sim.violations or sim.steps > STEPS:
                return


def with_args(fn, kw):
    import functools
    return functools.partial(fn.func, *fn.args, **kw)


def go(scn, sim, r, fns, want, at, place):
    s = Sched(sim, {'dense': r['dense'], 'at': at, 'at_place': place,
                    'picks': r['picks']})
    running = {}
    labels = [[ops.label(o) for o in seq] for seq in scn['threads']]
    places = []

    def on_switch(frame, a, b):
        places.append((frame.f_code.co_name, frame.f_lineno,
                       running.get(b.number)))
    s.on_switch = on_switch
    results = [[] for _ in fns]

    def body(k):
        def run():
            for j, fn in enumerate(fns[k]):
                running[k] = labels[k][j]
                try:
                    out = Outcome(True, fn())
                except SimStop:
                    raise
                except Exception as e:
                    out = Outcome(False, exc=e)
                results[k].append(out)
        return run
    sim.sched = s
    try:
        outs = s.run([body(k) for k in range(len(fns))])
    finally:
        sim.sched = None
    sim.steps += s.steps
    if s.switches:
        sim.probe('preempted')
    for p in places[:40]:
        sim.sign(*p)
    if s.switches:
        sim.fault('preemption', f'{places[0][0]}:{places[0][1]}')
    sim.event('ran', labels, s.switches, s.steps)
    if s.deadlock:
        sim.violate('deadlock', f'{labels}: every thread waits: '
                    f'{s.deadlock}', 'deadlock')
        return
    for o in outs:
        if not o.ok:
            raise o.exc
    for k, seq in enumerate(scn['threads']):
        for j, op in enumerate(seq):
            got, alone = results[k][j], want[k][j]
            with sim.judging('differs', key=labels[k][j]):
                d = ops.differs(got, alone)
                if d:
                    sim.violate('not-as-alone', f'thread {k} call {j} '
                                f'{labels[k][j]} while other threads made '
                                f'{labels[:k] + labels[k + 1:]}: {d} '
                                '(here / alone)', labels[k][j])
                    return
            sim.probe('compared')


def nontrivial(scn, sim):
    return sim.probes.get('preempted', 0) >= 1


def simplify(scn):
    if len(scn['rounds']) <= 2:
        for i, r in enumerate(scn['rounds']):
            d, w = r['dense'], r['switches']
            for k, v in [('dense', x) for x in (
                    [], d[:len(d) // 2], d[:-1], d[1:])] + [
                    ('switches', w[:i] + w[i + 1:]) for i in range(len(w))] \
                    + [('picks', [])]:
                if len(v) < len(r[k]):
                    s = copy.deepcopy(scn)
                    s['rounds'][i][k] = v
                    yield s
    for k, seq in enumerate(scn['threads']):
        if len(scn['threads']) > 2:
            s = copy.deepcopy(scn)
            del s['threads'][k]
            yield s
        for j in range(len(seq)):
            if len(seq) > 1:
                s = copy.deepcopy(scn)
                del s['threads'][k][j]
                yield s
