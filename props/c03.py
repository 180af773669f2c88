"""C03: a successful download is exactly what the service published."""
from dst import services, truth
from dst.core import call
from dst.net import Net
from dst.services.base import check_result

ID = 'C03'
QUICK_RUNS, THOROUGH_RUNS = 1600, 40000
SHRINK = ['calls', 'faults']
RULE = ('a run = 1-3 downloads in one process, each against the simulated '
        'service of one download function with generated site, period, '
        'caller time zone, options, missing values and latencies; benign '
        'faults (slow replies, small network chunks, an earlier failing '
        'call). Non-trivial: at least one download returned data that was '
        'compared with what the service published. Distinct: by (function, '
        'option pattern, time style/zone) tuples of the run.')
MEASURE = 'tuples (download function, option pattern, caller time style)'
REAL = ['pvlib.iotools download functions', 'requests', 'pandas parsers',
        'urllib.request and http.client']
STUB = ['remote servers and transport (simulated services in '
        'dst/services)', 'clock']
ASSUMPTIONS = ['the simulated services follow the public API documentation '
               'and the sample replies shipped with the repository']


def fidelity_services():
    return sorted(n for n, c in services.load_all().items()
                  if getattr(c, 'fidelity', True))


def generate(rng, tier, index):
    names = fidelity_services()
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice(names)
        if not calls:
            n = names[index % len(names)]      # every service equally often
        calls.append({'service': n, 'p': services.get(n).gen(rng)})
    faults = []
    if rng.random() < 0.3:
        faults.append({'call': rng.randrange(len(calls)), 'step':
                       rng.randrange(3), 'kind': 'slow',
                       'arg': rng.choice([5, 30])})
    if len(calls) > 1 and rng.random() < 0.4:
        faults.append({'call': 0, 'step': 0, 'kind':
                       rng.choice(['http_500_service', 'refused',
                                   'truncated']), 'arg': 0.5})
    return {'calls': calls, 'faults': faults,
            'chunk': rng.choice([None, None, 7, 1000])}


def execute(scn, sim):
    for i, c in enumerate(scn['calls']):
        cls = services.get(c['service'])
        srv = cls(c['p'], sim)
        faults = [f for f in scn['faults'] if f['call'] == i]
        sim.net = Net(sim, srv, faults, chunk=scn['chunk'])
        srv.setup(sim.net) if hasattr(srv, 'setup') else None
        out = call(srv.call)
        sim.event('outcome', c['service'], out.brief())
        hurt = [f for f in sim.net.fired if f != 'slow']
        if hurt:
            continue            # an earlier failing call: C02's business
        what = c['service']
        if srv.rejections and not getattr(srv, 'may_reject', False):
            sim.violate('request-rejected', f'{what}: the service rejects '
                        f'the request: {srv.rejections[0]}', key=what)
            continue
        if not out.ok:
            sim.violate('download-failed', f'{what}: {out.brief()}\n'
                        f'{out.tb}', key=what)
            continue
        with sim.judging('download', key=what):
            if hasattr(srv, 'check'):
                srv.check(out.value)
            else:
                check_result(out.value, srv.expected(), what)
        sim.probe('compared:' + what)
        sim.sign(what, *pattern(c['p']))


def pattern(p):
    how = p.get('how') or {}
    out = [how.get('style'), how.get('tz')]
    for k in sorted(p):
        v = p[k]
        if isinstance(v, bool) or v is None:
            out.append(f'{k}={v}')
        elif isinstance(v, list):
            out.append(f'{k}={len(v)}')
    return out


def nontrivial(scn, sim):
    return any(k.startswith('compared:') for k in sim.probes)
