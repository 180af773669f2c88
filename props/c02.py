"""C02: a failed download raises an error and is never returned as data."""
from dst import services
from dst.core import call
from dst.net import Net
from dst.services.base import check_result
from dst.core import Violation
from . import c03

ID = 'C02'
QUICK_RUNS, THOROUGH_RUNS = 2400, 80000
SHRINK = ['calls', 'faults']
RULE = ('a run = 1-2 downloads of one service; the first has one or two '
        'faults at a chosen step of its exchange (connection refused or '
        'reset, name resolution, connect/read timeout, HTTP error with '
        'service / HTML / empty body or the body of a success, endless '
        'redirection, empty or HTML body with status 200, '
        'body truncated, cut short, reset or timed out while being read, '
        'job declared failed), the second has none and must succeed. '
        'Non-trivial: a fault struck. Distinct: (function, fault kinds, '
        'step, outcome class).')
MEASURE = 'tuples (download function, fault kinds and steps, exception type)'
REAL = c03.REAL
STUB = c03.STUB
ASSUMPTIONS = [
    'HTTP bodies carry a Content-Length unless the fault says otherwise; a '
    'text body cut at an unmarked place without a length header cannot be '
    'told from a complete one and is injected only where the format has an '
    'end marker',
    'the documented error forms are those of the simulated services']

TRANSPORT = ['refused', 'dns', 'connect_timeout', 'read_timeout', 'reset']
BODY = ['cut_body', 'reset_body', 'timeout_body']
# formats in which part of the file, or any text, cannot be told from a
# complete reply are listed with the kinds they can detect
MAX_REQUESTS = 400
FOREVER = 10 ** 6


def kinds_for(cls, p):
    out = list(TRANSPORT) + list(BODY) + ['empty_body', 'html_page',
                                          'redirect_loop', 'http_204_empty']
    d = cls.detects_truncation
    if d(p) if callable(d) else d:
        out.append('truncated')
    out += [f'http_{s}_service' for s in cls.error_statuses] * 1
    out += [f'http_{s}_{k}' for s in (401, 403, 404, 429, 500, 502, 503)
            for k in ('html', 'empty')]
    out += [f'http_{s}_data' for s in (403, 404, 429, 500, 503)]
    return [k for k in out if k not in cls.skip_faults]


def generate(rng, tier, index):
    names = c03.fidelity_services()
    name = names[index % len(names)]
    cls = services.get(name)
    p = cls.gen(rng)
    kinds = kinds_for(cls, p)
    faults = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = kinds[(index // len(names) + rng.randrange(3)) % len(kinds)] \
            if rng.random() < 0.5 else rng.choice(kinds)
        if rng.random() < 0.15:
            k = rng.choice([x for x in kinds if x.endswith('_data')] or [k])
        faults.append({'call': 0, 'step': rng.randrange(cls.steps),
                       'kind': k, 'arg': rng.randrange(10 ** 3) / 10 ** 3,
                       'count': rng.choice([1, 1, 1, FOREVER])})
        if getattr(cls, 'phases', None) and rng.random() < 0.7:
            faults[-1].update(url=rng.choice(cls.phases),
                              step=rng.choice([0, 0, 0, 1]))
    if name in ('era5', 'solaranywhere') and rng.random() < 0.2:
        p['fail'] = True
        p['fail_form'] = rng.choice(['message', 'partial', 'bare'])
        if rng.random() < 0.5:
            faults = []
    calls = [{'service': name, 'p': p}]
    if rng.random() < 0.5:
        calls.append({'service': name, 'p': cls.gen(rng)})
    return {'calls': calls, 'faults': faults,
            'chunk': rng.choice([None, None, 5, 900])}


def equals_truth(srv, value, what):
    try:
        if hasattr(srv, 'check'):
            srv.check(value)
        else:
            check_result(value, srv.expected(), what)
        return True
    except Violation:
        return False
    except Exception:
        return False


def execute(scn, sim):
    for i, c in enumerate(scn['calls']):
        what = c['service']
        cls = services.get(what)
        srv = cls(c['p'], sim)
        sim.net = net = Net(sim, srv, [f for f in scn['faults']
                                       if f['call'] == i],
                            chunk=scn['chunk'])
        srv.setup(net) if hasattr(srv, 'setup') else None
        out = call(srv.call)
        sim.event('outcome', what, out.brief())
        hurt = [f for f in net.fired if f != 'slow']
        declared = bool(c['p'].get('fail')) and \
            bool(getattr(srv, 'told_outcome', None))
        if net.nreq > MAX_REQUESTS:
            sim.violate('too-many-requests', f'{what}: {net.nreq}', key=what)
        if not hurt and not declared:
            if out.ok and equals_truth(srv, out.value, what):
                sim.probe('good-call')
            elif i:
                sim.violate('failure-poisons-later-call', f'{what}: '
                            f'{out.brief()}', key=what)
            continue
        sim.probe('fault-struck')
        if declared and not hurt:
            hurt = ['job_failed']
            sim.fault('service:job_failed')
        if out.ok:
            if hurt[-1].endswith('_data') and net.hurt_last():
                sim.violate('error-returned-as-data', f'{what}: the reply '
                            f'with {hurt[-1]} was returned',
                            key=f'{what}:{hurt[0]}')
            elif not equals_truth(srv, out.value, what):
                sim.violate('failure-returned-as-data', f'{what}: after '
                            f'{"+".join(hurt)} returned '
                            f'{brief(out.value)}',
                            key=f'{what}:{hurt[0]}')
            else:
                sim.probe('fault-without-effect')
        else:
            last = hurt[-1]
            want = None
            if last.startswith('http_') and last.endswith('_service') and \
                    len(hurt) == 1 and not getattr(srv, 'unexplained', 0):
                want = cls.error_text
            elif last == 'job_failed':
                want = getattr(cls, 'job_error_text', None)
            said = error_chain(out.exc)
            job = getattr(cls, 'job_error_text', None)
            if declared and c['p'].get('fail_form') == 'bare':
                want = None    # the outcome came without an explanation
            if want and want not in said and not (
                    declared and job and job in said):
                sim.violate('explanation-lost', f'{what}: {last} with the '
                            f'text {want!r} became {out.brief()}',
                            key=f'{what}:{last[:5]}')
        sim.sign(what, '+'.join(hurt), out.ok or type(out.exc).__name__,
                 ','.join(str(f['step']) for f in scn['faults']))


def error_chain(e):
    """everything the error shows: its text, arguments and response"""
    out = [str(e), repr(e)]
    for a in getattr(e, 'args', ()):
        out.append(str(a))
    if e.__cause__ is not None:
        out.append(error_chain(e.__cause__))
    return '\n'.join(out)


def brief(v):
    if isinstance(v, tuple):
        return '(' + ', '.join(brief(x) for x in v) + ')'
    if hasattr(v, 'shape'):
        return f'{type(v).__name__}{v.shape}'
    return str(v)[:200]


def nontrivial(scn, sim):
    return sim.probes.get('fault-struck', 0) > 0
