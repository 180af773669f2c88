"""C01: queued download jobs - bounded wait, own finished job's data only."""
import requests

from dst import services, truth
from dst.core import call
from dst.net import Net
from dst.services.base import check_result

ID = 'C01'
QUICK_RUNS, THOROUGH_RUNS = 1600, 60000
SHRINK = ['calls', 'faults', 'jumps']
RULE = ('a run = 1-2 downloads from a simulated job-queue service with '
        'generated queueing time, job-state sequence, failure, response '
        'latencies, timeout, adjustments of the machine clock and transport '
        'faults. Non-trivial: the job was polled at least once. Distinct: '
        'by the sequence of job states told, outcome, clock adjustments and '
        'faults.')
MEASURE = ('tuples (service, run-length-coded sequence of job states told, '
           'outcome, relation of timeout to queueing time, clock jumps, '
           'transport faults)')
REAL = ['pvlib.iotools.get_era5', 'pvlib.iotools.get_solaranywhere',
        'requests', 'zipfile', 'pandas']
STUB = ['the two services and the transport (dst/services/queued.py)',
        'clock and sleep']
ASSUMPTIONS = ['time passes only in sleeps and in responses of the service',
               'the machine clock (time.time) may be adjusted; '
               'time.monotonic is not affected, as on a real machine']
POLL_MAX = 10.0          # the longest polling interval accepted as "one"
POLL_MIN = 0.1           # anything denser is a busy loop


def generate(rng, tier, index):
    name = ('era5', 'solaranywhere')[index % 2]
    calls = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        p = services.get(name).gen(rng)
        p['timeout'] = rng.choice([0, 1, 5, 7, 23, 60, 300])
        t = p['timeout']
        p['duration'] = rng.choice([
            0, 0.3, 1, 4, rng.uniform(0, 2 * t + 5), t - 0.5, t, t + 0.5,
            t + 3, t + 30, 1e9])
        p['fail'] = rng.random() < 0.25
        p['fail_form'] = rng.choice(['message', 'partial', 'bare'])
        p['flap'] = rng.random() < 0.3
        p['dismiss_at'] = rng.uniform(0, t + 5) if rng.random() < 0.1 \
            else None
        p['latency'] = [rng.choice([0.0, 0.01, 0.2, 1.5, 8.0, 45.0])
                        if rng.random() < 0.3 else 0.1 for _ in range(5)]
        calls.append({'service': name, 'p': p})
    jumps, t, off = [], 0.0, 0.0
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            t += rng.choice([0.05, 1, 6, 30, rng.uniform(0, 120)])
            off += rng.choice([-1, 1]) * rng.choice([2, 30, 3600, 86400])
            jumps.append([round(t, 3), off])
    faults = []
    if rng.random() < 0.25:
        faults.append({'step': rng.randrange(6), 'kind': rng.choice(
            ['refused', 'read_timeout', 'reset', 'http_500_service',
             'http_503_html', 'http_500_data', 'slow', 'cut_body',
             'empty_body']),
            'arg': rng.random() * 20 if rng.random() < .5 else rng.random(),
            'call': rng.randrange(len(calls))})
        if rng.random() < 0.5:
            cls = services.get(calls[faults[0]['call']]['service'])
            faults[0].update(url=rng.choice(cls.phases),
                             step=rng.choice([0, 0, 0, 1, 2]))
        if faults[0]['kind'] == 'cut_body':
            faults[0]['arg'] = rng.random()
    return {'calls': calls, 'jumps': jumps, 'faults': faults}


def is_timeout(e):
    return isinstance(e, (TimeoutError, requests.exceptions.Timeout))


def told_runs(polls):
    out = []
    for _, _, s in polls:
        if not out or out[-1][0] != s:
            out.append([s, 0])
        out[-1][1] += 1
    return '+'.join(f'{s}{min(n, 4)}' for s, n in out)


def execute(scn, sim):
    sim.clock_jumps = [(sim.now + t, off) for t, off in scn['jumps']]
    for i, c in enumerate(scn['calls']):
        one(scn, sim, i, c)


def one(scn, sim, i, c):
    name, p = c['service'], c['p']
    srv = services.get(name)(p, sim)
    sim.net = net = Net(sim, srv, [f for f in scn['faults']
                                   if f['call'] == i])
    t_call, s0 = sim.now, sim.sleeps
    out = call(srv.call)
    elapsed = sim.now - t_call
    sim.event('outcome', out.brief())
    hurt = [f for f in net.fired if f != 'slow']
    bad = lambda kind, text: sim.violate(kind, f'{name}: {text}', key=name)
    own = getattr(srv, 'my_job', None)
    if srv.rejections and not hurt and not net.fired:
        bad('request-rejected', srv.rejections[0])
    if own is None:
        if not hurt:
            bad('no-job-submitted', out.brief())
        return
    sim.probe('job-submitted')
    for t, job, told in srv.polls:
        if job != own:
            bad('polled-another-job', f'{job} instead of {own}')
    for job in srv.results_fetched:
        if job != own:
            bad('fetched-another-job', f'{job} instead of {own}')
    n_jobs = sum('other' not in j for j in srv.jobs.values())
    if n_jobs != 1:
        bad('submitted-again', f'{n_jobs} jobs for one call')
    told = srv.told_outcome
    # polls
    ts = [t for t, _, _ in srv.polls]
    gaps = [b - a for a, b in zip(ts, ts[1:])]
    if gaps and min(gaps) < POLL_MIN:
        bad('busy-polling', f'polls {min(gaps):.3f} s apart')
    if told and not hurt:
        later = [r for r in net.requests[told[1]:]
                 if told[0] == 'failed' or _is_poll(name, r)]
        if later:
            bad('asked-after-outcome', f'{later[0].method} {later[0].url} '
                f'after the job was declared {told[0]}')
    if out.ok:
        if not told or told[0] != 'successful':
            bad('data-before-finished', 'data returned, service told '
                f'{told_runs(srv.polls)}')
        else:
            with sim.judging('data', key=name):
                check_result(out.value, srv.expected(), name)
    else:
        if told and told[0] == 'successful' and not hurt:
            bad('finished-job-not-returned', out.brief())
        if told and told[0] == 'failed' and is_timeout(out.exc) and not hurt:
            bad('failure-reported-as-timeout', out.brief())
        dismissed = any(s in ('dismissed', 'Cancelled')
                        for _, _, s in srv.polls)
        if not told and not hurt and not dismissed:
            if not is_timeout(out.exc):
                bad('not-a-timeout-error', f'unfinished job: {out.brief()}')
            elif elapsed < p['timeout'] - 1e-6:
                bad('timeout-too-early', f'after {elapsed:.1f} s, timeout '
                    f'is {p["timeout"]} s')
    # the bound of the wait, with or without faults
    waited = elapsed - sum_latency(net, srv, sim)
    if waited > p['timeout'] + POLL_MAX + 1e-6:
        bad('waited-too-long', f'{waited:.1f} s without the responses, '
            f'timeout is {p["timeout"]} s')
    sim.probe('outcome:' + ('data' if out.ok else 'timeout'
                            if is_timeout(out.exc) else 'error'))
    sim.sign(name, told_runs(srv.polls), out.ok,
             p['duration'] > p['timeout'], len(scn['jumps']),
             ','.join(net.fired))


def _is_poll(name, r):
    if name == 'era5':
        return '/jobs/' in r.url and not r.url.endswith('/results')
    return '/WeatherDataResult/' in r.url


def sum_latency(net, srv, sim):
    """time that passed outside sleeps is time spent in responses"""
    return net.response_time


def nontrivial(scn, sim):
    return sim.probes.get('job-submitted', 0) > 0


def simplify(scn):
    for i, c in enumerate(scn['calls']):
        for k, v in (('latency', [0.1] * 5), ('flap', False),
                     ('dismiss_at', None), ('fail', False)):
            if c['p'][k] != v:
                s = dict(scn, calls=[dict(x) for x in scn['calls']])
                s['calls'][i] = dict(c, p=dict(c['p'], **{k: v}))
                yield s
