"""Seeded search driver: runs scenarios in forked children, merges statistics,
minimises violations, writes replay and evidence files.

usage: python -m dst.runner C01 [--tier quick|thorough] [--seed N] [--runs N]
       python -m dst.runner C01 --replay FILE
       python -m dst.runner C01 --scenario N      (print scenario N)
       python -m dst.runner C01 --digests N       (seed->digest lines, selftest)
"""
import argparse
import collections
import copy
import faulthandler
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')

_real_time = _time.perf_counter


def load(prop):
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    from dst import seams
    seams.install_early()
    import pvlib
    root = os.path.dirname(os.path.dirname(os.path.abspath(pvlib.__file__)))
    if os.path.realpath(root) != os.path.realpath(REPO):
        raise RuntimeError(f'pvlib imported from {root}, not from {REPO}')
    mod = importlib.import_module('props.' + prop.lower())
    if hasattr(mod, 'prepare'):
        mod.prepare()
    return mod


def make_scenario(mod, seed, index, tier):
    directed = getattr(mod, 'DIRECTED', None)
    if callable(directed):
        directed = directed()
    if directed and index < len(directed):
        scn = copy.deepcopy(directed[index])
    else:
        rng = random.Random(f'{mod.ID}:{seed}:{index}')
        scn = mod.generate(rng, tier, index)
    return json.loads(json.dumps(scn))     # exactly what a replay file holds


def execute(mod, scn):
    """Run one scenario in this process; returns a plain dict."""
    from dst.core import Sim, SimStop, Violation
    from dst import seams
    sim = Sim()
    err = None
    with seams.active(sim):
        try:
            mod.execute(scn, sim)
        except Violation as v:
            sim.violations.append(v)
            sim.event('VIOLATION', v.kind, v.key)
        except SimStop as e:
            sim.violate('no-progress', f'{type(e).__name__}: {e}',
                        key=getattr(e, 'key', None))
        except BaseException as e:
            err = ''.join(traceback.format_exception(e))
    sig = mod.signature(scn, sim) if hasattr(mod, 'signature') else \
        '|'.join(sim.sig)
    nontrivial = mod.nontrivial(scn, sim) if hasattr(mod, 'nontrivial') \
        else True
    return dict(violations=[(v.kind, v.key, v.detail) for v in
                            sim.violations],
                error=err, digest=sim.digest, faults=dict(sim.faults),
                probes=dict(sim.probes), sim_time=sim.now - sim.t_start,
                events=sim.seq, steps=sim.steps, sig=sig,
                nontrivial=bool(nontrivial), log=sim.log[-400:])


def _cpu_spent(signum, frame):
    from dst.core import SimHang
    raise SimHang('the run used up its processor time without ending')


def run_forked(mod, scn, timeout):
    """Execute in a forked child so that every run starts from the same
    process state; a child that does not come back is reported."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 1)
            if not os.environ.get('DST_STDERR'):
                os.dup2(devnull, 2)
            cpu = getattr(mod, 'CPU_LIMIT', 25)
            signal.signal(signal.SIGPROF, _cpu_spent)
            signal.setitimer(signal.ITIMER_PROF, cpu, 5)
            res = execute(mod, scn)
            signal.setitimer(signal.ITIMER_PROF, 0)
            data = pickle.dumps(res)
            with os.fdopen(w, 'wb') as f:
                f.write(struct.pack('>Q', len(data)) + data)
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    deadline = _real_time() + timeout
    timed_out = False
    while True:
        left = deadline - _real_time()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed_out = True
            break
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf += chunk
        if len(buf) >= 8 and len(buf) >= 8 + struct.unpack('>Q', buf[:8])[0]:
            break
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if len(buf) >= 8 and len(buf) - 8 >= struct.unpack('>Q', buf[:8])[0]:
        return pickle.loads(buf[8:])
    base = dict(error=None, digest='', faults={}, probes={}, sim_time=0.0,
                events=0, steps=0, sig='', nontrivial=False, log=[])
    if timed_out:
        base['violations'] = [('hang', 'hang', 'the run did not end within '
                               f'{timeout:.0f} s of real time')]
    else:
        base['violations'] = [('died', 'died', 'the process died, wait '
                               f'status {status}')]
    return base


def worker_loop(mod, prop, seed, tier, indices, deadline, timeout, wfd):
    """Runs in a worker process; sends one pickled record per run."""
    out = os.fdopen(wfd, 'wb')
    for i in indices:
        if _real_time() > deadline:
            break
        scn = None
        try:
            scn = make_scenario(mod, seed, i, tier)
            res = run_forked(mod, scn, timeout)
        except BaseException as e:
            res = dict(violations=[], error=''.join(
                traceback.format_exception(e)), digest='', faults={},
                probes={}, sim_time=0, events=0, steps=0, sig='',
                nontrivial=False, log=[])
        rec = dict(index=i, res=res)
        if res['violations'] or res['error']:
            rec['scn'] = scn
        else:
            res['log'] = res['log'][:40] if i < 3 else []
            if i < 3:
                rec['scn'] = scn
        data = pickle.dumps(rec)
        out.write(struct.pack('>Q', len(data)) + data)
        out.flush()
    out.close()
    os._exit(0)


def run_all(mod, prop, seed, tier, runs, budget, timeout, nworkers):
    t0 = _real_time()
    deadline = t0 + budget
    fds = {}
    pids = []
    for w in range(nworkers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for fd in fds:
                    os.close(fd)
                worker_loop(mod, prop, seed, tier, range(w, runs, nworkers),
                            deadline, timeout, wfd)
            finally:
                os._exit(71)
        os.close(wfd)
        fds[r] = b''
        pids.append(pid)
    recs = []
    while fds:
        rl, _, _ = select.select(list(fds), [], [])
        for fd in rl:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                del fds[fd]
                os.close(fd)
                continue
            b = fds[fd] + chunk
            while len(b) >= 8:
                n = struct.unpack('>Q', b[:8])[0]
                if len(b) < 8 + n:
                    break
                recs.append(pickle.loads(b[8:8 + n]))
                b = b[8 + n:]
            fds[fd] = b
    for pid in pids:
        os.waitpid(pid, 0)
    recs.sort(key=lambda r: r['index'])
    return recs, _real_time() - t0


# -- minimisation -----------------------------------------------------------

def _get(scn, path):
    for k in path:
        if isinstance(scn, dict) and k not in scn:
            return None
        scn = scn[k]
    return scn


def _set(scn, path, val):
    s = copy.deepcopy(scn)
    cur = s
    for k in path[:-1]:
        cur = cur[k]
    cur[path[-1]] = val
    return s


def candidates(mod, scn):
    """Scenarios simpler than scn, most aggressive first."""
    if hasattr(mod, 'simplify'):
        yield from mod.simplify(copy.deepcopy(scn))
    for path in getattr(mod, 'SHRINK', []):
        path = path if isinstance(path, (list, tuple)) else [path]
        lst = _get(scn, path)
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                yield _set(scn, path, lst[:start] + lst[start + size:])
            size //= 2


def minimise(mod, scn, kind, key, timeout, budget=60.0, max_tries=400):
    t0 = _real_time()
    tries = 0

    def fails(s):
        r = run_forked(mod, s, timeout)
        return any(k == kind and q == key for k, q, _ in r['violations'])

    improved = True
    while improved and _real_time() - t0 < budget and tries < max_tries:
        improved = False
        for cand in candidates(mod, scn):
            if _real_time() - t0 > budget or tries >= max_tries:
                break
            if cand == scn:
                continue
            tries += 1
            try:
                ok = fails(cand)
            except Exception:
                ok = False
            if ok:
                scn = json.loads(json.dumps(cand))
                improved = True
                break
    return scn, tries


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings']
                if k.get('property') == prop]


def match_known(known, kind, key):
    for k in known:
        if k.get('status') == 'known' and k.get('key') == key and \
                k.get('kind', kind) == kind:
            return k
    return None


def write_replay(prop, seed, index, scn, res, kind, key, detail, tries):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    from dst.core import canon, h8
    path = os.path.join(d, f'{prop}-{h8(canon(scn) + kind + key)}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=prop, seed=seed, run=index, kind=kind,
                       key=key, detail=detail, digest=res['digest'],
                       minimiser_tries=tries, scenario=scn,
                       trace=res['log'][-200:]), f, indent=1)
    return path


def do_replay(prop, path, timeout):
    mod = load(prop)
    with open(path) as f:
        rep = json.load(f)
    res = run_forked(mod, rep['scenario'], timeout)
    for line in res['log'][-60:]:
        print('  ', line)
    same = [v for v in res['violations'] if v[0] == rep['kind'] and
            v[1] == rep['key']]
    print('digest', 'identical' if res['digest'] == rep['digest'] else
          f'differs: {res["digest"]} vs {rep["digest"]}')
    if res['error']:
        print(res['error'])
        return 2
    if same:
        print(f'{same[0][0]} [{same[0][1]}]: {same[0][2]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if res['violations']:
        print('other violations:', res['violations'])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print('no violation on replay')
    return 0


def main(argv=None):
    faulthandler.enable()
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int,
                    default=int(os.environ.get('DST_WORKERS', '0')) or
                    min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--scenario', type=int)
    ap.add_argument('--inline', type=int)
    ap.add_argument('--digests', type=int)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    if a.replay:
        return do_replay(prop, a.replay, 300)
    t_start = _real_time()
    mod = load(prop)
    timeout = getattr(mod, 'RUN_TIMEOUT', 120)
    if a.scenario is not None:
        print(json.dumps(make_scenario(mod, a.seed, a.scenario, tier),
                         indent=1))
        return 0
    if a.inline is not None:
        res = execute(mod, make_scenario(mod, a.seed, a.inline, tier))
        print('\n'.join(res['log'][-100:]))
        print(res['error'] or '')
        for v in res['violations']:
            print('V', v)
        return 0
    if a.digests:
        recs, _ = run_all(mod, prop, a.seed, tier, a.digests, 1e9, timeout,
                          a.workers)
        for r in recs:
            print(r['index'], r['res']['digest'],
                  'ERR' if r['res']['error'] else '',
                  sorted(set(v[0] for v in r['res']['violations'])))
        return 0

    runs = a.runs or (mod.QUICK_RUNS if tier == 'quick' else
                      mod.THOROUGH_RUNS)
    budget = a.budget or (getattr(mod, 'QUICK_BUDGET', 240)
                          if tier == 'quick' else
                          getattr(mod, 'THOROUGH_BUDGET', 3000))
    print(f'{prop} seed={a.seed} tier={tier} runs={runs} '
          f'workers={a.workers}', flush=True)
    recs, wall = run_all(mod, prop, a.seed, tier, runs, budget, timeout,
                         a.workers)

    faults, probes = collections.Counter(), collections.Counter()
    sigs, sim_time, events, steps = set(), 0.0, 0, 0
    nontrivial = 0
    errors = []
    viol = collections.OrderedDict()
    for r in recs:
        res = r['res']
        faults.update(res['faults'])
        probes.update(res['probes'])
        sim_time += res['sim_time']
        events += res['events']
        steps += res['steps']
        if res['nontrivial']:
            nontrivial += 1
            sigs.add(res['sig'])
        if res['error']:
            errors.append((r['index'], res['error']))
        for kind, key, detail in res['violations']:
            viol.setdefault((kind, key), []).append((r, detail))

    known = load_known(prop)
    exit_code = 0
    reported = []
    known_seen = {}
    for (kind, key), lst in viol.items():
        k = match_known(known, kind, key)
        if k:
            known_seen[k['key']] = len(lst)
            continue
        reported.append((kind, key, lst))
    for k in known:
        if k.get('status') == 'known':
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    replays = []
    n_viol = sum(len(lst) for _, _, lst in reported)
    for kind, key, lst in reported[:4]:
        r, detail = lst[0]
        scn, tries = r['scn'], 0
        first = run_forked(mod, scn, timeout)
        again = [v for v in first['violations'] if v[:2] == (kind, key)]
        if not again and kind in ('hang', 'died'):
            print(f'note: run {r["index"]} ended with {kind} once and not '
                  'when repeated: treated as an overload of this machine')
            continue
        if again and not replays:
            scn, tries = minimise(mod, scn, kind, key, timeout,
                                  budget=getattr(mod, 'MIN_BUDGET', 45))
        res = run_forked(mod, scn, timeout)
        d2 = [v[2] for v in res['violations'] if v[:2] == (kind, key)]
        path = write_replay(prop, a.seed, r['index'], scn, res, kind, key,
                            d2[0] if d2 else detail, tries)
        replays.append(path)
        print(f'run {r["index"]} ({len(lst)} runs): {kind} [{key}]: '
              f'{(d2[0] if d2 else detail)[:1500]}')
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        exit_code = 1
    for kind, key, lst in reported[4:12]:
        print(f'also, in {len(lst)} runs: {kind} [{key}]: '
              f'{lst[0][1][:300]}')
    if errors:
        print(f'{len(errors)} harness errors, first (run {errors[0][0]}):\n'
              f'{errors[0][1]}', file=sys.stderr)
        if exit_code == 0:
            exit_code = 2
    if not recs:
        print('no run was executed', file=sys.stderr)
        exit_code = exit_code or 2

    if not a.no_evidence:
        samples = []
        for r in recs:
            if 'scn' in r and not r['res']['violations'] and len(samples) < 2:
                s = json.dumps(r['scn'])
                samples.append(dict(
                    run=r['index'], scenario=r['scn'] if len(s) < 6000
                    else s[:6000] + '...', trace=r['res']['log'][:25]))
        cov = dict(
            evaluations=len(recs), distinct_nontrivial=len(sigs),
            rule=mod.RULE, samples=samples or [dict(note='none')],
            runs_planned=runs, nontrivial_runs=nontrivial,
            seeds=len(recs), base_seed=a.seed,
            runs_per_hour=round(len(recs) / max(wall, 1e-9) * 3600),
            search_wall_s=round(wall, 2),
            simulated_seconds=round(sim_time, 3),
            events=events, scheduler_steps=steps,
            faults_injected=dict(sorted(faults.items())),
            faults_total=sum(faults.values()),
            probes=dict(sorted(probes.items())),
            distinct_measure=getattr(mod, 'MEASURE', 'run signature'),
            real_components=getattr(mod, 'REAL', []),
            stubbed_components=getattr(mod, 'STUB', []),
            workers=a.workers, harness_errors=len(errors),
            known_findings_seen=known_seen)
        if hasattr(mod, 'coverage_extra'):
            cov.update(mod.coverage_extra(recs))
        ev = dict(property=prop, tier=tier, seed=a.seed, level='exploration',
                  coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []),
                  wall_s=round(_real_time() - t_start, 2),
                  violations=n_viol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', f'.{prop}.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, 'evidence', f'{prop}.json'))
    print(f'{prop}: {len(recs)} runs in {wall:.1f} s, {len(sigs)} distinct, '
          f'{sum(faults.values())} faults {dict(faults.most_common(6))}, '
          f'{n_viol} violations, exit {exit_code}', flush=True)
    return exit_code


if __name__ == '__main__':
    sys.exit(main())
