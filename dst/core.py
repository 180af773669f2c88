"""Core of the simulator: one run = one scenario (plain JSON) executed against
the real library under a simulated clock, network, disk and thread scheduler.

A scenario is generated from a PRNG seeded by (property, VERIF_SEED, index)
and *contains every choice of the run* (operations, faults, delays, schedule),
so executing a scenario is a pure function of the scenario and the code.
Nothing below draws random numbers while a scenario executes.
"""
import collections
import contextlib
import hashlib
import json
import traceback


class Violation(Exception):
    """The property is broken.  kind: violation class used by the minimiser;
    key: identifies the failing input/call site (used by known findings)."""

    def __init__(self, kind, detail='', key=None):
        super().__init__(f'{kind}: {detail}')
        self.kind = kind
        self.detail = detail
        self.key = key or kind


class SimStop(BaseException):
    """Raised inside code under test to end a run that exceeded its budget."""


class SimHang(SimStop):
    pass


class Sim:
    """Per-run context: clock, event log, counters, collected violations."""

    def __init__(self, t0=1_700_000_000.0):
        self.now = float(t0)          # true simulated time (s)
        self.t_start = self.now
        self.clock_offset = 0.0       # what the machine's clock is off by
        self.clock_jumps = []         # [(true time, new offset)]
        self.seq = 0
        self.log = []
        self._hash = hashlib.sha256()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.violations = []
        self.sig = []                 # pieces of the run's state signature
        self.sleeps = 0
        self.sleep_budget = 100000
        self.steps = 0

    # -- log -------------------------------------------------------------
    def event(self, kind, *args):
        self.seq += 1
        rec = (self.seq, round(self.now, 6), kind) + tuple(
            a if isinstance(a, (int, float, str, bool, type(None))) else
            str(a) for a in args)
        s = repr(rec)
        self._hash.update(s.encode('utf-8', 'replace'))
        if len(self.log) < 4000:
            self.log.append(s)

    def fault(self, kind, *args):
        self.faults[kind] += 1
        self.event('FAULT ' + kind, *args)

    def probe(self, name):
        self.probes[name] += 1

    def sign(self, *parts):
        self.sig.append(':'.join(str(p) for p in parts))

    @property
    def digest(self):
        return self._hash.hexdigest()

    # -- clock -----------------------------------------------------------
    def advance(self, dt):
        dt = max(0.0, float(dt))
        target = self.now + dt
        while self.clock_jumps and self.clock_jumps[0][0] <= target:
            t, off = self.clock_jumps.pop(0)
            self.now = max(self.now, t)
            delta = off - self.clock_offset
            self.clock_offset = off
            self.fault('clock_jump_forward' if delta > 0
                       else 'clock_jump_backward', round(delta, 3))
        self.now = target

    def wall(self):
        """what time.time() shows on the simulated machine"""
        return self.now + self.clock_offset

    def mono(self):
        return self.now - self.t_start + 5000.0

    def sleep(self, dt):
        self.sleeps += 1
        self.event('sleep', dt)
        if self.sleeps > self.sleep_budget:
            raise SimHang('sleep budget exceeded')
        self.advance(dt)

    # -- violations ------------------------------------------------------
    def violate(self, kind, detail='', key=None):
        v = Violation(kind, detail, key)
        self.violations.append(v)
        self.event('VIOLATION', v.kind, v.key)
        return v

    @contextlib.contextmanager
    def judging(self, kind, key=None):
        """Oracle code that handles values returned by the code under test:
        if it cannot even be evaluated, the value is malformed and that is a
        violation, not a harness error."""
        try:
            yield
        except Violation as v:
            self.violate(v.kind, v.detail, v.key if v.key != v.kind
                         else (key or v.key))
        except SimStop:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.violate(kind + '-malformed',
                         f'result could not be judged: {type(e).__name__}: '
                         f'{e} at {tb.filename}:{tb.lineno}', key)


def canon(obj):
    return json.dumps(obj, sort_keys=True, separators=(',', ':'))


def h8(text):
    return hashlib.sha256(str(text).encode()).hexdigest()[:10]


class Outcome:
    """Result of one call into the code under test."""
    __slots__ = ('ok', 'value', 'exc', 'warnings', 'tb')

    def __init__(self, ok, value=None, exc=None, warns=(), tb=''):
        self.ok, self.value, self.exc = ok, value, exc
        self.warnings, self.tb = list(warns), tb

    def brief(self):
        if self.ok:
            return 'ok'
        return f'{type(self.exc).__name__}: {str(self.exc)[:200]}'


def call(fn, *args, catch=Exception, **kwargs):
    """Call into the library; exceptions become outcomes, warnings are
    recorded and never raised."""
    import warnings
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            v = fn(*args, **kwargs)
            return Outcome(True, v, warns=ws)
        except SimStop:
            raise
        except catch as e:
            return Outcome(False, exc=e, warns=ws,
                           tb=''.join(traceback.format_tb(e.__traceback__,
                                                          limit=-4)))
