"""Interruption of a call at an arbitrary statement of the library.

The statements executed inside pvlib are counted with a trace function; at the
chosen one an exception is raised, as a signal handler, a failing allocation
or a failing system call would.  Statements at which no Python code can be
made safe are left out: the headers of with and try statements, handlers and
finally blocks (they are the recovery), and generators.
"""
import ast
import functools
import os
import sys

from dst.core import call


def _prefix():
    import pvlib
    return os.path.dirname(os.path.abspath(pvlib.__file__)) + os.sep


@functools.lru_cache(maxsize=None)
def excluded(filename):
    """lines at which no interruption is injected"""
    try:
        with open(filename, 'rb') as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return frozenset()
    out = set()

    def span(a, b):
        out.update(range(a, b + 1))
    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.Try)):
            span(n.lineno, n.body[0].lineno - 1)
        if isinstance(n, ast.With):
            out.add(n.lineno)
        if isinstance(n, ast.Try):
            for h in n.handlers:
                span(h.lineno, h.end_lineno)
            for b in n.finalbody:
                span(b.lineno, b.end_lineno)
    return frozenset(out)


@functools.lru_cache(maxsize=None)
def starts(filename):
    """line -> first line of the simple statement it is part of"""
    try:
        with open(filename, 'rb') as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return {}
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and not hasattr(n, 'body'):
            for i in range(n.lineno, n.end_lineno + 1):
                out[i] = n.lineno
    return out


def statements(places, lines):
    """one line, the first to be executed, for every statement"""
    best = {}
    for p in lines:
        k = p[0], starts(p[0]).get(p[1], p[1])
        if k not in best or places[p][0] < places[best[k]][0]:
            best[k] = p
    return sorted(best.values())


class Tracer:
    """Counts the statements of the library; raises exc at number k, or when
    the line `place` is about to be executed after it was `times` times."""

    def __init__(self, k=None, exc=None, record=False, place=None, times=0):
        self.k, self.exc = k, exc
        self.place, self.times = place, times
        self.n = 0
        self.fired = None
        self.places = {} if record else None    # (file, line) -> numbers
        self.prefix = _prefix()

    def __call__(self, frame, event, arg):
        co = frame.f_code
        if event != 'call' or not co.co_filename.startswith(self.prefix) \
                or co.co_flags & 0x2a0:        # generators, coroutines
            return None
        skip = excluded(co.co_filename)

        def local(frame, event, arg):
            if event != 'line' or frame.f_lineno in skip:
                return local
            self.n += 1
            if self.places is not None:
                p = self.places.setdefault((co.co_filename, frame.f_lineno),
                                           [])
                if len(p) < 20:
                    p.append(self.n - 1)
            if self.place is not None:
                strikes = self.fired is None and \
                    frame.f_lineno == self.place[1] and \
                    co.co_filename == self.place[0]
                if strikes:
                    self.times -= 1
                    strikes = self.times < 0
            else:
                strikes = self.k is not None and self.n - 1 == self.k and \
                    self.fired is None
            if strikes:
                self.fired = (os.path.basename(co.co_filename),
                              co.co_name, frame.f_lineno)
                raise self.exc
            return local
        return local

    def run(self, fn, *args, **kw):
        old = sys.gettrace()
        sys.settrace(self)
        try:
            return fn(*args, **kw)
        finally:
            sys.settrace(old)


def cutter(cut, n, places):
    """Tracer for a described interruption of a call with n statements"""
    k, place, times = where(places, n, cut['at'], cut.get('by', 'stmt'))
    return Tracer(k, KINDS[cut['kind']]('injected'), place=place,
                  times=times)


def where(places, n, at, by):
    """Where a described interruption strikes: any statement executed
    ('stmt'), any distinct line ('line'), any line of any module ('file'), or
    any statement of the module first entered ('own').
    -> (number of the statement, its place or None, how often that place was
    passed before)"""
    if by == 'stmt' or not places:
        return (min(n - 1, int(at * n)) if n else 0), None, 0
    lines = sorted(places)
    x = at
    if by == 'own':
        first = min(places, key=lambda p: places[p][0])[0]
        lines = statements(places, [p for p in lines if p[0] == first])
    if by == 'file':
        files = sorted({f for f, _ in lines})
        x *= len(files)
        f = files[min(len(files) - 1, int(x))]
        x -= int(x)
        lines = [p for p in lines if p[0] == f]
    x *= len(lines)
    at = lines[min(len(lines) - 1, int(x))]
    p = places[at]
    k = min(len(p) - 1, int((x - int(x)) * len(p)))
    return p[k], at, k


def count(fn, *args, **kw):
    """(outcome, number of statements executed inside the library)"""
    t = Tracer()
    out = call(lambda: t.run(fn, *args, **kw), catch=BaseException)
    return out, t.n


KINDS = {'interrupt': KeyboardInterrupt, 'nomem': MemoryError,
         'error': RuntimeError, 'io': OSError}


def interrupt(sim, kind, at, n, fn, *args, **kw):
    """Run fn and interrupt it at the given fraction of its n statements.
    -> (outcome, where it was interrupted or None)"""
    exc = KINDS[kind]('injected')
    t = Tracer(min(n - 1, int(at * n)) if n else 0, exc)
    out = call(lambda: t.run(fn, *args, **kw), catch=BaseException)
    if t.fired:
        sim.fault('interrupt_' + kind, t.fired[1])
    return out, t.fired
