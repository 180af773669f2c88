"""Seams between the code under test and the world.

install_early() replaces the entry points to clock, network, files and threads
with dispatchers *before* pvlib is imported (so that "from time import sleep"
style imports also see them).  Outside a simulation they behave as the real
ones, except that the network is always refused.  active(sim) switches them to
the simulated world of one run.
"""
import builtins
import contextlib
import functools
import ftplib  # noqa: F401  (must be loaded before patching socket)
import http.client
import io
import os
import socket
import threading
import time
import urllib.request
import urllib.response
import email.message
import urllib.error

import numpy as np

_sim = None
_installed = False

real_time = time.time
real_sleep = time.sleep
real_monotonic = time.monotonic
real_perf = time.perf_counter
real_open = builtins.open
real_create_connection = socket.create_connection
real_empty, real_empty_like = np.empty, np.empty_like
real_thread_start = threading.Thread.start
real_thread_join = threading.Thread.join


def current():
    return _sim


def _time():
    return _sim.wall() if _sim is not None else real_time()


def _time_ns():
    return int(_time() * 1e9)


def _sleep(dt):
    if _sim is not None:
        if dt < 0:
            raise ValueError('sleep length must be non-negative')
        _sim.sleep(dt)
    else:
        real_sleep(dt)


def _monotonic():
    return _sim.mono() if _sim is not None else real_monotonic()


def _perf():
    return _sim.mono() if _sim is not None else real_perf()


class RealNetworkRefused(OSError):
    pass


def _create_connection(address, timeout=None, source_address=None, **kw):
    if _sim is not None and getattr(_sim, 'net', None) is not None:
        return _sim.net.create_connection(address, timeout)
    raise RealNetworkRefused(f'network access refused: {address}')


def _getaddrinfo(host, *a, **k):
    raise socket.gaierror(socket.EAI_NONAME, f'no network: {host}')


def _adapter_send(self, request, stream=False, timeout=None, verify=True,
                  cert=None, proxies=None):
    import requests
    if _sim is None or getattr(_sim, 'net', None) is None:
        raise requests.exceptions.ConnectionError('network access refused')
    return _sim.net.requests_send(self, request, timeout)


class _SimHandler(urllib.request.BaseHandler):
    handler_order = 100

    def http_open(self, req):
        if _sim is None or getattr(_sim, 'net', None) is None:
            raise urllib.error.URLError('network access refused')
        return _sim.net.urllib_open(req)

    https_open = http_open
    ftp_open = http_open


def _open(file, mode='r', buffering=-1, encoding=None, errors=None,
          newline=None, closefd=True, opener=None):
    disk = getattr(_sim, 'disk', None) if _sim is not None else None
    if disk is not None and disk.owns(file):
        return disk.open(file, mode, buffering, encoding, errors, newline)
    return real_open(file, mode, buffering, encoding, errors, newline,
                     closefd, opener)


def _thread_start(self):
    sched = getattr(_sim, 'sched', None) if _sim is not None else None
    if sched is not None and sched.controls(self):
        return sched.thread_start(self)
    return real_thread_start(self)


def _thread_join(self, timeout=None):
    sched = getattr(_sim, 'sched', None) if _sim is not None else None
    if sched is not None and sched.controls(self):
        return sched.thread_join(self, timeout)
    return real_thread_join(self, timeout)


POISON = -7.7e77


def _poisoned(make):
    @functools.wraps(make)
    def empty(*args, **kw):
        a = make(*args, **kw)
        if _sim is not None and a.dtype.kind == 'f':
            a.fill(POISON)
        return a
    return empty


def install_early():
    global _installed
    if _installed:
        return
    _installed = True
    time.time = _time
    time.time_ns = _time_ns
    time.sleep = _sleep
    time.monotonic = _monotonic
    time.perf_counter = _perf
    socket.create_connection = _create_connection
    socket.getaddrinfo = _getaddrinfo
    import requests.adapters
    requests.adapters.HTTPAdapter.send = _adapter_send
    urllib.request.install_opener(_build_opener())
    builtins.open = _open
    io.open = _open
    threading.Thread.start = _thread_start
    threading.Thread.join = _thread_join
    # memory that was not initialised has the same contents in every run
    np.empty = _poisoned(real_empty)
    np.empty_like = _poisoned(real_empty_like)
    from dst import sched
    sched.install_early()


def _build_opener():
    op = urllib.request.OpenerDirector()
    for cls in (urllib.request.UnknownHandler,
                urllib.request.HTTPDefaultErrorHandler,
                urllib.request.HTTPRedirectHandler,
                urllib.request.HTTPErrorProcessor,
                urllib.request.FileHandler, urllib.request.DataHandler,
                _SimHandler):
        op.add_handler(cls())
    op.addheaders = [('User-agent', 'Python-urllib/sim')]
    return op


@contextlib.contextmanager
def active(sim):
    global _sim
    prev = _sim
    _sim = sim
    try:
        yield sim
    finally:
        _sim = prev


@contextlib.contextmanager
def paused():
    """Harness code that needs the real clock, files and threads."""
    global _sim
    prev = _sim
    _sim = None
    try:
        yield
    finally:
        _sim = prev
