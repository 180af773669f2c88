"""C05: readers - same data from any source, no leaked or stolen handles."""
import io
import pathlib
import urllib.error

import numpy as np
import pandas as pd

from dst.core import Outcome, call
from dst.disk import Disk
from dst.formats import (FORMATS, diff_results, gz, is_binary,
                         text_encoding)
from dst.net import Net, Reply

ID = 'C05'
QUICK_RUNS, THOROUGH_RUNS = 2000, 60000
SHRINK = ['faults', 'net_faults', 'sources']
RULE = ('a run = one generated weather file read from every kind of source '
        'its reader accepts (path, pathlib path, gzip file, text/binary '
        'buffer on disk or in memory, URL), each delivering the bytes in '
        'pieces of a chosen size, with read/open faults, interrupts, '
        'out-of-memory or connection faults at chosen reads, or with '
        'garbage in the file; plus lookups in HDF5 tables with failing '
        'reads. Non-trivial: the intact file was read. Distinct: (format, '
        'options, source, piece size, fault and place, outcome).')
MEASURE = 'tuples (format, sources, piece size, fault kinds and places, ' \
          'outcomes)'
REAL = ['pvlib.iotools readers, pvsystem.retrieve_sam, '
        'location.lookup_altitude, clearsky.lookup_linke_turbidity',
        'pandas parsers', 'Python buffered/text I/O', 'gzip', 'requests',
        'urllib.request', 'http.client', 'h5py/HDF5 (real files)']
STUB = ['raw file layer', 'sockets and server', 'failing HDF5 reads']
ASSUMPTIONS = ['a file object left to the garbage collector counts as not '
               'closed', 'pandas does not close a file it opened itself when '
               'a KeyboardInterrupt strikes inside its parser; this is not '
               'held against pvlib', 'a urllib HTTPError carries its open '
               'response to the caller']
NET_KINDS = ['cut_body', 'reset_body', 'timeout_body', 'refused', 'reset',
             'read_timeout', 'http_404_html', 'http_500_html', 'html_page']


def generate(rng, tier, index):
    names = sorted(FORMATS) + ['h5_altitude', 'h5_linke']
    name = names[index % len(names)]
    scn = {'fmt': name, 'chunk': rng.choice([None, None, 1, 2, 7, 64, 4096]),
           'faults': [], 'net_faults': [], 'garbage': None}
    if name.startswith('h5'):
        scn['p'] = {'lat': round(rng.uniform(-89.9, 89.9), 3),
                    'lon': round(rng.uniform(-179.9, 179.9), 3),
                    'interp': rng.random() < .5,
                    'month': rng.randrange(1, 13)}
        if rng.random() < .6:
            scn['faults'] = [{'kind': rng.choice(['eio', 'interrupt',
                                                  'nomem', 'missing']),
                              'nth': 0}]
        return scn
    F = FORMATS[name]
    scn['p'] = F.gen(rng)
    big = name == 'pvgis_tmy'
    if big:
        scn['chunk'] = rng.choice([None, 4096, 1000])
    src = list(F.sources)
    rng.shuffle(src)
    scn['sources'] = src[:2] if big else src
    r = rng.random()
    if r < .55:
        scn['fault_source'] = rng.choice(scn['sources'])
        if scn['fault_source'] == 'url':
            scn['net_faults'] = [{'step': 0, 'kind': rng.choice(NET_KINDS),
                                  'arg': rng.randrange(10 ** 3) / 10 ** 3}]
        else:
            op = rng.choice(['read'] * 6 + ['open'])
            scn['faults'] = [{
                'op': op,
                'nth': 0 if op == 'open' else rng.choice(
                    [0, 0, 1, 2, rng.randrange(1, 30),
                     rng.randrange(1, 600)]),
                'kind': rng.choice(['eacces', 'emfile']) if op == 'open' else
                rng.choice(['eio', 'estale', 'interrupt', 'nomem'])}]
    elif r < .8:
        scn['garbage'] = [rng.choice(['cut', 'noise', 'empty', 'swap']),
                          rng.randrange(10 ** 4) / 10 ** 4]
        scn['fault_source'] = rng.choice(scn['sources'])
    return scn


def garble(data, how, where):
    k = int(len(data) * where)
    if how == 'cut':
        return data[:k]
    if how == 'empty':
        return b''
    if how == 'noise':
        return data[:k] + b'\x01,~x"' + data[k + 3:]
    lines = data.split(b'\n')
    i = int(len(lines) * where)
    j = (i * 7 + 1) % len(lines)
    lines[i % len(lines)], lines[j] = lines[j], lines[i % len(lines)]
    return b'\n'.join(lines)


class Served:
    def __init__(self, data):
        self.data = data

    def __call__(self, req, net):
        return Reply(200, self.data, 'text/plain')


def execute(scn, sim):
    sim.disk = disk = Disk(sim)
    try:
        if scn['fmt'].startswith('h5'):
            run_h5(scn, sim, disk)
        else:
            run(scn, sim, disk)
    finally:
        disk.cleanup()


def open_source(kind, F, p, disk, sim, data, net_faults=(), chunk=None):
    """-> (source, buffer of the caller or None, net)"""
    name = F.fname(p)
    if kind in ('path', 'Path'):
        path = disk.put(name, data)
        return (path if kind == 'path' else pathlib.Path(path)), None, None
    if kind == 'gz':
        return disk.put(name + '.gz', gz(data)), None, None
    if kind == 'url':
        net = sim.net = Net(sim, Served(data), net_faults, chunk=chunk)
        return 'http://data.example.org/files/' + name, None, net
    binary = is_binary(F, p)
    if kind == 'memory':
        if binary:
            buf = io.BytesIO(data)
        else:
            # what open() in text mode would deliver
            text = io.TextIOWrapper(io.BytesIO(data), encoding=text_encoding(
                F, p) or 'utf-8').read()
            buf = io.StringIO(text)
        return buf, buf, None
    path = disk.put(name, data)
    faults, disk.faults = disk.faults, []
    buf = open(path, 'rb') if binary else \
        open(path, 'r', encoding=text_encoding(F, p))
    disk.faults = faults
    return buf, buf, None


def read_once(scn, sim, disk, F, p, kind, data, label, chunk, faults=(),
              net_faults=()):
    disk.chunk = chunk
    disk.handles.clear()
    disk.faults = [dict(f) for f in faults]
    src, mine, net = open_source(kind, F, p, disk, sim, data, net_faults,
                                 chunk)
    disk.nreads = disk.nopens = 0
    own = [h for h in disk.handles]          # the caller's
    out = call(F.call, p, src, catch=BaseException)
    disk.faults = []
    key = f'{F.name}:{kind}'
    sim.event('read', label, kind, out.brief()[:120])
    # ownership, with the exception (and its traceback) still alive
    others = [h for h in disk.handles if h not in own]
    if out.exc is not None and not isinstance(out.exc, Exception):
        # pandas itself does not close what it opened when it is interrupted
        others = [h for h in others if h.opener != 'pandas']
    left = [h for h in others if not h.closed]
    how = 'after ' + (out.brief() if not out.ok else 'success')
    if left:
        sim.violate('handle-leaked', f'{key}: {len(left)} file(s) still open '
                    f'{how}', key=key)
    if any(h.how_closed == 'garbage' for h in others):
        sim.violate('handle-not-closed', f'{key}: file left to the garbage '
                    f'collector {how}', key=key)
    # an HTTPError is the open response, handed on to the caller
    if net is not None and (net.open_bodies or net.open_socks) and \
            not isinstance(out.exc, urllib.error.HTTPError):
        sim.violate('connection-leaked', f'{key}: {net.open_bodies} '
                    f'connection(s) still open {how}', key=key)
    if mine is not None:
        if mine.closed:
            sim.violate('buffer-stolen', f'{key}: the caller\'s buffer was '
                        f'closed {how}', key=key)
        else:
            mine.close()
    return out


def run(scn, sim, disk):
    F, p = FORMATS[scn['fmt']], scn['p']
    data = F.data(p)
    ref = read_once(scn, sim, disk, F, p, 'path', data, 'intact', None)
    if not ref.ok:
        sim.violate('intact-file-rejected', f'{F.name} {p}: {ref.brief()}\n'
                    f'{ref.tb}', key=F.name)
        return
    sim.probe('read:' + F.name)
    outs = []
    for kind in scn['sources']:
        out = read_once(scn, sim, disk, F, p, kind, data, 'intact',
                        scn['chunk'])
        outs.append(out)
        if not out.ok:
            sim.violate('source-refused', f'{F.name}:{kind} (pieces of '
                        f'{scn["chunk"]}): {out.brief()}\n{out.tb}',
                        key=f'{F.name}:{kind}')
            continue
        with sim.judging('source-differs', key=f'{F.name}:{kind}'):
            d = diff_results(ref.value, out.value)
            if d:
                sim.violate('source-differs', f'{F.name}: {kind} (pieces of '
                            f'{scn["chunk"]}) against path: {d}',
                            key=f'{F.name}:{kind}')
    sim.sign(F.name, p.get('sample', p.get('fmt', '')), scn['chunk'],
             ''.join(k[0] for k in scn['sources']))
    if scn['faults'] or scn['net_faults']:
        kind = scn['fault_source']
        before = sum(sim.faults.values())
        out = read_once(scn, sim, disk, F, p, kind, data, 'faulty',
                        scn['chunk'], scn['faults'], scn['net_faults'])
        fired = sum(sim.faults.values()) - before
        sim.sign(kind, [(f.get('op'), f['kind'], f.get('nth'))
                        for f in scn['faults'] + scn['net_faults']], fired,
                 out.ok or type(out.exc).__name__)
        if fired and out.ok and not (scn['net_faults'] and
                                     scn['net_faults'][0]['kind'] ==
                                     'html_page'):
            with sim.judging('fault-passed-over', key=f'{F.name}:{kind}'):
                d = diff_results(ref.value, out.value)
                sim.violate('fault-passed-over', f'{F.name}:{kind}: '
                            f'{scn["faults"] or scn["net_faults"]} but the '
                            f'call succeeded ({d or "same data"})',
                            key=f'{F.name}:{kind}')
    if scn['garbage']:
        kind = scn['fault_source']
        bad = garble(data, *scn['garbage'])
        sim.fault('file:' + scn['garbage'][0])
        out = read_once(scn, sim, disk, F, p, kind, bad, 'garbage',
                        scn['chunk'])
        sim.sign(kind, scn['garbage'], out.ok or type(out.exc).__name__)
    # and the fault left nothing behind
    if scn['faults'] or scn['net_faults'] or scn['garbage']:
        kind = scn['fault_source']
        out = read_once(scn, sim, disk, F, p, kind, data, 'after', None)
        d = diff_results(ref.value, out.value) if out.ok else out.brief()
        if d:
            sim.violate('broken-after-fault', f'{F.name}:{kind}: {d}',
                        key=f'{F.name}:{kind}')


def run_h5(scn, sim, disk):
    import h5py
    from dst import seams
    real = h5py.File
    opened = []
    fault = scn['faults'][0] if scn['faults'] else None
    count = [0]

    class File(real):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            opened.append(self)
            sim.event('h5open')

        def __getitem__(self, name):
            count[0] += 1
            if fault and armed[0] and count[0] - 1 == fault['nth']:
                sim.fault('h5:' + fault['kind'])
                if fault['kind'] == 'eio':
                    raise OSError(5, 'Can\'t read data')
                if fault['kind'] == 'interrupt':
                    raise KeyboardInterrupt()
                if fault['kind'] == 'nomem':
                    raise MemoryError()
                raise KeyError("Unable to open object (object 'x' doesn't "
                               "exist)")
            return super().__getitem__(name)

    p = scn['p']
    armed = [False]
    if scn['fmt'] == 'h5_altitude':
        from pvlib import location

        def fn():
            return location.lookup_altitude(p['lat'], p['lon'])
    else:
        from pvlib import clearsky
        path = disk.path('lt.h5')
        with seams.paused():
            with real(path, 'w') as f:
                # a coarse table with the layout of the documented one
                la = np.arange(36)[:, None, None]
                lo = np.arange(72)[None, :, None]
                mo = np.arange(12)[None, None, :]
                f['LinkeTurbidity'] = ((la * 5 + lo * 3 + mo * 7) % 200 +
                                       20).astype('uint8')
        t = pd.date_range(f'2019-{p["month"]:02d}-03', periods=5, freq='9D',
                          tz='UTC')
        # lat/lon that fall into the coarse table's index range
        lat = 90 - abs(p['lat']) / 90 * 2.9
        lon = -180 + abs(p['lon']) / 180 * 5.9

        def fn():
            return clearsky.lookup_linke_turbidity(
                t, lat, lon, filepath=path, interp_turbidity=p['interp'])
    h5py.File = File
    try:
        ref = call(fn, catch=BaseException)
        armed[0] = True
        count[0] = 0
        out = call(fn, catch=BaseException)
        armed[0] = False
        for what, o in (('success', ref), ('fault', out)):
            sim.event(what, o.brief()[:100])
        key = scn['fmt']
        if any(bool(f) for f in opened):
            sim.violate('handle-leaked', f'{key}: HDF5 file still open after '
                        f'{out.brief()}', key=key)
        if not ref.ok:
            sim.violate('intact-file-rejected', f'{key}: {ref.brief()}\n'
                        f'{ref.tb}', key=key)
            return
        if fault and count[0] and out.ok:
            sim.violate('fault-passed-over', f'{key}: {fault}', key=key)
        again = call(fn, catch=BaseException)
        if not again.ok or not (
                again.value == ref.value if np.isscalar(ref.value) else
                again.value.equals(ref.value)):
            sim.violate('broken-after-fault', f'{key}: {again.brief()}',
                        key=key)
        if not opened:
            sim.violate('not-exercised', f'{key}: no HDF5 file was opened',
                        key=key)
        sim.probe('read:' + key)
        sim.sign(key, p, fault, out.ok or type(out.exc).__name__)
    finally:
        h5py.File = real
        for f in opened:
            f.close()


def simplify(scn):
    if scn.get('chunk'):
        yield dict(scn, chunk=None)
    if scn.get('sources') and scn.get('fault_source') in scn['sources'] and \
            len(scn['sources']) > 1:
        yield dict(scn, sources=[scn['fault_source']])
    p = scn['p']
    for k in ('rows', 'n'):
        if isinstance(p.get(k), int) and p[k] > 2:
            yield dict(scn, p=dict(p, **{k: 2}))


def nontrivial(scn, sim):
    return any(k.startswith('read:') for k in sim.probes)
