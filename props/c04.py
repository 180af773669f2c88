"""C04: station archives - every available file once and in order, missing
ones named, local copies exact."""
import os

import numpy as np
import pandas as pd

from dst.core import Violation, call
from dst.disk import Disk
from dst.net import Net
from dst.services.archives import ARCHIVES
from dst.services.base import check_frame, check_meta

ID = 'C04'
QUICK_RUNS, THOROUGH_RUNS = 1600, 50000
SHRINK = ['net_faults', 'ftp_faults', 'disk_faults', ['p', 'missing']]
RULE = ('a run = one multi-file download (SURFRAD, SOLRAD, SRML over HTTP; '
        'BSRN over FTP with gzip files and local copies) from a simulated '
        'archive that holds a generated subset of the files, with transport '
        'faults at chosen files, FTP faults at chosen commands and write '
        'faults at chosen writes of the local copies. Non-trivial: at least '
        'one file was held and asked for. Distinct: (archive, number of '
        'files, subset held, fault kinds and places, outcome).')
MEASURE = 'tuples (archive, files held/missing pattern, faults, outcome)'
REAL = ['pvlib.iotools get_surfrad/get_solrad/get_srml/get_bsrn and their '
        'readers', 'requests', 'urllib.request', 'http.client', 'ftplib',
        'gzip', 'pandas', 'Python buffered I/O']
STUB = ['archive servers and transport', 'raw layer of the local disk']
ASSUMPTIONS = ['the archives answer a missing file with HTTP 404 or with '
               '"550 Failed to open file."',
               'files are generated from the networks\' format descriptions '
               'with few records per file']
HTTP_FAULTS = ['refused', 'dns', 'connect_timeout', 'read_timeout', 'reset',
               'cut_body', 'reset_body', 'timeout_body', 'slow',
               'http_500_html', 'http_503_html', 'http_403_html',
               'http_500_data', 'http_429_data', 'redirect_loop']
# failures that say nothing about whether the archive holds the file
NO_ANSWER = ['refused', 'dns', 'connect_timeout', 'read_timeout', 'reset',
             'cut_body', 'reset_body', 'timeout_body', 'ftp:reset',
             'ftp:busy', 'ftp:temp', 'ftp:eof', 'ftp:denied',
             'ftp:data_reset', 'ftp:data_short', 'ftp:data_timeout']


def generate(rng, tier, index):
    names = sorted(ARCHIVES)
    name = names[index % len(names)]
    p = ARCHIVES[name].gen(rng)
    scn = {'archive': name, 'p': p, 'net_faults': [], 'ftp_faults': [],
           'disk_faults': [], 'chunk': rng.choice([None, None, 3, 800]),
           'preexisting': rng.random() < 0.3}
    n = p.get('ndays') or p.get('nmonths')
    if rng.random() < 0.5:
        if name == 'bsrn':
            if p['save'] and rng.random() < 0.5:
                op = rng.choice(['write', 'write', 'open', 'close'])
                scn['disk_faults'].append({
                    'op': op, 'nth': rng.randrange(n),
                    'kind': {'write': rng.choice(['enospc', 'eio', 'short']),
                             'open': rng.choice(['eacces', 'emfile']),
                             'close': 'enospc'}[op]})
            else:
                op = rng.choice(['connect', 'USER', 'PASS', 'CWD', 'TYPE',
                                 'PASV', 'RETR', 'RETR', 'data', 'data'])
                scn['ftp_faults'].append({
                    'op': op, 'nth': rng.randrange(n) if op in
                    ('PASV', 'RETR', 'data', 'TYPE') else 0,
                    'kind': rng.choice(['data_reset', 'data_short',
                                        'data_timeout']) if op == 'data'
                    else rng.choice(['reset', 'busy', 'temp', 'eof', 'denied']),
                    'arg': rng.randrange(10 ** 2) / 10 ** 2})
        else:
            for _ in range(rng.choice([1, 1, 2])):
                scn['net_faults'].append({
                    'step': rng.randrange(n), 'kind': rng.choice(HTTP_FAULTS),
                    'arg': rng.randrange(10 ** 3) / 10 ** 3})
    return scn


def execute(scn, sim):
    name, p = scn['archive'], scn['p']
    srv = ARCHIVES[name](p, sim)
    sim.disk = disk = Disk(sim)
    try:
        run(scn, sim, name, p, srv, disk)
    finally:
        disk.cleanup()


def run(scn, sim, name, p, srv, disk):
    net = Net(sim, srv, scn['net_faults'], chunk=scn['chunk'])
    files = srv.files()
    held = srv.held()
    local = None
    if name == 'bsrn':
        srv.setup(net)
        net.ftp_faults = [dict(f) for f in scn['ftp_faults']]
        if p['save']:
            local = disk.path('copies')
            os.makedirs(local)
            if scn['preexisting']:         # an old copy of another length
                disk.put('copies/' + os.path.basename(files[0][0]),
                         b'old' * 4000)
    # what each file gives when it is read on its own
    own = {}
    for i in held:
        path = disk.put('own/' + files[i][0], files[i][1])
        o = call(srv.own, path)
        if o.ok:
            own[i] = o.value
        else:
            sim.violate('own-file-unreadable', f'{name}: {o.brief()}',
                        key=name)
            return
    sim.net = net
    disk.faults = [dict(f) for f in scn['disk_faults']]
    disk.nreads = disk.nwrites = disk.nopens = 0
    out = call(srv.call, local) if name == 'bsrn' else call(srv.call)
    disk.faults = []
    sim.event('outcome', out.brief())
    struck = [k for k in net.fired if k != 'slow'] + \
        [k for k in sim.faults if k.startswith('disk:')]
    msgs = [str(w.message) for w in out.warnings]
    sim.sign(name, len(files), ''.join(
        '01'[i in held] for i in range(len(files))), '+'.join(struck),
        out.ok or type(out.exc).__name__)
    if held:
        sim.probe('held')

    def bad(kind, text):
        sim.violate(kind, f'{name}: {text}', key=name)

    if not out.ok:
        if not struck and held:
            bad('download-failed', out.brief() + out.tb)
        sim.probe('raised')
        return
    sim.probe('returned')
    # which files may be absent: not held; or hit by a fault and named
    base = os.path.basename
    got = []
    with sim.judging('result', key=name):
        data = out.value[0]
        missing_named = True
        want = list(held)
        if struck:
            # a file may have been given up, but not in silence
            want = [i for i in held if not any(base(files[i][0]) in m
                                               for m in msgs)]
        if not want:
            if len(data):
                raise Violation('records-of-no-file', f'{len(data)} records')
        else:
            exp_cols = {c: np.concatenate([files[i][3][c] for i in want])
                        for c in files[want[0]][3]}
            idx = np.concatenate([files[i][2] for i in want])
            extra = [c for c in data.columns if c not in exp_cols]
            check_frame(data, dict(index=idx, cols=exp_cols,
                                   optional=extra), name)
            alone = pd.concat([own[i][0] for i in want])
            if list(alone.columns) != list(data.columns):
                raise Violation('not-as-read-alone',
                                f'{name}: columns {list(data.columns)} '
                                f'instead of {list(alone.columns)}')
            try:
                pd.testing.assert_frame_equal(data, alone, check_freq=False)
            except AssertionError as e:
                raise Violation('not-as-read-alone', f'{name}: {e}')
            check_meta(out.value[1], srv.meta(), name)
    for i in range(len(files)):
        f = base(files[i][0])
        named = any(f in m for m in msgs)
        if i not in held and not named and (held or name != 'bsrn'):
            bad('missing-file-not-named', f'{f}; warnings: {msgs}')
        if i in held and named and not struck:
            bad('held-file-called-missing', f'{f}; warnings: {msgs}')
    if [i for i in held if any(base(files[i][0]) in m for m in msgs)] and \
            struck and all(k in NO_ANSWER or k.startswith('disk:')
                           for k in struck):
        bad('failure-called-missing', f'{struck} but only a warning: {msgs}')
    if not held and not msgs and not struck:
        bad('nothing-said', 'no file is held and no warning was given')
    if local is not None:
        for i in held:
            f = base(files[i][0])
            if any(f in m for m in msgs):
                continue
            try:
                copy = disk.get('copies/' + f)
            except OSError as e:
                bad('local-copy-missing', f'{f}: {e}')
                continue
            if copy != files[i][1]:
                bad('local-copy-differs', f'{f}: {len(copy)} bytes, the '
                    f'archive\'s file has {len(files[i][1])}')
        present = sorted(os.listdir(local))
        named = {base(files[i][0]) for i in range(len(files))}
        extra = [x for x in present if x not in named]
        if extra:
            bad('stray-local-file', str(extra))


def nontrivial(scn, sim):
    return sim.probes.get('held', 0) > 0


def signature(scn, sim):
    return '|'.join(sim.sig)
