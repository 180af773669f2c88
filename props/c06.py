"""C06: a file cut short is rejected or read as far as it goes."""
import io

import pandas as pd

from dst.core import call
from dst.disk import Disk
from dst.formats import (FORMATS, gz, is_binary, same_value, text_encoding,
                         unpack)

ID = 'C06'
QUICK_RUNS, THOROUGH_RUNS = 1200, 40000
SHRINK = ['cuts']
RULE = ('a run = one generated weather file, read intact once and then cut '
        'at chosen byte positions (uniform, near line ends, in the header, '
        'in the last records, in the middle of a number) and read from a '
        'path or buffer, for gzip files with the compressed bytes cut. '
        'Non-trivial: the intact file was read. Distinct: (format, option '
        'set, class of cut position, outcome).')
MEASURE = 'tuples (format, sample, source, for each cut its class and the number of records read)'
REAL = ['pvlib.iotools readers, retrieve_sam', 'pandas parsers',
        'Python buffered/text I/O', 'gzip']
STUB = ['raw file layer (the file ends early)']
ASSUMPTIONS = [
    'the record that contains the cut may be incomplete (any content)',
    'when not one record is read, the metadata is not judged (the '
    'header itself was cut)',
    'a torn field may make its column text; the other values of the '
    'column must be the same numbers',
    'metadata that stands after the records in the file is read as far as '
    'it goes',
    'in files that hold several logical records (BSRN) a record read from '
    'one logical record lacks the columns of those that were cut off']


def generate(rng, tier, index):
    names = sorted(FORMATS)
    name = names[(index + index // len(names)) % len(names)]
    if name == 'pvgis_tmy' and rng.random() < .6:     # large files
        name = rng.choice(names)
    F = FORMATS[name]
    p = F.gen(rng)
    if p.get('rows') == 1:
        p['rows'] = 5
    big = name == 'pvgis_tmy'
    n = 3 if big else 12
    cuts = []
    for _ in range(n):
        # line: relative line number; col: relative position within the line
        # (1.0: its newline cut off too)
        cuts.append([rng.choice(['byte', 'byte', 'line', 'eol', 'eol',
                                 'head', 'tail', 'number']),
                     rng.randrange(10 ** 6) / 10 ** 6])
    src = [s for s in F.sources if s in ('path', 'text', 'memory', 'gz')]
    return {'fmt': name, 'p': p, 'cuts': cuts, 'source': rng.choice(src)}


def position(data, cut):
    how, r = cut
    n = len(data)
    if how == 'byte':
        return int(r * n)
    ends = [i for i, b in enumerate(data) if b == 10]
    if not ends:
        return int(r * n)
    k = ends[int(r * len(ends)) % len(ends)]
    if how == 'line':                       # complete lines only
        return k + 1
    if how == 'eol':                        # just before the line end or
        return max(0, k - int(r * 1e6) % 3)  # within its last characters
    if how == 'head':
        return int(r * min(n, ends[min(len(ends) - 1, 12)]))
    if how == 'tail':
        return n - 1 - int(r * min(n - 1, 400))
    k = int(r * n)                          # after the next digit
    while k < n and not (48 <= data[k] <= 57):
        k += 1
    return min(k + 1, n - 1)


def read(F, p, kind, data, disk):
    name = F.fname(p)
    if kind == 'memory':
        if is_binary(F, p):
            return call(F.call, p, io.BytesIO(data))
        try:
            text = io.TextIOWrapper(io.BytesIO(data), encoding=text_encoding(
                F, p) or 'utf-8').read()
        except UnicodeDecodeError:
            return None
        return call(F.call, p, io.StringIO(text))
    path = disk.put(name + ('.gz' if kind == 'gz' else ''), data)
    if kind != 'text':
        return call(F.call, p, path)
    if is_binary(F, p):
        with open(path, 'rb') as f:
            return call(F.call, p, f)
    with open(path, 'r', encoding=text_encoding(F, p)) as f:
        return call(F.call, p, f)


def execute(scn, sim):
    sim.disk = disk = Disk(sim)
    try:
        run(scn, sim, disk)
    finally:
        disk.cleanup()


def run(scn, sim, disk):
    F, p, kind = FORMATS[scn['fmt']], scn['p'], scn['source']
    plain = F.data(p)
    data = gz(plain) if kind == 'gz' else plain
    ref = read(F, p, kind, data, disk)
    if not ref.ok:
        sim.violate('intact-file-rejected', f'{F.name} {p}: {ref.brief()}\n'
                    f'{ref.tb}', key=F.name)
        return
    sim.probe('read:' + F.name)
    sim.sign(F.name, p.get('sample', p.get('fmt', '')), kind)
    for cut in scn['cuts']:
        k = position(data, cut)
        if k >= len(data):
            continue
        sim.fault('file_cut:' + cut[0])
        part = data[:k]
        out = read(F, p, kind, part, disk)
        if out is None:
            continue
        sim.event('cut', k, out.brief()[:100])
        sim.probe('rejected' if not out.ok else 'read_as_far')
        n = 'x' if not out.ok else len(unpack(out.value)[0]) if \
            unpack(out.value)[0] is not None else 'd'
        sim.sign(cut[0][0] + str(n))
        if not out.ok:
            continue
        where = f'{F.name} ({p.get("sample", p.get("fmt", ""))}, {kind}) ' \
                f'cut at byte {k} of {len(data)} ({part[-30:]!r})'
        key = F.name + (':' + p['fmt'] if 'fmt' in p else
                        ':json' if 'json' in str(p.get('sample')) else '')
        torn = kind == 'gz' or not part.endswith(b'\n')
        with sim.judging('misread', key=key):
            judge(sim, F, p, where, key, ref.value, out.value, torn, plain)


def leaves(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def judge(sim, F, p, where, key, a, b, torn, plain):
    fa, ma = unpack(a)
    fb, mb = unpack(b)
    if fa is None:
        # a tree of settings: a prefix of the intact tree
        la, lb = list(leaves(ma)), list(leaves(mb))
        lb = lb[:-1] if lb else lb
        if len(lb) > len(la) or any(
                x != y or not same_value(v, w)
                for (x, v), (y, w) in zip(la, lb)):
            bad = next(((x, y) for x, y in zip(la, lb) if x != y), None)
            sim.violate('misread', f'{where}: {bad}', key=key)
        return
    if F.name == 'sam':              # one device per column
        fa, fb = fa.T, fb.T
        if len(fb) == 0:
            return
    if len(fb) == 0:         # not one record was read: no data to misread
        return
    # metadata
    bad = meta_diff(ma, mb, F, plain)
    if bad:
        sim.violate('metadata-misread', f'{where}: {bad}', key=key)
    if len(fb) > len(fa) + (F.name == 'bsrn' and torn):
        sim.violate('misread', f'{where}: {len(fb)} records, the intact file '
                    f'has {len(fa)}', key=key)
        return
    ca, cb = list(fa.columns), list(fb.columns)
    several = F.name == 'bsrn'
    if ca != cb and not (several and [c for c in ca if c in cb] == cb):
        sim.violate('misread', f'{where}: columns {cb}, intact {ca}',
                    key=key)
        return
    m = len(fb) - 1 if torn else len(fb)
    if several:
        m = len(fb)
    ia, ib = fa.index, fb.index
    if str(ia.dtype) != str(ib.dtype) and m > 0:
        sim.violate('misread', f'{where}: index {ib.dtype}, intact '
                    f'{ia.dtype}', key=key)
        return
    if several:
        # every record of the cut file but the last must be one of the file
        pos = ia.get_indexer(ib)
        lost = [i for i in range(len(ib)) if pos[i] < 0]
        if lost and not (torn and len(lost) == 1):
            sim.violate('misread', f'{where}: records at '
                        f'{[str(ib[i]) for i in lost[:3]]} are not in the '
                        'file', key=key)
            return
        for c in cb:
            x = fb[c]
            held = [i for i in range(len(ib)) if not pd.isna(x.iloc[i])]
            for i in held[:-1]:
                if pos[i] < 0 or not equal(fa[c].iloc[pos[i]],
                                           x.iloc[i]):
                    sim.violate('misread', f'{where}: {c} at {ib[i]}: '
                                f'{x.iloc[i]!r}, intact '
                                f'{fa[c].iloc[pos[i]]!r}', key=key)
                    return
        return
    if F.name == 'srml' and len(fb) == 2:
        key = 'srml:second-record'
    for i in range(m):
        if i == len(fb) - 1 and p.get('coerce') and F.name == 'tmy3':
            break     # documented: the last record is in the next year
        if not same_value(ia[i], ib[i]):
            sim.violate('misread', f'{where}: record {i} at {ib[i]}, intact '
                        f'{ia[i]}', key=key)
            return
    for c in range(len(ca)):
        x, y = fa.iloc[:m, c], fb.iloc[:m, c]
        for i in range(m):
            if not equal(x.iloc[i], y.iloc[i]):
                sim.violate('misread', f'{where}: {ca[c]} of record {i}: '
                            f'{y.iloc[i]!r}, intact {x.iloc[i]!r}', key=key)
                return


def equal(a, b):
    if same_value(a, b):
        return True
    # a torn last field ('-', '1.2e') makes its whole column text: the
    # same numbers all the same
    if isinstance(a, str) != isinstance(b, str):
        try:
            x, y = float(a), float(b)
        except (TypeError, ValueError):
            return False
        return abs(x - y) <= 1e-12 * max(abs(x), abs(y))
    return False


def meta_diff(ma, mb, F, plain):
    la, lb = dict(leaves(ma)), dict(leaves(mb))
    after = {'pvgis_hourly': 'descriptions', 'pvgis_tmy': 'descriptions'}.get(
        F.name)
    extra = [k for k in lb if k not in la]
    got_after = [k for k in lb if after in k]
    last = got_after[-1:]
    for k in extra:
        if k not in last:
            return f'{k} is not in the intact file'
    for k, v in la.items():
        if k not in lb:
            if after in k:
                continue
            return f'{k} is missing'
        if not same_value(v, lb[k]) and k not in last:
            return f'{k}: {lb[k]!r}, intact {v!r}'
    return None


def nontrivial(scn, sim):
    return any(k.startswith('read:') for k in sim.probes)
