"""tools/mkseed.py ID FILE <<< 'OLD\n=====\nNEW' : write seeded/ID/patch.diff
(several FILE/OLD/NEW triples can be separated by lines of '#####')"""
import difflib
import os
import sys
sid, body = sys.argv[1], sys.stdin.read()
out = []
new = {}
for blk in body.split('\n#####\n'):
    f, rest = blk.lstrip('\n').split('\n', 1)
    old, nw = rest.split('\n=====\n')
    old = old.rstrip('\n') + '\n'
    nw = nw.rstrip('\n') + '\n' if nw.strip() else ''
    s = new.get(f) or open('/repo/' + f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    new[f] = s.replace(old, nw)
for f, s in new.items():
    a = open('/repo/' + f).read().splitlines(True)
    d = ''.join(difflib.unified_diff(a, s.splitlines(True), 'a/' + f, 'b/' + f))
    out.append(f'diff --git a/{f} b/{f}\n' + d)
os.makedirs(f'/verif/seeded/{sid}', exist_ok=True)
open(f'/verif/seeded/{sid}/patch.diff', 'w').write(''.join(out))
print(''.join(out))
