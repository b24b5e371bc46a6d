"""spec/published.txt: the public attributes that every construction of each public class sets"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vp.report import Check
from vp.types import Types
from vp.checks import c24

chk = Check('C24', 'quick')
chk.types = Types(chk.prog)
out = []
for c in sorted(chk.prog.all_classes(), key=lambda c: c.qual):
    if c.name.startswith('_') or chk.types.external_base(c):
        continue
    A, ends, found, n = c24.construct(chk, c, False, simple=True, methods=False)
    a = [x[3:] for x in sorted(set.intersection(*[set(s.names) for s in ends]) if ends else ()) if not x.startswith('me._')]
    # what a part-wise analysis cannot settle, the full one may
    rest = {x for x in A.track if x not in a and not x.startswith('_')}
    if rest:
        try:
            B, ends, found, n = c24.construct(chk, c, False, rest, methods=False)
            if not B.lossy:
                a += [x[3:] for x in sorted(set.intersection(*[set(s.names) for s in ends]) if ends else ())]
        except Exception as e:
            print(c.qual, type(e).__name__)
    if a:
        out.append(f'{c.qual}: {" ".join(sorted(set(a)))}\n')
with open(os.path.join(HERE, 'spec', 'published.txt'), 'w') as f:
    f.writelines(out)
print(len(out))
