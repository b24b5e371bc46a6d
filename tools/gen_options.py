"""spec/options.txt (what each option of each public function influences), influences.txt (attribute <- options), fed.txt"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vp.report import Check
from vp.checks import c14
from vp.influence import KINDS, allparams

chk = Check('C14', 'quick')
I = c14.influence(chk)
opts, infl = [], []
for f in sorted(c14.public(chk.prog), key=lambda f: f.qual):
    s = I.sum(f)
    me = chk.types.me(f)
    l = []
    for p in allparams(f):
        if p == me:
            continue
        k = KINDS[I.kind(f, p)]
        if {p} & s.ret:
            k = 'ret'
        l.append(f'{p}={k}')
    keys = {x.lstrip('~') for x in s.ret | s.eff | set().union(*s.store.values(), set()) if ':' in x}
    l += [f'{x}=effect' for x in sorted(keys)]
    if l:
        opts.append(f'{f.qual}: {" ".join(l)}\n')
    for a, ps in sorted(s.store.items()):
        d = sorted(x for x in ps if x[0] != '~' and ':' not in x)
        if d and not a.startswith('_') and a != '*':
            infl.append(f'{f.qual} {a}: {" ".join(d)}\n')
for f in chk.prog.all_functions():
    if f.parent is None:
        I.sum(f)
names = c14.api()
fed = [f'{" ".join(k)}\n' for k in sorted(I.fed) if k not in I.constant and k[0] in names and k[1] in names]
for n, l in (('options.txt', opts), ('influences.txt', infl), ('fed.txt', fed)):
    with open(os.path.join(HERE, 'spec', n), 'w') as f:
        f.writelines(l)
    print(n, len(l))
for k in sorted(I.omitted):
    print('omitted', *k)
