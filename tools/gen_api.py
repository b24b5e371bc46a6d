"""freeze the names of the public operations (spec/api.txt); run by hand only"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vp.loader import Program
out = []
for f in Program().all_functions():
    if f.parent is None and (not f.name.startswith('_') or f.name == '__init__') and not (f.cls and f.cls.name.startswith('_')) and not f.module.short.startswith('errors.tools') and f.name != 'main':
        out.append(f.qual)
open(os.path.join(HERE, 'spec', 'api.txt'), 'w').write('\n'.join(sorted(set(out))) + '\n')
print(len(set(out)))
