"""C24 No operation fails on a name, attribute or argument that does not exist.

Four questions decided from the source for every function: is each name bound on the paths that read it (definite
assignment over correlated branches); does each name and imported name resolve; does each attribute read of an object of
known class exist, and is it set however the object was constructed (typestate of constructors); does each call of the
library's own functions bind to the callee's parameters."""
import ast, builtins, os, symtable
from ..report import HERE
from .common import *
from ..bound import Bound, St, Overflow, own
from ..types import Types
from ..typestate import Attrs
from ..loader import Func, Cls, Ext, GlobalVar, Module

NAME = 'every name read is bound'
IMPORT = 'every imported name exists'
ATTR = 'every attribute read exists'
SET = 'every attribute is set however the object was constructed'
CALL = 'every call fits the parameters of its callee'


def modnames(m):
    out = set(m.funcs) | set(m.classes) | set(m.assigns) | set(m.imports) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__all__'}
    star = False
    for x in own(m.tree):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                if a.name == '*':
                    star = True
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Global):
            out |= set(x.names)
    return out, star


def names(chk):
    for m in sorted(chk.prog.modules.values(), key=lambda m: m.name):
        known, star = modnames(m)
        if star:
            chk.unknown(NAME, m.short, 'imports every name of another module')
            continue
        with open(f'{chk.prog.root}/{m.rel}', encoding='utf-8') as fh:
            table = symtable.symtable(fh.read(), m.rel, 'exec')
        missing = set()
        count = 0

        def walk(t, path):
            nonlocal count
            for y in t.get_symbols():
                if y.is_referenced() and (y.is_global() or t.get_type() == 'module' and not y.is_assigned() and not y.is_imported()) and not y.is_assigned():
                    count += 1
                    if y.get_name() not in known and not hasattr(builtins, y.get_name()):
                        missing.add((y.get_name(), path or m.short))
            for c in t.get_children():
                walk(c, f'{path}.{c.get_name()}' if path else c.get_name())
        walk(table, '')
        chk.count('references to names of a module', count)
        for nm, where in sorted(missing):
            line = next((x.lineno for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == nm), 0)
            if any(nm in ast.unparse(x) for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef) and annotation_only(x, nm)):
                chk.unknown(NAME, f'{m.short}: {nm}', 'an annotation')
                continue
            chk.bad(NAME, f'{m.short}: {nm}', f'{nm}, read in {where}, is bound nowhere', f'{m.rel}:{line}')
        if not missing:
            chk.ok(NAME, m.short, f'{count} names')


def annotation_only(f, nm):
    anns = [a.annotation for a in ast.walk(f) if isinstance(a, ast.arg) and a.annotation is not None] + ([f.returns] if f.returns is not None else [])
    ann = {id(x) for a in anns for x in ast.walk(a)}
    uses = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == nm]
    return bool(uses) and all(id(x) in ann for x in uses)


def paths(chk):
    for f in chk.prog.all_functions():
        found = {}
        try:
            b = Bound(f.node, lambda nm, node, v, lossy: found.setdefault((nm, 'unknown' if lossy else v), node))
            b.maynone = chk.types.maynone
            b.run()
        except Overflow:
            chk.unknown(NAME, f.qual, 'too many paths')
            continue
        chk.count('functions whose paths were followed for unbound names')
        if not found:
            if b.locals:
                chk.ok(NAME, f.qual, f'{len(b.locals)} local names')
            continue
        for (nm, v), node in sorted(found.items(), key=lambda z: z[0]):
            if v == 'bad' and (nm, 'unknown') not in found:
                chk.bad(NAME, f'{f.qual}: {nm}', f'{nm} is read where a path leaves it unbound', f'{f.module.rel}:{node.lineno}')
            else:
                chk.unknown(NAME, f'{f.qual}: {nm}', 'bound on the paths that named alternatives and non-empty loops allow')


def imports(chk):
    for m in sorted(chk.prog.modules.values(), key=lambda m: m.name):
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.ImportFrom):
                continue
            base = target(m, x)
            if base is None or base not in chk.prog.modules:
                if base is not None and base.split('.')[0] == 'welleng' and not shielded(m, x):
                    chk.bad(IMPORT, f'{m.short}: {base}', f'module {base} does not exist', f'{m.rel}:{x.lineno}')
                continue
            t = chk.prog.modules[base]
            known, star = modnames(t)
            for a in x.names:
                if a.name == '*':
                    continue
                chk.count('imported names of the package')
                if a.name in known or star or f'{base}.{a.name}' in chk.prog.modules or '__getattr__' in t.funcs:
                    chk.ok(IMPORT, f'{m.short}: {base}.{a.name}', '')
                elif shielded(m, x):
                    chk.unknown(IMPORT, f'{m.short}: {base}.{a.name}', 'a failing import is provided for')
                else:
                    chk.bad(IMPORT, f'{m.short}: {base}.{a.name}', f'{base} has no {a.name}', f'{m.rel}:{x.lineno}')


def target(m, x):
    if not x.level:
        return x.module
    parts = m.name.split('.')
    if not m.rel.endswith('__init__.py'):
        parts = parts[:-1]
    parts = parts[:len(parts) - (x.level - 1)] if x.level > 1 else parts
    return '.'.join(parts + ([x.module] if x.module else []))


def shielded(m, x):
    return any(isinstance(t, ast.Try) and any(y is x for b in t.body for y in ast.walk(b)) for t in ast.walk(m.tree))


def guarded(f, e, attr):
    """the function asks about the attribute, or about the class, before"""
    names_ = {y.id for y in ast.walk(e) if isinstance(y, ast.Name)}
    for x in own(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == attr:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('isinstance', 'type', 'issubclass') and x.args and {y.id for y in ast.walk(x.args[0]) if isinstance(y, ast.Name)} & names_:
            return True
        if isinstance(x, ast.Try) and any(y is e for b in x.body for y in ast.walk(b)):
            for h in x.handlers:
                if h.type is None or {ast.unparse(z).rsplit('.', 1)[-1] for z in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])} & {'AttributeError', 'Exception', 'BaseException'}:
                    return True
    return False


def referenced(prog):
    out = {}
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute):
                out[x.attr] = out.get(x.attr, 0) + 1
            elif isinstance(x, ast.Name):
                out[x.id] = out.get(x.id, 0) + 1
            elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                out[x.value] = out.get(x.value, 0) + 1
    return out


def live(f, refs):
    """something could call it"""
    return not f.name.startswith('_') or f.name.startswith('__') or refs.get(f.name, 0) > 0 or f.decorators


def uses(chk):
    T = chk.types = Types(chk.prog)
    refs = referenced(chk.prog)
    for f in chk.prog.all_functions():
        na = nc = 0
        hit = False
        for x in own(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                mod = T.resolve(x.value, f) if isinstance(x.value, (ast.Name, ast.Attribute)) else None
                if isinstance(mod, Module):
                    known, star = modnames(mod)
                    na += 1
                    if x.attr not in known and not star and f'{mod.name}.{x.attr}' not in chk.prog.modules and '__getattr__' not in mod.funcs and not guarded(f, x, x.attr):
                        hit = True
                        chk.bad(ATTR, f'{f.qual}: {ast.unparse(x)}', f'module {mod.short} has no {x.attr}', f'{f.module.rel}:{x.lineno}')
                    continue
                if isinstance(mod, Cls):
                    na += 1
                    if not T.has(mod, x.attr) and mod.lookup(x.attr) is None and not enumlike(mod):
                        hit = True
                        chk.bad(ATTR, f'{f.qual}: {ast.unparse(x)}', f'{mod.qual} has no {x.attr}', f'{f.module.rel}:{x.lineno}')
                    continue
                t = T.of(x.value, f)
                if not t:
                    continue
                na += 1
                if all(not T.has(c, x.attr) for c in t) and not guarded(f, x, x.attr):
                    who = ' or '.join(sorted(c.qual for c in t))
                    if live(f, refs):
                        hit = True
                        chk.bad(ATTR, f'{f.qual}: {ast.unparse(x)}', f'{who} has no {x.attr}', f'{f.module.rel}:{x.lineno}')
                    else:
                        chk.unknown(ATTR, f'{f.qual}: {ast.unparse(x)}', f'{who} has no {x.attr}, in a private function that nothing calls')
            if isinstance(x, ast.Call):
                g = T.callee(x, f)
                if g is None:
                    continue
                nc += 1
                m = T.misfit(x, g, f)
                if m and not catches(f, x, 'TypeError'):
                    if live(f, refs):
                        hit = True
                        chk.bad(CALL, f'{f.qual}: {m}', f'{ast.unparse(x.func)}(...): {m}', f'{f.module.rel}:{x.lineno}')
                    else:
                        chk.unknown(CALL, f'{f.qual}: {m}', 'in a private function that nothing calls')
        chk.count('attribute reads of objects of known class', na)
        chk.count('calls bound to the parameters of their callee', nc)
        if not hit and na + nc:
            chk.ok('attributes and calls', f.qual, f'{na} attributes, {nc} calls')


def enumlike(c):
    return bool(c.node.bases)


def catches(f, x, kind):
    for t in own(f.node):
        if isinstance(t, ast.Try) and any(y is x for b in t.body for y in ast.walk(b)):
            for h in t.handlers:
                if h.type is None or {ast.unparse(z).rsplit('.', 1)[-1] for z in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])} & {kind, 'Exception', 'BaseException'}:
                    return True
    return False


def construct(chk, c, light, track=None, simple=False, methods=True):
    T = chk.types
    found = {}
    where = ['']

    def rep(cls, a, node, e, v, s):
        found.setdefault((a, where[0]), (v, node.name, e.lineno))
    A = Attrs(T, c, rep, light=light, budget=60000, loose=not methods)
    A.simple = simple
    if track is not None:
        A.track &= track
    look = c.lookup('__init__')
    ends = [St(frozenset(), {})]
    where[0] = 'the constructor'
    if look is not None and isinstance(look[1], Func):
        ends = A.run(look[1], ends)
    done = set()
    for k in c.mro() if methods else ():
        for f in k.all_functions():
            lk = c.lookup(f.name)
            if (f.is_setter or lk is not None and lk[1] is f) and T.me(f) and f.node not in done and (not f.name.startswith('_') or f.name in ('__call__', '__str__', '__repr__', '__len__', '__eq__')):
                done.add(f.node)
                where[0] = f.name
                A.run(f, ends)
    return A, ends, found, len(done)


def states(chk):
    T = getattr(chk, 'types', None) or Types(chk.prog)
    chk.types = T
    for c in sorted(chk.prog.all_classes(), key=lambda c: c.qual):
        if T.external_base(c) or any({'__getattr__', '__getattribute__'} & set(k.methods) for k in c.mro()):
            chk.unknown(SET, c.qual, 'attributes are also set by a base that is not followed')
            continue
        light = False
        try:
            A, ends, found, n_ = construct(chk, c, False, simple=True)
        except Overflow:
            chk.unknown(SET, c.qual, 'too many ways of construction')
            continue
        if not found:
            chk.count('statements followed', A.steps)
            chk.count('public methods followed from every end of construction', n_)
            chk.ok(SET, c.qual, f'{n_} operations, {len(A.track)} attributes, all set on every path')
            continue
        track = {a for a, _ in found}
        try:
            A, ends, found, n_ = construct(chk, c, False, track)
        except Overflow:
            try:
                light = True
                A, ends, found, n_ = construct(chk, c, True, track)
            except Overflow:
                chk.unknown(SET, c.qual, 'too many ways of construction')
                continue
        chk.count('ways a construction can end', len(ends))
        chk.count('statements followed', A.steps)
        chk.count('public methods followed from every end of construction', n_)
        hit = False
        for (a, entry), (v, fn, line) in sorted(found.items()):
            key = f'{c.qual}: {a} in {entry}'
            if not light and (v == 'bad' or v == 'never' and entry == 'the constructor'):
                hit = True
                chk.bad(SET, key, f'{a} is read by {fn}, reached from {entry}, where a way of construction leaves it unset', f'{c.module.rel}:{line}')
            else:
                chk.unknown(SET, key, 'set by named alternatives, by a loop, or by another operation that comes before')
        if not hit:
            chk.ok(SET, c.qual, f'{len(ends)} ends of construction, {n_} operations, {len(A.track)} attributes')


PUBLISHED = 'a published attribute is set by every construction'


def spec():
    out = {}
    with open(os.path.join(HERE, 'spec', 'published.txt')) as f:
        for l in f:
            q, _, a = l.strip().partition(': ')
            out[q] = a.split()
    return out


def published(chk):
    T = getattr(chk, 'types', None) or Types(chk.prog)
    chk.types = T
    for q, attrs in sorted(spec().items()):
        c = chk.prog.find(q)
        if not isinstance(c, Cls):
            chk.unknown(PUBLISHED, q, 'the class is gone')
            continue
        if T.external_base(c):
            chk.unknown(PUBLISHED, q, 'a base that is not followed')
            continue
        here = [a for a in attrs if c.lookup(a) is None]
        try:
            A, ends, found, n_ = construct(chk, c, False, simple=True, methods=False)
            miss = [a for a in here if a in A.track and any('me.' + a not in s.names for s in ends)]
            gone = [a for a in here if a not in A.track and a not in T.loose and not T.open(c)]
            if miss:
                A, ends, found, n_ = construct(chk, c, False, set(miss), methods=False)
        except Overflow:
            chk.unknown(PUBLISHED, q, 'too many ways of construction')
            continue
        chk.count('published attributes', len(attrs))
        bad = False
        for a in gone:
            chk.unknown(PUBLISHED, f'{q}.{a}', 'no longer an attribute')
        for a in miss:
            left = [s for s in ends if 'me.' + a not in s.names]
            if not left:
                continue
            v = {A.verdict(a, s.why) for s in left}
            if A.lossy or v == {'unknown'}:
                chk.unknown(PUBLISHED, f'{q}.{a}', 'set by named alternatives or by a loop')
            else:
                bad = True
                chk.bad(PUBLISHED, f'{q}.{a}', f'a way of construction leaves {a} unset', f'{c.module.rel}:{c.node.lineno}')
        if not bad:
            chk.ok(PUBLISHED, q, f'{len(attrs)} attributes')


def run(chk):
    chk.explanation = 'definite assignment, attribute existence, constructor typestate and call binding for every function'
    chk.types = Types(chk.prog)
    chk.group(names)
    chk.group(imports)
    chk.group(paths)
    chk.group(uses)
    chk.group(states)
    chk.group(published)


MINIMUM = 60
