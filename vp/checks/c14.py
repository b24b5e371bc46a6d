"""C14 every accepted option takes effect."""
import ast
import os
import re
from ..influence import Influence, KINDS, NONE, CHECK, STORE, EFFECT, allparams
from ..loader import Func, Cls
from ..report import HERE
from ..types import Types
from .c07 import api

TAKES = 'every option takes effect'
RESULT = 'an option that shaped the result still does'
STATE = 'an option that shaped a published attribute still does'
PASSED = 'an option both accept is passed on'


def table(name):
    out = {}
    with open(os.path.join(HERE, 'spec', name)) as f:
        for l in f:
            l = l.split('#')[0].strip()
            if l:
                a, _, b = l.partition(': ')
                out[a] = b.split()
    return out


def number(f, p):
    """an option that takes a number: a float by default, or said to be one"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update((x.arg, v) for x, v in zip(a.kwonlyargs, a.kw_defaults))
    v = d.get(p)
    if isinstance(v, ast.UnaryOp):
        v = v.operand
    if isinstance(v, ast.Constant) and type(v.value) is float:
        return True
    for x in pos + a.kwonlyargs:
        if x.arg == p and x.annotation is not None:
            names = {y.id for y in ast.walk(x.annotation) if isinstance(y, ast.Name)}
            return 'float' in names and not names & {'bool', 'str'}
    m = re.search(rf'^\s*{p}\s*:(.*)', ast.get_docstring(f.node) or '', re.M)
    return bool(m and 'float' in m.group(1) and not re.search('bool|str|dict|obj', m.group(1)))


def sets(f):
    """attributes given values by name in the body"""
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
            out.add(x.attr)
        elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
            out.add(x.value)
    return out


def public(prog):
    names = api()
    return [f for f in prog.all_functions() if f.parent is None and f.qual in names and not f.is_setter]


def influence(chk):
    if not hasattr(chk, 'inf'):
        chk.types = Types(chk.prog)
        chk.inf = Influence(chk.types)
    return chk.inf


def catchall(f, p):
    a = f.node.args
    return a.vararg is not None and p == a.vararg.arg or a.kwarg is not None and p.split(':')[0] == a.kwarg.arg


def takes(chk):
    I = influence(chk)
    ignored = {tuple(x.split(' ')) for x in table('ignored.txt')}
    frozen = table('options.txt')
    for f in public(chk.prog):
        me = chk.types.me(f)
        old = {x.split('=')[0]: x.split('=')[1] for x in frozen.get(f.qual, [])}
        s = I.sum(f)
        for p in allparams(f):
            if p == me or f.is_classm and p == f.params()[0]:
                continue
            chk.count('options')
            k = I.kind(f, p)
            key = f'{f.qual}: {p}'
            was = old.get(p)
            if k == NONE or k == CHECK and was not in (None, 'check', 'none'):
                if was == 'none' and (f.qual, p) in ignored:
                    chk.ok(TAKES, key, 'kept for compatibility or documented as unused')
                elif catchall(f, p) and was in (None, 'none'):
                    chk.ok(TAKES, key, 'collects what is left over')
                elif was is None and f.qual not in frozen and k == NONE:
                    chk.unknown(TAKES, key, 'a parameter that nothing depends on, of a function that is new')
                else:
                    chk.bad(TAKES, key, f'nothing that {f.qual} returns, stores or does depends on {p}' + (' beyond a check of it' if k == CHECK else ''), f.loc)
                continue
            if k == STORE and was in ('effect', 'ret'):
                chk.bad(TAKES, key, f'{p} is only stored in an attribute that nothing reads', f.loc)
                continue
            chk.ok(TAKES, key, KINDS[k], f.loc)
            if was == 'ret' and s is not None and not {p, '~' + p} & s.ret:
                chk.bad(RESULT, key, f'what {f.qual} returns no longer depends on {p}', f.loc)
            elif was == 'ret' and s is not None and p not in s.ret and number(f, p):
                chk.bad(RESULT, key, f'what {f.qual} returns depends on whether {p} is given or not, no longer on its value', f.loc)
            elif was == 'ret':
                chk.ok(RESULT, key)
        # keywords taken out of **kwargs
        for p, was in old.items():
            if ':' in p and f.node.args.kwarg is not None and was != 'none':
                kw = f.node.args.kwarg.arg
                name = kw + ':' + p.split(':')[1]
                if s is None:
                    continue
                if not {name, '~' + name} & (s.ret | s.eff | set().union(*s.store.values(), set())):
                    if {kw, '~' + kw} & (s.ret | s.eff | set().union(*s.store.values(), set())):
                        chk.unknown(TAKES, f'{f.qual}: {p}', 'the extra keywords are used in a way that is not followed')
                    elif name.split(':')[1] in allparams(f):
                        chk.ok(TAKES, f'{f.qual}: {p}', 'now a named parameter')
                    else:
                        chk.bad(TAKES, f'{f.qual}: {p}', f'nothing depends on the keyword {p.split(":")[1]} any more', f.loc)
                else:
                    chk.ok(TAKES, f'{f.qual}: {p}')


def state(chk):
    I = influence(chk)
    by = {f.qual: f for f in public(chk.prog)}
    for k, ps in sorted(table('influences.txt').items()):
        q, _, a = k.rpartition(' ')
        f = by.get(q)
        if f is None:
            continue
        s = I.sum(f)
        if s is None or a not in s.store and a not in chk.types.allstores(f.cls):
            chk.unknown(STATE, f'{q}: {a}', 'no longer an attribute')
            continue
        now = s.store.get(a, set()) | s.store.get('*', set())
        have = allparams(f)
        for p in ps:
            key = f'{q}: {p} -> {a}'
            chk.count('attributes and the options they depend on')
            if p not in have:
                chk.unknown(STATE, key, 'no longer a parameter')
            elif p not in now and '~' + p in now and number(f, p):
                chk.bad(STATE, key, f'the attribute {a} depends on whether {p} is given or not, no longer on its value', f.loc)
            elif {p, '~' + p} & now:
                chk.ok(STATE, key)
            elif I.never_set_here(f, a, s):
                chk.unknown(STATE, key, 'the attribute is no longer set by the construction')
            else:
                chk.bad(STATE, key, f'the attribute {a} no longer depends on {p}', f.loc)


def passed(chk):
    I = influence(chk)
    for f in chk.prog.all_functions():
        if f.parent is None:
            I.sum(f)
    known = {tuple(x.split(' ')) for x in table('omitted.txt')}
    for key, loc in sorted(I.handed.items()):
        if key not in I.omitted:
            chk.ok(PASSED, f'{key[0]} > {key[1]}: {key[2]}', '', loc)
    names = api()
    fed = {tuple(x.split(' ')) for x in table('fed.txt')}
    by = {f.qual: f for f in chk.prog.all_functions()}
    for key, loc in sorted(I.omitted.items()):
        c = f'{key[0]} > {key[1]}: {key[2]}'
        if key in known and not (key in fed and key not in I.handed):
            chk.ok(PASSED, c, 'reviewed', loc)
        elif key[1] not in names or key[0] not in names:
            chk.unknown(PASSED, c, 'a private function')
        elif key in I.fed and key in fed:
            chk.unknown(PASSED, c, 'passed on by another call', loc)
        elif key[2] in sets(by[key[0]]):
            chk.unknown(PASSED, c, 'set as an attribute, or named in a string', loc)
        else:
            chk.bad(PASSED, c, f'{key[0]} calls {key[1]} without its own {key[2]}, so that the default of {key[1]} is used', loc)
    for key in sorted(fed):
        if key in I.constant and key not in I.fed:
            chk.bad(PASSED, f'{key[0]} > {key[1]}: {key[2]} as given', f'{key[0]} gives {key[1]} a {key[2]} that does not depend on its own', I.constant[key])
        elif key in I.fed:
            chk.ok(PASSED, f'{key[0]} > {key[1]}: {key[2]} as given', '', I.fed[key])
        elif key in I.handed and key not in I.flows and key not in I.constant and key[:2] not in I.starred and key not in I.omitted:
            if key[2] in sets(by[key[0]]):
                chk.unknown(PASSED, f'{key[0]} > {key[1]}: {key[2]} as given', 'set as an attribute, or named in a string', I.handed[key])
            else:
                chk.bad(PASSED, f'{key[0]} > {key[1]}: {key[2]} as given', f'{key[0]} looks at its {key[2]} before it calls {key[1]}, and no longer passes it on', I.handed[key])


def run(chk):
    chk.explanation = 'forward flow of parameters (data and control) into results, effects, attributes and calls of every public function'
    chk.group(takes)
    chk.group(state)
    chk.group(passed)


MINIMUM = 200
