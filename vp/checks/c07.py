"""C07 Library calls never modify the data their caller passed in.

Ownership analysis: every in-place change in the package (element and attribute stores, augmented assignments, mutating
methods, out= arguments) is traced back, over calls and over the attributes that keep references, to the object it hits.
No public operation may hit an object that its caller passed in, now or when it is called later on an object that kept a
reference to it, nor a default argument value."""
import ast, os, re
from .common import *
from ..owner import Owner, element, part
from ..report import HERE

# what an operation is documented to fill in: (function, parameter) -> reason
COLLECTS = {
    'connector.minimize_target_pos_and_vec_defined': ('c', 'pos3'),       # objective of the solver: it moves the solver state
    'connector.get_min_curve': ('data',), 'connector.get_interpolate_hold': ('data',), 'connector.get_interpolate_min_curve_to_target': ('data',),
    'connector.get_interpolate_min_dist_to_target': ('data',), 'connector.get_interpololate_curve_hold_curve': ('data',),
    'io.get_well_data': ('data',), 'io.acr_setup': ('data',), 'io.get_clearance_data': ('data',), 'io.make_survey': ('data',),
    'exchange.edm.EDM.add_attributes': ('attributes', 'additional'), 'exchange.edm.EDM.get_parents': ('predecessors',), 'exchange.edm.Well.get_parent_surveys': ('data',),
    'exchange.wbp.add_targets': ('doc',), 'exchange.wbp.add_location': ('doc',), 'exchange.wbp.add_header': ('doc',), 'exchange.wbp.add_step': ('doc',),
    'exchange.wbp.add_turn_point': ('doc',), 'exchange.wbp.add_survey_point': ('doc',), 'exchange.wbp.add_comments': ('doc',), 'exchange.wbp.add_end': ('doc',),
}
# a part that is only reached after the operation put its own object there
OWN_PART = {('exchange.wbp.WellPlan', 'targets')}
RULE = 'data passed in by the caller is left alone'
KEPT = 'data kept from the caller is left alone'
SHARED = 'default argument values are left alone'


def api():
    with open(os.path.join(HERE, 'spec', 'api.txt')) as f:
        return set(f.read().split())


def where(ev):
    m = ev.via[-1][1] if ev.via else ev.node
    q = ev.via[-1][0] if ev.via else ev.func.qual
    return q, getattr(m, 'lineno', 0)


def path(ev):
    return ' > '.join([f'line {getattr(ev.node, "lineno", "?")}'] + [f'{q} line {getattr(n_, "lineno", "?")}' for q, n_ in ev.via])


def mutable_default(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and not (isinstance(d.func, ast.Attribute) and d.func.attr in ('radians', 'deg2rad', 'float64', 'sqrt'))


def defaults(f):
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(reversed(ps), reversed(a.defaults)))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d


def exempt(f, b):
    if b[1] in COLLECTS.get(f.qual, ()):
        return True
    return f.cls is not None and b[0] == 'p*' and (f.cls.qual, b[1]) in OWN_PART


def container(f, p):
    """an array or a list may be given as p, as its documentation says"""
    texts = [f] + ([f.cls] if f.cls is not None and f.name == '__init__' else [])
    for x in texts:
        m = re.search(rf'^\s*{re.escape(p)}\s*:(.*(?:\n.*)?)', ast.get_docstring(x.node) or '', re.M)
        if m and re.search(r'array|\blist\b', m.group(1).split('\n')[0], re.I):
            return True
    a = f.node.args
    for y in a.posonlyargs + a.args + a.kwonlyargs:
        if y.arg == p and y.annotation is not None and re.search(r'[aA]rray|list', ast.unparse(y.annotation), re.I):
            return True
    return False


def passed(chk, own, names):
    for f in own.funcs:
        if f.parent is not None:
            continue
        s = own.sum[f.node]
        mine = [(b, sure, ev) for (b, sure), ev in s.events.items() if b[0] in ('p', 'p*')]
        ds = defaults(f)
        for (b, sure, ev) in mine:
            if sure and b[0] == 'p' and b[1] in ds and mutable_default(ds[b[1]]):
                chk.bad(SHARED, f'{f.qual}: {b[1]}', f'the default value of {b[1]} is one object for all calls, and {ev.how} changes it ({path(ev)})', f'{f.module.rel}:{ev.node.lineno}')
        if f.qual not in names:
            continue
        ps = [p for p in f.all_params() if not (f.cls is not None and not f.is_static and p == (f.params() or [''])[0])]
        a = f.node.args
        ps += [x.arg for x in (a.vararg, a.kwarg) if x]
        for p in ps:
            evs = [(b, sure, ev) for b, sure, ev in mine if b[1] == p and not exempt(f, b)]
            sure = [x for x in evs if x[1] or x[0][0] == 'p' and container(f, p)]
            if sure:
                b, _, ev = sure[0]
                chk.bad(RULE, f'{f.qual}: {p}', f'{"a part of " if b[0] == "p*" else ""}the object given as {p} is changed by {ev.how} ({path(ev)})', f'{f.module.rel}:{getattr(ev.node, "lineno", 0)}')
            elif evs:
                chk.unknown(RULE, f'{f.qual}: {p}', f'{evs[0][2].how}: changes the object only if it is not a plain number', f'{f.module.rel}:{evs[0][2].node.lineno}')
            else:
                chk.ok(RULE, f'{f.qual}: {p}', '', f.loc)


def kept(chk, own, names):
    for c in chk.prog.all_classes():
        if c.module.short.startswith('errors.tools'):
            continue
        vals = own.attr_values(c)
        for f in c.all_functions():
            if f.name == '__init__' or f.name.startswith('_') and not f.name.startswith('__') and f.qual not in names:
                continue
            for (b, sure), ev in own.sum[f.node].events.items():
                if b[0] not in ('a', 'a*'):
                    continue
                hits = []
                for v, g in vals.get(b[1], []):
                    if g.qual not in names:
                        continue
                    src = v[0] if b[0] == 'a' else part(v, b)[0]
                    for x in src:
                        if x[0] in ('p', 'p*') and not exempt(g, (b[0] if False else x[0], x[1])) and not (b[0] == 'a*' and (c.qual, x[1]) in OWN_PART):
                            hits.append((x, g))
                if not hits:
                    chk.ok(KEPT, f'{f.qual}: {b[1]}', '', f.loc)
                    continue
                x, g = hits[0]
                if sure or b[0] == 'a' and x[0] == 'p' and container(g, x[1]):
                    chk.bad(KEPT, f'{f.qual}: {b[1]}', f'{ev.how} ({path(ev)}) changes the object the caller gave to {g.qual} as {x[1]}, kept in {b[1]}', f'{f.module.rel}:{getattr(ev.node, "lineno", 0)}')
                else:
                    chk.unknown(KEPT, f'{f.qual}: {b[1]}', f'{ev.how}: changes the object given to {g.qual} only if it is not a plain number')


_cache = {}


def owner(chk):
    if 'o' not in _cache:
        _cache['o'] = Owner(chk.prog)
    o = _cache['o']
    chk.count('functions summarised', len(o.sum))
    chk.count('rounds to the fixpoint', o.rounds)
    chk.count('in-place changes traced', sum(len(s.events) for s in o.sum.values()))
    return o


def run(chk):
    chk.explanation = ('ownership analysis of every function of the package (fixpoint over the call graph): in-place changes are traced to the objects they hit; '
                       'for every public operation and parameter none may be the caller\'s object or a default value')
    o = owner(chk)
    names = api()
    chk.group(passed, o, names)
    chk.group(kept, o, names)


MINIMUM = 100
