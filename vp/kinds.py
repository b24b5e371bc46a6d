"""Dataflow of quantity kinds: angle unit (degrees, radians), azimuth reference, and which survey's depths and positions.

Each function is followed statement by statement with a kind for every name and for the attributes of its own object.
Constants are followed as well, so that a flag that is assumed (degrees or radians, the azimuth reference of the source)
decides its branches; where paths meet, kinds that differ become unknown. Repository functions are entered with the kinds
of their arguments; what is unknown is never reported."""
import ast, math
from types import SimpleNamespace
from .loader import Func, Cls, Ext, GlobalVar, Module

Q = ('q', '')


def q(text):
    return ('q', text)


def c(x):
    return ('c', x)


def ang(unit, ref=None, own=None):
    return ('ang', unit, ref, own)


REFS = {'grid': 'grid', 'true': 'true', 'mag': 'magnetic', 'magnetic': 'magnetic'}
# attributes whose unit does not follow from their name; the class limits a meaning to one class
ATTRS = {
    'dogleg': 'rad', 'dogleg2': 'rad', 'doglegs': 'rad', 'toolface': None,
    'declination': 'rad', 'convergence': 'rad', 'dip': 'rad', 'vertical_inc_limit': 'rad', 'vertical_section_azimuth': 'rad', 'latitude': 'deg', 'longitude': 'deg',
    'inc1': 'rad', 'azi1': 'rad', 'inc2': 'rad', 'azi2': 'rad', 'inc_target': 'rad', 'azi_target': 'rad', 'inc_average': 'rad', 'azi_average': 'rad', 'inc_delta': 'rad', 'azi_delta': 'rad',
    'build_rate': 'deg', 'turn_rate': 'deg',
}
HEADER_ANGLES = ('dip', 'declination', 'convergence', 'vertical_inc_limit', 'vertical_section_azimuth')
SURVEYS = {'survey', 'reference', 'offset', 'ref', 'off', 'survey_original', 'survey1', 'survey2', 's_ref'}
HEADERS = {'header', 'sh', 'survey_header'}
COLS = ('md', 'n', 'e', 'tvd', 'x', 'y', 'z')
TRIG = {'sin', 'cos', 'tan'}
ARC = {'arcsin', 'arccos', 'arctan', 'arctan2', 'asin', 'acos', 'atan', 'atan2', 'angle'}
KEEP = {'abs', 'absolute', 'fabs', 'array', 'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'copy', 'nan_to_num', 'diff', 'cumsum', 'sum', 'mean', 'average', 'unwrap', 'around', 'round', 'squeeze',
        'ravel', 'sort', 'amax', 'amin', 'max', 'min', 'nanmax', 'nanmin', 'median', 'flip', 'roll', 'interp1', 'float', 'negative', 'ascontiguousarray', 'flatten', 'reshape', 'deepcopy', 'tolist', 'astype', 'item',
        'repeat', 'tile', 'floor', 'ceil', 'take', 'delete', 'list', 'tuple', 'sorted', 'reversed', 'unique', 'trim_zeros', 'transpose', 'expand_dims', 'broadcast_to', 'full_like_'}
JOINALL = {'where', 'hstack', 'append', 'concatenate', 'maximum', 'minimum', 'clip', 'insert', 'select', 'fmod', 'mod', 'remainder', 'add', 'subtract', 'linspace', 'arange', 'max', 'min', 'fmin', 'fmax'}


class State:
    __slots__ = ('env', 'attrs')

    def __init__(self, env, attrs):
        self.env, self.attrs = env, attrs

    def copy(self):
        return State(dict(self.env), dict(self.attrs))


def join(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return a or b
    if a[0] == 'ang' and b[0] == 'ang':
        if a[1] == b[1]:
            return ang(a[1], a[2] if a[2] == b[2] else None, a[3] if a[3] == b[3] else '*' if '*' in (a[3], b[3]) else None)
        return Q
    # where one way is known, the other is taken to agree with it
    for x, y in ((a, b), (b, a)):
        if x[0] == 'ang' and x[1] and (y[0] == 'q' or y == c(None)):
            return ang(x[1], None, '*')
    if a[0] == 'c' and b[0] in ('ang',) and numeric(a) and a[1] == 0:
        return b
    if b[0] == 'c' and a[0] in ('ang',) and numeric(b) and b[1] == 0:
        return a
    if a[0] == b[0] and a[0] in ('seq', 'tab') and len(a[1]) == len(b[1]):
        return (a[0], tuple(join(x, y) for x, y in zip(a[1], b[1])))
    if a[0] == b[0] == 'list':
        return ('list', join(a[1], b[1]))
    for x, y in ((a, b), (b, a)):
        if x[0] == 'list' and y[0] == 'seq':
            return ('list', join(x[1], joinall(y[1]))) if y[1] else x
        if x[0] == 'seq' and not x[1] and y[0] in ('tab',):
            return y
    if a[0] == b[0] == 'col' and a[1] == b[1]:
        return ('col', a[1], a[2] if a[2] == b[2] else None, a[3] if a[3] == b[3] else None)
    if a[0] == b[0] == 'sv':
        return ('sv', None)
    for x, y in ((a, b), (b, a)):
        if x[0] == 'nd' and y[0] == 'sv':
            return ('nd', None, x[2] if x[2] == 'grid' else None, None)
    if a[0] == b[0] == 'hdr':
        return ('hdr', a[1] if a[1] == b[1] else None, a[2] if a[2] == b[2] else None)
    if a[0] == b[0] == 'obj' and a[1] == b[1]:
        x, y = dict(a[2]), dict(b[2])
        return ('obj', a[1], tuple(sorted((k, join(x[k], y[k])) for k in x if k in y)))
    if a[0] == b[0] == 'dict':
        x, y = dict(a[1]), dict(b[1])
        return ('dict', tuple(sorted(((k, join(x[k], y[k])) for k in x if k in y), key=lambda z: str(z[0]))))
    if a[0] in ('fn', 'fns') and b[0] in ('fn', 'fns'):
        return ('fns', tuple(sorted(set((a[1],) if a[0] == 'fn' else a[1]) | set((b[1],) if b[0] == 'fn' else b[1]))))
    if a[0] == b[0] and a[0] in ('nd', 'cn'):
        return (a[0], a[1] if a[1] == b[1] else None, a[2] if a[2] == b[2] else None, a[3] if a[3] == b[3] else None)
    if a[0] == b[0] == 'vec':
        return ('vec', a[1] if a[1] == b[1] else None)
    if a == c(None) and b[0] in ('sv', 'hdr', 'nd', 'cn'):
        return b
    if b == c(None) and a[0] in ('sv', 'hdr', 'nd', 'cn'):
        return a
    return Q


def joinall(vs):
    r = None
    for v in vs:
        r = v if r is None else join(r, v)
    return r if r is not None else Q


def numeric(v):
    return v[0] == 'c' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool)


def unit_of(v):
    """deg / rad where a value certainly is an angle, else None"""
    if v[0] == 'ang':
        return v[1]
    if v[0] == 'pi':
        return 'rad'
    if v[0] in ('list',):
        return unit_of(v[1])
    if v[0] == 'seq':
        us = {unit_of(x) for x in v[1]}
        return us.pop() if len(us) == 1 else None
    return None


class Stop(Exception):
    pass


class Kinds:
    """report(rule, func, node, text) is told of a use that mixes units; site(call, func, node, bound, state) of each
    construction of a class in `watch`"""

    def __init__(self, prog, report, watch=(), site=None, ref='grid', budget=60000):
        self.prog, self.report, self.watch, self.site, self.ref = prog, report, set(watch), site, ref
        self.stack, self.memo = [], {}
        self.steps, self.budget = 0, budget
        self.cls = None
        self.by = {}
        self.built = {}
        self.seenfuncs = set()

    def used(self):
        q = self.stack[-1].qual if self.stack else ''
        self.by[q] = self.by.get(q, 0) + 1

    # --- functions -------------------------------------------------------------------------------------------------
    def run(self, f, params, attrs=None, cls=None):
        """kinds of the parameters -> (returned kind, attributes)"""
        self.stack.append(f)
        self.seenfuncs.add(f.qual)
        keep = self.cls
        self.cls = cls if cls is not None else f.cls
        try:
            st = State(dict(params), dict(attrs or {}))
            rets, ends = [], []
            live = self.block(f.node.body, st, rets)
            if live is not None:
                rets.append((c(None), live))
            if not rets:
                return None, None
            v = joinall([r for r, _ in rets])
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node))
            out = {}
            for k in set().union(*[s.attrs for _, s in rets]):
                vs = [s.attrs[k] for _, s in rets if k in s.attrs]
                out[k] = joinall(vs) if len(vs) == len(rets) else joinall(vs + [Q])
            return (Q if gen else v), out
        finally:
            self.stack.pop()
            self.cls = keep

    @property
    def f(self):
        return self.stack[-1]

    def block(self, stmts, st, rets):
        """state after, or None where the end is not reached"""
        for s in stmts:
            self.steps += 1
            if self.steps > self.budget:
                raise Stop
            st = self.stmt(s, st, rets)
            if st is None:
                return None
        return st

    def merge(self, a, b):
        if a is None or b is None:
            return a if b is None else b
        env = {}
        for k in set(a.env) | set(b.env):
            env[k] = join(a.env[k], b.env[k]) if k in a.env and k in b.env else a.env.get(k, b.env.get(k))
        attrs = {}
        for k in set(a.attrs) | set(b.attrs):
            attrs[k] = join(a.attrs[k], b.attrs[k]) if k in a.attrs and k in b.attrs else join(a.attrs.get(k, b.attrs.get(k)), self.declared(k))
        return State(env, attrs)

    def stmt(self, n, st, rets):
        t = type(n)
        if t is ast.Expr:
            self.ev(n.value, st)
            return st
        if t is ast.Assign:
            v = self.ev(n.value, st)
            st = st.copy()
            for x in n.targets:
                self.store(x, v, st, n)
            return st
        if t is ast.AnnAssign:
            if n.value is not None:
                v = self.ev(n.value, st)
                st = st.copy()
                self.store(n.target, v, st, n)
            return st
        if t is ast.AugAssign:
            load = {ast.Name: lambda x: ast.Name(x.id, ast.Load()), ast.Attribute: lambda x: ast.Attribute(x.value, x.attr, ast.Load()),
                    ast.Subscript: lambda x: ast.Subscript(x.value, x.slice, ast.Load())}[type(n.target)](n.target)
            ast.copy_location(load, n.target)
            e = ast.copy_location(ast.BinOp(load, n.op, n.value), n)
            v = self.ev(e, st)
            st = st.copy()
            self.store(n.target, v, st, n)
            return st
        if t is ast.Return:
            rets.append((self.ev(n.value, st) if n.value is not None else c(None), st))
            return None
        if t is ast.Raise:
            return None
        if t in (ast.Break, ast.Continue):
            self.loops[-1].append(st)
            return None
        if t is ast.If:
            b = self.test(n.test, st)
            if b is True:
                return self.block(n.body, self.refine(n.test, st, True), rets)
            if b is False:
                return self.block(n.orelse, self.refine(n.test, st, False), rets)
            return self.merge(self.block(n.body, self.refine(n.test, st, True), rets), self.block(n.orelse, self.refine(n.test, st, False), rets))
        if t in (ast.For, ast.While):
            if t is ast.For:
                it = self.ev(n.iter, st)
                el = self.element(it)
            ends = st
            cur = st
            for _ in range(3):
                self.loops.append([])
                b = cur.copy()
                if t is ast.For:
                    self.store(n.target, el, b, n)
                else:
                    r = self.test(n.test, b)
                    if r is False:
                        self.loops.pop()
                        break
                b = self.block(n.body, b, rets)
                for x in self.loops.pop():
                    b = self.merge(b, x)
                if b is None:
                    break
                nxt = self.merge(cur, b)
                if nxt.env == cur.env and nxt.attrs == cur.attrs:
                    cur = nxt
                    break
                cur = nxt
            if n.orelse:
                cur = self.block(n.orelse, cur, rets)
            return cur
        if t is ast.Try:
            a = self.block(n.body, st, rets)
            if a is not None and n.orelse:
                a = self.block(n.orelse, a, rets)
            base = self.merge(st, a) if a is not None else st
            for h in n.handlers:
                hs = base.copy()
                if h.name:
                    hs.env[h.name] = Q
                a = self.merge(a, self.block(h.body, hs, rets))
            if n.finalbody:
                a = self.block(n.finalbody, a if a is not None else base, rets) if a is not None else (self.block(n.finalbody, base, []), None)[1]
            return a
        if t is ast.With:
            st = st.copy()
            for i in n.items:
                v = self.ev(i.context_expr, st)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, Q, st, n)
            return self.block(n.body, st, rets)
        if t is ast.Assert:
            self.ev(n.test, st)
            b = self.test(n.test, st)
            return None if b is False else self.refine(n.test, st, True)
        if t is ast.Delete:
            return st
        if t in (ast.FunctionDef,):
            st = st.copy()
            g = next((x for x in self.prog.all_functions() if x.node is n), None)
            st.env[n.name] = ('fn', g.qual) if g is not None else Q
            return st
        if t is ast.ImportFrom:
            base = self.f.module.short.split('.')[:-1] if n.level else None
            if base is not None and n.level > 1:
                base = base[:-(n.level - 1)]
            if n.level == 0 and (n.module or '').split('.')[0] == 'welleng':
                base, mod = [], '.'.join(n.module.split('.')[1:])
            else:
                mod = n.module or ''
            st = st.copy()
            for a in n.names:
                g = self.prog.find('.'.join([*base, *([mod] if mod else []), a.name])) if base is not None else None
                st.env[a.asname or a.name] = ('fn', g.qual) if isinstance(g, Func) else ('cls', g.qual) if isinstance(g, Cls) else Q
            return st
        if t is ast.Import:
            return st
        if t is ast.Match:
            out = None
            for k in n.cases:
                out = self.merge(out, self.block(k.body, st.copy(), rets))
            return self.merge(out, st)
        return st

    loops = []

    def refine(self, e, st, b):
        """what a test on a flag or an azimuth reference tells"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, st, not b)
        if isinstance(e, ast.BoolOp) and (isinstance(e.op, ast.And) and b or isinstance(e.op, ast.Or) and not b):
            for x in e.values:
                st = self.refine(x, st, b)
            return st
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            if isinstance(e.left, ast.Name) and (isinstance(e.ops[0], ast.Is) == b):
                st = st.copy()
                st.env[e.left.id] = c(None)
        return st

    def test(self, e, st):
        v = self.ev(e, st)
        if v[0] == 'c':
            return bool(v[1])
        if v[0] in ('sv', 'hdr', 'nd', 'cn', 'fn', 'cls'):
            return True
        return None

    # --- stores ----------------------------------------------------------------------------------------------------
    def isme(self, e, st):
        return isinstance(e, ast.Name) and st.env.get(e.id, Q)[0] == 'me'

    def store(self, t, v, st, n):
        if isinstance(t, ast.Name):
            if v[0] == 'c' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool) and self.loops:
                v = q(f'{t.id}@{getattr(n, "lineno", 0)}') if v[1] != 0 else v
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            if self.isme(t.value, st):
                want = self.mydeclared(t.attr)
                self.check_named(t.attr, v, want, n)
                st.attrs[t.attr] = v if v[0] != 'q' or want[0] == 'q' else want
                return
            o = self.ev(t.value, st)
            if o[0] == 'hdr' and t.attr == 'azi_reference':
                new = ('hdr', o[1], v[1] if v[0] == 'c' else None)
                if isinstance(t.value, ast.Name):
                    st.env[t.value.id] = new
                elif isinstance(t.value, ast.Attribute) and self.isme(t.value.value, st):
                    st.attrs[t.value.attr] = new
            elif o[0] in ('hdr', 'sv', 'nd', 'cn'):
                self.check_named(t.attr, v, self.declared(t.attr), n)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.parts(v, len(t.elts))
            for x, w in zip(t.elts, vs):
                self.store(x.value if isinstance(x, ast.Starred) else x, Q if isinstance(x, ast.Starred) else w, st, n)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev(t.slice, st) if not isinstance(t.slice, (ast.Slice, ast.Tuple)) else Q
            new = None
            if o[0] in ('ang', 'pi') or o[0] == 'c':
                a, b = unit_of(o), unit_of(v)
                if a and b and a != b:
                    self.mixed(n, f'{ast.unparse(t)} = {ast.unparse(n.value) if hasattr(n, "value") else "…"} puts {name(b)} into {name(a)}')
            if o == c(0) and v[0] == 'tab' and isinstance(t.slice, ast.Slice):
                new = v
            elif o[0] == 'tab' and v[0] in ('tab', 'seq') and len(v[1]) == len(o[1]) and not isinstance(t.slice, ast.Tuple) and (v[0] == 'tab') == isinstance(t.slice, ast.Slice):
                new = ('tab', tuple(join(x, self.scalar(y)) if x[0] != 'col' else Q for x, y in zip(o[1], v[1])))
            elif o[0] == 'dict' and i[0] == 'c':
                d = dict(o[1])
                d[i[1]] = v
                new = ('dict', tuple(sorted(d.items(), key=lambda z: str(z[0]))))
            elif o[0] in ('seq',) and i[0] == 'c' and isinstance(i[1], int) and -len(o[1]) <= i[1] < len(o[1]):
                l = list(o[1])
                l[i[1]] = v
                new = ('seq', tuple(l))
            elif o[0] in ('tab', 'seq'):
                # a column of a table
                j = self.column(t.slice, st)
                if j is not None and o[0] == 'tab' and -len(o[1]) <= j < len(o[1]):
                    l = list(o[1])
                    a, b = unit_of(l[j]), unit_of(v)
                    if isinstance(n, ast.AugAssign):
                        l[j] = v
                    else:
                        l[j] = v
                    new = ('tab', tuple(l))
                else:
                    new = Q
            elif o[0] == 'q' or o[0] == 'c':
                new = v if v[0] in ('ang',) and o[0] == 'c' else Q
            elif o[0] in ('col', 'vec', 'pos'):
                new = Q
            elif o[0] == 'ang' and v[0] == 'ang':
                new = join(o, v)
            if new is not None:
                if isinstance(t.value, ast.Name):
                    st.env[t.value.id] = new
                elif isinstance(t.value, ast.Attribute) and self.isme(t.value.value, st):
                    st.attrs[t.value.attr] = new

    def column(self, s, st):
        """j of [:, j]"""
        if isinstance(s, ast.Tuple) and len(s.elts) == 2 and isinstance(s.elts[0], ast.Slice):
            v = self.ev(s.elts[1], st) if not isinstance(s.elts[1], ast.Slice) else Q
            if v[0] == 'c' and isinstance(v[1], int):
                return v[1]
        return None

    def check_named(self, a, v, want, n):
        if want[0] == 'ang' and want[1]:
            u = unit_of(v)
            if u:
                self.used()
                if u != want[1]:
                    self.report('unit', self.f, n, f'{a} is given in {name(u)} and is in {name(want[1])}')
        if want[0] == 'ang' and want[2] and v[0] == 'ang' and v[2] and v[2] != want[2] and v[1]:
            self.report('reference', self.f, n, f'{a} is given an azimuth relative to {v[2]} north')

    def mixed(self, n, text):
        self.report('mix', self.f, n, text)

    # --- values ----------------------------------------------------------------------------------------------------
    def declared(self, a):
        """kind of an attribute by its name"""
        if a.endswith('_deg') or a.endswith('_rad'):
            u = a[-3:]
            if a.startswith('survey_'):
                return ('tab', (('col', 'md', None, None), ang(u), ang(u, 'grid')))
            r = None
            if a.startswith('azi_'):
                r = REFS.get(a[4:-4])
            return ang(u, r)
        if a in ATTRS:
            return ang(ATTRS[a]) if ATTRS[a] else Q
        return Q

    def mydeclared(self, a):
        """the same for an attribute of the object under construction: a header holds its caller's units until it has converted them"""
        if self.cls is not None and a in HEADER_ANGLES and any(k.name == 'SurveyHeader' for k in self.cls.mro()):
            return Q
        return self.declared(a)

    def attr(self, o, a, e):
        k = o[0]
        if k == 'sv':
            if a in COLS:
                return ('col', a, o[1], '0')
            if a in ('start_nev', 'start_xyz'):
                return ('pos', a[-3:], o[1], '0')
            if a in ('pos_nev', 'pos_xyz'):
                return ('tab', tuple(('col', x, o[1], '0') for x in (('n', 'e', 'tvd') if a[-3:] == 'nev' else ('x', 'y', 'z'))))
            if a in ('survey_deg', 'survey_rad'):
                u = a[-3:]
                return ('tab', (('col', 'md', o[1], '0'), ang(u, None, o[1]), ang(u, 'grid', o[1])))
            if a == 'toolface':
                return ang('rad', None, o[1])
            if a == 'unit':
                return ('unit', o[1])
            if a == 'header':
                return ('hdr', o[1], self.ref)
            if a == 'azi_ref_lookup':
                return ('dict', (('grid', c('grid')), ('magnetic', c('mag')), ('true', c('true'))))
            if a in ('vec_nev', 'vec_xyz', 'vec'):
                return ('vec', 'grid')
            d = self.declared(a)
            return ang(d[1], d[2] or ('grid' if a.startswith('azi') else None), o[1]) if d[0] == 'ang' else d
        if k == 'hdr':
            if a == 'azi_reference':
                return c(o[2]) if o[2] else Q
            if a in ('depth_unit', 'surface_unit'):
                return ('unit', o[1]) if a == 'depth_unit' else Q
            return self.declared(a)
        if k == 'nd':
            d = self.declared(a)
            if d[0] == 'ang':
                return ang(d[1], o[2] if a.startswith('azi') else None, o[1])
            if a in ('vec_nev', 'vec_xyz'):
                return ('vec', o[2])
            if a == 'unit':
                return o[3] or Q
            return q(f'{o[1]}.{a}')
        if k == 'cn':
            if a.startswith('vec'):
                return ('vec', o[2])
            if a in ('node_end', 'node_start', 'node1', 'node2'):
                return ('nd', f'{o[1]}.{a}', o[2], o[3])
            d = self.declared(a)
            if d[0] == 'ang':
                return ang(d[1], o[2] if a.startswith('azi') else None, None)
            if a == 'unit':
                return o[3] or Q
            return q(f'{o[1]}.{a}')
        if k == 'obj':
            return dict(o[2]).get(a, Q)
        if k == 'dict':
            return ('bm', o, a)
        if k == 'ext':
            return ('ext', o[1] + '.' + a)
        if a == 'T':
            if k == 'seq':
                return ('tab', o[1])
            if k == 'tab':
                return ('seq', o[1])
            return o if k == 'ang' else Q
        if k == 'ang' or k in ('seq', 'tab', 'list', 'col', 'pi', 'vec', 'pos'):
            return ('bm', o, a)
        if k == 'c':
            return ('bm', o, a)
        if k == 'q':
            d = self.declared(a)
            if a in SURVEYS and o[1]:
                return ('sv', f'{o[1]}.{a}')
            if a in ('inc_rad', 'inc_deg', 'azi_rad', 'azi_deg', 'azi_grid_rad', 'azi_grid_deg', 'azi_true_rad', 'azi_true_deg', 'azi_mag_rad', 'azi_mag_deg'):
                return d
            return q(f'{o[1]}.{a}' if o[1] else '')
        return Q

    def element(self, v):
        """one element along the first axis"""
        if v[0] == 'seq':
            return joinall(v[1]) if v[1] else Q
        if v[0] == 'tab':
            return ('seq', tuple(self.scalar(x) for x in v[1]))
        if v[0] == 'list':
            return v[1]
        if v[0] in ('ang', 'vec'):
            return v
        if v[0] == 'enum':
            return ('seq', (Q, self.element(v[1])))
        if v[0] == 'zip':
            return ('seq', tuple(self.element(x) for x in v[1]))
        if v[0] == 'col':
            return ('col', v[1], v[2], None)
        return Q

    def scalar(self, v):
        return ('col', v[1], v[2], None) if v[0] == 'col' else v

    def parts(self, v, n):
        if v[0] == 'seq' and len(v[1]) == n:
            return v[1]
        if v[0] in ('pos',) and n == 3:
            return tuple(('col', x, v[2], v[3]) for x in (('n', 'e', 'tvd') if v[1] == 'nev' else ('x', 'y', 'z')))
        if v[0] in ('list', 'ang'):
            return (self.element(v),) * n
        return (Q,) * n

    def text(self, v, e):
        """identity of an index"""
        if v[0] == 'c':
            return repr(v[1])
        if v[0] == 'q' and v[1]:
            return v[1]
        if v[0] == 'ang':
            return None
        return None

    def add(self, a, k):
        if a is None or k is None:
            return None
        if a == '0':
            return k
        if k == '0':
            return a
        return f'{a}+{k}'

    def index(self, v, s, st, e):
        """v[s]"""
        k = v[0]
        if isinstance(s, ast.Slice):
            lo = self.ev(s.lower, st) if s.lower is not None else c(0)
            for x in (s.upper, s.step):
                if x is not None:
                    self.ev(x, st)
            t = self.text(lo, s.lower) if lo[0] != 'c' or lo[1] is not None else '0'
            if s.step is not None:
                t = None
            return self.sliced(v, t, lo, s, st)
        if isinstance(s, ast.Tuple):
            els = s.elts
            vs = [None if isinstance(x, ast.Slice) else self.ev(x, st) for x in els]
            if len(els) == 2 and k == 'tab' and isinstance(els[0], ast.Slice) and vs[1] is not None and vs[1][0] == 'c' and isinstance(vs[1][1], int) and -len(v[1]) <= vs[1][1] < len(v[1]):
                return self.index(v[1][vs[1][1]], els[0], st, e)
            if len(els) == 2 and k == 'tab' and vs[0] is not None and vs[1] is not None and vs[1][0] == 'c' and isinstance(vs[1][1], int) and -len(v[1]) <= vs[1][1] < len(v[1]):
                return self.index(v[1][vs[1][1]], els[0], st, e)
            if k == 'ang':
                return v
            return Q
        i = self.ev(s, st)
        if k == 'dict':
            if i[0] == 'c':
                return dict(v[1]).get(i[1], Q)
            return joinall([w for _, w in v[1]]) if v[1] else Q
        if k == 'seq':
            if i[0] == 'c' and isinstance(i[1], int) and -len(v[1]) <= i[1] < len(v[1]):
                return v[1][i[1]]
            return joinall(v[1]) if v[1] else Q
        if k == 'tab':
            return ('seq', tuple(self.pick(x, i, s) for x in v[1]))
        if k == 'list':
            return v[1]
        if k == 'ang':
            return v
        if k == 'col':
            return self.pick(v, i, s)
        if k == 'c' and isinstance(v[1], (str, tuple)) and i[0] == 'c':
            try:
                return c(v[1][i[1]])
            except Exception:
                return Q
        if k == 'vec':
            return v
        if k == 'pos':
            return Q
        if k == 'q' and v[1] and self.text(i, s):
            return q(f'{v[1]}[{self.text(i, s)}]')
        return Q

    def pick(self, v, i, s):
        if v[0] == 'col':
            return ('col', v[1], v[2], self.add(v[3], self.text(i, s)))
        return v

    def sliced(self, v, t, lo, s, st):
        k = v[0]
        if k == 'col':
            return ('col', v[1], v[2], self.add(v[3], t))
        if k == 'tab':
            return ('tab', tuple(self.sliced(x, t, lo, s, st) for x in v[1]))
        if k in ('ang', 'list', 'vec'):
            return v
        if k == 'seq':
            a = lo[1] if lo[0] == 'c' else None
            up = None
            if s.upper is not None:
                u = self.ev(s.upper, st)
                up = u[1] if u[0] == 'c' else '?'
            if a is not None and up != '?' and s.step is None:
                try:
                    return ('seq', v[1][a:up])
                except TypeError:
                    pass
            return ('list', joinall(v[1])) if v[1] else v
        return Q

    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Stop
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e, st)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, st)
        return Q

    def e_Constant(self, e, st):
        return c(e.value)

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        r = self.f.module.resolve(e.id)
        return self.glob(r, e.id)

    def glob(self, r, nm):
        if isinstance(r, Func):
            return ('fn', r.qual)
        if isinstance(r, Cls):
            return ('cls', r.qual)
        if isinstance(r, Module):
            return ('mod', r)
        if isinstance(r, Ext):
            return ('pi', 1.) if r.name in ('numpy.pi', 'math.pi') else ('ext', r.name)
        if isinstance(r, GlobalVar) and len(r.values) == 1 and isinstance(r.values[0][0], ast.Constant):
            return c(r.values[0][0].value)
        if isinstance(r, GlobalVar) and len(r.values) == 1 and isinstance(r.values[0][0], (ast.BinOp, ast.UnaryOp, ast.Call)):
            return self.constant(r)
        if r is None and nm in ('abs', 'float', 'max', 'min', 'round', 'list', 'tuple', 'sorted', 'reversed', 'sum', 'zip', 'enumerate', 'getattr', 'setattr', 'isinstance', 'len', 'range', 'bool', 'hasattr', 'dict', 'any', 'all', 'int', 'type', 'map', 'super', 'str'):
            return ('ext', 'builtins.' + nm)
        return Q

    def constant(self, r):
        """a module's conversion factor: arithmetic of numbers and pi"""
        x = r.values[0][0]
        if any(not isinstance(y, (ast.BinOp, ast.UnaryOp, ast.Call, ast.Constant, ast.Name, ast.Attribute, ast.operator, ast.unaryop, ast.expr_context)) for y in ast.walk(x)):
            return Q
        if len(self.stack) > 60:
            return Q
        self.stack.append(SimpleNamespace(module=r.module, qual=r.name, node=x, cls=None, name=r.name))
        try:
            v = self.ev(x, State({}, {}))
        finally:
            self.stack.pop()
        return v if v[0] in ('c', 'pi', 'fac', 'ang') else Q

    def e_Attribute(self, e, st):
        if self.isme(e.value, st):
            a = e.attr
            if a in st.attrs:
                return st.attrs[a]
            sub = ME_SURVEY if self.cls is not None and any(k.name == 'Survey' for k in self.cls.mro()) else None
            kk = self.cls.lookup(a) if self.cls is not None else None
            if kk is not None and isinstance(kk[1], Func):
                if kk[0] == 'prop':
                    return self.enter(kk[1], [st.env[e.value.id]], {}, e, st)
                return ('meth', kk[1].qual)
            if sub:
                return self.attr(('sv', 'self'), a, e)
            d = self.mydeclared(a)
            if d[0] == 'q':
                if a in SURVEYS:
                    return ('sv', 'self.' + a)
                return q('self.' + a)
            return d
        if isinstance(e.value, ast.Name) and e.value.id not in st.env or isinstance(e.value, ast.Attribute):
            r = self.f.module.resolve_expr(e)
            if r is not None and (not isinstance(e.value, ast.Name) or e.value.id not in st.env):
                root = e.value
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(root, ast.Name) and root.id not in st.env:
                    g = self.glob(r, '')
                    if g != Q:
                        return g
        o = self.ev(e.value, st)
        return self.attr(o, e.attr, e)

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            ok = True
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, st)
                    if v[0] in ('seq',):
                        out += v[1]
                    elif v[0] == 'pos':
                        out += self.parts(v, 3)
                    else:
                        ok = False
                else:
                    out.append(self.ev(x, st))
            return ('seq', tuple(out)) if ok else Q
        return ('seq', tuple(self.ev(x, st) for x in e.elts))

    e_List = e_Tuple

    def e_Set(self, e, st):
        return ('list', joinall([self.ev(x, st) for x in e.elts]))

    def e_Dict(self, e, st):
        out = {}
        ok = True
        for k, v in zip(e.keys, e.values):
            w = self.ev(v, st)
            if k is None:
                if w[0] == 'dict':
                    out.update(dict(w[1]))
                else:
                    ok = False
                continue
            kk = self.ev(k, st)
            if kk[0] == 'c':
                self.check_key(kk[1], w, v)
                out[kk[1]] = w
            else:
                ok = False
        return ('dict', tuple(sorted(out.items(), key=lambda z: str(z[0])))) if ok else Q

    def check_key(self, key, v, n):
        """a published column that names its unit"""
        if not isinstance(key, str):
            return
        k = key.lower()
        want = 'deg' if k.endswith(('_deg', '(deg)')) else 'rad' if k.endswith(('_rad', '(rad)')) else None
        u = unit_of(v)
        if want and u:
            self.used()
            if want != u:
                self.report('unit', self.f, n, f'{key} is given in {name(u)}')

    def e_JoinedStr(self, e, st):
        out = ''
        ok = True
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                w = self.ev(v.value, st)
                if w[0] == 'c' and v.format_spec is None and v.conversion == -1:
                    out += str(w[1])
                else:
                    ok = False
            else:
                out += v.value
        return c(out) if ok else Q

    def e_IfExp(self, e, st):
        b = self.test(e.test, st)
        if b is True:
            return self.ev(e.body, st)
        if b is False:
            return self.ev(e.orelse, st)
        return join(self.ev(e.body, self.refine(e.test, st, True)), self.ev(e.orelse, self.refine(e.test, st, False)))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = []
        for x in e.values:
            v = self.ev(x, st)
            t = bool(v[1]) if v[0] == 'c' else True if v[0] in ('sv', 'hdr', 'nd', 'cn') else None
            if t is not None:
                if t == (not isand):
                    vals.append(v)
                    return v if len(vals) == 1 else (c(not isand) if isand else joinall(vals))
                if x is e.values[-1]:
                    vals.append(v)
                continue
            vals.append(v)
        return joinall(vals) if len(vals) == 1 or not isand else Q

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return c(not v[1]) if v[0] == 'c' else c(False) if v[0] in ('sv', 'hdr', 'nd', 'cn') else Q
        if v[0] == 'c' and numeric(v) and isinstance(e.op, ast.USub):
            return c(-v[1])
        if v[0] == 'pi':
            return ('pi', -v[1] if isinstance(e.op, ast.USub) else v[1])
        return v if v[0] in ('ang', 'fac', 'vec') else Q

    def e_Compare(self, e, st):
        vs = [self.ev(e.left, st)] + [self.ev(x, st) for x in e.comparators]
        if len(e.ops) == 1:
            a, b = vs
            op = e.ops[0]
            if a[0] == 'type' and b == ('ext', 'builtins.list') and isinstance(op, (ast.Eq, ast.NotEq)):
                return c((a[1] == 'list') == isinstance(op, ast.Eq))
            if isinstance(op, (ast.Is, ast.IsNot)):
                pos = isinstance(op, ast.Is)
                if a[0] == 'type' and b == ('ext', 'builtins.list'):
                    return c((a[1] == 'list') == pos)
                if a[0] == 'c' and b[0] == 'c':
                    return c((a[1] is b[1]) == pos)
                if b == c(None) and a[0] not in ('q',):
                    return c(not pos) if a[0] in ('sv', 'hdr', 'nd', 'cn', 'seq', 'dict', 'fn', 'cls', 'ang', 'vec', 'pos', 'col', 'tab', 'list') else Q
                return Q
            if isinstance(op, (ast.Eq, ast.NotEq)) and a[0] == 'c' and b[0] == 'c':
                return c((a[1] == b[1]) == isinstance(op, ast.Eq))
            if isinstance(op, (ast.In, ast.NotIn)):
                if a[0] == 'c' and b[0] == 'seq' and all(x[0] == 'c' for x in b[1]):
                    return c((a[1] in [x[1] for x in b[1]]) == isinstance(op, ast.In))
                if a[0] == 'c' and b[0] == 'dict':
                    return c((a[1] in dict(b[1])) == isinstance(op, ast.In)) if b[1] else Q
                return Q
        for x, y in zip(vs, vs[1:]):
            self.together(x, y, e, 'compares')
        return Q

    def together(self, a, b, n, how):
        """both sides of a sum or a comparison"""
        ua, ub = unit_of(a), unit_of(b)
        for x, y, ux in ((a, b, ua), (b, a, ub)):
            if ux == 'rad' and x[0] != 'pi' and y[0] == 'c' and numeric(y) and abs(y[1]) in (90, 180, 270, 360):
                self.mixed(n, f'{ast.unparse(n)[:90]} {how} radians with {abs(y[1])} degrees')
                return False
        if ua and ub:
            self.used()
            if ua != ub:
                self.mixed(n, f'{ast.unparse(n)[:90]} {how} {name(ua)} with {name(ub)}')
                return False
            if a[0] == b[0] == 'ang' and a[2] and b[2] and a[2] != b[2]:
                pass
        return True

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        op = type(e.op)
        if a[0] == 'c' and b[0] == 'c':
            if numeric(a) and numeric(b):
                try:
                    return c({ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Div: lambda x, y: x / y, ast.Pow: lambda x, y: x ** y,
                              ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y}[op](a[1], b[1]))
                except Exception:
                    return Q
            if isinstance(a[1], str) and isinstance(b[1], str) and op is ast.Add:
                return c(a[1] + b[1])
            return Q
        if op in (ast.Mult, ast.Div):
            r = self.product(a, b, op, e)
            if r is not None:
                return r
        if op in (ast.Add, ast.Sub):
            if a[0] in ('seq', 'list') and b[0] in ('seq', 'list') and op is ast.Add and (a[0] == 'seq') and isinstance(e.left, (ast.List, ast.Tuple)):
                return ('seq', a[1] + b[1]) if b[0] == 'seq' else Q
            self.together(a, b, e, 'adds' if op is ast.Add else 'subtracts')
            return self.sum(a, b, e)
        if op is ast.Mod:
            self.together(a, b, e, 'reduces')
            return a if a[0] == 'ang' else Q
        if op is ast.Pow:
            return Q
        if op is ast.MatMult:
            return Q
        return Q

    def sum(self, a, b, e):
        if a[0] == b[0] == 'vec':
            return join(a, b)
        if a[0] in ('seq', 'tab') and (b[0] != a[0]):
            return (a[0], tuple(self.sum(x, b, e) if b[0] not in ('seq', 'tab', 'list') else Q for x in a[1]))
        if a[0] == b[0] == 'seq' and len(a[1]) == len(b[1]):
            return ('seq', tuple(self.sum(x, y, e) for x, y in zip(a[1], b[1])))
        if a[0] == 'pi' and b[0] == 'pi':
            return ('pi', a[1] + b[1])
        for x, y in ((a, b), (b, a)):
            if x[0] == 'ang' and x[1]:
                if y[0] == 'ang' and y[1] and y[1] != x[1]:
                    return Q
                if y[0] == 'ang':
                    return ang(x[1], None, x[3])
                if y[0] == 'c' or y[0] == 'pi':
                    return x
                return ang(x[1], None, None)
        if a[0] == 'q' and a[1]:
            t = self.text(b, e.right)
            return q(f'({a[1]}{"+" if isinstance(e.op, ast.Add) else "-"}{t})') if t else Q
        if a[0] == 'pi' or b[0] == 'pi':
            return ang('rad')
        return Q

    def product(self, a, b, op, e):
        div = op is ast.Div
        for x, y, left in ((a, b, True), (b, a, False)):
            if x[0] == 'pi' and numeric(y):
                if div and left:
                    if y[1] in (180, 180., -180):
                        return ('fac', 'd2r')
                    return ('pi', x[1] / y[1]) if y[1] else Q
                if div and not left:
                    return ('fac', 'r2d') if y[1] in (180, 180., -180) else Q
                if not div:
                    return ('pi', x[1] * y[1])
        for x, y, left in ((a, b, True), (b, a, False)):
            if y[0] == 'fac' and (left or not div):
                f = y[1]
                if div:
                    f = {'d2r': 'r2d', 'r2d': 'd2r'}[f]
                u = unit_of(x)
                need, got = ('deg', 'rad') if f == 'd2r' else ('rad', 'deg')
                if u and u != need:
                    self.report('convert', self.f, e, f'{ast.unparse(e)[:90]} converts {name(u)} to {name(got)}')
                    return Q
                if x[0] == 'ang':
                    return ang(got, x[2], x[3])
                if x[0] in ('seq', 'tab', 'list'):
                    return Q
                return ang(got) if x[0] in ('q', 'c', 'col') and u is None and x[0] != 'col' else Q
        for x, y, left in ((a, b, True), (b, a, False)):
            if x[0] == 'vec' and y[0] in ('q', 'c', 'ang') and (left or not div):
                return x
        ua, ub = unit_of(a), unit_of(b)
        if Q in (a, b):
            return None        # the factor may be a conversion
        if a[0] == 'ang' and ub is None and b[0] in ('c', 'q', 'col', 'inv', 'unit'):
            if b[0] == 'c' and numeric(b) and not div and b[1] == 180:
                return Q
            return ang(a[1], a[2] if b[0] == 'c' else None, None if b[0] == 'c' else '*') if not (b[0] == 'c' and div and b[1] == 180) else Q
        if b[0] == 'ang' and ua is None and a[0] in ('c', 'q', 'col', 'unit') and not div:
            return ang(b[1], None, None if a[0] == 'c' else '*') if not (a[0] == 'c' and a[1] == 180) else Q
        if ua and ub and div and '*' not in (a[0] == 'ang' and a[3], b[0] == 'ang' and b[3]):
            self.together(a, b, e, 'divides')
            return Q
        if a[0] in ('seq', 'tab') and b[0] in ('c',) and numeric(b):
            return (a[0], tuple(self.product(x, b, op, e) or Q for x in a[1]))
        return None

    def e_Subscript(self, e, st):
        v = self.ev(e.value, st)
        return self.index(v, e.slice, st, e)

    def comp(self, e, st, elts):
        st = st.copy()
        for g in e.generators:
            it = self.ev(g.iter, st)
            if it[0] == 'seq' and len(e.generators) == 1 and not g.ifs and len(it[1]) <= 12:
                out = []
                for x in it[1]:
                    s2 = st.copy()
                    self.store(g.target, x, s2, e)
                    out.append([self.ev(y, s2) for y in elts])
                return ('known', out)
            self.store(g.target, self.element(it), st, e)
            for i in g.ifs:
                self.ev(i, st)
        return ('each', [self.ev(y, st) for y in elts])

    def e_ListComp(self, e, st):
        k, r = self.comp(e, st, [e.elt])
        if k == 'known':
            return ('seq', tuple(x[0] for x in r))
        v = r[0]
        return ('list', v)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, st):
        k, r = self.comp(e, st, [e.key, e.value])
        if k == 'known' and all(x[0][0] == 'c' for x in r):
            return ('dict', tuple(sorted(((x[0][1], x[1]) for x in r), key=lambda z: str(z[0]))))
        return Q

    def e_Lambda(self, e, st):
        return Q

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.store(e.target, v, st, e)
        return v

    # --- calls -----------------------------------------------------------------------------------------------------
    def e_Call(self, e, st):
        fv = self.ev(e.func, st)
        args, ok = [], True
        if fv == ('ext', 'builtins.zip') and len(e.args) == 1 and isinstance(e.args[0], ast.Starred):
            v = self.ev(e.args[0].value, st)
            if v[0] in ('zip', 'tab'):
                return ('seq', v[1])
            if v[0] == 'list' and v[1][0] == 'seq':
                return v[1]
            return Q
        for a in e.args:
            v = self.ev(a.value if isinstance(a, ast.Starred) else a, st)
            if isinstance(a, ast.Starred):
                if v[0] == 'seq':
                    args += v[1]
                elif v[0] == 'pos':
                    args += self.parts(v, 3)
                else:
                    ok = False
            else:
                args.append(v)
        kws = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if v[0] == 'dict':
                    kws.update({a: b for a, b in v[1] if isinstance(a, str)})
                else:
                    ok = False
            else:
                kws[k.arg] = v
        if fv[0] == 'ext':
            return self.extern(fv[1], args, kws, e, st)
        if fv[0] == 'bm':
            return self.method(fv[1], fv[2], args, kws, e, st)
        if fv[0] in ('fn', 'meth'):
            g = self.prog.find(fv[1])
            if g is None:
                return Q
            if self.cls is not None and any(k.name == 'Survey' for k in self.cls.mro()):
                args = [('sv', 'self') if x == ('me',) else x for x in args]
                kws = {k: ('sv', 'self') if x == ('me',) else x for k, x in kws.items()}
            if fv[0] == 'meth' and not g.is_static:
                args = [('me',)] + args
            return self.enter(g, args, kws, e, st, ok)
        if fv[0] == 'fns':
            out = []
            for x in fv[1]:
                g = self.prog.find(x)
                out.append(self.enter(g, args, kws, e, st, ok) if g is not None else Q)
            return joinall(out)
        if fv[0] == 'cls':
            g = self.prog.find(fv[1])
            return self.construct(g, args, kws, e, st, ok)
        if isinstance(e.func, ast.Attribute):
            o = self.ev(e.func.value, st)
            return self.objmethod(o, e.func.attr, args, kws, e, st, ok)
        return Q

    def objmethod(self, o, a, args, kws, e, st, ok):
        if o[0] == 'sv':
            scls = self.prog.find('survey.Survey')
            kk = scls.lookup(a) if scls is not None else None
            if kk is not None and isinstance(kk[1], Func):
                g = kk[1]
                return self.enter(g, ([] if g.is_static else [o]) + args, kws, e, st, ok)
        if o[0] == 'q' and a in ('index', 'searchsorted'):
            return q(f'@{e.lineno}:{e.col_offset}')
        return q(f'@{e.lineno}:{e.col_offset}')

    def method(self, o, a, args, kws, e, st):
        if a in ('items', 'keys', 'values', 'get') and o[0] == 'dict':
            if a == 'items':
                return ('seq', tuple(('seq', (c(k), v)) for k, v in o[1]))
            if a == 'values':
                return ('seq', tuple(v for _, v in o[1]))
            if a == 'keys':
                return ('seq', tuple(c(k) for k, _ in o[1]))
            if args and args[0][0] == 'c':
                return dict(o[1]).get(args[0][1], args[1] if len(args) > 1 else c(None))
            return Q
        if a in ('append', 'extend', 'insert') and isinstance(e.func.value, ast.Name) and e.func.value.id in st.env and args:
            v = args[-1]
            nm = e.func.value.id
            if a == 'extend':
                v = self.element(v)
            cur = st.env[nm]
            if cur == ('seq', ()):
                st.env[nm] = ('list', v)
            elif cur[0] == 'list':
                st.env[nm] = ('list', join(cur[1], v))
            elif cur[0] == 'seq':
                st.env[nm] = ('list', join(joinall(cur[1]), v))
            else:
                u, w = unit_of(cur), unit_of(v)
                if u and w and u != w:
                    self.mixed(e, f'{ast.unparse(e)[:80]} adds {name(w)} to {name(u)}')
                st.env[nm] = join(cur, v) if cur[0] == 'ang' and v[0] == 'ang' else Q
            return c(None)
        if a == 'reshape' or a in ('flatten', 'ravel'):
            if o[0] in ('ang', 'vec', 'pos', 'col'):
                return o
            if o[0] == 'seq' and all(x[0] != 'seq' for x in o[1]):
                return o if args in ([c(3)], [c(-1)]) else Q
            if o[0] == 'list' and o[1][0] == 'seq':
                return ('tab', o[1][1])
            if o[0] == 'tab' and len(args) == 2 and args[1] == c(len(o[1])):
                return o
            return Q
        if a in KEEP:
            return o
        if a == 'get_unit':
            return Q
        if o[0] == 'c' and isinstance(o[1], str):
            return Q
        return q(f'@{e.lineno}:{e.col_offset}')

    def extern(self, nm, args, kws, e, st):
        last = nm.rsplit('.', 1)[-1]
        if last in ('copy', 'deepcopy') and nm.startswith('copy.') and args:
            return args[0]
        if nm.split('.')[0] in ('numpy', 'math') or nm.startswith('builtins.'):
            if last in TRIG and args:
                self.used()
                if unit_of(args[0]) == 'deg':
                    self.report('trig', self.f, e, f'{ast.unparse(e)[:90]} takes {last} of degrees')
                return Q
            if last in ARC:
                return ang('rad')
            if last in ('radians', 'deg2rad') and args:
                if args[0][0] == 'c' and args[0][1] == 1:
                    return ('fac', 'd2r')
                return self.convert(args[0], 'deg', 'rad', e)
            if last in ('degrees', 'rad2deg') and args:
                if args[0][0] == 'c' and args[0][1] == 1:
                    return ('fac', 'r2d')
                return self.convert(args[0], 'rad', 'deg', e)
            if last == 'getattr' and len(args) >= 2 and args[1][0] == 'c' and isinstance(args[1][1], str):
                if args[0][0] == 'me':
                    return self.e_Attribute(ast.copy_location(ast.Attribute(e.args[0], args[1][1], ast.Load()), e), st)
                return self.attr(args[0], args[1][1], e)
            if last == 'setattr' and len(args) == 3 and len(e.args) == 3:
                if args[1][0] == 'c' and isinstance(args[1][1], str):
                    self.store(ast.copy_location(ast.Attribute(e.args[0], args[1][1], ast.Store()), e), args[2], st, e)
                elif isinstance(e.args[0], ast.Name) and not self.isme(e.args[0], st):
                    st.env[e.args[0].id] = Q
                return Q
            if last == 'type' and len(args) == 1 and args[0][0] in ('cn', 'nd', 'sv', 'hdr', 'list'):
                return ('type', args[0][0])
            if last == 'isinstance' and len(args) == 2 and args[0][0] in ('cn', 'nd', 'sv', 'hdr', 'list') and args[1] == ('ext', 'builtins.list'):
                return c(args[0][0] == 'list')
            if last == 'zip':
                vs = list(args)
                return ('zip', tuple(vs))
            if last == 'enumerate' and args:
                return ('enum', args[0])
            if last in ('column_stack',) and args and args[0][0] == 'seq':
                return ('tab', args[0][1])
            if last in ('vstack', 'concatenate', 'hstack', 'append', 'r_') and args:
                v = args[0] if last != 'append' else ('seq', tuple(args[:2]))
                if v[0] == 'seq' and v[1] and all(x[0] == 'tab' for x in v[1]):
                    return joinall(v[1])
                if v[0] == 'list' and v[1][0] == 'tab':
                    return v[1]
                if v[0] == 'list' and v[1][0] == 'seq' and last == 'vstack':
                    return ('tab', v[1][1])
                if v[0] == 'seq' and v[1] and all(x[0] == 'seq' for x in v[1]) and last == 'vstack':
                    return ('tab', tuple(joinall(z) for z in zip(*[x[1] for x in v[1]])))
                if v[0] == 'seq' and v[1]:
                    vs = v[1]
                    us = [unit_of(x) for x in vs if unit_of(x)]
                    if len(set(us)) > 1:
                        self.mixed(e, f'{ast.unparse(e)[:90]} joins degrees and radians')
                        return Q
                    return joinall([self.flat(x) for x in vs])
                return self.flat(v) if v[0] == 'list' else v if v[0] == 'ang' else Q
            if last == 'array' and args and args[0][0] in ('list',):
                v = args[0]
                return ('tab', v[1][1]) if v[1][0] == 'seq' else v[1] if v[1][0] in ('ang',) else v
            if last in ('array', 'asarray') and args and args[0][0] == 'zip':
                return ('tab', args[0][1])
            if last in ('list', 'tuple') and args and args[0][0] in ('zip', 'enum'):
                return args[0]
            if last == 'stack' and args:
                v = args[0]
                ax = args[1] if len(args) > 1 else kws.get('axis')
                if v[0] == 'seq' and v[1] and all(x[0] == 'seq' and len(x[1]) == len(v[1][0][1]) for x in v[1]) and ax == c(1):
                    return ('seq', tuple(joinall(z) for z in zip(*[x[1] for x in v[1]])))
                return Q
            if last == 'cross' and len(args) == 2 and args[0][0] == args[1][0] == 'vec':
                return join(args[0], args[1])
            if last == 'where' and len(args) == 3:
                return self.joinargs(args[1:], e)
            if last in ('insert',) and len(args) >= 3:
                a, v = args[0], args[2]
                u, w = unit_of(a), unit_of(v)
                if u and w and u != w:
                    self.mixed(e, f'{ast.unparse(e)[:90]} puts {name(w)} among {name(u)}')
                    return Q
                if a[0] == 'col':
                    return a
                return join(a, self.flat(v)) if a[0] == 'ang' else Q
            if last == 'full_like' and len(args) >= 2:
                return args[1] if args[1][0] == 'ang' else Q
            if last == 'full' and (len(args) > 1 or 'fill_value' in kws):
                v = args[1] if len(args) > 1 else kws['fill_value']
                return v if v[0] in ('ang', 'vec') else Q
            if last in JOINALL and len(args) > 1:
                return self.joinargs(args, e)
            if last in ('zeros', 'zeros_like'):
                return c(0)
            if last in ('bool',) and args and args[0][0] == 'c':
                return c(bool(args[0][1]))
            if last in ('isinstance', 'hasattr', 'len', 'range', 'any', 'all', 'int', 'type', 'dict', 'map', 'str', 'super'):
                if last == 'int' and args and args[0][0] in ('q',):
                    return args[0]
                if last == 'dict' and not args:
                    return ('dict', tuple(sorted(kws.items())))
                if last == 'all' and args and args[0][0] == 'seq' and args[0][1] and all(x[0] == 'c' for x in args[0][1]):
                    return c(all(x[1] for x in args[0][1]))
                if last == 'any' and args and args[0][0] == 'seq' and any(x[0] == 'c' and x[1] for x in args[0][1]):
                    return c(True)
                return q(f'@{e.lineno}:{e.col_offset}') if last in ('len', 'int') else Q
            if last in KEEP and args:
                v = args[0]
                if last in ('diff', 'sum', 'mean', 'average', 'cumsum') and v[0] == 'ang':
                    return ang(v[1], None if last == 'diff' else v[2], v[3])
                if last in ('diff', 'sum', 'cumsum') and v[0] != 'ang':
                    return Q
                if last in ('max', 'min', 'amax', 'amin') and v[0] in ('seq', 'list'):
                    return self.joinargs(list(v[1]) if v[0] == 'seq' else [v[1]], e)
                if last in ('sorted', 'list', 'tuple') and v[0] == 'zip':
                    return v
                return v
        if last in ('searchsorted', 'argmin', 'argmax'):
            return q(f'@{e.lineno}:{e.col_offset}')
        return q(f'@{e.lineno}:{e.col_offset}') if args and False else Q

    def flat(self, v):
        if v[0] == 'list':
            return v[1] if v[1][0] == 'ang' else v
        if v[0] == 'seq' and v[1]:
            j = joinall(v[1])
            return j if j[0] in ('ang',) else Q
        return v

    def joinargs(self, args, e):
        us = {}
        for a in args:
            u = unit_of(a)
            if u:
                us[u] = a
        if len(us) > 1:
            self.mixed(e, f'{ast.unparse(e)[:90]} joins degrees and radians')
            return Q
        angs = [a for a in args if a[0] == 'ang']
        if 'rad' in us and any(numeric(a) and abs(a[1]) in (90, 180, 270, 360) for a in args) and angs:
            self.mixed(e, f'{ast.unparse(e)[:90]} joins radians with whole degrees')
            return Q
        if angs:
            return joinall(angs) if all(a[0] in ('ang', 'c', 'pi') for a in args) else ang(us and next(iter(us)), None, None)
        return joinall(args) if args and all(a == args[0] for a in args) else Q

    def convert(self, v, need, got, e):
        u = unit_of(v)
        self.used()
        if u and u != need and v[0] != 'pi':
            self.report('convert', self.f, e, f'{ast.unparse(e)[:90]} converts {name(u)} to {name(got)}')
            return Q
        if v[0] == 'ang':
            return ang(got, v[2], v[3])
        if v[0] in ('seq', 'tab'):
            return (v[0], tuple(self.convert(x, need, got, e) for x in v[1]))
        if v[0] == 'list':
            return ('list', self.convert(v[1], need, got, e))
        if v[0] == 'c' and not numeric(v):
            return Q
        return ang(got)

    # --- repository calls ------------------------------------------------------------------------------------------
    def bind(self, g, args, kws, ok=True):
        """kinds of the callee's parameters; those not given get their default"""
        a = g.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env = dict(zip(ps, args))
        if a.vararg is not None:
            env[a.vararg.arg] = ('seq', tuple(args[len(ps):])) if ok else Q
        extra = {}
        allp = set(ps) | {x.arg for x in a.kwonlyargs}
        for k, v in kws.items():
            if k in allp:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            env[a.kwarg.arg] = ('dict', tuple(sorted(extra.items()))) if ok else Q
        ds = dict(zip(reversed(ps), reversed(a.defaults)))
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        given = set(env)
        for p in allp - given:
            d = ds.get(p)
            if not ok:
                env[p] = Q
            elif isinstance(d, ast.Constant):
                env[p] = c(d.value)
            elif isinstance(d, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in d.elts):
                env[p] = ('seq', tuple(c(x.value) for x in d.elts))
            else:
                env[p] = Q
        return env, given

    SUMMARY = {'utils.get_vec', 'utils.get_angles', 'survey.from_connections'}

    def enter(self, g, args, kws, e, st, ok=True):
        env, given = self.bind(g, args, kws, ok)
        if g.qual == 'survey.from_connections' and self.site:
            self.site('from_connections', self.f, e, env, given, st)
        elif self.site and 'unit' in env:
            self.site('told', self.f, e, env, given, st)
        if g.qual in ('survey.from_connections', 'survey._interpolate_survey', 'survey.slice_survey', 'survey.interpolate_survey', 'survey.interpolate_survey_tvd', 'survey.project_to_target'):
            r = self.descend(g, env, st)
            return r if r is not None and r[0] == 'nd' else ('sv', f'new@{self.f.qual}:{e.lineno}')
        if g.qual == 'utils.get_angles':
            self.descend(g, env, st)
            v = env.get('vec', Q)
            if v[0] == 'seq' and v[1] and v[1][0][0] == 'vec':
                v = joinall(v[1])
            r = v[1] if v[0] == 'vec' else None
            return ('tab', (ang('rad'), ang('rad', r)))
        if g.qual == 'utils.get_vec':
            self.descend(g, env, st)
            a = env.get('azi', Q)
            return ('vec', a[2] if a[0] == 'ang' else None)
        if g.qual == 'utils.get_arc':
            self.descend(g, env, st)
            v = env.get('vec', Q)
            return ('seq', (Q, v if v[0] == 'vec' else Q, Q))
        if g.name == 'get_node' or g.qual in ('survey.interpolate_md', 'survey.interpolate_tvd', 'survey.get_node_tvd', 'survey.project_ahead'):
            r = self.descend(g, env, st)
            if r is not None and r[0] == 'sv':
                return r
            return ('nd', f'{g.name}@{e.lineno}') + (r[2:] if r is not None and r[0] == 'nd' else (None, None))
        r = self.descend(g, env, st)
        if r is None or r[0] == 'q':
            return q(f'@{e.lineno}:{e.col_offset}')
        return r

    def descend(self, g, env, st, fresh=None):
        if g in self.stack or len(self.stack) > 12:
            return Q
        a = g.node.args
        mine = any(v == ('me',) for v in env.values())
        key = (g.node, frozenset((k, v) for k, v in env.items() if hashable(v)), frozenset(st.attrs.items()) if mine and fresh is None else None, self.cls.qual if mine and self.cls else None)
        if key in self.memo:
            v, attrs = self.memo[key]
        else:
            keep, self.loops = self.loops, []
            try:
                v, attrs = self.run(g, env, st.attrs if mine and fresh is None else {}, self.cls if mine and fresh is None and g.cls is not None else None)
            finally:
                self.loops = keep
            self.memo[key] = (v, attrs)
        if fresh is not None:
            self.built[g.node] = tuple(sorted(attrs.items())) if attrs is not None else None
        if mine and fresh is None and attrs is not None:
            st.attrs.clear()
            st.attrs.update(attrs)
        return v if v is not None else Q

    def construct(self, g, args, kws, e, st, ok):
        kk = g.lookup('__init__')
        if kk is None or not isinstance(kk[1], Func):
            return Q
        env, given = self.bind(kk[1], [('me',)] + args, kws, ok)
        names = {k.name for k in g.mro()}
        if g.qual in self.watch and self.site:
            self.site(g.qual, self.f, e, env, given, st)
        elif self.site and 'unit' in env:
            self.site('told', self.f, e, env, given, st)
        if 'Survey' in names:
            self.callflag(env, e, 'deg', ('inc', 'azi'), kk[1])
            return ('sv', f'new@{self.f.qual}:{e.lineno}')
        if 'SurveyHeader' in names:
            r = env.get('azi_reference', Q)
            self.callflag(env, e, 'deg', ('dip', 'declination', 'convergence', 'vertical_section_azimuth', 'vertical_inc_limit'), kk[1], given)
            return ('hdr', f'hdr@{self.f.qual}:{e.lineno}', r[1] if r[0] == 'c' else None)
        if 'Node' in names:
            self.callflag(env, e, 'degrees', ('inc', 'azi'), kk[1])
            return ('nd', f'new@{self.f.qual}:{e.lineno}', frame([env.get('azi', Q), env.get('vec', Q)]), env.get('unit'))
        if 'Connector' in names:
            self.callflag(env, e, 'degrees', ('inc1', 'azi1', 'inc2', 'azi2'), kk[1])
            fr = frame([env.get(k, Q) for k in ('azi1', 'vec1', 'node1', 'azi2', 'vec2', 'node2')])
            return ('cn', f'new@{self.f.qual}:{e.lineno}', fr, env.get('unit'))
        if ok and len(self.stack) <= 6:
            keepcls = self.cls
            self.cls = g
            try:
                self.descend(kk[1], env, State({}, {}), fresh=True)
            finally:
                self.cls = keepcls
            last = self.built.get(kk[1].node)
            if last is not None and hashable(last):
                return ('obj', g.qual, last)
        return q(f'new@{self.f.qual}:{e.lineno}')

    def callflag(self, env, e, flag, angles, g, given=None):
        fl = env.get(flag, Q)
        if fl[0] != 'c' or not isinstance(fl[1], bool):
            return
        want = 'deg' if fl[1] else 'rad'
        for p in angles:
            if p not in env or given is not None and p not in given:
                continue
            u = unit_of(env[p])
            if u and env[p][0] != 'pi':
                self.used()
                if u != want:
                    self.report('flag', self.f, e, f'{g.cls.name if g.cls else g.name} is given {p} in {name(u)} with {flag}={fl[1]}')


def frame(vs):
    """the reference shared by what is known of the directions given"""
    rs = set()
    for v in vs:
        r = v[2] if v[0] in ('ang', 'nd', 'cn') else v[1] if v[0] == 'vec' else v[1][0][1] if v[0] == 'seq' and v[1] and v[1][0][0] == 'vec' else None
        if r:
            rs.add(r)
    return rs.pop() if len(rs) == 1 else None


ME_SURVEY = True


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def name(u):
    return {'deg': 'degrees', 'rad': 'radians'}[u]


def walk_own(n):
    todo = list(ast.iter_child_nodes(n))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))
