"""Which axis each component of a position or direction triple is: a forward flow of axis labels.

A label is 'n' (north), 'e' (east) or 'v' (vertical); x is east, y is north, z is vertical. A value is one of
  ('ax', label)          a number or a column of one axis
  ('tri', (a, b, c))     three of them along the last axis, or a vector of three
  ('triT', (a, b, c))    three of them along the first axis
  ('lit', (a, b, c))     a list of three, numbers or columns; 'litT' is its transpose
Labels come from the names of published attributes and options (n, e, tvd, x, y, z, *_nev, *_xyz), from the conversion
functions and their flags. They are compared where a triple is used as one in a known frame. What is unknown is never
reported."""
import ast, re
from .bound import own
from .loader import Func, Cls, Ext

NEV, XYZ = ('n', 'e', 'v'), ('e', 'n', 'v')
AXES = {'n': 'n', 'e': 'e', 'tvd': 'v', 'x': 'e', 'y': 'n', 'z': 'v'}
KEEP = {'array', 'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'copy', 'float64', 'abs', 'absolute', 'cumsum', 'diff', 'squeeze', 'astype', 'tolist', 'unique', 'around', 'round', 'ravel', 'flatten', 'reshape',
        'float', 'list', 'tuple', 'deepcopy', 'negative', 'mean', 'nan_to_num', 'ascontiguousarray', 'insert', 'append', 'delete', 'repeat', 'tile', 'radians', 'take', 'roll', 'sort', 'full_like'}
STACKLAST = {'column_stack', 'array', 'asarray', 'hstack', 'vstack', 'stack', 'concatenate', 'list', 'tuple', 'r_', 'c_', 'dstack', 'row_stack'}
CONTRACT = {
    'utils.get_nev': {'pos': XYZ}, 'utils.get_xyz': {'pos': NEV},
    'survey.project_ahead': {'pos': NEV, 'vec': NEV},
    'utils.get_toolface': {'pos1': NEV, 'vec1': NEV, 'pos2': NEV},
    'connector.get_pos': {'pos1': NEV, 'vec1': NEV, 'vec2': NEV},
    'utils.get_arc': {'pos': NEV, 'vec': NEV},
}
RETURN = {'utils.get_nev': ('tri', NEV), 'utils.get_xyz': ('tri', XYZ)}
TURN = {'tri': 'triT', 'triT': 'tri', 'lit': 'litT', 'litT': 'lit'}
FLAGGED = {'pos', 'vec', 'pos1', 'vec1', 'pos2', 'vec2', 'cartesians', 'positions'}


def byname(a):
    """the label that a name of an attribute or option states"""
    if a in AXES:
        return ('ax', AXES[a])
    if re.search(r'(^|_)(cov|sigma|transform|std|err|e|errors?|dr|dpde|vcov|trans)\w*_(nev|xyz)s?$|^cov|kwargs|^e_NEV', a) or a in ('nev', 'xyz', 'get_nev', 'get_xyz', '_get_nev'):
        return None
    if re.search(r'(^|_)nevs?$', a):
        return ('tri', NEV)
    if re.search(r'(^|_)xyzs?$', a):
        return ('tri', XYZ)
    return None


def join(a, b):
    return a if a == b else None


def text(v):
    return ', '.join({'n': 'north', 'e': 'east', 'v': 'vertical'}[x] for x in v[1]) if v[0] != 'ax' else {'n': 'north', 'e': 'east', 'v': 'vertical'}[v[1]]


class Frames:
    def __init__(self, types):
        self.T, self.prog = types, types.prog
        self.memo, self.busy = {}, set()
        self.reports, self.sinks = {}, {}

    def run(self):
        for f in self.prog.all_functions():
            self.ret(f)

    def ret(self, f):
        """label of what a function returns"""
        if f.qual in RETURN:
            if f.node not in self.memo:
                self.memo[f.node] = RETURN[f.qual]
                Flow(self, f).go()
            return RETURN[f.qual]
        if f.node in self.memo:
            return self.memo[f.node]
        if f.node in self.busy:
            return None
        self.busy.add(f.node)
        try:
            w = Flow(self, f)
            r = w.go()
        except RecursionError:
            r = None
        self.busy.discard(f.node)
        self.memo[f.node] = r
        return r

    def sink(self, f, node, what, want, v):
        key = (f.qual, what)
        loc = f'{f.module.rel}:{node.lineno}'
        if v is None:
            return
        if v[0] == 'ax' and want[0] == 'ax':
            good = v[1] == want[1]
        elif v[0] != 'ax' and want[0] != 'ax':
            good = v[1] == want[1]
        else:
            return
        self.sinks.setdefault(key, loc)
        if not good:
            self.reports.setdefault(key, (f'{what} takes {text(want)} and is given {text(v)}', loc))

    def mix(self, f, node, a, b):
        key = (f.qual, f'sum of {ast.unparse(node)[:60]}')
        loc = f'{f.module.rel}:{node.lineno}'
        self.reports.setdefault(key, (f'{text(a)} and {text(b)} are added or subtracted component by component', loc))


class Flow:
    def __init__(self, fr, f):
        self.fr, self.f = fr, f
        self.rets = []
        self.env = {}
        self.flag = {}

    def go(self):
        f = self.f
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = byname(x.arg)
            if v is not None and v[0] == 'tri':
                self.env[x.arg] = v
        c = CONTRACT.get(f.qual)
        if c and f.qual not in RETURN:
            for p, w in c.items():
                self.env[p] = ('tri', w)
        if not f.parent:
            self.block(f.node.body)
        r = None
        if self.rets:
            r = self.rets[0]
            for x in self.rets[1:]:
                r = join(r, x)
        v = byname(re.sub('^_?get_', '', f.name)) if f.name not in ('get_nev', 'get_xyz', '_get_nev') else None
        if v is not None and r is not None and v[0] == 'tri':
            self.fr.sink(f, f.node, 'the result', v, r)
        return r

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def branch(self, *bodies):
        start = dict(self.env)
        out = None
        for b in bodies:
            self.env = dict(start)
            self.block(b)
            if b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                continue
            out = dict(self.env) if out is None else {k: v for k, v in ((k, join(out.get(k), self.env.get(k))) for k in set(out) | set(self.env))}
        self.env = out if out is not None else start

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.store(t, v, s.value)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.store(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            t = s.target
            old = self.ev(t) if not isinstance(t, ast.Subscript) else None
            v = self.ev(s.value)
            r = self.arith(s.op, old, v, s)
            if isinstance(t, ast.Name):
                self.env[t.id] = r
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.branch(s.body, s.orelse)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.ev(s.iter)
                self.each(s.target, s.iter)
            else:
                self.ev(s.test)
            start = dict(self.env)
            self.block(s.body)
            self.env = {k: join(start.get(k), self.env.get(k)) if k in start else None for k in set(start) | set(self.env)}
            self.block(s.body)
            self.env = {k: join(start.get(k), self.env.get(k)) if k in start else self.env.get(k) for k in set(start) | set(self.env)}
            self.block(s.orelse)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            start = dict(self.env)
            self.block(s.body)
            out = dict(self.env)
            for h in s.handlers:
                self.env = {k: join(start.get(k), out.get(k)) for k in set(start) | set(out)}
                self.block(h.body)
                out = {k: join(out.get(k), self.env.get(k)) for k in set(out) | set(self.env)}
            self.env = out
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            self.rets.append(self.ev(s.value) if s.value is not None else None)
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.ev(x)

    def store(self, t, v, value, it=None):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.ev(t.value)
            w = byname(t.attr)
            if w is not None:
                self.fr.sink(self.f, t, f'{ast.unparse(t)}', w, v)
                # handing on what a caller gave, or nothing: its name says no more than the caller's did
                key = ast.unparse(t)
                if v is None and (value is None or isinstance(value, ast.Constant) or isinstance(value, ast.Name) and byname(value.id) is None):
                    self.env[key] = None
                else:
                    self.env.pop(key, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for x, y in zip(t.elts, value.elts):
                    self.store(x, self.ev(y), y)
                return
            parts = v[1] if v is not None and v[0] in ('triT', 'lit') and len(t.elts) == 3 else None
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.store(x, ('ax', parts[i]) if parts else None, None)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            b = self.ev(t.value)
            c = self.component(t.slice)
            if b is not None and b[0] == 'tri' and c is not None and v is not None and v[0] == 'ax' and isinstance(t.value, (ast.Name, ast.Attribute)):
                self.fr.sink(self.f, t, f'component {c} of {ast.unparse(t.value)}', ('ax', b[1][c]), v)
            elif isinstance(t.value, ast.Name) and c is not None:
                self.env[t.value.id] = None

    def each(self, t, it):
        """the loop variable: a row of a table of triples, an entry of a column"""
        fn = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else None
        if fn == 'zip' and isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == len(it.args) and not any(isinstance(x, ast.Starred) for x in list(it.args) + t.elts):
            for x, y in zip(t.elts, it.args):
                self.each(x, y)
        elif fn == 'enumerate' and isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2 and it.args:
            self.store(t.elts[0], None, None)
            self.each(t.elts[1], it.args[0])
        elif fn in ('reversed', 'list', 'tuple') and len(it.args) == 1:
            self.each(t, it.args[0])
        else:
            v = self.ev(it) if isinstance(t, ast.Name) else None
            self.store(t, v if v is not None and v[0] in ('tri', 'ax') else None, None)

    # ------------------------------------------------------------------ expressions
    def component(self, sl):
        """[:, k] or [..., k]"""
        if isinstance(sl, ast.Tuple) and len(sl.elts) == 2 and isinstance(sl.elts[1], ast.Constant) and isinstance(sl.elts[1].value, int) and -3 <= sl.elts[1].value <= 2:
            if isinstance(sl.elts[0], ast.Slice) or isinstance(sl.elts[0], ast.Constant) and sl.elts[0].value is Ellipsis:
                return sl.elts[1].value % 3
        return None

    def arith(self, op, a, b, node):
        if isinstance(op, (ast.Add, ast.Sub)):
            if a is not None and b is not None and (a[0] == 'ax') == (b[0] == 'ax'):
                if a[1] != b[1] and {a[0], b[0]} <= {'ax', 'tri', 'lit'}:
                    self.fr.mix(self.f, node, a, b)
                    return None
                return a if a[1] == b[1] else None
            if a is None or b is None:
                return a if b is None else b
            return None
        if isinstance(op, ast.Mult) and (a is None) != (b is None):
            v = a if b is None else b
            return v if v[0] != 'ax' else None
        if isinstance(op, ast.Div) and b is None and a is not None and a[0] != 'ax':
            return a
        return None

    def ev(self, e):
        if e is None:
            return None
        if isinstance(e, ast.Name):
            return self.env.get(e.id)
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value)
            if e.attr == 'T':
                return (TURN[b[0]], b[1]) if b is not None and b[0] != 'ax' else None
            if isinstance(e.value, ast.Name) and e.value.id in ('np', 'numpy', 'math'):
                return None
            if isinstance(e.ctx, ast.Load) and (k := ast.unparse(e)) in self.env:
                return self.env[k]
            return byname(e.attr)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value)
            self.ev(e.slice) if not isinstance(e.slice, ast.Slice) else None
            if b is None:
                return None
            if b[0] == 'ax':
                return b
            if isinstance(e.slice, ast.Tuple):
                k = self.component(e.slice)
                if k is not None and b[0] in ('tri', 'litT'):
                    return ('ax', b[1][k])
                if b[0] == 'tri' and len(e.slice.elts) == 2 and isinstance(e.slice.elts[0], ast.Slice) and isinstance(e.slice.elts[1], (ast.List, ast.Tuple)):
                    ks = [x.value if isinstance(x, ast.Constant) else None for x in e.slice.elts[1].elts]
                    if len(ks) == 3 and all(isinstance(k, int) and 0 <= k <= 2 for k in ks):
                        return ('tri', tuple(b[1][k] for k in ks))
                return None
            if isinstance(e.slice, ast.Slice):
                return ('tri', b[1]) if b[0] in ('tri', 'litT') else None
            if b[0] == 'litT':
                return 'tri', b[1]
            if b[0] in ('triT', 'lit'):
                if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -3 <= e.slice.value <= 2:
                    return ('ax', b[1][e.slice.value % 3])
                return None
            return b if b[0] == 'tri' else None
        if isinstance(e, (ast.Tuple, ast.List)):
            vs = [self.ev(x.value if isinstance(x, ast.Starred) else x) for x in e.elts]
            return self.pack(vs, e.elts)
        if isinstance(e, ast.BinOp):
            return self.arith(e.op, self.ev(e.left), self.ev(e.right), e)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            return v if isinstance(e.op, (ast.USub, ast.UAdd)) else None
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            a, b = self.ev(e.body), self.ev(e.orelse)
            if isinstance(e.orelse, ast.Constant):
                return a
            return join(a, b)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Lambda):
            return None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            keep = dict(self.env)
            for g in e.generators:
                self.ev(g.iter)
                self.each(g.target, g.iter)
            for x in ([e.elt] if not isinstance(e, ast.DictComp) else [e.key, e.value]):
                self.ev(x)
            self.env = keep
            return None
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return None

    def pack(self, vs, elts):
        if len(vs) == 3 and all(v is not None and v[0] == 'ax' for v in vs):
            t = tuple(v[1] for v in vs)
            return ('lit', t) if len(set(t)) == 3 else None
        if len(vs) > 1 and all(v is not None and v[0] == 'ax' for v in vs) and len({v[1] for v in vs}) == 1:
            return vs[0]
        if vs and all(v is not None and v[0] == 'tri' for v in vs) and len({v[1] for v in vs}) == 1:
            return vs[0]
        return None

    def call(self, e):
        fn = e.func
        pos = [self.ev(x) for x in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        g = self.fr.T.callee(e, self.f)
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''
        base = self.ev(fn.value) if isinstance(fn, ast.Attribute) else None
        cls = None
        if isinstance(g, Cls):
            cls = g
            k = g.lookup('__init__')
            g = k[1] if k is not None and isinstance(k[1], Func) else None
        if isinstance(g, Func):
            self.bind(e, g, cls, pos, kws)
            if cls is not None:
                return None
            if g.qual == 'utils.get_vec':
                nev = self.const(e, g, 'nev')
                return ('tri', NEV if nev else XYZ) if nev is not None else None
            return self.fr.ret(g)
        if isinstance(fn, ast.Attribute) and not (isinstance(fn.value, ast.Name) and fn.value.id in ('np', 'numpy', 'math', 'copy')):
            # a method of a value
            if name in ('T', 'transpose') and base is not None and base[0] != 'ax' and not e.args:
                return TURN[base[0]], base[1]
            if name in ('reshape', 'copy', 'astype', 'tolist', 'squeeze', 'round', 'cumsum', 'flatten', 'ravel', 'repeat'):
                if base is not None and name in ('reshape', 'flatten', 'ravel', 'squeeze'):
                    return {'triT': None, 'litT': ('tri', base[1])}.get(base[0], base)
                return base
            return None
        arg = pos[0] if pos else None
        if name in ('transpose',) and arg is not None and arg[0] != 'ax' and len(pos) == 1:
            return TURN[arg[0]], arg[1]
        if name in ('column_stack', 'stack', 'dstack') and arg is not None and arg[0] == 'lit':
            ax = next((k.value for k in e.keywords if k.arg == 'axis'), None)
            if name == 'stack':
                if ax is None or not isinstance(ax, (ast.UnaryOp, ast.Constant)):
                    return arg
                if isinstance(ax, ast.Constant) and ax.value == 0:
                    return arg
            return 'tri', arg[1]
        if name in ('hstack', 'concatenate', 'insert', 'append', 'delete') and arg is not None and arg[0] != 'tri' and arg[0] != 'ax':
            return None
        if name in ('add', 'subtract') and len(pos) == 2:
            return self.arith(ast.Add(), pos[0], pos[1], e)
        if name == 'cross' and len(pos) == 2 and all(v is not None and v[0] in ('tri', 'lit') for v in pos):
            if pos[0][1] != pos[1][1]:
                self.fr.mix(self.f, e, pos[0], pos[1])
            return None
        if name in ('dot', 'inner') and len(pos) == 2 and all(v is not None and v[0] in ('tri', 'lit') for v in pos) and pos[0][1] != pos[1][1]:
            self.fr.mix(self.f, e, pos[0], pos[1])
            return None
        if name in STACKLAST or name in KEEP:
            return arg
        if name == 'where' and len(pos) == 3:
            return join(pos[1], pos[2])
        return None

    def const(self, e, g, p):
        """constant value of an argument, or of its default"""
        a = g.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        for k in e.keywords:
            if k.arg == p:
                return k.value.value if isinstance(k.value, ast.Constant) else None
            if k.arg is None:
                return None
        off = 1 if g.cls is not None and not g.is_static else 0
        if any(isinstance(x, ast.Starred) for x in e.args):
            return None
        i = ps.index(p) - off
        if i < len(e.args):
            return e.args[i].value if isinstance(e.args[i], ast.Constant) else None
        d = dict(zip(reversed(ps), reversed(a.defaults))).get(p)
        return d.value if isinstance(d, ast.Constant) else None

    def bind(self, e, g, cls, pos, kws):
        a = g.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if g.cls is not None and not g.is_static:
            ps = ps[1:]
        b = {}
        for i, (x, v) in enumerate(zip(e.args, pos)):
            if isinstance(x, ast.Starred):
                break
            if i < len(ps):
                b[ps[i]] = v
        have = set(ps) | {x.arg for x in a.kwonlyargs}
        b.update({k: v for k, v in kws.items() if k in have})
        nev = None
        if 'nev' in have:
            nev = self.const(e, g, 'nev')
        what = cls.qual if cls is not None else g.qual
        for p, v in b.items():
            if v is None:
                continue
            w = None
            if g.qual in CONTRACT and p in CONTRACT[g.qual]:
                w = ('tri', CONTRACT[g.qual][p])
            elif p in FLAGGED and isinstance(nev, bool):
                w = ('tri', NEV if nev else XYZ)
            elif cls is not None and p in AXES or byname(p) is not None and byname(p)[0] == 'tri':
                w = byname(p)
            if w is not None:
                self.fr.sink(self.f, e, f'{p} of {what}', w, v)
