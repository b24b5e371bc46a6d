"""What each parameter of a function has an influence on.

A forward flow of 'which parameters this value may depend on' over the statements of a function, data and control: what a
value is computed from, and the conditions under which it is computed. A parameter matters when it reaches something that
can be seen outside: the value returned, a store on an object that is not the function's own, a call whose effects are not
known, an attribute that is read elsewhere. Methods of the same object are followed where they are called, other functions
of the package through their own parameters' influence, so that an option handed to a function that ignores it counts as
ignored."""
import ast, re
from .bound import own, local_names
from .loader import Func, Cls, Ext, Module

NONE, CHECK, STORE, EFFECT = 0, 1, 2, 3
KINDS = ['none', 'check', 'store', 'effect']
E = frozenset()
PUREMOD = ('numpy', 'math', 'scipy', 'copy', 'itertools', 'functools', 'collections', 'operator', 're', 'datetime', 'string', 'statistics')
PURE = {'len', 'float', 'int', 'str', 'list', 'zip', 'range', 'enumerate', 'min', 'max', 'abs', 'sum', 'any', 'all', 'sorted', 'isinstance', 'issubclass', 'getattr', 'hasattr', 'round', 'tuple', 'dict', 'set',
        'frozenset', 'bool', 'map', 'filter', 'type', 'reversed', 'repr', 'format', 'iter', 'next', 'slice', 'divmod', 'pow', 'complex', 'vars', 'id', 'callable', 'ord', 'chr', 'super', 'object'}
PUREM = {'get', 'items', 'keys', 'values', 'reshape', 'tolist', 'copy', 'astype', 'dot', 'flatten', 'ravel', 'sum', 'mean', 'split', 'strip', 'lower', 'upper', 'format', 'join', 'replace', 'startswith', 'endswith', 'count',
         'index', 'min', 'max', 'cumsum', 'round', 'transpose', 'swapaxes', 'squeeze', 'any', 'all', 'argmin', 'argmax', 'inv', 'rsplit', 'splitlines', 'title', 'capitalize', 'zfill', 'ljust', 'rjust', 'center', 'item', 'nonzero',
         'prod', 'std', 'var', 'clip', 'take', 'repeat', 'diagonal', 'trace', 'conj', 'as_matrix', 'apply', 'as_euler', 'lstrip', 'rstrip', 'isdigit', 'isnumeric', 'group', 'groups', 'strftime', 'date', 'time', 'find', 'findall', 'iter', 'to'}
GROW = {'append', 'extend', 'insert', 'update', 'add', 'setdefault', 'sort', 'reverse', 'pop', 'popitem', 'remove', 'discard', 'clear', 'appendleft'}


SHAPE = {'full_like', 'zeros_like', 'ones_like', 'empty_like', 'len', 'isinstance', 'type', 'hasattr', 'shape', 'size', 'ndim'}


def ctl(t):
    """what a value depends on only through a condition, or a length"""
    return frozenset(x if x[0] == '~' else '~' + x for x in t)


class Sum:
    """ret: parameters the value depends on; eff: those with other effects; chk: those only checked; store: attr -> params;
    calls: omitted options"""
    def __init__(self):
        self.ret, self.eff, self.chk = set(), set(), set()
        self.store = {}
        self.mut = {}          # parameter whose object is changed -> parameters the change depends on


class Influence:
    def __init__(self, types):
        self.T, self.prog = types, types.prog
        self.memo, self.busy = {}, set()
        self.loads, self.patterns = {}, []
        for m in self.prog.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    self.loads[x.attr] = self.loads.get(x.attr, 0) + 1
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('getattr', 'hasattr') and len(x.args) > 1:
                    a = x.args[1]
                    if isinstance(a, ast.JoinedStr):
                        self.patterns.append(re.compile(''.join(re.escape(v.value) if isinstance(v, ast.Constant) else '.*' for v in a.values) + '$'))
                    elif isinstance(a, ast.Constant):
                        self.loads[a.value] = self.loads.get(a.value, 0) + 1
                    else:
                        for y in ast.walk(m.tree):
                            if isinstance(y, ast.Constant) and isinstance(y.value, str) and y.value.isidentifier():
                                self.loads.setdefault(y.value, 1)
        self.omitted = {}      # (caller, callee, option) -> loc
        self.handed = {}       # the same, handed on
        self.fed, self.constant = {}, {}
        self.flows = set()     # goes into some argument, of that name or not
        self.starred = set()   # (caller, callee) with arguments that are not written out

    def read(self, a):
        return self.loads.get(a, 0) > 0 or any(p.match(a) for p in self.patterns)

    # ------------------------------------------------------------------------------------------------------------------
    def sum(self, f):
        k = (f.module.name, f.qual, f.node.lineno)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return None
        self.busy.add(k)
        r = Run(self, f)
        r.go()
        self.busy.discard(k)
        self.memo[k] = r.out
        return r.out

    def never_set_here(self, f, a, s):
        return a not in s.store and not any(g is f or True for g, _ in self.T.stores(f.cls, a) if g.name == f.name or g.name.startswith('_'))

    def kind(self, f, p):
        s = self.sum(f)
        both = {p, '~' + p}
        if s is not None and f.node.args.kwarg and p == f.node.args.kwarg.arg:
            # or any one of the keywords in it
            for x in s.ret | s.eff | set().union(*s.store.values(), set()):
                if x.lstrip('~').startswith(p + ':'):
                    both.add(x)
        if s is None or both & s.ret or both & s.eff:
            return EFFECT
        st = [a for a, ps in s.store.items() if both & ps]
        if any(self.read(a) for a in st):
            return EFFECT
        if st:
            return STORE
        return CHECK if both & s.chk else NONE


def allparams(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


class Run:
    def __init__(self, inf, f):
        self.inf, self.T, self.f = inf, inf.T, f
        self.out = Sum()
        self.me = self.T.me(f)
        self.stack = [f]
        self.frames = []

    def go(self):
        f = self.f
        env = {p: frozenset([p]) for p in allparams(f)}
        if self.me:
            env[self.me] = E
        self.kw = f.node.args.kwarg.arg if f.node.args.kwarg else None
        self.fresh = {}
        attrs = {}
        self.body(f, env, attrs)
        for a, ps in self.endattrs.items():
            self.out.store.setdefault(a, set()).update(ps)
        if self.me and f.name != '__init__':
            for a, ps in self.endattrs.items():
                self.out.eff |= ps

    def body(self, f, env, attrs, pc=E):
        """a function's statements with its names and the object's attributes"""
        keep = self.frames
        fr = Frame(f, self.T.me(f))
        self.frames = keep + [fr]
        st = State(env, attrs)
        st = self.block(f.node.body, st, pc)
        ends = fr.ends + ([st] if st is not None else [])
        self.frames = keep
        out = None
        for s in ends:
            out = s if out is None else out.join(s)
        self.endattrs = out.attrs if out is not None else attrs
        return fr

    @property
    def fr(self):
        return self.frames[-1]

    def isme(self, e):
        return isinstance(e, ast.Name) and self.fr.me is not None and e.id == self.fr.me

    # --- statements ---------------------------------------------------------------------------------------------------
    def block(self, stmts, st, pc):
        for n in stmts:
            if st is None:
                return None
            st = self.stmt(n, st, pc | self.fr.pc)
        return st

    def effect(self, t):
        self.out.eff |= t

    def stmt(self, n, st, pc):
        t = type(n)
        if t in (ast.Assign, ast.AnnAssign):
            if n.value is None:
                return st
            v = self.ev(n.value, st, pc)
            for x in (n.targets if t is ast.Assign else [n.target]):
                if isinstance(x, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(x.elts) == len(n.value.elts) and not any(isinstance(y, ast.Starred) for y in list(x.elts) + list(n.value.elts)):
                    vs = [self.ev(y, st, pc) for y in n.value.elts]
                    for y, w in zip(x.elts, vs):
                        st = self.assign(y, w | pc, st, pc, None)
                else:
                    st = self.assign(x, v | pc, st, pc, n.value)
            return st
        if t is ast.AugAssign:
            v = self.ev(n.value, st, pc) | pc | self.load(n.target, st, pc)
            return self.assign(n.target, v, st, pc, None, weak=True)
        if t is ast.Expr:
            if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                self.ret((self.ev(n.value.value, st, pc) if n.value.value is not None else E) | pc)
                return st
            return self.exprstmt(n.value, st, pc)
        if t is ast.Return:
            if n.value is not None:
                v = self.ev(n.value, st, pc)
                if not (isinstance(n.value, ast.Constant) and n.value.value is None and not pc):
                    self.ret(v | pc)
            elif pc:
                pass
            self.fr.ends.append(st)
            self.fr.pc = self.fr.pc | (pc if len(self.fr.node.body) and n is not self.fr.node.body[-1] else E)
            return None
        if t is ast.Raise:
            self.out.chk |= pc | (self.ev(n.exc, st, pc) if n.exc is not None else E)
            return None
        if t is ast.Assert:
            self.out.chk |= self.ev(n.test, st, pc) | pc
            return st
        if t is ast.If:
            c = self.ev(n.test, st, pc)
            k = self.known(n.test, st)
            if k is not None:
                return self.block(n.body if k else n.orelse, st, pc)
            c = ctl(c)
            a = self.block(n.body, st.copy(), pc | c)
            b = self.block(n.orelse, st.copy(), pc | c)
            if any(isinstance(x, (ast.Break, ast.Continue)) for s in n.body + n.orelse for x in ast.walk(s)) and self.fr.loops:
                self.fr.loops[-1] |= c
            return merge(a, b)
        if t in (ast.For, ast.AsyncFor):
            v = self.ev(n.iter, st, pc)
            return self.loop(n, st, pc, v, v)
        if t is ast.While:
            return self.loop(n, st, pc, None, None)
        if t in (ast.With, ast.AsyncWith):
            for i in n.items:
                v = self.ev(i.context_expr, st, pc)
                self.effect(v)
                if i.optional_vars is not None:
                    st = self.assign(i.optional_vars, v | pc, st, pc, None)
            return self.block(n.body, st, pc)
        if t is ast.Try:
            a = self.block(n.body, st.copy(), pc)
            if a is not None and n.orelse:
                a = self.block(n.orelse, a, pc)
            outs = [a]
            for h in n.handlers:
                s2 = st.copy() if a is None else st.copy().join(a)
                if h.name:
                    s2.env[h.name] = E
                outs.append(self.block(h.body, s2, pc))
            r = None
            for o in outs:
                r = merge(r, o)
            if n.finalbody:
                r2 = self.block(n.finalbody, r if r is not None else st.copy(), pc)
                r = r2 if r is not None else None
            return r
        if t is ast.Delete:
            return st
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            st.env[n.name] = self.closure(n, st, pc)
            ln, _ = local_names(n)
            self.fr.closures[n.name] = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and x.id not in ln and x.id in self.fr.locals} | {y for x in ast.walk(n) if isinstance(x, ast.Nonlocal) for y in x.names}
            return st
        if t is ast.ClassDef:
            st.env[n.name] = E
            return st
        if t is ast.Break:
            self.fr.breaks.append(st.copy())
            return None
        if t is ast.Continue:
            self.fr.conts.append(st.copy())
            return None
        if t.__name__ == 'Match':
            c = self.ev(n.subject, st, pc)
            outs = st.copy()
            for cs in n.cases:
                s2 = st.copy()
                for x in ast.walk(cs.pattern):
                    if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                        s2.env[x.name] = c | pc
                outs = merge(outs, self.block(cs.body, s2, pc | ctl(c)))
            return outs
        return st

    def ret(self, t):
        self.fr.ret |= t
        if len(self.frames) == 1:
            self.out.ret |= t

    def loop(self, n, st, pc, v, it):
        br, ct, lp = self.fr.breaks, self.fr.conts, self.fr.loops
        self.fr.breaks, self.fr.conts = [], []
        self.fr.loops = lp + [E]
        cur = st
        for _ in range(3):
            c = self.ev(n.test, cur, pc) if v is None else it
            s = cur.copy()
            if v is not None:
                s = self.assign(n.target, c | pc, s, pc, None)
            s = self.block(n.body, s, pc | ctl(c) | self.fr.loops[-1])
            for x in self.fr.conts:
                s = merge(s, x)
            self.fr.conts = []
            if s is None:
                break
            nx = cur.copy().join(s)
            if nx == cur:
                break
            cur = nx
        extra = self.fr.loops[-1]
        res = cur
        if n.orelse:
            res = self.block(n.orelse, cur.copy(), pc | extra)
        for x in self.fr.breaks:
            res = merge(res, x)
        self.fr.breaks, self.fr.conts, self.fr.loops = br, ct, lp
        return res

    def assign(self, x, v, st, pc, value, weak=False):
        if isinstance(x, ast.Name):
            if x.id in self.fr.globals:
                self.effect(v)
                return st
            st.env[x.id] = v
            st.kind[x.id] = 'own' if value is not None and self.owned(value, st) else None
            return st
        if isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                st = self.assign(y, v, st, pc, None)
            return st
        if isinstance(x, ast.Starred):
            return self.assign(x.value, v, st, pc, None)
        if isinstance(x, ast.Attribute) and self.isme(x.value):
            st.attrs[x.attr] = v if not weak else v | st.attrs.get(x.attr, E)
            return st
        if isinstance(x, (ast.Attribute, ast.Subscript)):
            if isinstance(x, ast.Subscript):
                v = v | self.ev(x.slice, st, pc)
            b = x.value
            while isinstance(b, (ast.Attribute, ast.Subscript)) and not (isinstance(b, ast.Attribute) and self.isme(b.value)):
                if isinstance(b, ast.Subscript):
                    v = v | self.ev(b.slice, st, pc)
                b = b.value
            if isinstance(b, ast.Attribute):
                st.attrs[b.attr] = st.attrs.get(b.attr, E) | v
            elif isinstance(b, ast.Name) and not self.isme(b):
                st.env[b.id] = st.env.get(b.id, E) | v
                self.mutated(b.id, v)
                for o, a in self.fr.alias.get(b.id, ()):
                    if o == self.fr.me and (a in st.attrs or self.own_member(a) is None):
                        st.attrs[a] = st.attrs.get(a, E) | v
                if not st.kind.get(b.id):
                    # maybe somebody else's object
                    self.effect(v) if b.id in self.fr.params or b.id not in self.fr.locals else None
            else:
                self.effect(v)
            return st
        return st

    def mutated(self, name, v):
        if name in self.fr.params:
            self.fr.mut[name] = self.fr.mut.get(name, E) | v
            if len(self.frames) == 1:
                self.out.mut[name] = self.out.mut.get(name, E) | v

    def touch(self, x, v, st):
        """the object an argument names may have been changed"""
        if isinstance(x, ast.Starred):
            x = x.value
        while isinstance(x, (ast.Attribute, ast.Subscript)) and not (isinstance(x, ast.Attribute) and self.isme(x.value)):
            x = x.value
        if isinstance(x, ast.Attribute):
            if x.attr in st.attrs or self.own_member(x.attr) is None:
                st.attrs[x.attr] = st.attrs.get(x.attr, E) | v
        elif isinstance(x, ast.Name) and not self.isme(x) and x.id in st.env:
            st.env[x.id] = st.env[x.id] | v
            self.mutated(x.id, v)
            for o, a in self.fr.alias.get(x.id, ()):
                if o == self.fr.me and a in st.attrs:
                    st.attrs[a] = st.attrs[a] | v

    def owned(self, e, st):
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Tuple)):
            return True
        if isinstance(e, ast.Call):
            return isinstance(e.func, ast.Name) and e.func.id in ('list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'deque') or isinstance(e.func, ast.Attribute) and e.func.attr in ('defaultdict', 'OrderedDict', 'deque', 'zeros', 'ones', 'empty', 'array', 'full', 'copy', 'zeros_like', 'ones_like', 'full_like')
        return False

    def exprstmt(self, e, st, pc):
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute) and fn.attr in GROW:
                v = pc
                for a in list(e.args) + [k.value for k in e.keywords]:
                    v = v | self.ev(a, st, pc)
                return self.assign(ast.copy_location(ast.Subscript(fn.value, ast.Constant(0), ast.Store()), e), v, st, pc, None)
            if isinstance(fn, ast.Name) and fn.id == 'setattr' and len(e.args) == 3:
                v = pc | self.ev(e.args[1], st, pc) | self.ev(e.args[2], st, pc)
                if self.isme(e.args[0]):
                    if isinstance(e.args[1], ast.Constant):
                        st.attrs[e.args[1].value] = v
                    else:
                        self.effect(v)
                        st.attrs['*'] = st.attrs.get('*', E) | v
                    return st
                return self.assign(ast.copy_location(ast.Attribute(e.args[0], '?', ast.Store()), e), v, st, pc, None)
            self.discard = True
            v = self.call(e, st, pc, True)
            return st
        self.ev(e, st, pc)
        return st

    def closure(self, n, st, pc):
        names, g = local_names(n)
        names |= {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        out = pc
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in names:
                out = out | st.env.get(x.id, E)
            if isinstance(x, ast.Attribute) and self.isme(x.value):
                out = out | st.attrs.get(x.attr, E)
        # names that are bound after the definition
        out = out | frozenset(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and x.id in self.fr.params and x.id not in names and len(self.frames) == 1)
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
            self.effect(out)
        return out

    # --- conditions that are decided ------------------------------------------------------------------------------------
    def known(self, e, st):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None and isinstance(e.left, ast.Attribute):
            f = self.fr.f
            t = self.T.of(e.left.value, f)
            if t and all(self.never_none(c, e.left.attr) for c in t):
                return isinstance(e.ops[0], ast.IsNot)
        return None

    def never_none(self, c, a):
        if self.T.open(c) or c.lookup(a) is not None:
            return False
        ss = self.T.stores(c, a)
        return bool(ss) and all(v is not None and self.something(v) for _, v in ss) and not (a in self.T.loose and self.elsewhere(c, a))

    def elsewhere(self, c, a):
        """the attribute may be stored by code that is not the class's own"""
        fam = set(self.T.family(c))
        for m in self.T.prog.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == a:
                    return True
        for f in self.T.prog.all_functions():
            me = self.T.me(f)
            fine = {id(t) for y in own(f.node) if isinstance(y, ast.Assign) and self.something(y.value) for t in y.targets}
            for x in own(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == a and id(x) not in fine and not (isinstance(x.value, ast.Name) and x.value.id == me):
                    t = self.T.of(x.value, f)
                    if not t or set(t) & fam:
                        return True
        return False

    def something(self, e):
        if isinstance(e, (ast.BinOp, ast.List, ast.ListComp, ast.Dict)):
            return True
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ('np', 'numpy') and e.func.attr.startswith(('full', 'zeros', 'ones', 'array', 'column', 'hstack', 'vstack'))

    # --- expressions ----------------------------------------------------------------------------------------------------
    def load(self, x, st, pc):
        if isinstance(x, ast.Name):
            return st.env.get(x.id, E)
        return self.ev(x, st, pc)

    def ev(self, e, st, pc):
        if e is None or isinstance(e, ast.Constant):
            return E
        if isinstance(e, ast.Name):
            return st.env.get(e.id, E)
        if isinstance(e, ast.Attribute):
            if self.isme(e.value):
                m = self.own_member(e.attr)
                if m is None:
                    return st.attrs.get(e.attr, E)
                if m[0] == 'prop':
                    return self.inline(m[1], None, st, pc)
                return self.method_reads(m[1], st)
            v = self.ev(e.value, st, pc)
            return ctl(v) if e.attr in SHAPE else v
        if isinstance(e, ast.Compare):
            v = E
            for x in [e.left] + e.comparators:
                v = v | self.ev(x, st, pc)
            return v
        if isinstance(e, ast.Call):
            return self.call(e, st, pc, False)
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Name) and self.kw and len(self.frames) == 1 and e.value.id == self.kw and isinstance(e.slice, ast.Constant):
                return frozenset([f'{self.kw}:{e.slice.value}']) | (st.env.get(self.kw, E) - {self.kw})
            return self.ev(e.value, st, pc) | self.ev(e.slice, st, pc)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st, pc)
            st.env[e.target.id] = v | pc
            return v
        if isinstance(e, ast.Lambda):
            out = E
            for x in ast.walk(e.body):
                if isinstance(x, ast.Name):
                    out = out | st.env.get(x.id, E)
                if isinstance(x, ast.Attribute) and self.isme(x.value):
                    out = out | st.attrs.get(x.attr, E)
            for d in e.args.defaults:
                out = out | self.ev(d, st, pc)
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s2 = st.copy()
            v = E
            for g in e.generators:
                it = self.ev(g.iter, s2, pc)
                v = v | it
                s2 = self.assign(g.target, it, s2, pc, None)
                for c in g.ifs:
                    v = v | ctl(self.ev(c, s2, pc))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                v = v | self.ev(x, s2, pc)
            return v
        if isinstance(e, ast.IfExp):
            k = self.known(e.test, st)
            if k is not None:
                return self.ev(e.body if k else e.orelse, st, pc)
            c = ctl(self.ev(e.test, st, pc))
            return c | self.ev(e.body, st, pc | c) | self.ev(e.orelse, st, pc | c)
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = self.ev(e.value, st, pc)
            self.ret(v | pc)
            return v
        out = E
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                out = out | self.ev(x, st, pc)
            elif isinstance(x, ast.keyword):
                out = out | self.ev(x.value, st, pc)
        return out

    def cls(self):
        return self.f.cls

    def own_member(self, a):
        c = self.f.cls
        look = c.lookup(a) if c is not None else None
        if look is not None and isinstance(look[1], Func):
            return look[0], look[1]
        return None

    def method_reads(self, g, st):
        """a bound method handed on as a value"""
        out = E
        seen = set()
        todo = [g]
        while todo:
            h = todo.pop()
            if h.node in seen:
                continue
            seen.add(h.node)
            me = self.T.me(h)
            for x in ast.walk(h.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                    m = self.own_member(x.attr)
                    if m:
                        todo.append(m[1])
                    else:
                        out = out | st.attrs.get(x.attr, E)
        return out

    def bindargs(self, e, h, skip, st, pc):
        """-> (param -> taint, star taint, set of given)"""
        a = h.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        allp = set(pos) | {x.arg for x in a.kwonlyargs}
        b, rest, given = {}, E, set()
        star = False
        for i, x in enumerate(e.args):
            v = self.ev(x.value if isinstance(x, ast.Starred) else x, st, pc)
            if isinstance(x, ast.Starred):
                star = True
                rest = rest | v
            elif star or i >= len(pos):
                if a.vararg:
                    b[a.vararg.arg] = b.get(a.vararg.arg, E) | v
                if star:
                    rest = rest | v
            else:
                b[pos[i]] = v
                given.add(pos[i])
        for k in e.keywords:
            v = self.ev(k.value, st, pc)
            if k.arg is None:
                star = True
                rest = rest | v
                if isinstance(k.value, ast.Dict):
                    pass
            elif k.arg in allp:
                b[k.arg] = v
                given.add(k.arg)
            elif a.kwarg:
                b[a.kwarg.arg] = b.get(a.kwarg.arg, E) | v
                given.add(a.kwarg.arg + ':' + k.arg)
                b[a.kwarg.arg + ':' + k.arg] = v
        return b, rest, given, star

    def note(self, e, h, b, given, star, pc, fixed):
        """options of the caller that the callee accepts too"""
        if len(self.frames) != 1 or h.node is self.f.node:
            return
        if star:
            self.inf.starred.add((self.f.qual, h.qual))
            return
        mine = [p for p in allparams(self.f) if p != self.me]
        a = h.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        opt = set(pos[len(pos) - len(a.defaults):] if a.defaults else []) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        flows = E
        for v in b.values():
            flows = flows | v
        for p in mine:
            if p in opt:
                key = (self.f.qual, h.qual, p)
                if {p, '~' + p} & flows:
                    self.inf.flows.add(key)
                if p in given or {p, '~' + p} & (flows | pc):
                    self.inf.handed.setdefault(key, f'{self.f.module.rel}:{e.lineno}')
                    if p in given:
                        # given a value that depends on the caller's option, or one that nothing of it goes into
                        v = b.get(p, E)
                        if {p, '~' + p} & (v | pc):
                            self.inf.fed.setdefault(key, f'{self.f.module.rel}:{e.lineno}')
                        elif {p, '~' + p} & flows:
                            # it goes into another argument; another option of both in its place
                            if {x for x in mine if x in opt and x in given and x in v and p in b.get(x, E) and x not in b.get(x, E)}:
                                self.inf.constant.setdefault(key, f'{self.f.module.rel}:{e.lineno}')
                        else:
                            self.inf.constant.setdefault(key, f'{self.f.module.rel}:{e.lineno}')
                else:
                    self.inf.omitted.setdefault(key, f'{self.f.module.rel}:{e.lineno}')

    def call(self, e, st, pc, discard):
        fn = e.func
        allargs = E
        # keywords taken from **kwargs
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and self.kw and len(self.frames) == 1 and fn.value.id == self.kw and fn.attr in ('get', 'pop') and e.args and isinstance(e.args[0], ast.Constant):
            v = frozenset([f'{self.kw}:{e.args[0].value}']) | st.env.get(self.kw, E) - {self.kw}
            for a in e.args[1:]:
                v = v | self.ev(a, st, pc)
            return v
        f = self.fr.f
        # the same object's methods, followed
        if isinstance(fn, ast.Attribute) and self.isme(fn.value):
            m = self.own_member(fn.attr)
            if m and m[0] == 'method':
                return self.inline(m[1], e, st, pc)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and self.fr.f.cls is not None:
            for k in self.fr.f.cls.mro()[1:]:
                if fn.attr in k.methods:
                    return self.inline(k.methods[fn.attr], e, st, pc)
            v = E
            for a in list(e.args) + [k.value for k in e.keywords]:
                v = v | self.ev(a, st, pc)
            self.effect(v)
            return v
        g = self.T.callee(e, f)
        base = E
        if isinstance(fn, ast.Attribute):
            base = self.ev(fn.value, st, pc)
            if self.isme(fn.value):
                base = E
        elif isinstance(fn, ast.Name):
            base = st.env.get(fn.id, E)
        else:
            base = self.ev(fn, st, pc)
        if isinstance(g, Func) and g.parent is None and not (set(g.decorators) - {'staticmethod', 'classmethod', 'njit', 'property', 'lru_cache', 'jit'}):
            skip = 0
            if g.cls is not None and not g.is_static:
                r = self.T.resolve(fn.value, f) if isinstance(fn, ast.Attribute) else None
                skip = 0 if isinstance(r, Cls) and not g.is_classm else 1
            if skip == 0 and g.cls is not None and not g.is_static and e.args and self.isme(e.args[0]):
                return self.inline(g, ast.copy_location(ast.Call(e.func, e.args[1:], e.keywords), e), st, pc)
            b, rest, given, star = self.bindargs(e, g, skip, st, pc)
            self.note(e, g, b, given, star, pc, skip)
            return base | self.through(g, b, rest, pc, False, self.actual(e, g, skip), st)
        if isinstance(g, Cls):
            look = g.lookup('__init__')
            if look is not None and isinstance(look[1], Func):
                b, rest, given, star = self.bindargs(e, look[1], 1, st, pc)
                self.note(e, look[1], b, given, star, pc, 1)
                return base | self.through(look[1], b, rest, pc, True, self.actual(e, look[1], 1), st)
            v = E
            for a in list(e.args) + [k.value for k in e.keywords]:
                v = v | self.ev(a.value if isinstance(a, ast.Starred) else a, st, pc)
            if look is None and not g.is_dataclass and not g.is_namedtuple():
                self.effect(v)
            return base | v
        v = base
        whole = isinstance(fn, ast.Attribute) and fn.attr == 'update'
        for a in list(e.args) + [k.value for k in e.keywords]:
            w = self.ev(a.value if isinstance(a, ast.Starred) else a, st, pc)
            v = v | w
            if self.isme(a):
                for x in st.attrs.values():
                    v = v | x
                whole = True
        if whole and self.fr.me:
            st.attrs['*'] = st.attrs.get('*', E) | v
        pure = False
        if isinstance(fn, ast.Name):
            if fn.id in st.env:
                pure = True
                for nm in self.fr.closures.get(fn.id, ()):
                    self.touch(ast.Name(nm, ast.Load()), v | pc, st)
            else:
                r = f.module.resolve_expr(fn)
                pure = fn.id in PURE and not isinstance(r, (Func, Cls)) or isinstance(r, Ext) and r.name.split('.')[0] in PUREMOD
        elif isinstance(fn, ast.Attribute):
            r = self.T.resolve(fn, f)
            pure = isinstance(r, Ext) and r.name.split('.')[0] in PUREMOD or fn.attr in PUREM and not discard
            if not pure and fn.attr in GROW and isinstance(fn.value, ast.Name):
                pure = fn.value.id in self.fr.locals and fn.value.id not in self.fr.params
                st.env[fn.value.id] = st.env.get(fn.value.id, E) | v | pc
        if discard or not pure:
            self.effect(v | pc)
            if discard:
                for a in list(e.args) + [k.value for k in e.keywords]:
                    self.touch(a, v | pc, st)
            if isinstance(fn, ast.Attribute):
                self.touch(fn.value, v | pc, st)
        nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
        if pure and nm in SHAPE:
            if nm == 'full_like' and len(e.args) > 1:
                return ctl(v) | self.ev(e.args[1], st, pc)
            return ctl(v)
        return v

    def actual(self, e, h, skip):
        a = h.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        out = {}
        for p, x in zip(pos, e.args):
            if isinstance(x, ast.Starred):
                break
            out[p] = x
        for k in e.keywords:
            if k.arg:
                out[k.arg] = k.value
        if skip and isinstance(e.func, ast.Attribute) and h.name != '__init__':
            out[h.params()[0]] = e.func.value
        return out

    def through(self, g, b, rest, pc, ctor=False, exprs=None, st=None):
        s = self.inf.sum(g)
        out = E
        if s is not None and exprs:
            for p, by in s.mut.items():
                if p in exprs:
                    v = pc | rest
                    for q in by:
                        w = b.get(q.lstrip('~'), E)
                        v = v | (ctl(w) if q[0] == '~' else w)
                    self.touch(exprs[p], v, st)
            if g.cls is not None and self.T.me(g) and not ctor and self.T.me(g) in exprs:
                v = pc | rest
                for w in b.values():
                    v = v | w
                if s.store:
                    self.touch(exprs[self.T.me(g)], v, st)
        if rest:
            self.effect(rest)
            out = out | rest
        for p, v in b.items():
            if not v and not pc:
                continue
            k = self.inf.kind(g, p) if ':' not in p else EFFECT
            if s is None:
                self.effect(v)
                out = out | v
                continue
            if ctor:
                if k >= STORE:
                    out = out | (v if any(p in x for x in s.store.values()) else ctl(v))
            elif p in s.ret:
                out = out | v
            elif '~' + p in s.ret:
                out = out | ctl(v)
            if p in s.eff:
                self.effect(v)
            elif '~' + p in s.eff:
                self.effect(ctl(v))
            if p in s.chk or '~' + p in s.chk:
                self.out.chk |= ctl(v)
        if s is None or s.eff:
            self.effect(pc)
        return out

    def inline(self, g, e, st, pc):
        """a method of the same object, with the object's attributes as they are here"""
        if any(h.node is g.node for h in self.stack) or len(self.stack) > 10 or set(g.decorators) - {'property', 'staticmethod', 'classmethod'}:
            v = E
            if e is not None:
                for a in list(e.args) + [k.value for k in e.keywords]:
                    v = v | self.ev(a.value if isinstance(a, ast.Starred) else a, st, pc)
            self.effect(v)
            return v | self.method_reads(g, st)
        env = {}
        skip = 0 if g.is_static else 1
        if e is not None:
            b, rest, given, star = self.bindargs(e, g, skip, st, pc)
            self.note(e, g, b, given, star, pc, skip)
            for p in allparams(g):
                env[p] = b.get(p, E) | rest
        self.stack.append(g)
        keepkw, self.kw = self.kw, None
        keepend = getattr(self, 'endattrs', None)
        fr = self.body(g, env, dict(st.attrs), pc)
        st.attrs = self.endattrs
        if e is not None and fr.mut:
            for p, x in self.actual(e, g, skip).items():
                if p in fr.mut:
                    self.touch(x, fr.mut[p], st)
        self.endattrs = keepend
        self.kw = keepkw
        self.stack.pop()
        return fr.ret


class Frame:
    def __init__(self, f, me):
        self.f, self.node, self.me = f, f.node, me
        self.ends, self.breaks, self.conts, self.loops = [], [], [], []
        self.pc = E
        self.ret = E
        self.mut = {}
        self.closures = {}
        self.params = set(allparams(f))
        self.alias = aliases(f.node)
        self.locals, self.globals = local_names(f.node)


def held(e):
    """names and attributes whose object an expression may hand on, as it is or inside a literal"""
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        return {(e.value.id, e.attr)}
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return set().union(*map(held, e.elts)) if e.elts else set()
    if isinstance(e, ast.Dict):
        return set().union(*map(held, e.values)) if e.values else set()
    if isinstance(e, ast.IfExp):
        return held(e.body) | held(e.orelse)
    if isinstance(e, ast.BoolOp):
        return set().union(*map(held, e.values))
    if isinstance(e, ast.NamedExpr):
        return held(e.value)
    if isinstance(e, ast.Starred):
        return held(e.value)
    if isinstance(e, ast.Subscript):
        return held(e.value)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ('zip', 'enumerate', 'reversed', 'list', 'tuple', 'iter', 'dict', 'getattr'):
            return set().union(set(), *map(held, e.args))
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'values', 'get', 'setdefault'):
            return held(e.func.value)
    return set()


def aliases(node):
    """name -> the attributes whose object it may stand for somewhere in the function"""
    out = {}
    for x in ast.walk(node):
        if isinstance(x, ast.Assign):
            prs = [(t, x.value) for t in x.targets]
        elif isinstance(x, (ast.For, ast.AsyncFor, ast.comprehension)):
            prs = [(x.target, x.iter)]
        elif isinstance(x, ast.NamedExpr):
            prs = [(x.target, x.value)]
        else:
            continue
        for t, v in prs:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
                two = list(zip(t.elts, v.elts)) if isinstance(x, ast.Assign) else [(t, v)]
            else:
                two = [(t, v)]
            for a, b in two:
                h = held(b)
                for y in ast.walk(a):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and h - {y.id}:
                        out.setdefault(y.id, set()).update(h - {y.id})
    for _ in range(3):
        for k, v in out.items():
            for y in list(v):
                if isinstance(y, str):
                    v |= out.get(y, set())
    return {k: {y for y in v if isinstance(y, tuple)} for k, v in out.items()}


class State:
    __slots__ = ('env', 'attrs', 'kind')

    def __init__(self, env, attrs, kind=None):
        self.env, self.attrs, self.kind = env, attrs, kind or {}

    def copy(self):
        return State(dict(self.env), dict(self.attrs), dict(self.kind))

    def join(self, o):
        for k, v in o.env.items():
            self.env[k] = self.env.get(k, E) | v
        for k, v in o.attrs.items():
            self.attrs[k] = self.attrs.get(k, E) | v
        for k in list(self.kind):
            if o.kind.get(k) != self.kind[k]:
                self.kind[k] = None
        return self

    def __eq__(self, o):
        return self.env == o.env and self.attrs == o.attrs


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a.join(b)
