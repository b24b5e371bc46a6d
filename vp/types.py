"""Classes of values, by dataflow over names that is insensitive to order: constructor calls, copies, returned objects,
attributes of known objects, annotations and the types that docstrings state. None means unknown."""
import ast, re
from .loader import Func, Cls, Ext, GlobalVar, Module
from .bound import own, local_names, params as param_names

PLAIN = {'staticmethod', 'classmethod', 'property', 'cached_property', 'njit', 'jit', 'lru_cache', 'cache', 'setter', 'deprecated', 'abstractmethod', 'nb', 'numba'}
EMPTY = frozenset()


def join(a, b):
    if a is None or b is None:
        return None
    return a | b


def leaves(body):
    """no way past the end"""
    n = body[-1]
    if isinstance(n, (ast.Return, ast.Raise)):
        return True
    if isinstance(n, ast.If):
        return bool(n.orelse) and leaves(n.body) and leaves(n.orelse)
    if isinstance(n, (ast.With, ast.AsyncWith)):
        return leaves(n.body)
    if isinstance(n, ast.Try):
        return leaves(n.finalbody) if n.finalbody and leaves(n.finalbody) else leaves(n.orelse or n.body) and all(leaves(h.body) for h in n.handlers)
    return False


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.memo_ret, self.memo_attr, self.memo_env, self.memo_attrs = {}, {}, {}, {}
        self.part = {}
        self.partial = {}
        self.depth = 0
        self.loose = self.loose_names()
        self.openc = {}
        self.extra = {}
        for c in list(prog.all_classes())[:1]:
            self.open(c)

    # --- class contents --------------------------------------------------------------------------------------------
    def external_base(self, c):
        for k in c.mro():
            for b in k.node.bases:
                r = k.module.resolve_expr(b)
                if isinstance(r, Cls):
                    continue
                t = ast.unparse(b).rsplit('.', 1)[-1]
                if t not in ('object', 'NamedTuple', 'ABC'):
                    return True
        return False

    def family(self, c):
        """the class, its bases and its subclasses"""
        out = list(c.mro())
        for d in self.prog.all_classes():
            if c in d.mro() and d not in out:
                out += [x for x in d.mro() if x not in out]
        return out

    def open(self, c):
        """attributes may appear by ways not followed"""
        if not self.openc:
            cs = list(self.prog.all_classes())
            self.openc = {k.qual: True for k in cs}
            for _ in range(4):
                new = {k.qual: self.open_(k) for k in cs}
                for m in (self.memo_attr, self.memo_ret, self.memo_env):
                    m.clear()
                if new == self.openc:
                    break
                self.openc = new
        return self.openc.get(c.qual, True)

    def open_(self, c):
        r = self.external_base(c)
        for k in self.family(c):
            if {'__getattr__', '__getattribute__', '__setattr__'} & set(k.methods):
                r = True
            for f in k.all_functions():
                me = self.me(f)
                if me is None:
                    continue
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and x.attr == '__dict__' and isinstance(x.value, ast.Name) and x.value.id == me:
                        r = True
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr',) and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == me:
                        # attributes that are written back were read before
                        if not (len(x.args) > 1 and isinstance(x.args[1], ast.Constant)) and not self.readback(f, me) and not self.twin(f, x, c) and not self.bykeyword(f, x, c):
                            r = True
            for d in k.node.decorator_list:
                t = ast.unparse(d.func if isinstance(d, ast.Call) else d).rsplit('.', 1)[-1]
                if t != 'dataclass':
                    r = True
        return r

    def twin(self, f, call, c):
        """a write of what another object of the class holds"""
        for n in own(f.node):
            if isinstance(n, ast.For) and any(y is call for y in ast.walk(n)):
                for y in ast.walk(n.iter):
                    e = y.value if isinstance(y, ast.Attribute) and y.attr == '__dict__' else y.args[0] if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == 'vars' and y.args else None
                    if e is not None:
                        t = self.of(e, f)
                        return bool(t) and all(k in self.family(c) for k in t)
        return False

    def bykeyword(self, f, call, c):
        """a write of the constructor's extra keywords: the names are those that constructions pass"""
        kw = f.node.args.kwarg
        if f.name != '__init__' or kw is None:
            return False
        for n in own(f.node):
            if isinstance(n, ast.For) and any(y is call for y in ast.walk(n)) and any(isinstance(y, ast.Name) and y.id == kw.arg for y in ast.walk(n.iter)):
                names = self.keywords(c)
                if names is None:
                    return False
                for a in names:
                    self.extra.setdefault(c.qual, set()).add(a)
                return True
        return False

    def keywords(self, c):
        """keywords of every construction of the class in the package; None where they are not evident"""
        out = set()
        for m in self.prog.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)):
                    nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr
                    if nm == c.name.rsplit('.', 1)[-1] and m.resolve_expr(x.func) is c:
                        for k in x.keywords:
                            if k.arg is None:
                                return None
                            out.add(k.arg)
        return out

    def accepted(self, h):
        """keywords that a function takes out of its extra keywords, or None where they are handed on"""
        kw = h.node.args.kwarg.arg
        out, uses = set(), 0
        for x in ast.walk(h.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == kw and x.func.attr in ('get', 'pop') and x.args and isinstance(x.args[0], ast.Constant):
                out.add(x.args[0].value)
                uses += 1
            elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == kw and isinstance(x.slice, ast.Constant):
                out.add(x.slice.value)
                uses += 1
            elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(x.left, ast.Constant) and isinstance(x.comparators[0], ast.Name) and x.comparators[0].id == kw:
                out.add(x.left.value)
                uses += 1
        total = sum(isinstance(x, ast.Name) and x.id == kw for x in ast.walk(h.node))
        return out if uses and uses == total else None

    def readback(self, f, me):
        n = f.node
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'getattr' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == me for x in ast.walk(n))

    def me(self, f):
        if f.cls is None or f.is_static or f.is_classm or f.parent is not None:
            return None
        p = f.params()
        return p[0] if p else None

    def stores(self, c, a):
        """values stored in attribute a by the class's own methods: [(func, value or None)]"""
        return self.allstores(c).get(a, [])

    def allstores(self, c):
        if c.qual in self.memo_attrs:
            return self.memo_attrs[c.qual]
        out = {}
        for k in self.family(c):
            for f in k.all_functions():
                me = self.me(f)
                if me is None:
                    continue
                for x in ast.walk(f.node):
                    if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                        for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                out.setdefault(t.attr, []).append((f, x.value if not isinstance(x, ast.AugAssign) else None))
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me and x.attr not in out:
                        out.setdefault(x.attr, []).append((f, None))
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) == 3 and isinstance(x.args[1], ast.Constant):
                        out.setdefault(x.args[1].value, []).append((f, x.args[2]))
        self.memo_attrs[c.qual] = out
        return out

    def loose_names(self):
        """attributes that code stores on objects other than its own"""
        out = set()
        for f in self.prog.all_functions():
            me = self.me(f)
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == me):
                    out.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    out.add(x.args[1].value)
        for m in self.prog.modules.values():
            for s in m.tree.body:
                if isinstance(s, ast.FunctionDef) or isinstance(s, ast.ClassDef):
                    continue
                for x in ast.walk(s):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        out.add(x.attr)
        return out

    def has(self, c, a):
        if a.startswith('__') and a.endswith('__'):
            return True
        if self.open(c) or a in self.loose:
            return True
        if c.lookup(a) is not None or a in self.allstores(c) or any(a in self.extra.get(k.qual, ()) for k in self.family(c)):
            return True
        if any(k.lookup(a) is not None for k in self.family(c)):
            return True
        return c.is_namedtuple() and a in ('_replace', '_asdict', '_fields', 'count', 'index')

    # --- values ----------------------------------------------------------------------------------------------------
    def env(self, f):
        """name -> classes or None, for the function's own names"""
        kk = (f.module.name, f.qual, f.node.lineno)
        if kk in self.memo_env:
            return self.memo_env[kk]
        if kk in self.partial:
            return self.partial[kk]
        env = self.partial[kk] = {}
        self.depth += 1
        self._env(f, env)
        self.depth -= 1
        if not self.depth:
            self.memo_env[kk] = env
            self.partial.clear()
        else:
            del self.partial[kk]
        if not self.depth:
            self.part.clear()
        return env

    def _env(self, f, env):
        loc, glob = local_names(f.node)
        ps = param_names(f.node)
        docs = self.doctypes(f)
        me = self.me(f)
        for p in ps:
            env[p] = None
            if p == me:
                env[p] = frozenset([f.cls])
        for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
            if a.arg != me:
                t = self.annotation(a.annotation, f) if a.annotation is not None else docs.get(a.arg)
                env[a.arg] = t
        multi = {}
        for x in own(f.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        multi.setdefault(t.id, []).append(x.value)
                    else:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                multi.setdefault(y.id, []).append(None)
            elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and isinstance(x.target, ast.Name):
                multi.setdefault(x.target.id, []).append(x.value)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                multi.setdefault(x.target.id, []).append(None)
            elif isinstance(x, (ast.For, ast.AsyncFor)):
                for y in ast.walk(x.target):
                    if isinstance(y, ast.Name):
                        multi.setdefault(y.id, []).append(None)
            elif isinstance(x, (ast.With, ast.AsyncWith)):
                for i in x.items:
                    if i.optional_vars is not None:
                        for y in ast.walk(i.optional_vars):
                            if isinstance(y, ast.Name):
                                multi.setdefault(y.id, []).append(None)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                multi.setdefault(x.name, []).append(None)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                multi.setdefault(x.name, []).append(None)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    multi.setdefault((a.asname or a.name).split('.')[0], []).append(None)
        for nm in loc:
            env.setdefault(nm, None)
        # a fixpoint upwards from nothing
        order = list(multi)
        cur = {nm: EMPTY for nm in order}
        base = {nm: env[nm] for nm in order if nm in ps}
        for nm in order:
            env[nm] = base.get(nm, EMPTY)
        for _ in range(6):
            ch = False
            for nm in order:
                v = base.get(nm, EMPTY)
                for e in multi[nm]:
                    v = join(v, self.of(e, f, env) if e is not None else None)
                if v != env[nm]:
                    env[nm] = v
                    ch = True
            if not ch:
                break
        else:
            for nm in order:
                env[nm] = None

    def annotation(self, a, f):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            parts = [x for x in (a.left, a.right) if not (isinstance(x, ast.Constant) and x.value is None)]
            return self.annotation(parts[0], f) if len(parts) == 1 else None
        if isinstance(a, (ast.Name, ast.Attribute)):
            r = f.module.resolve_expr(a)
            if isinstance(r, Cls):
                return frozenset([r])
        return None

    def doctypes(self, f):
        d = ast.get_docstring(f.node) or ''
        if f.name == '__init__' and f.cls is not None:
            d += '\n' + (ast.get_docstring(f.cls.node) or '')
        out = {}
        for m in re.finditer(r'^\s*(\w+)\s*:\s*(.*)$', d, re.M):
            t = m.group(2)
            if re.search(r'\blist|\bdict|\barray|\btuple|\biterable|\bor\b|,', t.lower()):
                continue
            w = re.findall(r'(?:welleng\.)?(\w+(?:\.\w+)*)\.([A-Z]\w+)', t)
            if len(w) == 1:
                r = self.prog.find(f'{w[0][0]}.{w[0][1]}')
                if isinstance(r, Cls):
                    out[m.group(1)] = frozenset([r])
        return out

    def local(self, name, f):
        """(found, classes) of a name in the function or the functions around it"""
        g = f
        while g is not None:
            e = self.env(g)
            if name in e:
                return True, e[name]
            g = g.parent
        return False, None

    def resolve(self, e, f):
        """the module-level object an expression names, unless a local name hides it"""
        r = e
        while isinstance(r, ast.Attribute):
            r = r.value
        if not isinstance(r, ast.Name) or self.local(r.id, f)[0]:
            return None
        return f.module.resolve_expr(e)

    def of(self, e, f, env=None):
        if isinstance(e, ast.Constant):
            return EMPTY if e.value is None else None
        if isinstance(e, ast.Name):
            if env is not None and e.id in env:
                return env[e.id]
            found, t = self.local(e.id, f)
            return t if found else None
        if isinstance(e, ast.IfExp):
            return join(self.of(e.body, f, env), self.of(e.orelse, f, env))
        if isinstance(e, ast.NamedExpr):
            return self.of(e.value, f, env)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            r = EMPTY
            for x in e.values:
                r = join(r, self.of(x, f, env))
            return r
        if isinstance(e, ast.Attribute):
            t = self.of(e.value, f, env)
            if not t:
                return t if self.depth else None
            r = EMPTY
            for c in t:
                r = join(r, self.attrtype(c, e.attr))
            return r
        if isinstance(e, ast.Call):
            g = self.callee(e, f, env)
            if isinstance(g, Cls):
                return frozenset([g])
            if isinstance(g, Func):
                return self.returns(g)
            if isinstance(e.func, (ast.Name, ast.Attribute)):
                r = self.resolve(e.func, f)
                if isinstance(r, Ext) and r.name in ('copy.copy', 'copy.deepcopy') and e.args:
                    return self.of(e.args[0], f, env)
                if self.depth and g is None and r is None and isinstance(e.func, ast.Attribute) and self.of(e.func.value, f, env) == EMPTY:
                    return EMPTY
            return None
        return None

    def attrtype(self, c, a):
        kk = (c.qual, a)
        if kk in self.memo_attr:
            return self.memo_attr[kk]
        if self.open(c) and c.lookup(a) is None or a in self.loose:
            return None
        if kk in self.part:
            return self.part[kk]
        self.part[kk] = EMPTY
        self.depth += 1
        r = None
        look = c.lookup(a)
        if look is not None and look[0] == 'prop':
            r = self.returns(look[1])
        elif look is None:
            st = self.stores(c, a)
            if st:
                r = EMPTY
                for f, v in st:
                    r = join(r, self.of(v, f) if v is not None else None)
        self.depth -= 1
        return self.keep(self.memo_attr, kk, r)

    def keep(self, memo, kk, r):
        """results that lean on something still being worked out are not kept beyond it"""
        if not self.depth:
            r = memo[kk] = r or None
            self.part.clear()
            self.partial.clear()
        else:
            del self.part[kk]
        return r

    def returns(self, g):
        kk = (g.module.name, g.qual, g.node.lineno)
        if kk in self.memo_ret:
            return self.memo_ret[kk]
        if set(g.decorators) - PLAIN:
            return None
        if kk in self.part:
            return self.part[kk]
        self.part[kk] = EMPTY
        self.depth += 1
        r = EMPTY
        for x in own(g.node):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = None
            if isinstance(x, ast.Return) and x.value is not None:
                r = join(r, self.of(x.value, g))
        self.depth -= 1
        return self.keep(self.memo_ret, kk, r)

    # --- calls -----------------------------------------------------------------------------------------------------
    def callee(self, e, f, env=None):
        """Func | Cls called, or None; ('super', Func) is given as Func"""
        g = e.func
        if isinstance(g, ast.Name):
            x = f
            while x is not None:
                for s in own(x.node):
                    if isinstance(s, ast.FunctionDef) and s.name == g.id:
                        vals = [y for y in own(x.node) if isinstance(y, ast.Name) and y.id == g.id and isinstance(y.ctx, ast.Store)]
                        same = [y for y in own(x.node) if isinstance(y, ast.FunctionDef) and y.name == g.id]
                        return Func(s.name, s, x.module, cls=x.cls, parent=x) if not vals and len(same) == 1 and not s.decorator_list else None
                x = x.parent
            r = self.resolve(g, f)
            return r if isinstance(r, (Func, Cls)) else None
        if isinstance(g, ast.Attribute):
            if isinstance(g.value, ast.Call) and isinstance(g.value.func, ast.Name) and g.value.func.id == 'super' and f.cls is not None and not g.value.args:
                for k in f.cls.mro()[1:]:
                    if g.attr in k.methods:
                        return k.methods[g.attr]
                return None
            r = self.resolve(g, f)
            if isinstance(r, Cls):
                return r
            if isinstance(r, Func):
                return r
            t = self.of(g.value, f, env)
            if t and len(t) == 1:
                look = next(iter(t)).lookup(g.attr)
                if look is not None and look[0] == 'method' and not (self.overridden(next(iter(t)), g.attr)):
                    return look[1]
        return None

    def maynone(self, e):
        """a call of something of the package that may give None"""
        if self.nullable is None:
            self.nullable = {}
            for f in self.prog.all_functions():
                rs = [x for x in own(f.node) if isinstance(x, ast.Return)]
                gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(f.node))
                safe = gen or rs and all(x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None) and not isinstance(x.value, (ast.Name, ast.IfExp, ast.Attribute, ast.Subscript)) for x in rs) and leaves(f.node.body)
                self.nullable[f.name] = self.nullable.get(f.name, False) or not safe
        a = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
        return self.nullable.get(a, False)

    nullable = None

    def overridden(self, c, a):
        return any(a in k.methods and c.lookup(a)[1] is not k.methods[a] for k in self.family(c)) or a in self.allstores(c)

    def misfit(self, e, g, f):
        """why a call cannot bind, or None; g as callee() gives it"""
        if any(isinstance(a, ast.Starred) for a in e.args):
            star = True
        else:
            star = False
        dstar = any(k.arg is None for k in e.keywords)
        if isinstance(g, Cls):
            look = g.lookup('__init__')
            if look is None:
                if self.external_base(g) or g.is_namedtuple() and not self.fields(g):
                    return None
                if g.lookup('__new__') is not None:
                    return None
                if g.is_dataclass or g.is_namedtuple():
                    names, req = self.fields(g)
                    return self.fit(e, names, req, set(), False, False, star, dstar, g.qual)
                return self.fit(e, [], set(), set(), False, False, star, dstar, g.qual)
            h = look[1]
            skip = 1
        else:
            h = g
            skip = 0
            if h.cls is not None and h.parent is None:
                if h.is_static:
                    skip = 0
                elif h.is_classm:
                    skip = 1
                else:
                    # through the class itself the object is passed
                    r = self.resolve(e.func.value, f) if isinstance(e.func, ast.Attribute) else None
                    skip = 0 if isinstance(r, Cls) else 1
        if set(h.decorators) - PLAIN:
            return None
        a = h.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        req = set(pos[:len(pos) - nd] if nd else pos)
        req -= set(pos[:skip])
        pos = pos[skip:]
        kwo = {x.arg for x in a.kwonlyargs}
        req |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        return self.fit(e, pos, req, kwo, a.vararg is not None, (self.accepted(h) if a.kwarg is not None else False), star, dstar, h.qual)

    def fields(self, c):
        names, req = [], set()
        for k in reversed(c.mro()):
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if s.target.id not in names:
                        names.append(s.target.id)
                    if s.value is None:
                        req.add(s.target.id)
                    elif isinstance(s.value, ast.Call) and any(k2.arg == 'init' for k2 in s.value.keywords):
                        return None
        return names, req

    def fit(self, e, pos, req, kwo, var, kw, star, dstar, what):
        n = len([a for a in e.args if not isinstance(a, ast.Starred)])
        if n > len(pos) and not var:
            return f'{what} takes {len(pos)} positional arguments and is given {n}'
        given = set(pos[:n])
        for k in e.keywords:
            if k.arg is None:
                continue
            if k.arg in given and not star:
                return f'{what} is given {k.arg} twice'
            if k.arg not in pos and k.arg not in kwo and (kw is False or isinstance(kw, set) and k.arg not in kw):
                return f'{what} has no parameter {k.arg}'
            given.add(k.arg)
        if not star and not dstar:
            m = sorted(req - given)
            if m:
                return f'{what} needs {", ".join(m)}'
        return None
