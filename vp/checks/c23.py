"""C23 Optional packages are used only where their absence was ruled out.

Which packages are optional is read from pyproject.toml (everything that is neither required, nor in the standard
library, nor the package itself).  For every subset of them that may be missing, each module is interpreted at module
level (imports succeed or fail, flags become constants) and the body of every function that can be entered is
traversed with those constants: a use of a name that was never imported must lie on no path, and a path that stops
there must stop with an explanation."""
import ast, itertools, os, re, sys
from .common import *
from ..loader import REPO, PKG, Func, Cls

DIST = {'PyYAML': 'yaml', 'python-fcl': 'fcl', 'pyyaml': 'yaml'}
BROAD = {'ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException'}
STD = set(sys.stdlib_module_names)
UNK, ABSENT, NULL = ('unk',), ('absent',), ('null',)
LIMIT = 24


def required():
    import tomllib
    with open(os.path.join(REPO, 'pyproject.toml'), 'rb') as f:
        d = tomllib.load(f)
    out = set()
    for x in d['project']['dependencies']:
        x = re.split(r'[\s<>=!~;\[]', x)[0]
        out.add(DIST.get(x, x.replace('-', '_')))
    return out


def package_files(prog):
    return {m.name: m for m in prog.modules.values()}


class World:
    """one assumption about which optional packages are installed"""

    def __init__(self, chk, prog, missing, opt):
        self.chk, self.prog, self.missing, self.opt = chk, prog, frozenset(missing), opt
        self.mods = package_files(prog)
        self.env, self.busy = {}, []
        self.fails = []           # (module, node, name/package, kind)
        self.memo = {}
        self.stops = []           # guards that end a path
        self.visited = set()
        self.depth = 0

    # ---- module level
    def module(self, name):
        if name in self.env:
            return self.env[name]
        m = self.mods[name]
        env = self.env[name] = {}
        fr = Frame(self, m, env, None, top=True)
        r = fr.run(m.node.body if hasattr(m, 'node') else m.tree.body)
        if r == 'fail':
            env['__broken__'] = True
        return env

    def absent(self, pkg):
        return pkg.split('.')[0] in self.missing


class Stop(Exception):
    pass


class Frame:
    """a traversal of one body under the assumptions of a world.  run() returns whether the end can be reached."""

    def __init__(self, w, m, env, fn, top=False, cover=False, local=(), stack=()):
        self.w, self.m, self.env, self.fn, self.top = w, m, env, fn, top
        self.cover = cover          # inside a try whose handler takes over when a name or package is missing
        self.local = set(local)
        self.returned = False
        self.stack = stack
        self.calling = None

    # ---- names
    def name(self, x):
        if not self.top:
            if x in self.env:
                return self.env[x]
            if x in self.local:
                return UNK
            e = self.w.module(self.m.name)
            if x in e:
                return e[x]
            if x in self.m.funcs or x in self.m.classes or x in self.m.assigns:
                return ('absent', ', '.join(sorted(self.w.missing)))       # bound only under a condition that does not hold
            return UNK
        return self.env.get(x, UNK)

    def fail(self, node, what, kind):
        if self.cover:
            return 'caught'
        self.w.fails.append((self.m, self.fn, node, what, kind))
        return 'fail'

    # ---- expressions: constant value or UNK; reports uses of missing names
    def val(self, e):
        if e is None:
            return ('c', None)
        if isinstance(e, ast.Constant):
            return ('c', e.value)
        if isinstance(e, ast.Name):
            if not isinstance(e.ctx, ast.Load):
                return UNK
            v = self.name(e.id)
            if v[0] == 'absent':
                self.use(e, v[1])
            if v[0] == 'fn' and e is not self.calling and not self.top:        # handed on: it may be called
                try:
                    self.enter(v[2], None, None)
                except Stop:
                    pass
            return v
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.truth(e.operand)
            return UNK if v is None else ('c', not v)
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out, sure = None, True
            for x in e.values:
                t = self.truth(x)
                if t is None:
                    sure = False
                elif t is stop:
                    return ('c', stop) if True else UNK
            return ('c', not stop) if sure else UNK
        if isinstance(e, ast.IfExp):
            t = self.truth(e.test)
            if t is None:
                a, b = self.val(e.body), self.val(e.orelse)
                return a if a == b else UNK
            return self.val(e.body if t else e.orelse)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.val(e.left), self.val(e.comparators[0])
            if isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                neg = isinstance(e.ops[0], (ast.IsNot, ast.NotEq))
                x, y = self.plain(a), self.plain(b)
                if x is not None and y is not None:
                    if x[0] == 'c' and y[0] == 'c':
                        return ('c', (x[1] == y[1]) != neg)
                    if {x[0], y[0]} == {'c', 'here'} and ('c', None) in (x, y):
                        return ('c', neg)
            return UNK
        if isinstance(e, ast.Attribute):
            v = self.val(e.value)
            if v[0] == 'mod':
                return self.w.module(v[1]).get(e.attr, ('mod', v[1] + '.' + e.attr) if v[1] + '.' + e.attr in self.w.mods else UNK)
            if v[0] == 'null':
                self.use(e, v[1])
                return UNK
            if v[0] == 'here':
                return ('here', v[1] + '.' + e.attr)
            if e.attr.startswith('_') and not e.attr.startswith('__') and e is not self.calling:
                g = self.w.private.get(e.attr)
                if g is not None and len(g) == 1:        # a private function handed on: it may be called
                    try:
                        self.enter(g[0], None, None)
                    except Stop:
                        pass
            return UNK
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Lambda):
            return UNK
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            sub = Frame(self.w, self.m, {k: v for k, v in self.env.items() if k not in names}, self.fn, self.top, self.cover, self.local | names, self.stack) if not self.top else self
            for g in e.generators:
                sub.val(g.iter)
                for c in g.ifs:
                    sub.val(c)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                sub.val(x)
            return UNK
        if isinstance(e, ast.NamedExpr):
            v = self.val(e.value)
            self.env[e.target.id] = v
            return v
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.val(c)
            elif isinstance(c, ast.keyword):
                self.val(c.value)
        return UNK

    def plain(self, v):
        if v[0] in ('c', 'here'):
            return v
        if v[0] == 'null':
            return ('c', None)
        if v[0] in ('fn', 'cls', 'mod'):
            return ('here', v[1])
        return None

    def truth(self, e):
        v = self.plain(self.val(e))
        if v is None:
            return None
        return True if v[0] == 'here' else bool(v[1])

    def use(self, node, pkg):
        if self.fail(node, pkg, 'use') in ('fail', 'caught'):
            raise Stop

    def call(self, e):
        self.calling = e.func
        f = self.val(e.func)
        if f[0] == 'null':
            self.use(e, f[1])
        args = [self.val(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kws = {k.arg: self.val(k.value) for k in e.keywords}
        src = ast.unparse(e.func)
        if src.split('.')[-1] == 'find_spec' and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
            p = e.args[0].value.split('.')[0]
            if p in self.w.opt:
                return ('c', None) if self.w.absent(p) else ('here', p)
        if src.split('.')[-1] == 'import_module' and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
            return self.imported(e, e.args[0].value)
        if f[0] == 'c' and f[1] is None:
            pass
        if f[0] == 'fn':
            return self.enter(f[2], args if all(not isinstance(a, ast.Starred) for a in e.args) else [], kws)
        if f[0] == 'cls':
            cls = f[2]
            for c in cls.mro():
                if isinstance(c, Cls) and '__init__' in c.methods:
                    self.enter(c.methods['__init__'], [UNK] + args, kws)
                    break
            return UNK
        # a method of the same object
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and self.fn is not None and self.fn.cls is not None and self.fn.params()[:1] == [e.func.value.id]:
            g = self.fn.cls.lookup(e.func.attr)
            if g is not None and g[0] == 'method' and not g[1].decorators:
                return self.enter(g[1], [UNK] + args, kws)
        elif isinstance(e.func, ast.Attribute) and e.func.attr.startswith('_'):
            g = self.w.private.get(e.func.attr)
            if g is not None and len(g) == 1 and not g[0].decorators:
                return self.enter(g[0], [UNK] + args, kws)
        return UNK

    def enter(self, func, args, kws):
        ok, val = self.w_enter(func, args, kws)
        if not ok:
            raise Stop
        return val

    def w_enter(self, func, args, kws):
        if func.node in self.stack or len(self.stack) > LIMIT:
            return True, UNK
        return enter(self.w, func, args, kws, self.stack, self.cover)

    # ---- imports
    def imported(self, node, name):
        top = name.split('.')[0]
        if top == PKG:
            return self.repo(name)
        if self.w.absent(top):
            r = self.fail(node, top, 'import')
            raise Stop
        if top in self.w.opt:
            return ('here', name)
        return UNK

    def repo(self, name):
        if name in self.w.mods:
            e = self.w.module(name)
            if e.get('__broken__'):
                raise Stop
            return ('mod', name)
        return UNK

    def do_import(self, s):
        if isinstance(s, ast.Import):
            for a in s.names:
                v = self.imported(s, a.name)
                if a.asname:
                    self.env[a.asname] = v
                else:
                    top = a.name.split('.')[0]
                    self.env[top] = ('here', top) if v[0] == 'here' else ('mod', top) if v[0] == 'mod' and top in self.w.mods else UNK
        else:
            base = s.module or ''
            if s.level:
                parts = self.m.name.split('.')
                ispkg = self.m.rel.endswith('__init__.py')
                parts = parts[:len(parts) - s.level + (1 if ispkg else 0)]
                base = '.'.join(parts + ([base] if base else []))
            if base.split('.')[0] == PKG:
                self.repo(base) if base in self.w.mods else None
                for a in s.names:
                    v = UNK
                    if base in self.w.mods:
                        env = self.w.module(base)
                        if a.name in env:
                            v = env[a.name]
                            if v[0] == 'absent' and not self.w.is_busy(base):
                                self.use(s, v[1])
                        elif base + '.' + a.name in self.w.mods:
                            v = self.repo(base + '.' + a.name)
                        else:
                            r = self.w.prog_resolve(base, a.name)
                            v = r
                    self.env[a.asname or a.name] = v
            else:
                v = self.imported(s, base)
                for a in s.names:
                    if a.name != '*':
                        self.env[a.asname or a.name] = ('here', base + '.' + a.name) if v[0] == 'here' else UNK

    # ---- statements
    def run(self, body):
        """'end' when the end can be reached, 'stop' otherwise"""
        for s in body:
            try:
                r = self.stmt(s)
            except Stop:
                if self.top and not self.cover:
                    pass
                return 'stop'
            if r == 'stop':
                return 'stop'
        return 'end'

    def branch(self, body):
        save = dict(self.env)
        r = self.run(body)
        new = dict(self.env)
        self.env.clear()
        self.env.update(save)
        return r, new

    def join(self, outs):
        live = [e for r, e in outs if r == 'end']
        if not live:
            return 'stop'
        keys = set().union(*live)
        base = dict(self.env)
        self.env.clear()
        for k in keys:
            vs = [e.get(k) for e in live]
            if all(v == vs[0] for v in vs):
                self.env[k] = vs[0]
            else:
                self.env[k] = next((v for v in vs if v is not None and v[0] not in ('absent', 'null')), UNK) if len({v[0] for v in vs if v}) == 1 else UNK
        return 'end'

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.val(d)
            for d in s.args.defaults + s.args.kw_defaults:
                if d is not None:
                    self.val(d)
            if not self.postponed():
                for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs + [x for x in (s.args.vararg, s.args.kwarg) if x]:
                    if a.annotation is not None:
                        self.val(a.annotation)
                if s.returns is not None:
                    self.val(s.returns)
            if self.top:
                f = self.w.func_at(s)
                self.env[s.name] = ('fn', s.name, f) if f is not None and not [d for d in f.decorators] else UNK
            else:
                f = self.w.func_at(s)
                self.env[s.name] = UNK
                if f is not None:
                    enter(self.w, f, None, None, self.stack, self.cover, outer=self)
            return 'end'
        if isinstance(s, ast.ClassDef):
            for b in s.bases:
                v = self.val(b)
                if v[0] == 'null' or v == ('c', None):
                    self.use(b, v[1])
            for k in s.keywords:
                self.val(k.value)
            for d in s.decorator_list:
                self.val(d)
            c = self.w.cls_at(s)
            for x in s.body:
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and getattr(x, 'value', None) is not None:
                    self.val(x.value)
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for d in x.args.defaults + x.args.kw_defaults:
                        if d is not None:
                            self.val(d)
                    if not self.postponed():
                        for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs:
                            if a.annotation is not None:
                                self.val(a.annotation)
            self.env[s.name] = ('cls', s.name, c) if c is not None else UNK
            return 'end'
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            self.do_import(s)
            return 'end'
        if isinstance(s, ast.Assign):
            v = self.val(s.value)
            for t in s.targets:
                self.assign(t, v)
            return 'end'
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.val(s.value))
            return 'end'
        if isinstance(s, ast.AugAssign):
            self.val(s.value)
            self.assign(s.target, UNK)
            return 'end'
        if isinstance(s, ast.Return):
            self.val(s.value)
            self.returned = True
            return 'stop'
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.val(s.exc)
                self.guard(s, isinstance(s.exc, ast.Call) and bool(s.exc.args or s.exc.keywords))
            return 'stop'
        if isinstance(s, ast.Assert):
            t = self.truth(s.test)
            if t is False:
                self.guard(s, s.msg is not None)
                return 'stop'
            return 'end'
        if isinstance(s, ast.If):
            main = isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == '__name__'
            if main:
                return 'end'
            t = self.truth(s.test)
            if t is None:
                if isinstance(s.test, ast.Name) and s.test.id == 'TYPE_CHECKING' or isinstance(s.test, ast.Attribute) and s.test.attr == 'TYPE_CHECKING':
                    return self.run(s.orelse)
                return self.join([self.branch(s.body), self.branch(s.orelse)])
            return self.run(s.body if t else s.orelse)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                t = self.truth(s.test)
                if t is False:
                    return self.run(s.orelse)
            else:
                self.val(s.iter)
                self.assign(s.target, UNK)
            self.branch(s.body)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in self.env:
                    self.env[n.id] = UNK
            if s.orelse:
                self.branch(s.orelse)
            return 'end'
        if isinstance(s, (ast.With, ast.AsyncWith)):
            supp = any('suppress' in ast.unparse(i.context_expr) and catches_names(i.context_expr) for i in s.items)
            for i in s.items:
                self.val(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, UNK)
            if supp:
                old, self.cover = self.cover, True
                r = self.run(s.body)
                self.cover = old
                return 'end'
            return self.run(s.body)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            return self.attempt(s)
        if isinstance(s, ast.Expr):
            self.val(s.value)
            return 'end'
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
            return 'end'
        if isinstance(s, (ast.Break, ast.Continue)):
            return 'stop'
        if isinstance(s, ast.Match):
            self.val(s.subject)
            outs = [self.branch(c.body) for c in s.cases]
            outs.append(('end', dict(self.env)))
            return self.join(outs)
        return 'end'

    def postponed(self):
        if self.m.name not in self.w.post:
            self.w.post[self.m.name] = any(isinstance(x, ast.ImportFrom) and x.module == '__future__' and any(a.name == 'annotations' for a in x.names) for x in self.w.body(self.m))
        return self.w.post[self.m.name]

    def guard(self, s, explained):
        self.w.stops.append((self.m, self.fn, s, explained))

    def attempt(self, s):
        # what a handler would take over depends on what can be missing in its body: imports raise ImportError, uses of
        # names that were never bound raise NameError, attributes of None AttributeError
        kinds = set()
        for h in s.handlers:
            kinds |= handled(h)
        nf = len(self.w.fails)
        ns = len(self.w.stops)
        before = dict(self.env)
        old, oldret = self.cover, self.returned
        self.cover = False
        r = self.run(s.body)
        caught = []
        rest = []
        for f in self.w.fails[nf:]:
            need = {'import': {'ImportError', 'ModuleNotFoundError'}, 'use': {'NameError', 'AttributeError', 'TypeError'}}[f[4]]
            (caught if kinds & (need | {'Exception', 'BaseException'}) else rest).append(f)
        self.cover = old
        del self.w.fails[nf:]
        if not old:
            self.w.fails.extend(rest)
        outs = []
        if r == 'end':
            outs.append((self.run(s.orelse) if s.orelse else 'end', dict(self.env)))
        stopped = [x for x in self.w.stops[ns:] if x[3] is not None] if r == 'stop' else []
        if caught or stopped or not self.top:
            # names bound by the body of a failed import stay unbound
            bound = {}
            for n in s.body:
                for x in ast.walk(n):
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        for a in x.names:
                            nm = a.asname or a.name.split('.')[0]
                            if caught:
                                bound[nm] = self.env.get(nm) or ('absent', caught[0][3])
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and caught:
                        bound[x.id] = self.env.get(x.id) or ('absent', caught[0][3])
            for h in s.handlers:
                if caught and not handled(h) & {'ImportError', 'ModuleNotFoundError', 'NameError', 'AttributeError', 'TypeError', 'Exception', 'BaseException'}:
                    continue
                env = dict(before)
                if caught:
                    for k, v in bound.items():
                        env.setdefault(k, v)
                save = dict(self.env)
                self.env.clear()
                self.env.update(env)
                rr = self.run(h.body)
                if caught:
                    for st in h.body:
                        for x in ast.walk(st):
                            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and x.value.value is None:
                                for t in x.targets:
                                    if isinstance(t, ast.Name) and t.id in bound:
                                        self.env[t.id] = ('null', bound[t.id][1] if bound[t.id][0] == 'absent' else t.id)
                outs.append((rr, dict(self.env)))
                self.env.clear()
                self.env.update(save)
                if caught:
                    break
        res = self.join(outs) if outs else 'stop'
        if s.finalbody:
            f = self.run(s.finalbody)
            if f == 'stop':
                return 'stop'
        return res

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, UNK)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, UNK)
        else:
            for c in ast.iter_child_nodes(t):
                if isinstance(c, ast.expr):
                    self.val(c)


def handled(h):
    if h.type is None:
        return {'Exception'}
    xs = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {ast.unparse(x).split('.')[-1] for x in xs}


def catches_names(e):
    return any(x in ast.unparse(e) for x in ('ImportError', 'NameError', 'Exception', 'ModuleNotFoundError'))


def locals_of(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not node:
            out.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    glob = {n for x in ast.walk(node) if isinstance(x, ast.Global) for n in x.names}
    return out - glob


def enter(w, func, args, kws, stack, cover, outer=None):
    """(the function can return, its value).  args None: nothing is known of them"""
    a = func.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    if outer is not None:
        env.update({k: v for k, v in outer.env.items()})
    allp = names + [x.arg for x in a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    for n_ in allp:
        env[n_] = UNK
    if args is not None:
        for n_, v in zip(names, args):
            if v[0] in ('c', 'here', 'null'):
                env[n_] = v
        for n_, v in (kws or {}).items():
            if n_ in env and v[0] in ('c', 'here', 'null'):
                env[n_] = v
        given = set(names[:len(args)]) | set(kws or {})
        for p, d in zip(reversed(names), reversed(a.defaults)):
            if p not in given and isinstance(d, ast.Constant):
                env[p] = ('c', d.value)
    key = (func.node, tuple(sorted((k, v) for k, v in env.items() if v[0] == 'c' and isinstance(v[1], (bool, str, type(None))))) if outer is None else None, cover)
    if key in w.memo and outer is None:
        res, fails = w.memo[key]
        w.fails.extend(fails)
        return res
    if outer is None:
        w.memo[key] = (True, UNK), []
    n0 = len(w.fails)
    w.visited.add(func.node)
    loc = locals_of(func.node)
    if outer is not None:
        loc |= outer.local
    fr = Frame(w, func.module, env, func, cover=cover, local=loc, stack=stack + (func.node,))
    r = fr.run(func.node.body)
    res = (r == 'end' or fr.returned, UNK)
    if outer is None:
        w.memo[key] = res, list(dict.fromkeys(w.fails[n0:]))
        w.fails[n0:] = w.memo[key][1]
    return res


def setup(w, prog):
    fs, cs = {}, {}
    for m in w.mods.values():
        for f in m.all_functions():
            fs[f.node] = f
    for c in prog.all_classes():
        cs[c.node] = c
    w.func_at, w.cls_at = fs.get, cs.get
    w.private = {}
    for f in fs.values():
        if f.cls is not None and f.parent is None and f.name.startswith('_') and not f.name.startswith('__'):
            w.private.setdefault(f.name, []).append(f)
    w.post = {}
    w.body = lambda m: m.tree.body
    w.is_busy = lambda name: False
    w.prog_resolve = lambda base, x: UNK


def decorated_by_repo(f):
    return [d for d in f.decorators if d not in ('property', 'staticmethod', 'classmethod', 'setter', 'cached_property', 'lru_cache', 'wraps', 'cache', 'functools')]


SCRIPT = {'main'}


def world(chk, missing, opt, closure):
    prog = chk.prog
    w = World(chk, prog, missing, opt)
    setup(w, prog)
    # importing the library
    for name in closure:
        w.module(name)
    imports = list(w.fails)
    w.fails = []
    # objects of a class exist only when its constructor can end
    for name in closure:
        m = w.mods[name]
        env = w.module(name)
        for f in m.all_functions():
            if f.parent is not None:
                continue
            if f.name.startswith('_') and not f.name.startswith('__') or f.name in SCRIPT:
                continue
            if f.cls is not None:
                c = f.cls
                if env.get(c.name, UNK)[0] != 'cls':
                    continue
                init = next((k.methods['__init__'] for k in c.mro() if isinstance(k, Cls) and '__init__' in k.methods), None)
                if init is not None and f is not init and not enter(w, init, None, None, (), False)[0]:
                    continue
            elif f.name not in env:
                continue
            if decorated_by_repo(f):
                continue
            enter(w, f, None, None, (), False)
    return w, imports, w.fails


def import_closure(prog):
    """modules imported when the package is imported"""
    mods = package_files(prog)
    seen, todo = [], [PKG]
    while todo:
        x = todo.pop()
        if x in seen or x not in mods:
            continue
        seen.append(x)
        m = mods[x]
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                todo += [a.name for a in s.names if a.name.split('.')[0] == PKG]
                todo += ['.'.join(a.name.split('.')[:i]) for a in s.names if a.name.split('.')[0] == PKG for i in range(1, len(a.name.split('.')))]
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    parts = m.name.split('.')
                    parts = parts[:len(parts) - s.level + (1 if m.rel.endswith('__init__.py') else 0)]
                    base = '.'.join(parts + ([base] if base else []))
                if base.split('.')[0] == PKG:
                    todo.append(base)
                    todo += [base + '.' + a.name for a in s.names]
                    todo += ['.'.join(base.split('.')[:i]) for i in range(1, len(base.split('.')))]
    return seen


def optional_packages(chk, closure):
    req = required()
    out = {}
    for name in closure:
        m = package_files(chk.prog)[name]
        soft = {id(x) for t in m.tree.body if isinstance(t, ast.Try) and any(handled(h) & BROAD for h in t.handlers) for b in t.body for x in ast.walk(b)}
        for s in ast.walk(m.tree):
            tops = []
            if isinstance(s, ast.Import):
                tops = [a.name.split('.')[0] for a in s.names]
            elif isinstance(s, ast.ImportFrom) and not s.level and s.module:
                tops = [s.module.split('.')[0]]
            elif isinstance(s, ast.Call) and ast.unparse(s.func).split('.')[-1] in ('find_spec', 'import_module') and s.args and isinstance(s.args[0], ast.Constant) and isinstance(s.args[0].value, str):
                tops = [s.args[0].value.split('.')[0]]
            for t in tops:
                if t and t != PKG and (t not in req or id(s) in soft) and t not in STD:
                    out.setdefault(t, []).append(f'{m.rel}:{s.lineno}')
    return out, req


def run(chk):
    closure = import_closure(chk.prog)
    opt, req = optional_packages(chk, closure)
    chk.count('modules imported with the package', len(closure))
    chk.count('optional packages', len(opt))
    chk.assumptions.append('optional: ' + ', '.join(sorted(opt)) + '; required by pyproject.toml: ' + ', '.join(sorted(req)))
    names = sorted(opt)
    sets = [()] + [(x,) for x in names] + [tuple(y for y in names if y != x) for x in names] + [tuple(names)]
    if chk.tier == 'thorough' and len(names) <= 12:
        sets = [c for k in range(len(names) + 1) for c in itertools.combinations(names, k)]
    sets = list(dict.fromkeys(sets))
    chk.count('combinations of missing packages', len(sets))
    bad = {}
    used = {}
    guards, free = {}, set()
    for miss in sets:
        w, imps, uses = world(chk, miss, opt, closure)
        chk.count('function bodies traversed', len(w.visited))
        for m, fn, node, pkg, kind in imps:
            bad.setdefault(('import', m.name, pkg), (m, fn, node, miss))
        for m, fn, node, pkg, kind in uses:
            bad.setdefault(('use', fn.qual if fn else m.name, pkg), (m, fn, node, miss))
        for m, fn, s, expl in w.stops:
            if fn is not None and not miss:
                free.add((m.name, s.lineno))
            elif fn is not None and (m.name, s.lineno) not in free:
                guards.setdefault((m.name, fn.qual, s.lineno), (m, fn, s, expl, set()))[4].update(miss if len(miss) == 1 else ())
    # obligations: every module import and every function that mentions an optional name
    for name in closure:
        m = package_files(chk.prog)[name]
        pk = sorted(p for p in opt if any(l.startswith(m.rel + ':') for l in opt[p]))
        for p in pk:
            b = bad.get(('import', m.name, p))
            if b is None:
                chk.ok('importing the library never requires an optional package', f'{m.short}: {p}')
            else:
                chk.bad('importing the library never requires an optional package', f'{m.short}: {p}', f'with {p} not installed the import of {m.short} fails: nothing catches it here', f'{m.rel}:{b[2].lineno}')
        # names bound by those imports
        env = {}
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split('.')[0] in opt:
                        env[a.asname or a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom) and not s.level and s.module and s.module.split('.')[0] in opt:
                for a in s.names:
                    env[a.asname or a.name] = s.module.split('.')[0]
        for f in m.all_functions():
            if f.parent is not None:
                continue
            ps = sorted({env[x.id] for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in env})
            for p in ps:
                used[(f.qual, p)] = f
    for (q, p), f in used.items():
        b = bad.pop(('use', q, p), None)
        if b is None:
            chk.ok('used only after its absence was ruled out', f'{q}: {p}', '', f.loc)
        else:
            report(chk, q, p, b)
    for (kind, q, p), b in bad.items():
        if kind == 'use':
            report(chk, q, p, b)
        elif not any(o[2] == f'{b[0].short}: {p}' for o in chk.obs):
            chk.bad('importing the library never requires an optional package', f'{b[0].short}: {p}', f'with {p} not installed the import fails here', f'{b[0].rel}:{b[2].lineno}')
    for (mn, q, line), (m, fn, s, expl, pk) in guards.items():
        if not pk:
            continue
        if expl:
            chk.ok('the refusal explains what is missing', f'{q}: {", ".join(sorted(pk))}', '', f'{m.rel}:{line}')
        else:
            chk.bad('the refusal explains what is missing', f'{q}: {", ".join(sorted(pk))}', 'the path stops here without a message when the package is missing', f'{m.rel}:{line}')
    chk.explanation = ('for combinations of missing optional packages every module of the package and every function that can then be entered is traversed with the flags the failed imports leave; '
                       'uses of names that were not imported must lie on no path')


def report(chk, q, p, b):
    m, fn, node, miss = b
    chk.bad('used only after its absence was ruled out', f'{q}: {p}', f'with {", ".join(miss)} not installed this use of {p} ({ast.unparse(node)[:60]!r}) is reached and fails: no check that it is installed stops the path or takes a fallback', f'{m.rel}:{node.lineno}')


MINIMUM = 5
LEVEL = 'other'
