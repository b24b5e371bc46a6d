"""C25 Results depend only on the inputs.

Nondeterminism analysis: sources (unseeded random numbers, clock, environment, hash and identity, orders of sets and
directory listings, memory that was not written) are traced, over names and over functions that return them, to a place
where they enter a result. State that outlives a call (module and class objects, default argument values, attributes
used as a cache) may only be changed in a way that a later call cannot tell: a memo whose stored value depends on
nothing but its key."""
import ast
from .common import *
from .c07 import api, defaults, mutable_default, owner, path
from ..loader import Ext, Func, Cls

SRC = 'no result takes its value from outside the inputs'
ORD = 'no result takes its order from hashing or from a directory listing'
MEM = 'no memory is read before it was written'
STATE = 'no call leaves state behind that a later call reads'

CLOCK = {'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today', 'time.time', 'time.time_ns',
         'time.perf_counter', 'time.perf_counter_ns', 'time.monotonic', 'time.monotonic_ns', 'time.process_time', 'time.ctime', 'time.localtime', 'time.gmtime', 'time.strftime'}
# what is only clock when no moment is passed
CLOCK_NOARG = {'time.ctime': 1, 'time.localtime': 1, 'time.gmtime': 1, 'time.strftime': 2}
ENV = {'os.environ', 'os.getenv', 'os.environ.get', 'os.getcwd', 'os.getpid', 'os.getlogin', 'platform.node', 'platform.system', 'platform.platform', 'platform.machine',
       'socket.gethostname', 'getpass.getuser', 'locale.getlocale', 'os.cpu_count', 'os.urandom', 'uuid.uuid1', 'uuid.uuid4', 'threading.get_ident'}
SEEDED = {'numpy.random.default_rng': 'seed', 'numpy.random.RandomState': 'seed', 'random.Random': 'x', 'numpy.random.SeedSequence': 'entropy',
          'numpy.random.PCG64': 'seed', 'numpy.random.MT19937': 'seed', 'numpy.random.Philox': 'seed'}
STOCHASTIC = {'scipy.optimize.differential_evolution', 'scipy.optimize.basinhopping', 'scipy.optimize.dual_annealing'}
LISTING = {'os.listdir', 'os.scandir', 'glob.glob', 'glob.iglob', 'os.walk'}
ORDER_FREE = {'sorted', 'len', 'min', 'max', 'sum', 'any', 'all', 'set', 'frozenset', 'isinstance', 'bool', 'fsum'}
QUIET = {'print', 'warn', 'warning', 'debug', 'info', 'error', 'exception', 'critical', 'log', 'write_stderr'}
NUMERIC_CALLS = {'range', 'int', 'float', 'round', 'len', 'abs', 'ord'}
SETOPS = (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)


class Scope:
    """one function (nested functions and lambdas included) or a module body"""

    def __init__(self, world, module, node, func=None):
        self.w, self.m, self.node, self.f = world, module, node, func
        self.parent = {}
        for x in ast.walk(node):
            for c in ast.iter_child_nodes(x):
                self.parent[c] = x
        self.assigned = {}
        self.params = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    self.bind(t, x.value)
            elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and x.value is not None:
                self.bind(x.target, x.value)
            elif isinstance(x, ast.AugAssign):
                self.bind(x.target, x.value)
            elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                self.bind(x.optional_vars, x.context_expr)
            elif isinstance(x, (ast.For, ast.comprehension)):
                self.bind(x.target, None)
            elif isinstance(x, ast.arguments):
                self.params |= {a.arg for a in x.posonlyargs + x.args + x.kwonlyargs} | {a.arg for a in (x.vararg, x.kwarg) if a}
        self.tainted = {}
        self.locals = None
        self.fulls = {}

    @property
    def qual(self):
        return self.f.qual if self.f is not None else self.m.short

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.assigned.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    self.bind(a, b)
            else:
                for a in t.elts:
                    self.bind(a, None)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, None)

    def loc(self, e):
        return f'{self.m.rel}:{getattr(e, "lineno", 0)}'

    # what an expression refers to
    def full(self, e):
        """dotted name of an external function or attribute, or a repository object"""
        if e not in self.fulls:
            self.fulls[e] = self.full_(e)
        return self.fulls[e]

    def full_(self, e):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name) or e.id in self.assigned and e.id not in self.m.imports or e.id in self.params:
            return None
        r = self.local_import(e.id) or self.m.resolve(e.id)
        if isinstance(r, Ext):
            return '.'.join([r.name] + parts[::-1])
        if r is None:
            return '.'.join([e.id] + parts[::-1]) if not parts else None
        for a in reversed(parts):
            if isinstance(r, Cls):
                k = r.lookup(a)
                r = k[1] if k and k[0] != 'const' else None
            elif hasattr(r, 'resolve'):
                r = r.resolve(a)
            else:
                return None
        return r

    def local_import(self, name):
        if self.locals is None:
            self.locals = {}
            for x in ast.walk(self.node):
                if isinstance(x, ast.Import):
                    for a in x.names:
                        self.locals[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])
                elif isinstance(x, ast.ImportFrom) and x.module and not x.level and not x.module.startswith('welleng'):
                    for a in x.names:
                        self.locals[a.asname or a.name] = Ext(f'{x.module}.{a.name}')
        return self.locals.get(name)

    def callee(self, c):
        r = self.full(c.func)
        if r is None and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and self.f is not None and self.f.cls is not None \
                and self.f.params() and c.func.value.id == self.f.params()[0]:
            k = self.f.cls.lookup(c.func.attr)
            if k and isinstance(k[1], Func):
                return k[1]
        return r

    # --- sources -----------------------------------------------------------------------------------------------------
    def source(self, e):
        """why the value of this very expression is not determined by the inputs, or None"""
        if isinstance(e, (ast.Attribute, ast.Name)):
            x = self.full(e)
            if isinstance(x, str) and x in ENV and x == 'os.environ':
                return 'the environment (os.environ)'
            return None
        if isinstance(e, ast.Subscript):
            return None
        if not isinstance(e, ast.Call):
            return None
        x = self.callee(e)
        if isinstance(x, Func):
            why = self.w.returns.get(x.node)
            return why and f'{why}, returned by {x.qual}'
        if not isinstance(x, str):
            return None
        name = x
        if name in CLOCK:
            k = CLOCK_NOARG.get(name)
            if k is not None and len(e.args) >= k:
                return None
            return f'the clock ({name})'
        if name in ENV:
            return f'the environment ({name})'
        if name in ('hash', 'id') and isinstance(e.func, ast.Name):
            return f'{name}() of an object, different in every run'
        if name in SEEDED:
            a = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == SEEDED[name]), None)
            if a is None or isinstance(a, ast.Constant) and a.value is None:
                return f'random numbers ({name} without a seed)'
            return None
        if name in STOCHASTIC:
            if not any(k.arg in ('seed', 'rng', 'random_state', None) and not (isinstance(k.value, ast.Constant) and k.value.value is None) for k in e.keywords):
                return f'random numbers ({name} without a seed)'
            return None
        head = name.rsplit('.', 1)
        if head[0] in ('numpy.random', 'random', 'secrets') and len(head) == 2 and head[1] not in ('seed', 'Generator', 'set_state', 'setstate', 'BitGenerator'):
            if self.seeded_here(head[0]):
                return None
            return f'random numbers ({name})'
        if name.startswith('scipy.stats.') and name.endswith('.rvs') and not any(k.arg == 'random_state' for k in e.keywords):
            return f'random numbers ({name})'
        return None

    def seeded_here(self, mod):
        for x in ast.walk(self.node):
            if isinstance(x, ast.Call) and self.full(x.func) == f'{mod}.seed' and x.args and not (isinstance(x.args[0], ast.Constant) and x.args[0].value is None):
                return True
        return False

    # --- unordered collections ---------------------------------------------------------------------------------------
    def unordered(self, e, depth=0):
        """why iterating over this expression has no fixed order, or None"""
        if depth > 8 or e is None:
            return None
        if isinstance(e, (ast.Set, ast.SetComp)):
            return None if self.numeric(e) else 'a set'
        if isinstance(e, ast.Call):
            x = self.callee(e)
            if x in ('set', 'frozenset'):
                return 'a set' if e.args and not self.numeric(e.args[0]) or not e.args and not self.numeric_adds(e) else None
            if isinstance(x, str) and x in LISTING:
                return f'a directory listing ({x})'
            if isinstance(x, Func):
                return self.w.unordered.get(x.node)
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
                    return self.unordered(e.func.value, depth + 1)
                if e.func.attr in ('iterdir', 'rglob') or e.func.attr == 'glob' and not isinstance(x, str):
                    return f'a directory listing (.{e.func.attr})'
            if x in ('reversed', 'enumerate', 'iter', 'filter', 'map', 'zip') or x == 'itertools.chain':
                for a in e.args:
                    u = self.unordered(a, depth + 1)
                    if u:
                        return u
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, SETOPS):
            def keys(x):
                return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('keys', 'items') and not x.args
            if keys(e.left) or keys(e.right):
                return 'a set of keys'
            return self.unordered(e.left, depth + 1) or (self.unordered(e.right, depth + 1) if not isinstance(e.op, ast.Sub) else None)
        if isinstance(e, ast.IfExp):
            return self.unordered(e.body, depth + 1) or self.unordered(e.orelse, depth + 1)
        if isinstance(e, ast.Name):
            if e.id in self.assigned:
                vs = [v for v in self.assigned[e.id]]
                for v in vs:
                    if v is not None and not (isinstance(v, ast.Name) and v.id == e.id):
                        u = self.unordered(v, depth + 1)
                        if u:
                            return u
                return None
            if e.id in self.params:
                return None
            return self.w.globals_unordered.get((self.m.short, e.id))
        if isinstance(e, ast.Attribute):
            x = self.full(e)
            return None
        return None

    def numeric_adds(self, e):
        """an empty set() whose additions are all numbers"""
        p = self.parent.get(e)
        if not (isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name)):
            return False
        adds = [x for x in ast.walk(self.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)
                and x.func.value.id == p.targets[0].id and x.func.attr in ('add', 'update')]
        return bool(adds) and all(x.args and self.number(x.args[0]) for x in adds)

    def number(self, e, depth=0):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, float))
        if isinstance(e, ast.UnaryOp):
            return self.number(e.operand, depth)
        if isinstance(e, ast.BinOp):
            return not isinstance(e.op, (ast.Mod, ast.Add)) or self.number(e.left, depth) or self.number(e.right, depth)
        if isinstance(e, ast.Tuple):
            return all(self.number(x, depth) for x in e.elts)
        if isinstance(e, ast.Call):
            x = self.full(e.func)
            return isinstance(x, str) and (x in NUMERIC_CALLS or x.startswith(('numpy.', 'math.')))
        if isinstance(e, ast.Name) and depth < 5:
            for c in ast.walk(self.node):
                if isinstance(c, (ast.For, ast.comprehension)):
                    if isinstance(c.target, ast.Name) and c.target.id == e.id:
                        return self.numeric(c.iter, depth + 1)
                    if isinstance(c.target, ast.Tuple) and c.target.elts and isinstance(c.target.elts[0], ast.Name) and c.target.elts[0].id == e.id \
                            and isinstance(c.iter, ast.Call) and self.full(c.iter.func) == 'enumerate':
                        return True
            vs = self.assigned.get(e.id, [])
            return bool(vs) and all(v is not None and self.number(v, depth + 1) for v in vs)
        return False

    def numeric(self, e, depth=0):
        """a collection whose elements are evidently numbers: their order in a set is the same in every run"""
        if isinstance(e, (ast.Set, ast.List, ast.Tuple)):
            return bool(e.elts) and all(self.number(x, depth) for x in e.elts)
        if isinstance(e, (ast.SetComp, ast.ListComp, ast.GeneratorExp)):
            return self.number(e.elt, depth)
        if isinstance(e, ast.Call):
            x = self.full(e.func)
            if isinstance(x, str):
                if x in ('range', 'enumerate') or x.startswith(('numpy.', 'math.')):
                    return True
                if x in ('set', 'list', 'tuple', 'frozenset', 'sorted', 'reversed') and e.args:
                    return self.numeric(e.args[0], depth)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('tolist', 'flatten', 'ravel', 'astype'):
                return True
        if isinstance(e, ast.Name) and depth < 5:
            vs = [v for v in self.assigned.get(e.id, []) if not (isinstance(v, (ast.List, ast.Tuple)) and not v.elts)]
            adds = [x for x in ast.walk(self.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)
                    and x.func.value.id == e.id and x.func.attr in ('append', 'extend', 'insert')]
            return bool(vs or adds) and all(v is not None and self.numeric(v, depth + 1) for v in vs) and all(
                self.number(x.args[-1], depth + 1) if x.func.attr != 'extend' else self.numeric(x.args[0], depth + 1) for x in adds)
        return False

    # --- taint -------------------------------------------------------------------------------------------------------
    def order_taken(self, e):
        """the expression turns an unordered collection into something with an order"""
        if isinstance(e, ast.Call):
            x = self.full(e.func)
            if x in ('list', 'tuple', 'enumerate', 'dict', 'next', 'zip', 'map', 'iter') or isinstance(x, str) and x.startswith('numpy.') and x not in ('numpy.unique', 'numpy.sort') \
                    or isinstance(e.func, ast.Attribute) and e.func.attr in ('join', 'extend', 'fromkeys'):
                for a in e.args:
                    u = self.unordered(a.value if isinstance(a, ast.Starred) else a)
                    if u:
                        return u
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'pop' and not e.args:
                u = self.unordered(e.func.value)
                if u:
                    return u
            for a in e.args:
                if isinstance(a, ast.Starred) and not (x in ORDER_FREE):
                    u = self.unordered(a.value)
                    if u and not (isinstance(e.func, ast.Attribute) and e.func.attr in ('union', 'update', 'intersection')):
                        return u
        elif isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                u = self.unordered(g.iter)
                if u and not isinstance(e, ast.DictComp):
                    return u
        elif isinstance(e, ast.Subscript):
            u = self.unordered(e.value)
            if u and 'listing' in u:
                return u
        elif isinstance(e, (ast.List, ast.Tuple)):
            for a in e.elts:
                if isinstance(a, ast.Starred):
                    u = self.unordered(a.value)
                    if u:
                        return u
        return None

    def dated(self, e):
        """evaluated only where a date was left out, which is documented to mean today"""
        def none_test(t, positive):
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                if isinstance(t.operand, ast.Name) and 'date' in t.operand.id.lower():
                    return positive
                return none_test(t.operand, not positive)
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                nm = t.left.id if isinstance(t.left, ast.Name) else t.left.attr if isinstance(t.left, ast.Attribute) else ''
                return 'date' in nm.lower() and (isinstance(t.ops[0], (ast.Is, ast.Eq)) if positive else isinstance(t.ops[0], (ast.IsNot, ast.NotEq)))
            if isinstance(t, ast.BoolOp):
                ok = isinstance(t.op, ast.And) if positive else isinstance(t.op, ast.Or)
                return ok and any(none_test(v, positive) for v in t.values)
            if isinstance(t, (ast.Name, ast.Attribute)) and not positive:
                return 'date' in (t.id if isinstance(t, ast.Name) else t.attr).lower()
            return False
        c, p = e, self.parent.get(e)
        while p is not None:
            if isinstance(p, (ast.If, ast.IfExp)) and c is not p.test:
                inbody = c is p.body if isinstance(p, ast.IfExp) else c in p.body
                if none_test(p.test, inbody):
                    return True
            if isinstance(p, ast.BoolOp) and isinstance(p.op, ast.Or) and c is not p.values[0]:
                v = p.values[0]
                if isinstance(v, (ast.Name, ast.Attribute)) and 'date' in (v.id if isinstance(v, ast.Name) else v.attr).lower():
                    return True
            for fld in ('body', 'orelse', 'finalbody'):
                ss = getattr(p, fld, None)
                if isinstance(ss, list) and c in ss:
                    for s in ss[:ss.index(c)]:
                        if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and none_test(s.test, False):
                            return True
            if isinstance(p, (ast.FunctionDef, ast.Lambda)) and p is self.node:
                break
            c, p = p, self.parent.get(p)
        return False

    def commentary(self, e):
        """text of a comment line"""
        first = None
        if isinstance(e, ast.JoinedStr) and e.values and isinstance(e.values[0], ast.Constant):
            first = e.values[0].value
        elif isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)):
            x = e.left
            while isinstance(x, ast.BinOp):
                x = x.left
            first = x.value if isinstance(x, ast.Constant) else None
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(e.func.value, ast.Constant):
            first = e.func.value.value
        return isinstance(first, str) and first.startswith('!')

    def taint(self, e):
        """(kind, why, node) of something in the expression that the inputs do not determine"""
        if e is None or not isinstance(e, ast.AST):
            return None
        if isinstance(e, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and e is not self.node:
            return None if isinstance(e, ast.FunctionDef) else self.taint(e.body) if isinstance(e, ast.Lambda) else None
        if self.commentary(e):
            return None
        why = self.source(e)
        if why and not ('clock' in why and self.dated(e)):
            return ('value', why, e)
        why = self.order_taken(e)
        if why:
            return ('order', why, e)
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            return self.tainted.get(e.id)
        if isinstance(e, ast.Call):
            x = self.full(e.func)
            nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
            if nm in QUIET and not isinstance(x, (Func, Cls)):
                return None
            free = x in ORDER_FREE or nm in ('isdisjoint', 'issubset', 'issuperset', 'union', 'intersection', 'update', 'unique', 'sort')
            for c in ([e.func] if isinstance(e.func, ast.Attribute) else []) + e.args + [k.value for k in e.keywords]:
                t = self.taint(c.value if isinstance(c, ast.Attribute) and c is e.func else c)
                if t and not (free and t[0] == 'order'):
                    return t
            return None
        if isinstance(e, ast.Compare) and all(isinstance(o, (ast.In, ast.NotIn)) for o in e.ops):
            for c in [e.left] + e.comparators:
                t = self.taint(c)
                if t and t[0] != 'order':
                    return t
            return None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.comprehension, ast.keyword)):
                t = self.taint(c)
                if t:
                    return t
        return None

    def statements(self):
        def rec(ss):
            for s in ss:
                yield s
                for fld in ('body', 'orelse', 'finalbody'):
                    if isinstance(s, ast.ClassDef) and self.f is None:
                        continue
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and self.f is None:
                        continue
                    yield from rec(getattr(s, fld, None) or [])
                for h in getattr(s, 'handlers', None) or []:
                    yield from rec(h.body)
                for c in getattr(s, 'cases', None) or []:
                    yield from rec(c.body)
        return rec(self.node.body)

    def spread(self):
        """names that carry something undetermined"""
        changed = True
        sorted_names = set()
        for s in self.statements():
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'sort' \
                    and isinstance(s.value.func.value, ast.Name):
                sorted_names.add(s.value.func.value.id)
        while changed:
            changed = False

            def mark(t, why):
                nonlocal changed
                if isinstance(t, ast.Name):
                    if t.id not in self.tainted and not (why[0] == 'order' and t.id in sorted_names):
                        self.tainted[t.id] = why
                        changed = True
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for x in t.elts:
                        mark(x, why)
                elif isinstance(t, ast.Starred):
                    mark(t.value, why)
            for s in self.statements():
                if isinstance(s, ast.Assign):
                    t = self.taint(s.value)
                    if t:
                        for x in s.targets:
                            mark(x, t)
                elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                    t = self.taint(s.value)
                    if t:
                        mark(s.target, t)
                elif isinstance(s, (ast.With,)):
                    for i in s.items:
                        t = self.taint(i.context_expr)
                        if t and i.optional_vars is not None:
                            mark(i.optional_vars, t)
                elif isinstance(s, ast.For):
                    t = self.taint(s.iter)
                    if t and t[0] == 'value':
                        mark(s.target, t)
                    u = self.unordered(s.iter)
                    if u or t and t[0] == 'order':
                        why = ('order', u or t[1], s.iter)
                        for b in ast.walk(s):
                            if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr in ('append', 'extend', 'insert') and isinstance(b.func.value, ast.Name):
                                mark(b.func.value, why)
                            elif isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Name) and not self.number(b.value):
                                mark(b.target, why)
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ('append', 'extend', 'insert', 'add', 'update') \
                        and isinstance(s.value.func.value, ast.Name):
                    for a in s.value.args:
                        t = self.taint(a)
                        if t and not (t[0] == 'order' and s.value.func.attr in ('add', 'update')):
                            mark(s.value.func.value, t)

    def sinks(self):
        """(taint, statement, what it does) where something undetermined leaves the function"""
        quiet = (ast.Raise, ast.Assert, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal, ast.Delete, ast.Try)
        for s in self.statements():
            if isinstance(s, quiet):
                continue
            if isinstance(s, ast.Return):
                t = self.taint(s.value)
                if t:
                    yield t, s, 'return'
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                t = self.taint(s.value)
                if t and self.f is None:
                    yield t, s, 'is kept in the module'
                if t and isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in self.params:
                    yield t, s, f'is added to the object given as {s.target.id}'
                for x in ts:
                    for y in ast.walk(x):
                        if isinstance(y, (ast.Attribute, ast.Subscript)):
                            if t and not (isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id in self.assigned and t[0] == 'order'):
                                yield t, s, f'is kept in {ast.unparse(x)}'
                            break
            elif isinstance(s, ast.Expr):
                v = s.value
                if isinstance(v, (ast.Yield, ast.YieldFrom)):
                    t = self.taint(v.value)
                    if t:
                        yield t, s, 'return'
                elif isinstance(v, ast.Call):
                    if isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.attr in ('append', 'extend', 'insert', 'add', 'update', 'sort') \
                            and v.func.value.id in self.assigned and v.func.value.id not in self.params:
                        continue
                    for a in ([v.func.value] if isinstance(v.func, ast.Attribute) else []) + v.args + [k.value for k in v.keywords]:
                        t = self.taint(v)
                        if t:
                            yield t, s, f'is handed to {ast.unparse(v.func)}'
                            break
            elif isinstance(s, (ast.If, ast.While)):
                t = self.taint(s.test)
                if t:
                    yield t, s, 'decides a branch'
            elif isinstance(s, ast.For):
                t = self.taint(s.iter)
                u = self.unordered(s.iter) or (t[1] if t and t[0] == 'order' else None)
                if u:
                    for b in ast.walk(s):
                        if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr in ('append', 'extend', 'insert') and not isinstance(b.func.value, ast.Name):
                            yield ('order', u, s.iter), b, f'fills {ast.unparse(b.func.value)}'
                        elif isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and isinstance(b.func.value, ast.Name) and b.func.value.id in self.params \
                                and b.func.attr in ('append', 'extend', 'insert'):
                            yield ('order', u, s.iter), b, f'fills {b.func.value.id}'
                        elif isinstance(b, (ast.Yield, ast.YieldFrom)):
                            yield ('order', u, s.iter), b, 'return'
                        elif isinstance(b, ast.Return) and b.value is not None and not isinstance(b.value, ast.Constant):
                            yield ('order', u, s.iter), b, 'return'


class World:
    def __init__(self, prog, names):
        self.prog, self.names = prog, names
        self.returns, self.unordered, self.globals_unordered = {}, {}, {}
        self.mods = [m for m in prog.modules.values() if not m.short.startswith('errors.tools')]
        self.scopes = []
        for m in self.mods:
            top = Scope(self, m, m.tree)
            self.scopes.append(top)
            for name, vs in top.assigned.items():
                for v in vs:
                    if v is not None and top.unordered(v):
                        self.globals_unordered[(m.short, name)] = top.unordered(v)
            for c in m.classes.values():
                self.scopes.append(Scope(self, m, c.node))
            for f in m.all_functions():
                if f.parent is None:
                    self.scopes.append(Scope(self, m, f.node, f))
        for _ in range(6):
            n0 = len(self.returns), len(self.unordered)
            for s in self.scopes:
                if s.f is None:
                    continue
                s.tainted = {}
                s.spread()
                for t, st, how in s.sinks():
                    if how == 'return' and t[0] == 'value':
                        self.returns.setdefault(s.f.node, t[1])
                for x in s.statements():
                    if isinstance(x, ast.Return) and x.value is not None:
                        u = s.unordered(x.value)
                        if u:
                            self.unordered.setdefault(s.f.node, u)
            if (len(self.returns), len(self.unordered)) == n0:
                break
        self.called = set()
        for s in self.scopes:
            for x in ast.walk(s.node):
                if isinstance(x, ast.Call):
                    r = s.callee(x)
                    if isinstance(r, Func):
                        self.called.add(r.node)


def undetermined(chk, w):
    for s in w.scopes:
        if s.f is None:
            s.spread()
        seen = set()
        chk.count('scopes')
        bad = False
        for t, st, how in s.sinks():
            kind, why, node = t
            if how == 'return' and kind == 'value' and s.f is not None and s.f.qual not in w.names and (s.f.node in w.called or s.f.name.startswith('_')):
                continue                       # judged where the result is used
            key = (kind, why)
            if key in seen:
                continue
            seen.add(key)
            bad = True
            rule = SRC if kind == 'value' else ORD
            chk.bad(rule, f'{s.qual}: {why}', f'line {getattr(node, "lineno", "?")}: {why} ' + ('reaches the result' if how == 'return' else how), s.loc(node))
        if not bad:
            chk.ok(SRC, s.qual, '', s.loc(s.node))
            chk.ok(ORD, s.qual, '', s.loc(s.node))


def unwritten(chk, w):
    for s in w.scopes:
        for x in ast.walk(s.node):
            if not isinstance(x, ast.Call):
                continue
            nm = s.full(x.func)
            if nm not in ('numpy.empty', 'numpy.empty_like', 'numpy.ndarray'):
                continue
            if s.f is None and any(x in ast.walk(f.node) for f in s.m.all_functions()):
                continue
            chk.count('arrays made without contents')
            loc = s.loc(x)
            cons = f'{s.qual}: {ast.unparse(x)}'
            shape = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg == 'shape'), None)
            dims = shape.elts if isinstance(shape, (ast.Tuple, ast.List)) else [shape]
            if any(isinstance(d, ast.Constant) and d.value == 0 for d in dims):
                chk.ok(MEM, cons, 'has no elements', loc)
                continue
            p = s.parent.get(x)
            if not (isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name)):
                if isinstance(p, ast.Assign) and isinstance(p.targets[0], (ast.Attribute, ast.Subscript)):
                    chk.unknown(MEM, cons, f'kept in {ast.unparse(p.targets[0])}: where it is written is not followed')
                elif isinstance(p, ast.keyword) and p.arg == 'out':
                    chk.ok(MEM, cons, 'written as an output', loc)
                else:
                    chk.bad(MEM, cons, 'used at once: its contents are whatever the memory held', loc)
                continue
            v = p.targets[0].id
            stores, handed = [], False
            for y in ast.walk(s.node):
                if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == v:
                    q = s.parent.get(y)
                    while isinstance(q, (ast.Tuple, ast.List, ast.Starred)):
                        q = s.parent.get(q)
                    if not isinstance(q, ast.AugAssign):
                        stores.append(y.slice)
                elif isinstance(y, ast.Call):
                    if isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == v and y.func.attr in ('fill', 'put', 'itemset'):
                        handed = True
                    if any(isinstance(a, ast.Name) and a.id == v for a in y.args + [k.value for k in y.keywords]):
                        r = s.callee(y)
                        if isinstance(r, Func) or r in ('numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.fill_diagonal') or any(k.arg == 'out' and isinstance(k.value, ast.Name) and k.value.id == v for k in y.keywords):
                            handed = True
            size = dims[0].value if len(dims) == 1 and isinstance(dims[0], ast.Constant) else None
            if not stores and not handed:
                chk.bad(MEM, cons, f'{v} is used without ever being written', loc)
            elif size is not None and not handed and all(isinstance(i, ast.Constant) for i in stores) and len({i.value % size for i in stores}) < size:
                chk.bad(MEM, cons, f'only elements {sorted({i.value % size for i in stores})} of the {size} of {v} are ever written', loc)
            else:
                chk.ok(MEM, cons, 'written after it was made', loc)


# --- state that outlives a call ------------------------------------------------------------------------------------------

def deps(scope, e, seen=None, selfname=None):
    """parameters (and attributes of self) an expression is computed from; '?' where it cannot be told"""
    out = set()
    seen = set() if seen is None else seen
    for x in ast.walk(e):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == selfname:
            out.add(f'{selfname}.{x.attr}')
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            if x.id == selfname and isinstance(scope.parent.get(x), ast.Attribute):
                continue
            if x.id in scope.assigned and x.id not in seen:
                seen.add(x.id)
                for v in scope.assigned[x.id]:
                    if v is not None:
                        out |= deps(scope, v, seen, selfname)
                    else:
                        out |= {d for it in iters(scope, x.id) for d in deps(scope, it, seen, selfname)}
            if x.id in scope.params:
                out.add(x.id)
    return out


def iters(scope, name):
    for x in ast.walk(scope.node):
        if isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)):
            yield x.iter
        elif isinstance(x, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(t)) for t in x.targets):
            yield x.value


def lasting(scope):
    """(statement, target text, key or None, value, root) of each store into module or class objects"""
    selfname = scope.f.params()[0] if scope.f is not None and scope.f.cls is not None and scope.f.params() else None
    globs = {n_ for x in ast.walk(scope.node) if isinstance(x, ast.Global) for n_ in x.names}

    def root(e):
        if isinstance(e, ast.Name):
            if e.id in globs:
                return ('m', scope.m.short, e.id)
            if e.id in scope.assigned or e.id in scope.params:
                return None
            r = scope.m.resolve(e.id)
            if r.__class__.__name__ == 'GlobalVar':
                return ('m', r.module.short, r.name)
            if isinstance(r, (Cls, Func)):
                return ('o', r.qual, '')
            return None
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == 'cls' and scope.f is not None and any('classmethod' in str(d) for d in scope.f.decorators):
                return ('c', scope.f.cls.qual, e.attr)
            if isinstance(e.value, ast.Name) and e.value.id == selfname and scope.f.cls is not None and selfname is not None:
                k = scope.f.cls.lookup(e.attr)
                if k and k[0] == 'const' and not any_self_store(scope.f.cls, e.attr):
                    return ('c', scope.f.cls.qual, e.attr)
                return None
            if isinstance(e.value, ast.Attribute) and e.value.attr == '__class__' or isinstance(e.value, ast.Call) and scope.full(e.value.func) == 'type':
                return ('c', scope.f.cls.qual if scope.f and scope.f.cls else '?', e.attr)
            r = root(e.value)
            if r is not None and r[0] == 'o':
                return ('c', r[1], e.attr)
            return r
        if isinstance(e, ast.Subscript):
            return root(e.value)
        return None

    for x in ast.walk(scope.node):
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                if isinstance(t, ast.Name):
                    if t.id in globs:
                        yield x, t, None, x.value, ('m', scope.m.short, t.id), isinstance(x, ast.AugAssign)
                elif isinstance(t, ast.Subscript):
                    r = root(t.value)
                    if r and r[0] != 'o':
                        yield x, t, t.slice, x.value, r, isinstance(x, ast.AugAssign)
                elif isinstance(t, ast.Attribute):
                    r = root(t) if isinstance(t.value, ast.Name) and t.value.id != selfname or not isinstance(t.value, ast.Name) else None
                    if r and r[0] != 'o':
                        yield x, t, None, x.value, r, isinstance(x, ast.AugAssign)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            r = root(x.func.value)
            if r and r[0] != 'o' and x.func.attr in ('append', 'extend', 'insert', 'add', 'remove', 'pop', 'popitem', 'clear', 'sort', 'reverse', 'discard', 'fill'):
                yield x, x.func.value, None, x, r, True
            elif r and r[0] != 'o' and x.func.attr == 'setdefault' and len(x.args) == 2:
                yield x, x.func.value, x.args[0], x.args[1], r, False
            elif r and r[0] != 'o' and x.func.attr == 'update':
                yield x, x.func.value, None, x, r, True


def any_self_store(cls, attr):
    for c in cls.mro():
        for f in getattr(c, 'methods', {}).values():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == attr and isinstance(x.value, ast.Name) and f.params() and x.value.id == f.params()[0]:
                    return True
    return False


def readers(w, root):
    """functions that read the lasting object"""
    for s in w.scopes:
        if s.f is None:
            continue
        for x in ast.walk(s.node):
            if root[0] == 'm' and isinstance(x, ast.Name) and x.id == root[2] and isinstance(x.ctx, ast.Load):
                p = s.parent.get(x)
                if isinstance(p, ast.Attribute) and isinstance(s.parent.get(p), ast.Call) and p.attr in ('append', 'extend', 'add', 'clear') and isinstance(s.parent.get(s.parent.get(p)), ast.Expr):
                    continue
                if isinstance(p, ast.Subscript) and isinstance(p.ctx, (ast.Store, ast.Del)):
                    continue
                if s.m.short == root[1] or getattr(s.m.resolve(x.id), 'module', None) is not None and s.m.resolve(x.id).module.short == root[1]:
                    return s.qual
            if isinstance(x, ast.Attribute) and x.attr == root[2] and isinstance(x.ctx, ast.Load):
                p = s.parent.get(x)
                if isinstance(p, ast.Subscript) and isinstance(p.ctx, (ast.Store, ast.Del)):
                    continue
                if root[0] == 'c' or root[0] == 'm' and s.full(x) is not None:
                    return s.qual
    return None


def state(chk, w, own):
    for s in w.scopes:
        if s.f is None:
            continue
        n_ = 0
        for st, t, key, value, root, aug in lasting(s):
            n_ += 1
            name = f'{root[1]}.{root[2]}'
            loc = s.loc(st)
            cons = f'{s.qual}: {name}'
            selfname = s.f.params()[0] if s.f.cls is not None and s.f.params() else None
            r = readers(w, root)
            if r is None:
                chk.ok(STATE, cons, 'never read', loc)
                continue
            if aug:
                chk.bad(STATE, cons, f'{ast.unparse(st)[:60]} adds to what earlier calls left, and {r} reads it', loc)
                continue
            dv = deps(s, value, None, selfname)
            dk = deps(s, key, None, selfname) if key is not None else set()
            extra = {d for d in dv - dk if d != selfname and not (selfname and d in w.methods(s.f.cls))}
            if selfname in dv and selfname not in dk:
                extra.add(selfname)
            if extra:
                chk.bad(STATE, cons, f'what is kept depends on {", ".join(sorted(extra))}, ' + (f'which the key {ast.unparse(key)} does not tell apart' if key is not None else 'and a later call with other values reads it') + f' (read by {r})', loc)
            else:
                chk.ok(STATE, cons, 'a memo: what is kept depends only on its key', loc)
        if not n_:
            chk.ok(STATE, s.qual, '', s.loc(s.node))
    judged = {o[2] for o in chk.obs if o[1] == STATE}
    # changes reached through references
    for f in own.funcs:
        if f.parent is not None or f.module.short.startswith('errors.tools'):
            continue
        for (b, sure), ev in own.sum[f.node].events.items():
            if b[0] not in ('m', 'c') or ev.via:
                continue
            cons = f'{f.qual}: {b[1]}.{b[2] if len(b) > 2 else ""}'
            if cons in judged:
                continue
            if sure and f.qual not in w.setters:
                chk.bad(STATE, cons, f'{ev.how} ({path(ev)}) changes an object that all calls share', f'{f.module.rel}:{ev.node.lineno}')
            else:
                chk.unknown(STATE, cons, ev.how, f'{f.module.rel}:{ev.node.lineno}')


def cached(chk, w):
    """an attribute filled on first use must not depend on arguments of the call that filled it"""
    for s in w.scopes:
        f = s.f
        if f is None or f.cls is None or f.name == '__init__' or not f.params():
            continue
        me = f.params()[0]
        for x in ast.walk(s.node):
            if not isinstance(x, ast.If):
                continue
            for a, key in fill_tests(s, x.test, me):
                for b in x.body:
                    for y in ast.walk(b):
                        if isinstance(y, ast.Assign):
                            for t in y.targets:
                                hit = isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and t.attr == a and key is None
                                hitk = isinstance(t, ast.Subscript) and ast.unparse(t.value) == f'{me}.{a}' and key is not None
                                if not (hit or hitk):
                                    continue
                                chk.count('attributes filled on first use')
                                cons = f'{f.qual}: {me}.{a}'
                                dv = {d for d in deps(s, y.value, None, me) if not d.startswith(me + '.') and d != me}
                                dk = deps(s, t.slice, None, me) | deps(s, x.test, None, me) if hitk else deps(s, x.test, None, me)
                                if dv - dk and not other_stores(f, me, a, s, x):
                                    chk.bad(STATE, cons, f'filled on first use with a value that depends on {", ".join(sorted(dv - dk))}: a later call with another value gets the first one\'s', s.loc(y))
                                else:
                                    chk.ok(STATE, cons, 'what is kept does not depend on the arguments', s.loc(y))


def other_stores(f, me, a, s, guard):
    """the attribute is an argument kept for good (set once, by design): only its reads elsewhere count"""
    inside = {id(y) for b in guard.body for y in ast.walk(b)}
    for y in ast.walk(s.node):
        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == a and id(y) not in inside:
            return True
    return False


def fill_tests(s, t, me):
    if isinstance(t, ast.BoolOp):
        for v in t.values:
            yield from fill_tests(s, v, me)
    elif isinstance(t, ast.Compare) and len(t.ops) == 1:
        if isinstance(t.ops[0], (ast.Is, ast.Eq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None \
                and isinstance(t.left, ast.Attribute) and isinstance(t.left.value, ast.Name) and t.left.value.id == me:
            yield t.left.attr, None
        elif isinstance(t.ops[0], ast.NotIn) and isinstance(t.comparators[0], ast.Attribute) and isinstance(t.comparators[0].value, ast.Name) and t.comparators[0].value.id == me:
            yield t.comparators[0].attr, t.left
    elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        c = t.operand
        if isinstance(c, ast.Call) and s.full(c.func) == 'hasattr' and len(c.args) == 2 and isinstance(c.args[0], ast.Name) and c.args[0].id == me and isinstance(c.args[1], ast.Constant):
            yield c.args[1].value, None
        elif isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name) and c.value.id == me:
            yield c.attr, None


def generators(chk, w):
    """a random generator that lasts longer than a call gives each call other numbers"""
    for m in w.mods:
        s = Scope(w, m, m.tree)
        for f in m.all_functions():
            for d in f.node.args.defaults + f.node.args.kw_defaults:
                for x in ast.walk(d) if d is not None else ():
                    if isinstance(x, ast.Call) and s.full(x.func) in SEEDED:
                        chk.bad(STATE, f'{f.qual}: default {ast.unparse(d)}', 'one generator serves all calls: each call draws other numbers', f.loc)
        bodies = [m.tree.body] + [c.node.body for c in m.classes.values()]
        for body in bodies:
            for st in body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                    for x in ast.walk(st.value):
                        if isinstance(x, ast.Call) and s.full(x.func) in SEEDED:
                            chk.bad(STATE, f'{m.short}: {ast.unparse(st)[:50]}', 'one generator serves all calls: each call draws other numbers', s.loc(st))
    # functions whose results Python keeps
    for f in chk.prog.all_functions():
        for d in f.node.decorator_list:
            nm = ast.unparse(d)
            if 'lru_cache' in nm or nm.endswith('functools.cache') or nm == 'cache' or 'cached_property' in nm:
                if 'cached_property' in nm:
                    chk.unknown(STATE, f'{f.qual}: {nm}', 'kept for the life of the object')
                    continue
                chk.count('functions with kept results')
                glob = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
                if f.cls is not None and not f.is_static:
                    me = f.params()[0]
                    chk.unknown(STATE, f'{f.qual}: {nm}', f'kept per {me} object, whose attributes may change')
                else:
                    chk.unknown(STATE, f'{f.qual}: {nm}', 'kept per argument values; whether callers change the kept object is not followed')


def shared_defaults(chk, own):
    """a default argument value is one object for all calls: what one call leaves in it the next one finds"""
    for f in own.funcs:
        ds = {k: v for k, v in defaults(f).items() if mutable_default(v)}
        if not ds or f.node not in own.sum:
            continue
        chk.count('default values shared by calls', len(ds))
        hit = {b[1]: ev for (b, sure), ev in own.sum[f.node].events.items() if sure and b[0] == 'p' and b[1] in ds}
        for k in ds:
            cons = f'{f.qual}: default {k}={ast.unparse(ds[k])[:30]}'
            if k in hit:
                chk.bad(STATE, cons, f'{hit[k].how} ({path(hit[k])}) changes the default value, which later calls start from', f'{f.module.rel}:{hit[k].node.lineno}')
            else:
                chk.ok(STATE, cons, '', f.loc)


def run(chk):
    chk.explanation = ('nondeterminism and lasting-state analysis of every function and module body: sources (random numbers, clock, environment, identity, order of sets and '
                       'listings, unwritten memory) are traced to results; stores into module, class and cached state are held against their keys')
    names = api()
    w = World(chk.prog, names)
    w.methods = lambda c: {f'self.{k}' for k in c.methods} if c is not None else set()
    w.setters = set()
    o = owner(chk)
    chk.group(undetermined, w)
    chk.group(unwritten, w)
    chk.group(state, w, o)
    chk.group(cached, w)
    chk.group(generators, w)
    chk.group(shared_defaults, o)


MINIMUM = 60
