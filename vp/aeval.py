"""Abstract evaluator: flow-sensitive value numbering of Python functions over hash-consed terms.

One pass over the syntax tree per function: branches are joined into `ite` terms (no path
enumeration), loops over unknown iterables are summarised by one widening step (`phi`/`loopout`),
calls of repository functions are analysed in the caller's context up to a depth bound, everything
else stays an uninterpreted call.  Side effects are recorded as events."""
import ast
import string
from . import text
from .terms import T, mk, const, NONE, TRUE, FALSE, UNDEF, PI, is_const, cval, sym, show, subterms, rebuild
from .loader import Func, Cls, Module, Ext, GlobalVar, canon, AnalysisBroken


class Budget(Exception):
    pass


class Event:
    __slots__ = ('kind', 'd', 'guards', 'fn', 'rel', 'line', 'stack', 'node', 'order')

    def __init__(self, kind, d, guards, fn, rel, node, stack, order):
        self.kind, self.d, self.guards, self.fn, self.rel = kind, d, guards, fn, rel
        self.node, self.line, self.stack, self.order = node, getattr(node, 'lineno', 0), stack, order

    @property
    def loc(self):
        return f'{self.rel}:{self.line}'

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return f'<{self.kind} {self.rel}:{self.line} {self.fn} {self.d}>'


class Info:
    def __init__(self, kind, cls=None, node=None, **kw):
        self.kind, self.cls, self.node = kind, cls, node
        self.__dict__.update(kw)


class Frame:
    def __init__(self, func, module, env, parent=None):
        self.func, self.module, self.env, self.parent = func, module, env, parent
        self.returns = []
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.base = 0


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'popitem', 'sort', 'reverse',
            'fill', 'resize', 'put', 'itemset', 'partition', 'add', 'discard', 'appendleft', 'popleft', 'setflags'}
NPMETH = {'sum', 'mean', 'dot', 'reshape', 'copy', 'astype', 'min', 'max', 'any', 'all', 'clip', 'round', 'cumsum', 'flatten', 'ravel',
          'squeeze', 'transpose', 'argmin', 'argmax', 'std', 'swapaxes', 'prod', 'diagonal', 'trace', 'cumprod', 'nonzero', 'repeat', 'take', 'conj', 'argsort'}
NPMETH_CANON = {'min': 'amin', 'max': 'amax', 'round': 'around', 'flatten': 'ravel'}
BINFN = {'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*', 'numpy.divide': '/', 'numpy.power': '**', 'numpy.mod': '%', 'numpy.remainder': '%',
         'numpy.floor_divide': '//', 'operator.add': '+', 'operator.sub': '-', 'operator.mul': '*', 'operator.truediv': '/'}
CMPFN = {'numpy.less': '<', 'numpy.greater': '>', 'numpy.equal': '==', 'numpy.not_equal': '!=', 'numpy.less_equal': '<=', 'numpy.greater_equal': '>='}
BUILTINS = {'len', 'range', 'zip', 'enumerate', 'isinstance', 'getattr', 'setattr', 'hasattr', 'list', 'tuple', 'dict', 'set', 'str', 'int', 'float', 'bool', 'abs',
            'min', 'max', 'sum', 'print', 'sorted', 'reversed', 'map', 'filter', 'any', 'all', 'open', 'type', 'super', 'round', 'divmod', 'iter', 'next', 'repr', 'callable',
            'Exception', 'ValueError', 'TypeError', 'KeyError', 'AttributeError', 'ImportError', 'FileNotFoundError', 'AssertionError', 'IndexError', 'RuntimeError', 'NotImplementedError',
            'StopIteration', 'ZeroDivisionError', 'OSError', 'NameError', 'SyntaxError', 'ArithmeticError', 'OverflowError', 'ModuleNotFoundError', 'UserWarning', 'Warning', 'DeprecationWarning',
            'object', 'property', 'staticmethod', 'classmethod', 'slice', 'pow', 'id', 'hash', 'vars', 'dir', 'frozenset', 'bytes', 'complex', 'ord', 'chr', 'format', 'hex', 'input', 'eval', 'exec',
            'compile', 'globals', 'locals', 'NotImplemented', 'Ellipsis', '__import__', 'delattr', 'issubclass', 'bytearray', 'memoryview', 'LookupError', 'UnicodeDecodeError', 'PermissionError',
            'FileExistsError', 'EOFError', 'KeyboardInterrupt', 'SystemExit', 'RecursionError', 'BaseException', 'FutureWarning', 'RuntimeWarning', '__name__', '__file__', '__doc__', 'aiter', 'anext', 'bin', 'oct', 'ascii', 'breakpoint', 'help', 'quit', 'exit'}

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.Mod: '%', ast.FloorDiv: '//', ast.MatMult: '@',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


def mkargs(args, kws):
    return mk('args', *args), mk('kws', *[mk('kw', k, v) for k, v in sorted(kws.items())])


def mkcall(f, args, kws=None):
    a, k = mkargs(args, kws or {})
    return mk('call', f, a, k)


def negate(c):
    if is_const(c):
        return const(not cval(c))
    if c.op == 'not':
        return c.a[0]
    return mk('not', c)


def mkcmp(op, a, b):
    if op == 'is not':
        return negate(mkcmp('is', a, b))
    if op == '!=':
        return negate(mkcmp('==', a, b))
    if op == 'not in':
        return negate(mkcmp('in', a, b))
    if op == '>':
        return mkcmp('<', b, a)
    if op == '>=':
        return negate(mkcmp('<', a, b))
    if op == '<=':
        return negate(mkcmp('<', b, a))
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        try:
            if op == 'is':
                if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
                    return const(x is y)
            elif op == '==':
                return const(x == y)
            elif op == '<':
                return const(x < y)
            elif op == 'in':
                return const(x in y)
        except TypeError:
            pass
    if op == 'in' and b.op in ('tuple', 'list', 'set', 'dict'):
        items = b.a if b.op != 'dict' else [kv.a[0] for kv in b.a]
        if all(isinstance(i, T) and i.op != 'star' for i in items):
            return mkor([mkcmp('==', a, i) for i in items])
    if op in ('is', '==') and a is b and a.op in ('const', 'sym', 'obj', 'attr', 'ext'):
        return TRUE
    if op in ('is', '==') and a.op == 'ext' and b.op == 'ext':
        return FALSE
    if op in ('is', '=='):
        if a.op == 'const' and b.op != 'const':
            a, b = b, a
        if is_const(b) and cval(b) is None:
            if a.op in ('obj', 'tuple', 'list', 'dict', 'fn', 'bound', 'func', 'class', 'defobj', 'bin', 'cmp', 'comp', 'fstr', 'new', 'store'):
                return FALSE
            if a.op == 'call' and isinstance(a.a[0], str) and a.a[0].startswith('numpy.'):
                return FALSE
            if a.op == 'ite':
                return mkite(a.a[0], mkcmp(op, a.a[1], b), mkcmp(op, a.a[2], b))
            op = 'is'
        elif a.op == 'ite' and is_const(b) and (is_const(a.a[1]) or is_const(a.a[2])):
            return mkite(a.a[0], mkcmp(op, a.a[1], b), mkcmp(op, a.a[2], b))
        if op == '==' and not is_const(b) and b < a:
            a, b = b, a
    return mk('cmp', op, a, b)


def mkor(cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for x in (c.a if c.op == 'or' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if negate(x) in out:
            return TRUE
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else mk('or', *out)


def mkand(cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in (c.a if c.op == 'and' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if negate(x) in out:
            return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk('and', *out)


def mkite(c, a, b):
    if a is b:
        return a
    if is_const(c):
        return a if cval(c) else b
    if c.op == 'not':
        c, a, b = c.a[0], b, a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return negate(c)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is UNDEF and b.op == 'ite' and b.a[1] is UNDEF:
        pass
    if a is b:
        return a
    return mk('ite', c, a, b)


_FOLD = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '%': lambda x, y: x % y, '//': lambda x, y: x // y}


def fold(t):
    """arithmetic on constants carried out"""
    return rebuild(t, lambda x: mkbin(*x.a) if x.op == 'bin' else None)


def addends(t):
    if t.op == 'bin' and t.a[0] in '+-':
        yield from addends(t.a[1])
        yield from addends(t.a[2])
    else:
        yield t


def mkbin(op, a, b):
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        if type(x) in (int, str) and type(y) in (int, str, tuple) and op in _FOLD:
            try:
                return const(_FOLD[op](x, y))
            except Exception:
                pass
    if op == '+' and a.op == b.op and a.op in ('tuple', 'list'):
        return mk(a.op, *(a.a + b.a))
    if op == '*' and a.op in ('list', 'tuple') and is_const(b) and isinstance(cval(b), int) and 0 <= cval(b) * len(a.a) < 200:
        return mk(a.op, *(a.a * cval(b)))
    return mk('bin', op, a, b)


class Undecided(Exception):
    """strict evaluation met a branch the assumptions do not decide"""


class Rejected(Exception):
    """an input refused on the one path left by an assumed order"""


class Evaluator:
    def __init__(self, prog, inline=None, opaque_init=(), hints=None, budget=400000, maxdepth=14, unroll=64, record=True, module_consts=True, rank=None, recursion=1):
        self.prog = prog
        self.inline = inline or (lambda f: True)
        self.opaque_init = set(opaque_init)
        self.hints = hints or {}
        self.rank = rank or {}
        self.recursion = recursion
        self.strict = False      # with rank: a missing key or index raises, keys are compared by the assumed order
        self.text, self.words, self.texts, self.given = False, set(), set(), set()     # strings as layouts; values that are one word, non-blank text, not None
        self.extmodel, self.extclass = {}, {}     # library functions given a model; library class of a value -> its bases
        self.heap, self.guards, self.events, self.info = {}, [], [], {}
        self.stack, self.budget, self.maxdepth, self.unroll = [], budget, maxdepth, unroll
        self.n = 0
        self.suppress = 0
        self.uid = 0
        self.steps = 0
        self.loopdepth = 0
        self.gcache = {}
        self.closures = {}
        self.visited_funcs = set()
        self.call_log = []

    # ---------------------------------------------------------------- objects
    def newobj(self, kind, content=None, **kw):
        self.uid += 1
        o = mk('obj', self.uid)
        self.info[o] = Info(kind, **kw)
        if content is not None:
            self.heap[(o, '$c')] = content
        return o

    def content(self, t):
        return self.heap.get((t, '$c'), t)

    def deref(self, t):
        c = self.heap.get((t, '$c'))
        if c is not None and c is not t:
            if t.op != 'obj':
                return c          # contents of non-object terms are stored dereferenced
            t = c
        op = t.op
        if op in ('tuple', 'list', 'dict', 'kv', 'star', 'set'):
            ch = [self.deref(x) if isinstance(x, T) else x for x in t.a]
        elif op == 'ite':
            x, y = self.deref(t.a[1]), self.deref(t.a[2])
            if x is not t.a[1] or y is not t.a[2]:
                return mkite(t.a[0], x, y)
            return t
        elif op in ('store', 'mut', 'append'):
            ch = [self.deref(x) if isinstance(x, T) and (i > 0 or x.op in ('tuple', 'list', 'dict', 'set', 'ite', 'store', 'append')) else x for i, x in enumerate(t.a)]
        else:
            return t
        if any(p is not q for p, q in zip(ch, t.a)):
            return mk(op, *ch)
        return t

    def class_of(self, t):
        i = self.info.get(t)
        if i is not None and i.cls is not None:
            return i.cls
        h = self.hints.get(t)
        if h is not None:
            return h
        if t.op == 'attr':
            h = self.hints.get(('attr', t.a[1]))
            if h is not None:
                return h
        if t.op == 'sym':
            h = self.hints.get(('param', t.a[0]))
            if h is not None:
                return h
        if t.op == 'ite':
            a, b = self.class_of(t.a[1]), self.class_of(t.a[2])
            if a is b or t.a[2] is NONE or t.a[2] is UNDEF:
                return a
            if t.a[1] is NONE or t.a[1] is UNDEF:
                return b
        if t.op in ('phi', 'loopout') and isinstance(t.a[-1], T) and t.a[-1] is not t:
            return self.class_of(t.a[-1])
        if t.op == 'rnew':
            return self.prog.find(t.a[0])
        if t.op == 'rcall':
            return self.hints.get(('ret', t.a[0]))
        return None

    # ---------------------------------------------------------------- events
    def ev(self, kind, node, frame, **d):
        if self.suppress:
            return None
        e = Event(kind, d, tuple(self.guards), frame.func.qual if frame and frame.func else (frame.module.short if frame else '?'),
                  frame.module.rel if frame else '?', node, tuple(self.stack), len(self.events))
        self.events.append(e)
        return e

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    # ---------------------------------------------------------------- conditions
    def rankof(self, t):
        """place of a quantity in the order assumed for this evaluation (rank: term -> number)"""
        if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
            return cval(t)
        if t in self.rank:
            return self.rank[t]
        if t.op == 'bin' and t.a[0] in ('+', '-'):
            x, y = self.rankof(t.a[1]), self.rankof(t.a[2])
            if x is not None and y is not None:
                return x + y if t.a[0] == '+' else x - y
        if t.op == 'un' and t.a[0] == '-':
            x = self.rankof(t.a[1])
            return None if x is None else -x
        if self.strict and t.op == 'call' and t.a[0] in ('float', 'int', 'str') and len(t.a[1].a) == 1:
            return self.rankof(t.a[1].a[0])
        if self.rank and t.op == 'call' and t.a[0] in ('abs', 'numpy.abs') and len(t.a[1].a) == 1:
            x = self.rankof(t.a[1].a[0])
            return None if x is None else abs(x)
        return None

    def decided(self, c):
        if self.text:
            if c.op == 'cmp':
                op, x, y = c.a
                if op == '<' and x is const(0) and y.op == 'call' and y.a[0] == 'len':
                    r = text.nonempty(self, y.a[1].a[0])
                    if r is not None:
                        return r
                if op == '==' and y.op == 'call' and y.a[0] == 'len' and x is const(0) or op == '==' and x.op == 'call' and x.a[0] == 'len' and y is const(0):
                    r = text.nonempty(self, (y if y.op == 'call' else x).a[1].a[0])
                    if r is not None:
                        return not r
                if op == '==':
                    for u, v in ((x, y), (y, x)):
                        if is_const(v) and isinstance(cval(v), str) and not is_const(u):
                            r = text.equal(self, u, cval(v))
                            if r is not None:
                                return r
                if op == 'is' and y is NONE and (x in self.words or x in self.texts or x in self.given or x.op in ('fstr', 'fmt', 'quant')):
                    return False
            elif c in self.words or c in self.texts or c.op in ('fstr', 'fmt'):
                r = text.nonempty(self, c)
                if r is not None:
                    return r
        if is_const(c):
            return bool(cval(c))
        if self.rank and c.op == 'cmp' and c.a[0] in ('<', '=='):
            x, y = self.rankof(c.a[1]), self.rankof(c.a[2])
            if x is not None and y is not None:
                return x < y if c.a[0] == '<' else x == y
        if self.rank:
            r = self.rankof(c)
            if r is not None:
                return bool(r)
        if c.op in ('tuple', 'list', 'dict', 'set'):
            return len(c.a) > 0
        if c.op == 'obj':
            k = self.info[c].kind
            if k == 'inst':
                return True
            return None if (c, '$c') not in self.heap or self.heap[(c, '$c')].op == 'obj' else self.decided(self.heap[(c, '$c')])
        if c.op in ('fn', 'func', 'class', 'module', 'bound', 'ext'):
            return True
        if c.op == 'not':
            d = self.decided(c.a[0])
            return None if d is None else not d
        for g, pol in reversed(self.guards):
            if g is c:
                return pol
            if c.op == 'cmp' and c.a[0] == '==' and pol and g.op == 'cmp' and g.a[0] == '==' and g.a[1] is c.a[1] and is_const(g.a[2]) and is_const(c.a[2]):
                return cval(g.a[2]) == cval(c.a[2])
            if c.op == 'cmp' and c.a[0] == 'is' and is_const(c.a[2]) and cval(c.a[2]) is None:
                if pol and g is c.a[1]:
                    return False
                if pol and g.op == 'cmp' and g.a[0] == '==' and g.a[1] is c.a[1] and is_const(g.a[2]) and cval(g.a[2]) is not None:
                    return False
            if not pol and g.op == 'or' and c in g.a:
                return False
            if pol and g.op == 'and' and c in g.a:
                return True
            if c.op in ('sym', 'attr') and pol and g.op == 'cmp' and g.a[0] == 'is' and g.a[1] is c and g.a[2] is NONE:
                return False
        if c.op == 'and':
            ds = [self.decided(x) for x in c.a]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
        if c.op == 'or':
            ds = [self.decided(x) for x in c.a]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
        if c.op == 'ite':
            d = self.decided(c.a[0])
            if d is not None:
                return self.decided(c.a[1] if d else c.a[2])
        return None

    def simp(self, t):
        """Resolve an ite under the current guards."""
        while t.op == 'ite':
            d = self.decided(t.a[0])
            if d is None:
                return t
            t = t.a[1] if d else t.a[2]
        return t

    def push(self, c, pol):
        n = len(self.guards)
        if c.op == 'not':
            c, pol = c.a[0], not pol
        self.guards.append((c, pol))
        return n

    # ---------------------------------------------------------------- joins
    def fold(self, items, base):
        """items: [(guards tuple, value-fn)] -> decision tree over a getter."""
        def tree(items, depth):
            if len(items) == 1:
                return ('leaf', items[0])
            c = None
            for g, _ in items:
                if len(g) > depth:
                    c = g[depth][0]
                    break
            if c is None:
                return ('leaf', items[0])
            yes = [x for x in items if len(x[0]) > depth and x[0][depth][0] is c and x[0][depth][1]]
            no = [x for x in items if len(x[0]) > depth and x[0][depth][0] is c and not x[0][depth][1]]
            rest = [x for x in items if x not in yes and x not in no]
            if rest:
                # guards that do not line up: a disjunctive fallback
                first, others = items[0], items[1:]
                conj = mkand([x if p else negate(x) for x, p in first[0][depth:]])
                return ('node', conj, ('leaf', first), tree(others, depth))
            if not yes:
                return tree(no, depth + 1)
            if not no:
                return tree(yes, depth + 1)
            return ('node', c, tree(yes, depth + 1), tree(no, depth + 1))
        return tree(items, base)

    def foldval(self, tree, get):
        if tree[0] == 'leaf':
            return get(tree[1][1])
        return mkite(tree[1], self.foldval(tree[2], get), self.foldval(tree[3], get))

    def join_states(self, states, base, frame):
        """states: [(guards, env, heap)]; sets frame.env and self.heap to the join."""
        if len(states) == 1:
            frame.env, self.heap = dict(states[0][1]), dict(states[0][2])
            return
        tree = self.fold([(g, (e, h)) for g, e, h in states], base)
        env = {}
        names = []
        for _, e, _ in states:
            for k in e:
                if k not in env:
                    env[k] = None
                    names.append(k)
        for k in names:
            vs = [e.get(k, UNDEF) for _, e, _ in states]
            env[k] = vs[0] if all(v is vs[0] for v in vs) else self.foldval(tree, lambda s, k=k: s[0].get(k, UNDEF))
        heap = {}
        for _, _, h in states:
            for k in h:
                if k in heap:
                    continue
                vs = [x.get(k) for _, _, x in states]
                if all(v is vs[0] for v in vs):
                    heap[k] = vs[0]
                else:
                    dflt = self.initial(k)
                    if k[1] == '$c' and k[0].op == 'obj' and any(v is None for v in vs):
                        # object created on one branch only
                        heap[k] = next(v for v in vs if v is not None)
                        continue
                    heap[k] = self.foldval(tree, lambda s, k=k, d=dflt: s[1].get(k, d))
        frame.env, self.heap = env, heap

    def initial(self, key):
        o, a = key
        if a == '$c':
            return o
        if self.info.get(o) is not None and self.info[o].kind == 'inst':
            return UNDEF
        return mk('attr', o, a)

    # ---------------------------------------------------------------- statements
    def block(self, stmts, frame):
        for s in stmts:
            if not self.stmt(s, frame):
                return False
        return True

    def stmt(self, s, f):
        self.tick()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.ev('unread', s, f)
            return True
        r = m(s, f)
        return True if r is None else r

    def s_Expr(self, s, f):
        self.expr(s.value, f)

    def s_Pass(self, s, f):
        pass

    def s_Import(self, s, f):
        for a in s.names:
            r = self.prog.module_or_ext(a.name if a.asname else a.name.split('.')[0])
            f.env[a.asname or a.name.split('.')[0]] = self.wrap(r)

    def s_ImportFrom(self, s, f):
        base = s.module or ''
        if s.level:
            parts = f.module.name.split('.')
            if not f.module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        for a in s.names:
            m = self.prog.modules.get(base)
            if m is not None:
                r = m.resolve(a.name) or self.prog.modules.get(base + '.' + a.name)
                f.env[a.asname or a.name] = self.wrap(r) if r is not None else sym(f'{base}.{a.name}')
            else:
                f.env[a.asname or a.name] = self.wrap(Ext(canon(base + '.' + a.name)))

    def s_Global(self, s, f):
        f.globals |= set(s.names)

    def s_Nonlocal(self, s, f):
        f.nonlocals |= set(s.names)

    def s_FunctionDef(self, s, f):
        fn = Func(s.name, s, f.module, cls=f.func.cls if f.func else None, parent=f.func)
        f.env[s.name] = self.closure(fn, f)

    def closure(self, fn, f):
        self.uid += 1
        t = mk('fn', self.uid)
        self.closures[t] = (fn, f)
        return t

    def s_ClassDef(self, s, f):
        f.env[s.name] = sym('localclass:' + s.name)

    def s_Assign(self, s, f):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts) \
                and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts + s.value.elts):
            vals = [self.expr(v, f) for v in s.value.elts]
            for t, v in zip(s.targets[0].elts, vals):
                self.assign(t, v, f, s)
            return
        v = self.expr(s.value, f)
        for t in s.targets:
            self.assign(t, v, f, s)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, f), f, s)

    def s_AugAssign(self, s, f):
        op = BINOPS.get(type(s.op), '?')
        t = s.target
        if isinstance(t, ast.Name):
            old = self.expr(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), f)
            v = self.expr(s.value, f)
            self.ev('augname', s, f, name=t.id, obj=old, op=op, value=v)
            c = self.deref(old)
            dv = self.deref(v)
            if op == '+' and old.op == 'obj' and self.info[old].kind == 'list':
                if c.op == 'list' and dv.op in ('list', 'tuple'):
                    self.heap[(old, '$c')] = mk('list', *(c.a + dv.a))
                else:
                    self.heap[(old, '$c')] = mkbin('+', c, dv)
                return
            new = mkbin(op, c, dv)
            if old.op == 'obj' and self.info[old].kind == 'arr':
                self.heap[(old, '$c')] = new
            else:
                self.setname(t.id, new, f)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, f)
            old = self.getattr(o, t.attr, t, f)
            v = self.expr(s.value, f)
            new = mkbin(op, self.deref(old), self.deref(v))
            self.ev('augattr', s, f, obj=o, attr=t.attr, old=old, op=op, value=v)
            if old.op == 'obj' and self.info[old].kind in ('arr', 'list'):
                self.heap[(old, '$c')] = new
            else:
                self.setattr(o, t.attr, new, s, f, aug=op)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, f)
            k = self.key(t.slice, f)
            old = self.getitem(o, k, t, f)
            v = self.expr(s.value, f)
            new = mkbin(op, self.deref(old), self.deref(v))
            self.setitem(o, k, new, s, f, aug=op)

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, f)
                k = self.key(t.slice, f)
                self.ev('mutcall', s, f, obj=o, method='__delitem__', args=[k], base=o)
                self.heap[(o, '$c')] = mk('mut', self.content(o), 'del', self.deref(k))
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, f)
                self.ev('delattr', s, f, obj=o, attr=t.attr)

    def s_Return(self, s, f):
        v = self.expr(s.value, f) if s.value is not None else NONE
        self.ev('return', s, f, value=v)
        f.returns.append((tuple(self.guards), v, self.heap))
        self.heap = dict(self.heap)
        return False

    def s_Match(self, s, f):
        """a match statement as the chain of conditions it stands for"""
        self.uid += 1
        tmp = f'$m{self.uid}'
        subj = ast.copy_location(ast.Name(tmp, ast.Load()), s.subject)
        f.env[tmp] = self.expr(s.subject, f)
        chain = []
        for c in s.cases:
            tests, binds = [], []
            self._pattern(c.pattern, subj, tests, binds)
            guard = c.guard
            if guard is not None:
                names = dict(binds)

                class Sub(ast.NodeTransformer):
                    def visit_Name(self, x):
                        return names.get(x.id, x)
                import copy
                tests.append(Sub().visit(copy.deepcopy(guard)))
            body = [ast.Assign([ast.Name(k, ast.Store())], v) for k, v in binds] + c.body
            test = ast.BoolOp(ast.And(), tests) if len(tests) > 1 else tests[0] if tests else ast.Constant(True)
            chain.append((test, body))
        node = []
        for test, body in reversed(chain):
            node = [ast.If(test, body, node)]
        for x in node:
            for y in ast.walk(x):
                if isinstance(y, (ast.stmt, ast.expr)) and not hasattr(y, 'lineno'):
                    ast.copy_location(y, s)
        return self.block(node, f)

    def _pattern(self, p, subj, tests, binds):
        def at(e):
            return ast.copy_location(e, p)
        if isinstance(p, ast.MatchValue):
            tests.append(at(ast.Compare(subj, [ast.Eq()], [p.value])))
        elif isinstance(p, ast.MatchSingleton):
            tests.append(at(ast.Compare(subj, [ast.Is()], [at(ast.Constant(p.value))])))
        elif isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                self._pattern(p.pattern, subj, tests, binds)
            if p.name is not None:
                binds.append((p.name, subj))
        elif isinstance(p, ast.MatchOr):
            alts = []
            for q in p.patterns:
                ts = []
                self._pattern(q, subj, ts, binds)
                alts.append(at(ast.BoolOp(ast.And(), ts)) if len(ts) > 1 else ts[0] if ts else at(ast.Constant(True)))
            tests.append(at(ast.BoolOp(ast.Or(), alts)))
        elif isinstance(p, ast.MatchClass) and not p.patterns:
            tests.append(at(ast.Call(at(ast.Name('isinstance', ast.Load())), [subj, p.cls], [])))
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                self._pattern(q, at(ast.Attribute(subj, k, ast.Load())), tests, binds)
        else:
            tests.append(at(ast.Call(at(ast.Name('$pattern', ast.Load())), [subj, at(ast.Constant(ast.dump(p)))], [])))

    def s_Raise(self, s, f):
        v = self.expr(s.exc, f) if s.exc is not None else NONE
        self.ev('raise', s, f, value=v)
        if self.rank and not self.guards:
            raise Rejected(s.lineno)
        return False

    def s_Assert(self, s, f):
        c = self.cond(s.test, f)
        self.ev('assert', s, f, cond=c)
        if self.rank and not self.guards and self.decided(c) is False:
            raise Rejected(s.lineno)
        return True

    def s_If(self, s, f):
        c = self.cond(s.test, f)
        d = self.decided(c)
        if d is not None:
            return self.block(s.body if d else s.orelse, f)
        if self.strict:
            raise Undecided(f'{f.module.rel}:{s.lineno}')
        base = len(self.guards)
        env0, heap0 = f.env, self.heap
        res = []
        outs = []
        for body, pol in ((s.body, True), (s.orelse, False)):
            f.env, self.heap = dict(env0), dict(heap0)
            self.push(c, pol)
            fell = self.block(body, f)
            res.append((fell, tuple(self.guards), f.env, self.heap))
            del self.guards[base:]
        live = [(g, e, h) for fell, g, e, h in res if fell]
        if not live:
            f.env, self.heap = env0, heap0
            return False
        if len(live) == 1:
            f.env, self.heap = live[0][1], live[0][2]
            # the other branch left: its negation holds from here on
            for g in live[0][0][base:]:
                self.guards.append(g)
            return True
        # guards pushed inside a branch by terminated sub-branches stay visible through the tree
        if any(len(g) > base + 1 for g, _, _ in live):
            outs = live
        self.join_states(live, base, f)
        return True

    def s_With(self, s, f):
        for it in s.items:
            v = self.expr(it.context_expr, f)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk('enter', self.deref(v)), f, s)
        return self.block(s.body, f)

    s_AsyncWith = s_With

    def s_Try(self, s, f):
        base = len(self.guards)
        env0, heap0 = f.env, self.heap
        if not s.handlers:
            ok = self.block(s.body, f)
            if s.finalbody:
                ok2 = self.block(s.finalbody, f)
                return ok and ok2
            return ok
        if self.rank and (self.strict or not self.guards):
            # the order of every quantity is assumed: one path, so the handler starts where the body stopped
            depth = len(self.stack)
            try:
                ok = self.block(s.body, f)
                if ok and s.orelse:
                    ok = self.block(s.orelse, f)
            except Rejected:
                del self.guards[base:], self.stack[depth:]
                ok = self.block(s.handlers[0].body, f)
            if s.finalbody:
                ok = self.block(s.finalbody, f) and ok
            return ok
        self.uid += 1
        types = []
        for h in s.handlers:
            types.append(ast.unparse(h.type) if h.type is not None else '*')
        c = mk('exc', f.func.qual if f.func else f.module.short, self.uid)
        states = []
        f.env, self.heap = dict(env0), dict(heap0)
        self.push(c, False)
        ok = self.block(s.body, f)
        if ok and s.orelse:
            ok = self.block(s.orelse, f)
        if ok:
            states.append((tuple(self.guards), f.env, self.heap))
        mid_env, mid_heap = f.env, self.heap
        del self.guards[base:]
        for i, h in enumerate(s.handlers):
            # the handler starts from the state at entry; names only assigned in the body are undefined
            f.env, self.heap = dict(env0), dict(heap0)
            self.push(c, True)
            if i < len(s.handlers) - 1:
                self.push(mk('exctype', c, i, types[i]), True)
            for j in range(i):
                self.guards.insert(base + 1 + j, (mk('exctype', c, j, types[j]), False))
            if h.name:
                f.env[h.name] = mk('excval', c, types[i])
            ok = self.block(h.body, f)
            if ok:
                states.append((tuple(self.guards), f.env, self.heap))
            del self.guards[base:]
        if not states:
            f.env, self.heap = env0, heap0
            return False
        self.join_states(states, base, f)
        if len(states) == 1:
            for g in states[0][0][base:]:
                self.guards.append(g)
        if s.finalbody:
            return self.block(s.finalbody, f)
        return True

    # ---- loops
    def s_For(self, s, f):
        it = self.deref(self.expr(s.iter, f))
        elems = self.known_elems(it)
        if elems is not None and len(elems) <= self.unroll:
            return self.unrolled(s, elems, f)
        return self.generic_loop(s, f, it)

    def known_elems(self, it):
        it = self.simp(it)
        if it.op in ('tuple', 'list', 'set'):
            if any(x.op == 'star' for x in it.a):
                return None
            return list(it.a)
        if it.op == 'dict':
            if any(x.op != 'kv' for x in it.a):
                return None
            return [x.a[0] for x in it.a]
        if is_const(it) and isinstance(cval(it), str):
            return [const(c) for c in cval(it)]
        if it.op == 'call' and it.a[0] == 'range' and all(is_const(x) and isinstance(cval(x), int) for x in it.a[1].a):
            r = range(*[cval(x) for x in it.a[1].a])
            return [const(i) for i in r] if len(r) <= 400 else None
        if it.op == 'call' and it.a[0] in ('zip', 'enumerate', 'reversed', 'sorted'):
            if it.a[0] == 'zip':
                ks = [self.known_elems(x) for x in it.a[1].a]
                if ks and all(k is not None for k in ks):
                    return [mk('tuple', *x) for x in zip(*ks)]
                kn = [k for k in ks if k is not None]
                if kn:   # lengths agree with the known one
                    n = len(kn[0])
                    if all(len(k) == n for k in kn):
                        return [mk('tuple', *[(ks[j][i] if ks[j] is not None else self.mkidx(x, const(i))) for j, x in enumerate(it.a[1].a)]) for i in range(n)]
                return None
            k = self.known_elems(it.a[1].a[0]) if it.a[1].a else None
            if k is None:
                return None
            if it.a[0] == 'enumerate':
                st = 0
                rest = list(it.a[1].a[1:]) + [x.a[1] for x in it.a[2].a]
                if rest:
                    if not is_const(rest[0]):
                        return None
                    st = cval(rest[0])
                return [mk('tuple', const(i + st), x) for i, x in enumerate(k)]
            if it.a[0] == 'reversed':
                return k[::-1]
            if all(is_const(x) for x in k) and not it.a[2].a:
                try:
                    return [const(v) for v in sorted(cval(x) for x in k)]
                except TypeError:
                    return None
            return None
        if it.op == 'call' and it.a[0] == 'numpy.array' and it.a[1].a and it.a[1].a[0].op in ('list', 'tuple'):
            return self.known_elems(it.a[1].a[0])
        return None

    def unrolled(self, s, elems, f):
        base = len(self.guards)
        f.loops.append({'breaks': [], 'continues': []})
        L = f.loops[-1]
        alive = True
        for e in elems:
            self.assign(s.target, e, f, s, bind=True)
            L['continues'] = []
            ok = self.block(s.body, f)
            st = []
            if ok:
                st.append((tuple(self.guards), f.env, self.heap))
            st += L['continues']
            if not st:
                alive = False
                break
            if len(st) > 1:
                del self.guards[base:]
                self.join_states(st, base, f)
            else:
                f.env, self.heap = dict(st[0][1]), dict(st[0][2])
                self.guards[base:] = list(st[0][0][base:])
        f.loops.pop()
        states = list(L['breaks'])
        if alive:
            if getattr(s, 'orelse', None):
                alive = self.block(s.orelse, f)
            if alive:
                states.append((tuple(self.guards), f.env, self.heap))
        if not states:
            del self.guards[base:]
            return False
        if len(states) > 1 or not alive:
            del self.guards[base:]
            self.join_states(states, base, f)
        return True

    def s_Break(self, s, f):
        if f.loops:
            f.loops[-1]['breaks'].append((tuple(self.guards), f.env, self.heap))
            f.env, self.heap = dict(f.env), dict(self.heap)
        return False

    def s_Continue(self, s, f):
        if f.loops:
            f.loops[-1]['continues'].append((tuple(self.guards), f.env, self.heap))
            f.env, self.heap = dict(f.env), dict(self.heap)
        return False

    def s_While(self, s, f):
        return self.generic_loop(s, f, None)

    def generic_loop(self, s, f, it):
        if self.strict:
            raise Undecided(f'{f.module.rel}:{s.lineno}')
        base = len(self.guards)
        self.uid += 1
        lid = self.uid
        self.loopdepth += 1
        depth = self.loopdepth
        targets = set()
        for x in s.body:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    targets.add(n.id)
        nl = set()
        for n in ast.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                pass
        env0, heap0 = dict(f.env), dict(self.heap)

        def body_once(env, heap):
            f.env, self.heap = dict(env), dict(heap)
            f.loops.append({'breaks': [], 'continues': []})
            if it is not None:
                self.assign(s.target, mk('elem', it, depth), f, s, bind=True)
                self.guards.append((mk('inloop', lid), True))
            else:
                c = self.cond(s.test, f)
                self.guards.append((mk('inloop', lid), True))
                if self.decided(c) is None:
                    self.push(c, True)
            ok = self.block(s.body, f)
            L = f.loops.pop()
            st = ([(tuple(self.guards), f.env, self.heap)] if ok else []) + L['continues']
            del self.guards[base:]
            return st, L['breaks']

        env1 = dict(env0)
        for n in targets:
            if n in env1:
                env1[n] = mk('phi', lid, n, env0[n])
        changed = {}
        self.suppress += 1
        nr = len(f.returns)
        try:
            st, br = body_once(env1, heap0)
        finally:
            self.suppress -= 1
        del f.returns[nr:]
        heap1 = dict(heap0)
        for _, _, h in st + br:
            for k, v in h.items():
                if k in heap0 and heap0[k] is not v:
                    heap1[k] = mk('phi', lid, mk('hk', k[0], k[1]), heap0[k])
                elif k not in heap0 and not (k[0].op == 'obj' and (k[0], '$c') not in heap0 and self.info.get(k[0]) is not None and self._is_new(k[0], heap0)):
                    heap1[k] = mk('phi', lid, mk('hk', k[0], k[1]), self.initial(k))
        st, br = body_once(env1, heap1)
        self.loopdepth -= 1
        # exit state: zero iterations / after the last iteration / break
        f.env, self.heap = dict(env0), dict(heap1)
        allst = st + br
        out_env = dict(env0)
        tnames = targets | ({n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if it is not None else set())
        if st:
            self.join_states(st, base, f)
            end_env, end_heap = f.env, self.heap
        else:
            end_env, end_heap = env1, heap1
        # names
        for n in tnames:
            v = end_env.get(n, UNDEF)
            out_env[n] = self.summary(lid, n, env1.get(n), env0.get(n, UNDEF), v, it, depth, bool(br) or it is None)
        out_heap = dict(heap0)
        keys = set(heap1) | set(end_heap)
        for _, _, h in br:
            keys |= set(h)
        for k in keys:
            i0 = heap0.get(k)
            v = end_heap.get(k)
            if heap1.get(k) is i0 and v is i0 and all(h.get(k) is i0 for _, _, h in br):
                continue
            if i0 is None and heap1.get(k) is None:
                # object created inside the loop
                out_heap[k] = v if v is not None else next(h[k] for _, _, h in br if k in h)
                continue
            out_heap[k] = self.summary(lid, k, heap1.get(k), i0 if i0 is not None else self.initial(k), v, it, depth, bool(br) or it is None)
        f.env, self.heap = out_env, out_heap
        if it is None and isinstance(s, ast.While):
            pass
        if getattr(s, 'orelse', None):
            self.block(s.orelse, f)
        # `while True` without break never falls through
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not br:
            return False
        return True

    def _is_new(self, o, heap0):
        return not any(k[0] is o for k in heap0)

    def summary(self, lid, key, phi, init, v, it, depth, irregular):
        if v is None:
            v = init
        if v is phi or v is init and (phi is None or v is not phi):
            if v is phi:
                return init
        name = key if isinstance(key, str) else f'{key[1]}'
        if not irregular and it is not None and phi is not None and v is not phi:
            # append accumulation -> comprehension
            if v.op == 'append' and v.a[0] is phi and phi not in subterms(v.a[1]):
                comp = mk('comp', 'list', v.a[1], it, TRUE)
                return comp if init.op == 'list' and not init.a else mkbin('+', init, comp)
            if v.op == 'ite':
                c, a, b = v.a
                if b is phi and a.op == 'append' and a.a[0] is phi and phi not in subterms(a.a[1]) and phi not in subterms(c):
                    comp = mk('comp', 'list', a.a[1], it, c)
                    return comp if init.op == 'list' and not init.a else mkbin('+', init, comp)
                if a is phi and b.op == 'append' and b.a[0] is phi and phi not in subterms(b.a[1]) and phi not in subterms(c):
                    comp = mk('comp', 'list', b.a[1], it, negate(c))
                    return comp if init.op == 'list' and not init.a else mkbin('+', init, comp)
            if v.op == 'bin' and v.a[0] == '+':
                for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                    if x is phi and phi not in subterms(y):
                        return mkbin('+', init, mk('sumover', y, it))
            if v.op == 'store' and v.a[0] is phi and phi not in subterms(v.a[1]) and phi not in subterms(v.a[2]):
                return mk('mapstore', init, v.a[1], v.a[2], it)
        return mk('loopout', lid, name, v, init)

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, f, node, bind=False):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, f)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            c = self.simp(self.deref(v)) if v.op == 'obj' else self.simp(v)
            elems = self.known_elems(c)
            if c.op == 'elem':
                c2 = self.elem_parts(c, n)
                if c2 is not None:
                    elems = c2
            if star:
                i = star[0]
                if elems is not None and len(elems) >= n - 1:
                    m = len(elems) - (n - 1)
                    parts = elems[:i] + [self.newobj('list', mk('list', *elems[i:i + m]))] + elems[i + m:]
                else:
                    parts = [self.mkidx(c, const(j)) for j in range(i)] + [self.mkidx(c, mk('slice', const(i), NONE, NONE))] + \
                            [self.mkidx(c, const(j - n)) for j in range(i + 1, n)]
                for e, p in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, p, f, node)
                return
            if elems is None or len(elems) != n:
                if c.op == 'ite':
                    parts = [mkite(c.a[0], self.part(c.a[1], j, n), self.part(c.a[2], j, n)) for j in range(n)]
                else:
                    parts = [self.mkidx(c, const(j)) for j in range(n)]
            else:
                parts = elems
            for e, p in zip(t.elts, parts):
                self.assign(e, p, f, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, f, node)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, f)
            self.setattr(o, t.attr, v, node, f)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, f)
            k = self.key(t.slice, f)
            self.setitem(o, k, v, node, f)

    def part(self, t, j, n):
        t = self.deref(t)
        e = self.known_elems(t)
        if e is not None and len(e) == n:
            return e[j]
        if t.op == 'ite':
            return mkite(t.a[0], self.part(t.a[1], j, n), self.part(t.a[2], j, n))
        if t is NONE or t is UNDEF:
            return UNDEF
        return self.mkidx(t, const(j))

    def elem_parts(self, e, n):
        it, depth = e.a
        if it.op == 'call' and it.a[0] == 'zip' and len(it.a[1].a) == n:
            return [self.elem_of(x, depth) for x in it.a[1].a]
        if it.op == 'call' and it.a[0] == 'enumerate' and n == 2:
            return [mk('loopidx', it.a[1].a[0], depth), self.elem_of(it.a[1].a[0], depth)]
        if it.op == 'mcall' and it.a[1] == 'items' and n == 2:
            return [mk('elemkey', it.a[0], depth), mk('elemval', it.a[0], depth)]
        return None

    def elem_of(self, it, depth):
        e = mk('elem', it, depth)
        if it.op == 'call' and it.a[0] in ('zip', 'enumerate'):
            n = len(it.a[1].a) if it.a[0] == 'zip' else 2
            p = self.elem_parts(e, n)
            if p:
                return mk('tuple', *p)
        return e

    def setname(self, n, v, f):
        if n in f.globals:
            self.heap[(mk('module', f.module.short), n)] = v
            return
        if n in f.nonlocals:
            p = f.parent
            while p is not None:
                if n in p.env:
                    p.env[n] = v
                    return
                p = p.parent
        f.env[n] = v

    def setattr(self, o, name, v, node, f, aug=None):
        o = self.simp(o)
        cls = self.class_of(o)
        if cls is not None:
            for c in cls.mro():
                if name in c.setters:
                    self.ev('setattr', node, f, obj=o, attr=name, value=v, aug=aug)
                    self.callfunc(c.setters[name], [o, v], {}, node, f)
                    return
        self.ev('setattr', node, f, obj=o, attr=name, value=v, aug=aug)
        if o.op == 'ite':
            for x in o.a[1:]:
                if x not in (NONE, UNDEF):
                    cond = o.a[0] if x is o.a[1] else negate(o.a[0])
                    old = self.heap.get((x, name), self.initial((x, name)))
                    self.heap[(x, name)] = mkite(cond, v, old)
            return
        self.heap[(o, name)] = v

    def setitem(self, o, k, v, node, f, aug=None):
        o = self.simp(o)
        self.ev('setitem', node, f, obj=o, key=k, value=v, aug=aug)
        c = self.content(o)
        k = self.deref(k)
        new = None
        if c.op == 'list' and is_const(k) and isinstance(cval(k), int) and not any(x.op == 'star' for x in c.a) and -len(c.a) <= cval(k) < len(c.a):
            l = list(c.a)
            l[cval(k)] = v
            new = mk('list', *l)
        elif self.strict and self.keyat(c, k) is not None:
            l, i = list(c.a), self.keyat(c, k)
            if i < 0:
                l.append(mk('kv', k, v))
            else:
                l[i] = mk('kv', l[i].a[0], v)
            new = mk('dict', *l)
        elif c.op == 'dict' and is_const(k) and all(x.op == 'kv' and is_const(x.a[0]) for x in c.a):
            l = list(c.a)
            for i, x in enumerate(l):
                if x.a[0] is k:
                    l[i] = mk('kv', k, v)
                    break
            else:
                l.append(mk('kv', k, v))
            new = mk('dict', *l)
        else:
            vv = v if (v.op == 'obj' and self.info[v].kind == 'inst') else self.deref(v)
            base = c
            if base.op == 'store' and base.a[1] is k:
                base = base.a[0]
            new = mk('store', base, k, vv)
        if o.op == 'ite':
            for x, cond in ((o.a[1], o.a[0]), (o.a[2], negate(o.a[0]))):
                if x not in (NONE, UNDEF):
                    xc = self.content(x)
                    self.heap[(x, '$c')] = mkite(cond, mk('store', xc, k, self.deref(v)), xc)
        self.heap[(o, '$c')] = new

    # ---------------------------------------------------------------- expressions
    def expr(self, e, f):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return mk('unknown', type(e).__name__, self.n)
        return m(e, f)

    def cond(self, e, f):
        if isinstance(e, ast.BoolOp):
            cs = []
            base = len(self.guards)
            for v in e.values:
                c = self.cond(v, f)
                d = self.decided(c)
                if d is not None:
                    c = const(d)
                if c is FALSE and isinstance(e.op, ast.And):
                    del self.guards[base:]
                    return FALSE
                if c is TRUE and isinstance(e.op, ast.Or):
                    del self.guards[base:]
                    return TRUE
                cs.append(c)
                if not is_const(c):
                    self.push(c, isinstance(e.op, ast.And))
            del self.guards[base:]
            return mkand(cs) if isinstance(e.op, ast.And) else mkor(cs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return negate(self.cond(e.operand, f))
        t = self.uncast(self.expr(e, f))
        if t.op == 'obj' and self.info[t].kind != 'inst':
            t = self.deref(t)
        if t.op in ('tuple', 'list', 'dict', 'set'):
            return const(len(t.a) > 0)
        if t.op in ('fn', 'func', 'class', 'module', 'bound'):
            return TRUE
        if is_const(t):
            return const(bool(cval(t)))
        return t

    def uncast(self, t):
        """bool(x) tested is x tested"""
        if t.op == 'call' and t.a[0] == 'bool' and len(t.a[1].a) == 1:
            return self.uncast(t.a[1].a[0])
        if t.op == 'and':
            return mkand([self.uncast(x) for x in t.a])
        if t.op == 'or':
            return mkor([self.uncast(x) for x in t.a])
        if t.op == 'not':
            return negate(self.uncast(t.a[0]))
        return t

    def e_Constant(self, e, f):
        v = e.value
        if isinstance(v, (bytes, complex)) or v is Ellipsis:
            return mk('const', repr(v)) if v is not Ellipsis else mk('ellipsis')
        return const(v)

    def e_Name(self, e, f):
        return self.name(e.id, f, e)

    def name(self, n, f, node=None):
        p = f
        while p is not None:
            if n in p.env:
                if not (n in p.globals):
                    return self.simp(p.env[n])
            p = p.parent
        return self.globname(n, f.module)

    def globname(self, n, module):
        k = (mk('module', module.short), n)
        if k in self.heap:
            return self.heap[k]
        r = module.resolve(n)
        if r is None:
            if n in BUILTINS:
                return mk('ext', n)
            return sym('undefined:' + n)
        return self.wrap(r)

    def wrap(self, r):
        if isinstance(r, Func):
            t = mk('func', r.qual)
            self.closures[t] = (r, None)
            return t
        if isinstance(r, Cls):
            t = mk('class', r.qual)
            self.closures[t] = (r, None)
            return t
        if isinstance(r, Module):
            return mk('module', r.short)
        if isinstance(r, Ext):
            if r.name == 'numpy.pi':
                return PI
            if r.name == 'numpy.newaxis':
                return NONE
            return mk('ext', r.name)
        if isinstance(r, GlobalVar):
            return self.globalvar(r)
        return sym(str(r))

    def globalvar(self, g):
        key = (g.module.name, g.name)
        if key in self.gcache:
            return self.gcache[key]
        t = sym(f'global:{g.module.short}.{g.name}')
        self.gcache[key] = t
        if len(g.values) == 1 and g.values[0][0] is not None and not g.values[0][1]:
            val = g.values[0][0]
            fr = Frame(None, g.module, {})
            saved = self.heap, self.guards
            self.guards = []
            self.suppress += 1
            try:
                v = self.expr(val, fr)
                d = self.deref(v)
                if is_const(d) or d.op in ('tuple', 'ext', 'class', 'func', 'bin', 'pi', 'un'):
                    t = d
                elif d.op in ('list', 'dict', 'set') or d.op == 'call':
                    # shared mutable module object: identity kept, content known
                    self.heap[(t, '$c')] = d
            finally:
                self.suppress -= 1
                self.guards = saved[1]
            self.gcache[key] = t
        return t

    def e_Attribute(self, e, f):
        o = self.expr(e.value, f)
        return self.getattr(o, e.attr, e, f)

    def getattr(self, o, name, node, f):
        o = self.simp(o)
        if o.op == 'module':
            k = (o, name)
            if k in self.heap:
                return self.heap[k]
            m = self.prog.modules.get('welleng.' + o.a[0]) or self.prog.modules.get(o.a[0])
            r = m.resolve(name) if m else None
            if r is None and m is not None:
                r = self.prog.modules.get(m.name + '.' + name)
            return self.wrap(r) if r is not None else sym(f'{o.a[0]}.{name}')
        if o in self.extclass and name == '__class__':
            return mk('ext', self.extclass[o][0])
        if o.op == 'ext' and name == '__name__':
            return const(o.a[0].rsplit('.', 1)[-1])
        if o.op == 'ext':
            return self.wrap(Ext(canon(o.a[0] + '.' + name)))
        if o.op == 'class':
            c = self.closures[o][0]
            if name == '__name__':
                return const(c.name)
            r = c.lookup(name)
            if r is None:
                return mk('attr', o, name)
            if r[0] == 'method':
                if r[1].is_classm:
                    return mk('bound', o, self._fterm(r[1]))
                return self._fterm(r[1])
            if r[0] == 'const':
                return self.expr(r[1][1], Frame(None, r[1][0].module, {}))
            if r[0] == 'class':
                return self.wrap(r[1])
            return mk('attr', o, name)
        k = (o, name)
        if k in self.heap:
            return self.simp(self.heap[k])
        if o.op == 'ite' and not (self.class_of(o) and self.class_of(o).lookup(name) and self.class_of(o).lookup(name)[0] == 'method'):
            a, b = o.a[1], o.a[2]
            if a in (NONE, UNDEF):
                return self.getattr(b, name, node, f)
            if b in (NONE, UNDEF):
                return self.getattr(a, name, node, f)
            if self._objlike(a) or self._objlike(b):
                return mkite(o.a[0], self.getattr(a, name, node, f), self.getattr(b, name, node, f))
        cls = self.class_of(o)
        if cls is not None:
            r = cls.lookup(name)
            if r is not None:
                if r[0] == 'prop':
                    return self.callfunc(r[1], [o], {}, node, f)
                if r[0] == 'method':
                    if r[1].is_static:
                        return self._fterm(r[1])
                    return mk('bound', o, self._fterm(r[1]))
                if r[0] == 'const' and not cls.is_dataclass:
                    return self.expr(r[1][1], Frame(None, r[1][0].module, {}))
            return mk('attr', o, name)
        if o.op == 'obj' and self.info[o].kind != 'inst':
            return mk('attr', self.deref(o), name)
        if (o, '$c') in self.heap:
            return mk('attr', self.deref(o), name)
        return mk('attr', o, name)

    def _objlike(self, t):
        return (t.op == 'obj' and self.info[t].kind == 'inst') or self.class_of(t) is not None or any(k[0] is t and k[1] != '$c' for k in ())

    def _fterm(self, fn):
        t = mk('func', fn.qual)
        self.closures[t] = (fn, None)
        return t

    def e_Subscript(self, e, f):
        o = self.expr(e.value, f)
        k = self.key(e.slice, f)
        return self.getitem(o, k, e, f)

    def key(self, s, f):
        return self.expr(s, f)

    def e_Slice(self, e, f):
        g = lambda x: self.deref(self.expr(x, f)) if x is not None else NONE
        return mk('slice', g(e.lower), g(e.upper), g(e.step))

    def getitem(self, o, k, node, f):
        o = self.simp(o)
        k = self.deref(k)
        cls = self.class_of(o)
        if cls is not None:
            r = cls.lookup('__getitem__')
            if r is not None and r[0] == 'method':
                return self.callfunc(r[1], [o, k], {}, node, f)
        if o.op == 'defobj':
            return self.mkidx(o, k)
        c = self.simp(self.content(o))
        if c.op == 'obj':
            c = self.content(c)
        return self.mkidx(c, k)

    def keyat(self, c, k):
        """strict evaluation: the place of key k in the known dictionary c, -1 when absent, None when undecided"""
        if c.op != 'dict' or any(x.op != 'kv' for x in c.a):
            return None
        for i in range(len(c.a) - 1, -1, -1):
            x = c.a[i].a[0]
            if x is k:
                return i
            if is_const(x) and is_const(k):
                continue
            e = self.decided(mkcmp('==', x, k))
            if e:
                return i
            if e is None and not (is_const(x) and isinstance(cval(x), str) or is_const(k) and isinstance(cval(k), str)):
                return None
        return -1

    def mkidx(self, c, k):
        if self.strict:
            c = self.simp(c)
            i = self.keyat(c, k)
            if i is not None:
                if i < 0:
                    raise Rejected('KeyError')
                return c.a[i].a[1]
            if c.op in ('list', 'tuple') and not any(x.op == 'star' for x in c.a) and is_const(k) and isinstance(cval(k), int) and not -len(c.a) <= cval(k) < len(c.a):
                raise Rejected('IndexError')
        if self.text:
            if c.op in ('fstr', 'fmt') or (is_const(c) and isinstance(cval(c), str)):
                r = text.index(c, k)
                if r is not None:
                    return text.single(r)
            if (c in self.words or c in self.texts) and (k.op == 'slice' and all(x is NONE or is_const(x) for x in k.a) or is_const(k)):
                return mk('cut', mk('fmt', c, ''), k, NONE)
            if c.op == 'list' and any(x.op == 'star' for x in c.a):
                n = next(i for i, x in enumerate(c.a) if x.op == 'star')
                if is_const(k) and isinstance(cval(k), int):
                    if 0 <= cval(k) < n:
                        return c.a[cval(k)]
                    if cval(k) >= n:
                        return mk('word', c.a[n], cval(k) - n)
                if k.op == 'slice' and k.a[1] is NONE and is_const(k.a[0]) and isinstance(cval(k.a[0]), int) and 0 <= cval(k.a[0]) <= n:
                    return mk('list', *c.a[cval(k.a[0]):])
        if k.op in ('bin', 'call'):
            # a bounded index selects one of two entries
            m = next((x for x in addends(k) if x.op == 'call' and x.a[0] in ('max', 'min') and len(x.a[1].a) == 2 and not x.a[2].a), None)
            if m is not None:
                x, y = m.a[1].a
                c1, c2 = (rebuild(k, lambda z: v if z is m else None) for v in (x, y))
                lt = mkcmp('<', x, y)
                lo, hi = self.mkidx(c, fold(c1)), self.mkidx(c, fold(c2))
                return mkite(lt, hi, lo) if m.a[0] == 'max' else mkite(lt, lo, hi)
        c = self.simp(c)
        if c.op in ('tuple', 'list') and not any(x.op == 'star' for x in c.a):
            if is_const(k) and isinstance(cval(k), int) and not isinstance(cval(k), bool):
                i = cval(k)
                if -len(c.a) <= i < len(c.a):
                    return c.a[i]
                return UNDEF
            if k.op == 'slice' and all(x is NONE or (is_const(x) and isinstance(cval(x), int)) for x in k.a):
                return mk(c.op, *c.a[slice(*[cval(x) for x in k.a])])
            if k.op == 'un' and k.a[0] == '-' and is_const(k.a[1]):
                return self.mkidx(c, const(-cval(k.a[1])))
        if c.op == 'dict' and is_const(k) and all(x.op == 'kv' for x in c.a):
            for x in reversed(c.a):
                if x.a[0] is k:
                    return x.a[1]
            if all(is_const(x.a[0]) for x in c.a):
                return UNDEF
        if c.op == 'dict' and not is_const(k) and c.a and len(c.a) <= 80 and all(x.op == 'kv' and is_const(x.a[0]) for x in c.a):
            if k.op == 'ite':
                return mkite(k.a[0], self.mkidx(c, k.a[1]), self.mkidx(c, k.a[2]))
        if c.op == 'store':
            if c.a[1] is k:
                return c.a[2]
            if is_const(k) and is_const(c.a[1]):
                return self.mkidx(c.a[0], k)
        if c.op == 'ite':
            x, y = c.a[1], c.a[2]
            if x in (NONE, UNDEF):
                return self.mkidx(y, k)
            if y in (NONE, UNDEF):
                return self.mkidx(x, k)
            xx, yy = (self.deref(z) if z.op in ('obj', 'tuple', 'list', 'dict') else z for z in (x, y))
            if any(z.op in ('tuple', 'list', 'dict', 'store') for z in (xx, yy)):
                return mkite(c.a[0], self.mkidx(xx, k), self.mkidx(yy, k))
        if k.op == 'un' and k.a[0] == '-' and is_const(k.a[1]) and isinstance(cval(k.a[1]), int):
            k = const(-cval(k.a[1]))
        if c is NONE or c is UNDEF:
            return UNDEF
        return mk('idx', c, k)

    def e_Tuple(self, e, f):
        return mk('tuple', *self.seq(e.elts, f))

    def seq(self, elts, f):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, f)
                k = self.known_elems(self.deref(v))
                if k is not None:
                    out.extend(k)
                else:
                    out.append(mk('star', self.deref(v)))
            else:
                out.append(self.expr(x, f))
        return out

    def e_List(self, e, f):
        return self.newobj('list', mk('list', *self.seq(e.elts, f)), node=e)

    def e_Set(self, e, f):
        return self.newobj('set', mk('set', *self.seq(e.elts, f)), node=e)

    def e_Dict(self, e, f):
        kv = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.deref_dict(self.expr(v, f))
                if d is not None:
                    for x in d:
                        kv = [y for y in kv if not (y.op == 'kv' and y.a[0] is x.a[0])] + [x]
                else:
                    kv.append(mk('star', self.deref(self.expr(v, f))))
            else:
                kt = self.deref(self.expr(k, f))
                vt = self.expr(v, f)
                kv = [y for y in kv if not (y.op == 'kv' and y.a[0] is kt and is_const(kt))] + [mk('kv', kt, vt)]
        return self.newobj('dict', mk('dict', *kv), node=e)

    def deref_dict(self, t):
        c = self.simp(self.content(self.simp(t)))
        if c.op == 'dict' and all(x.op == 'kv' for x in c.a):
            return list(c.a)
        return None

    def e_Starred(self, e, f):
        return mk('star', self.deref(self.expr(e.value, f)))

    def e_BinOp(self, e, f):
        op = BINOPS.get(type(e.op), '?')
        a, b = self.deref(self.expr(e.left, f)), self.deref(self.expr(e.right, f))
        r = mkbin(op, a, b)
        if r.op == 'list':
            return self.newobj('list', r)
        return r

    def e_UnaryOp(self, e, f):
        if isinstance(e.op, ast.Not):
            return negate(self.cond(e.operand, f))
        v = self.deref(self.expr(e.operand, f))
        op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
        if is_const(v) and isinstance(cval(v), (int, float)) and not isinstance(cval(v), bool):
            if op == '-':
                if isinstance(cval(v), float) and cval(v) == 0:
                    return mk('un', '-', v)         # minus zero is not zero to copysign, and constants are compared by value
                return const(-cval(v))
            if op == '+':
                return v
        return mk('un', op, v)

    def e_BoolOp(self, e, f):
        isand = isinstance(e.op, ast.And)
        base = len(self.guards)

        def go(i):
            v = self.expr(e.values[i], f)
            if i == len(e.values) - 1:
                return v
            c = self.simp(self.deref(v))
            d = self.decided(c)
            if d is not None:
                return go(i + 1) if d == isand else v
            n = self.push(c, isand)
            r = go(i + 1)
            del self.guards[n:]
            if self._boolish(c) and self._boolish(r):
                return mkand([c, r]) if isand else mkor([c, r])
            return mkite(c, r, v) if isand else mkite(c, v, r)
        r = go(0)
        del self.guards[base:]
        return r

    def _boolish(self, t):
        if t.op in ('cmp', 'not', 'and', 'or'):
            return True
        if is_const(t):
            return isinstance(cval(t), bool)
        if t.op == 'call' and t.a[0] in ('isinstance', 'hasattr', 'callable', 'numpy.all', 'numpy.any', 'numpy.allclose', 'bool', 'any', 'all', 'numpy.array_equal', 'numpy.isclose'):
            return True
        return False

    def e_Compare(self, e, f):
        left = self.deref(self.expr(e.left, f))
        cs = []
        for op, r in zip(e.ops, e.comparators):
            rt = self.deref(self.expr(r, f))
            c = mkcmp(CMPOPS[type(op)], left, rt)
            cs.append(c)
            left = rt
        r = mkand(cs)
        return r

    def e_IfExp(self, e, f):
        c = self.cond(e.test, f)
        d = self.decided(c)
        if d is not None:
            return self.expr(e.body if d else e.orelse, f)
        if self.strict:
            raise Undecided(f'{f.module.rel}:{e.lineno}')
        base = len(self.guards)
        h0 = dict(self.heap)
        self.push(c, True)
        a = self.expr(e.body, f)
        del self.guards[base:]
        self.push(c, False)
        b = self.expr(e.orelse, f)
        del self.guards[base:]
        if a.op == 'obj' and b.op == 'obj' and self.info[a].kind == self.info[b].kind and self.info[a].kind != 'inst':
            return self.newobj(self.info[a].kind, mkite(c, self.content(a), self.content(b)))
        return mkite(c, a, b)

    def e_NamedExpr(self, e, f):
        v = self.expr(e.value, f)
        self.assign(e.target, v, f, e)
        return v

    def e_JoinedStr(self, e, f):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                t = self.deref(self.expr(v.value, f))
                if self.text and v.conversion == -1:
                    parts += self._fmt_text(t, '' if v.format_spec is None else self.e_JoinedStr(v.format_spec, f))
                    continue
                if is_const(t) and v.format_spec is None and v.conversion == -1 and isinstance(cval(t), (str, int)):
                    parts.append(const(str(cval(t))))
                else:
                    spec = ''
                    if v.format_spec is not None:
                        spec = ast.unparse(v.format_spec)
                    parts.append(mk('fmt', t, spec))
        return self._fjoin(parts)

    def _fmt_text(self, t, spec):
        t = self.simp(t)
        spec = cval(spec) if isinstance(spec, T) and is_const(spec) else spec
        if not isinstance(spec, str):
            return [mk('fmt', t, '?')]
        if is_const(t):
            try:
                return [const(format(cval(t), spec))]
            except (ValueError, TypeError):
                return [mk('fmt', t, spec)]
        if not spec and text.pieces(t) is not None:
            return list(t.a) if t.op == 'fstr' else [t]
        if t.op == 'ite' and any(x.op in ('fstr', 'fmt') for x in subterms(t)):
            return [mk('fmt', t, '?')]
        if text.SPEC.match(spec) is None:
            return [mk('fmt', mk('formatted', t, spec), '')]
        p = text.pieces(t)
        if p is not None and len(p) == 1 and isinstance(p[0], text.Field) and p[0].width is None:
            g = text.field(p[0].term, spec)
            if g is not None and g.prec is None and not g.type:
                return [text.Field(p[0].term, g.width, g.align or '<', p[0].prec, p[0].type, g.fill).t()]
        return [mk('fmt', t, spec)]

    def _str_format(self, s, args, kws):
        parts, n = [], 0
        try:
            for lit, name, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if name is None:
                    continue
                if name == '':
                    name, n = str(n), n + 1
                v = args[int(name)] if name.isdigit() else kws.get(name)
                if v is None or conv or '{' in spec:
                    return None
                parts += self._fmt_text(self.deref(v), spec)
        except (ValueError, IndexError):
            return None
        return self._fjoin(parts)

    def _fjoin(self, parts):
        out = []
        for p in parts:
            if is_const(p) and out and is_const(out[-1]):
                out[-1] = const(cval(out[-1]) + cval(p))
            else:
                out.append(p)
        if not out:
            return const('')
        if len(out) == 1 and is_const(out[0]):
            return out[0]
        # distribute over one ite of constants
        for i, p in enumerate(out):
            if p.op == 'fmt' and p.a[0].op == 'ite' and not p.a[1]:
                c, a, b = p.a[0].a
                if (is_const(a) and isinstance(cval(a), str)) or (is_const(b) and isinstance(cval(b), str)) :
                    wa = const(cval(a)) if is_const(a) else mk('fmt', a, '')
                    wb = const(cval(b)) if is_const(b) else mk('fmt', b, '')
                    return mkite(c, self._fjoin(out[:i] + [wa] + out[i + 1:]), self._fjoin(out[:i] + [wb] + out[i + 1:]))
        return mk('fstr', *out)

    def e_Lambda(self, e, f):
        fn = Func('<lambda>', e, f.module, cls=f.func.cls if f.func else None, parent=f.func)
        return self.closure(fn, f)

    def e_Await(self, e, f):
        return self.expr(e.value, f)

    def e_Yield(self, e, f):
        v = self.expr(e.value, f) if e.value is not None else NONE
        self.ev('yield', e, f, value=v)
        return mk('yielded', v)

    def e_ListComp(self, e, f):
        return self.comp('list', e, f)

    def e_SetComp(self, e, f):
        return self.comp('set', e, f)

    def e_GeneratorExp(self, e, f):
        return self.comp('list', e, f)

    def e_DictComp(self, e, f):
        return self.comp('dict', e, f)

    def comp(self, kind, e, f):
        saved = dict(f.env)
        sub = f
        if kind == 'dict':
            make = lambda: mk('kv', self.deref(self.expr(e.key, f)), self.expr(e.value, f))
        else:
            make = lambda: self.expr(e.elt, f)

        def go(i):
            """-> ('known', [terms]) or ('comp', term)"""
            if i == len(e.generators):
                return ('known', [make()])
            g = e.generators[i]
            it = self.deref(self.expr(g.iter, f))
            elems = self.known_elems(it)
            if elems is not None and len(elems) <= self.unroll:
                out, known = [], True
                for x in elems:
                    self.assign(g.target, x, f, e, bind=True)
                    base = len(self.guards)
                    cs = []
                    skip = False
                    for c in g.ifs:
                        ct = self.cond(c, f)
                        d = self.decided(ct)
                        if d is False:
                            skip = True
                            break
                        if d is None:
                            cs.append(ct)
                            self.push(ct, True)
                    if skip:
                        del self.guards[base:]
                        continue
                    r = go(i + 1)
                    del self.guards[base:]
                    if r[0] != 'known' :
                        out.append(mk('star', r[1]))
                    elif cs:
                        out.append(mk('star', mkite(mkand(cs), mk('list', *[self.deref(z) for z in r[1]]), mk('list'))))
                    else:
                        out.extend(r[1])
                return ('known', out)
            self.loopdepth += 1
            self.assign(g.target, mk('elem', it, self.loopdepth), f, e, bind=True)
            base = len(self.guards)
            cs = []
            self.uid += 1
            self.guards.append((mk('inloop', self.uid), True))
            for c in g.ifs:
                ct = self.cond(c, f)
                if self.decided(ct) is None:
                    cs.append(ct)
                    self.push(ct, True)
            r = go(i + 1)
            del self.guards[base:]
            self.loopdepth -= 1
            v = r[1][0] if r[0] == 'known' and len(r[1]) == 1 else (mk('flat', mk('list', *[self.deref(z) for z in r[1]])) if r[0] == 'known' else mk('flat', r[1]))
            v2 = v if (v.op == 'obj' and self.info[v].kind == 'inst') else self.deref(v)
            return ('comp', mk('comp', kind, v2, it, mkand(cs)))
        r = go(0)
        # comprehension variables are local
        new = {k: v for k, v in f.env.items() if k in saved}
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in new:
                new[n.id] = saved[n.id]
        f.env = new
        if r[0] == 'known':
            c = mk(kind, *r[1])
        else:
            c = r[1]
        return self.newobj(kind, c, node=e)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, f):
        # super().method(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            args, kws = self.callargs(e, f)
            fn = f.func
            while fn is not None and fn.cls is None:
                fn = fn.parent
            me = f.env.get(fn.params()[0]) if fn and fn.params() else None
            if fn is not None and me is not None:
                own = self.class_of(me) or fn.cls
                mro = own.mro() if own else []
                if fn.cls in mro:
                    mro = mro[mro.index(fn.cls) + 1:]
                else:
                    mro = fn.cls.mro()[1:]
                for c in mro:
                    if e.func.attr in c.methods:
                        return self.callfunc(c.methods[e.func.attr], [me] + args, kws, e, f)
            return mk('opaque', 'super', e.func.attr)
        if isinstance(e.func, ast.Attribute):
            recv = self.expr(e.func.value, f)
            args, kws = self.callargs(e, f)
            return self.methcall(recv, e.func.attr, args, kws, e, f)
        fn = self.expr(e.func, f)
        args, kws = self.callargs(e, f)
        return self.apply(fn, args, kws, e, f)

    def callargs(self, e, f):
        args = self.seq(e.args, f)
        kws = {}
        for k in e.keywords:
            v = self.expr(k.value, f)
            if k.arg is None:
                d = self.deref_dict(v)
                if d is not None and all(is_const(x.a[0]) for x in d):
                    for x in d:
                        if cval(x.a[0]) in kws:
                            self.ev('dupkw', e, f, key=x.a[0])
                            if self.rank and not self.guards:
                                raise Rejected(e.lineno)
                        kws[cval(x.a[0])] = x.a[1]
                else:
                    kws['**'] = self.deref(v)
            else:
                kws[k.arg] = v
        return args, kws

    def methcall(self, recv, name, args, kws, node, f):
        recv = self.simp(recv)
        if recv.op in ('module', 'ext', 'class'):
            fn = self.getattr(recv, name, node, f)
            return self.apply(fn, args, kws, node, f)
        if (recv, name) in self.heap:
            return self.apply(self.heap[(recv, name)], args, kws, node, f)
        cls = self.class_of(recv)
        if cls is not None:
            r = cls.lookup(name)
            if r is not None:
                if r[0] == 'method':
                    a = args if r[1].is_static else ([mk('class', cls.qual)] + args if r[1].is_classm else [recv] + args)
                    if r[1].is_classm:
                        self.closures[a[0]] = (cls, None)
                    return self.callfunc(r[1], a, kws, node, f)
                if r[0] == 'prop':
                    return self.apply(self.getattr(recv, name, node, f), args, kws, node, f)
                if r[0] == 'const':
                    return self.apply(self.getattr(recv, name, node, f), args, kws, node, f)
        if recv.op == 'ite' and not is_const(recv):
            a, b = recv.a[1], recv.a[2]
            if a in (NONE, UNDEF):
                return self.methcall(b, name, args, kws, node, f)
            if b in (NONE, UNDEF):
                return self.methcall(a, name, args, kws, node, f)
            if self._objlike(a) and self._objlike(b):
                base = len(self.guards)
                h0, out = self.heap, []
                states = []
                for x, pol in ((a, True), (b, False)):
                    self.heap = dict(h0)
                    self.push(recv.a[0], pol)
                    out.append(self.methcall(x, name, args, kws, node, f))
                    states.append((tuple(self.guards), f.env, self.heap))
                    del self.guards[base:]
                self.join_states(states, base, f)
                return mkite(recv.a[0], *out)
        return self.container_method(recv, name, args, kws, node, f)

    def container_method(self, recv, name, args, kws, node, f):
        c = self.simp(self.content(recv))
        if c.op == 'obj':
            recv, c = c, self.content(c)
        if self.text:
            if name == 'format' and is_const(c) and isinstance(cval(c), str):
                r = self._str_format(cval(c), args, kws)
            else:
                r = text.method(self, c, name, [self.deref(a) for a in args], kws)
            if r is not None:
                return r
        if name in MUTATORS and not (name in ('add', 'update', 'pop', 'insert', 'remove') and c.op in ('ext',)):
            self.ev('mutcall', node, f, obj=recv, method=name, args=args, kws=kws)
        da = [self.deref(a) for a in args]
        if name == 'append' and args:
            if c.op == 'list':
                self.heap[(recv, '$c')] = mk('list', *(c.a + (args[0],)))
            else:
                self.heap[(recv, '$c')] = mk('append', c, args[0] if recv.op == 'obj' else self.shallow(args[0]))
            return NONE
        if name == 'extend' and args:
            k = self.known_elems(da[0])
            if c.op == 'list' and k is not None:
                self.heap[(recv, '$c')] = mk('list', *(c.a + tuple(k)))
            else:
                self.heap[(recv, '$c')] = mkbin('+', c, da[0])
            return NONE
        if name == 'insert' and len(args) == 2 and c.op == 'list' and is_const(da[0]):
            l = list(c.a)
            l.insert(cval(da[0]), args[1])
            self.heap[(recv, '$c')] = mk('list', *l)
            return NONE
        if name == 'pop' and c.op == 'list' and c.a and not any(x.op == 'star' for x in c.a) and (not da or (is_const(da[0]) and isinstance(cval(da[0]), int))):
            l = list(c.a)
            try:
                v = l.pop(cval(da[0]) if da else -1)
                self.heap[(recv, '$c')] = mk('list', *l)
                return v
            except IndexError:
                return UNDEF
        if name == 'pop' and c.op == 'dict' and da and is_const(da[0]) and all(x.op == 'kv' and is_const(x.a[0]) for x in c.a):
            for x in c.a:
                if x.a[0] is da[0]:
                    self.heap[(recv, '$c')] = mk('dict', *[y for y in c.a if y is not x])
                    return x.a[1]
            return args[1] if len(args) > 1 else UNDEF
        if name == 'setdefault' and c.op == 'dict' and da and is_const(da[0]) and all(x.op == 'kv' and is_const(x.a[0]) for x in c.a):
            for x in c.a:
                if x.a[0] is da[0]:
                    return x.a[1]
            v = args[1] if len(args) > 1 else NONE
            self.heap[(recv, '$c')] = mk('dict', *c.a, mk('kv', da[0], v))
            return v
        if name == 'update' and c.op == 'dict':
            items = []
            ok = True
            for a in args:
                d = self.deref_dict(a)
                if d is None:
                    ok = False
                else:
                    items += d
            if '**' in kws:
                ok = False
            items += [mk('kv', const(k), v) for k, v in kws.items() if k != '**']
            if ok:
                cur = list(c.a)
                for x in items:
                    for i, y in enumerate(cur):
                        if y.op == 'kv' and y.a[0] is x.a[0]:
                            cur[i] = x
                            break
                    else:
                        cur.append(x)
                self.heap[(recv, '$c')] = mk('dict', *cur)
                return NONE
        if c.op == 'dict' and all(x.op == 'kv' for x in c.a):
            if self.strict and name in ('get', 'setdefault', 'pop') and da:
                i = self.keyat(c, da[0])
                if i is not None:
                    if name == 'pop':
                        if i >= 0:
                            self.heap[(recv, '$c')] = mk('dict', *[x for j, x in enumerate(c.a) if j != i])
                        elif len(args) < 2:
                            raise Rejected('KeyError')
                    if i >= 0:
                        return c.a[i].a[1]
                    dflt = args[1] if len(args) > 1 else NONE
                    if name == 'setdefault':
                        self.heap[(recv, '$c')] = mk('dict', *(c.a + (mk('kv', da[0], dflt),)))
                    return dflt
            if name == 'get' and da:
                dflt = args[1] if len(args) > 1 else kws.get('default', NONE)
                if is_const(da[0]):
                    for x in reversed(c.a):
                        if x.a[0] is da[0]:
                            return x.a[1]
                    if all(is_const(x.a[0]) for x in c.a):
                        return dflt
                return mk('mcall', self.deref(c), 'get', *mkargs([da[0], self.deref(dflt)], {}))
            if name == 'items':
                return mk('list', *[mk('tuple', x.a[0], x.a[1]) for x in c.a])
            if name == 'keys':
                return mk('list', *[x.a[0] for x in c.a])
            if name == 'values':
                return mk('list', *[x.a[1] for x in c.a])
            if name == 'copy':
                return self.newobj('dict', c)
        if c.op == 'comp' and c.a[0] == 'dict' and name in ('items', 'values', 'keys'):
            kv = c.a[1]
            if kv.op == 'kv':
                e = mk('tuple', kv.a[0], kv.a[1]) if name == 'items' else kv.a[1] if name == 'values' else kv.a[0]
                return mk('comp', 'list', e, c.a[2], c.a[3])
        if name == 'copy' and not args and recv.op == 'obj' and self.info[recv].kind in ('list', 'set'):
            return self.newobj(self.info[recv].kind, c)
        if is_const(c) and isinstance(cval(c), str):
            s = cval(c)
            if name in ('lower', 'upper', 'strip', 'title', 'capitalize') and not args:
                return const(getattr(s, name)())
            if name in ('startswith', 'endswith') and len(da) == 1 and is_const(da[0]):
                return const(getattr(s, name)(cval(da[0])))
            if name == 'replace' and len(da) == 2 and all(is_const(x) for x in da):
                return const(s.replace(cval(da[0]), cval(da[1])))
            if name == 'split' and all(is_const(x) for x in da):
                return self.newobj('list', mk('list', *[const(x) for x in s.split(*[cval(x) for x in da])]))
            if name == 'format' and all(is_const(x) for x in da) and not kws:
                try:
                    return const(s.format(*[cval(x) for x in da]))
                except Exception:
                    pass
            if name == 'join' and len(da) == 1:
                k = self.known_elems(da[0])
                if k is not None and all(is_const(x) for x in k):
                    return const(s.join(cval(x) for x in k))
        dr = self.deref(recv)
        if name in MUTATORS:
            dk = {k: self.deref(v) for k, v in kws.items()}
            a, k = mkargs(da, dk)
            self.heap[(recv, '$c')] = mk('mut', dr, name, a, k)
            return mk('mcall', dr, name, a, k)
        dk = {k: self.deref(v) for k, v in kws.items()}
        if name in NPMETH:
            nm = 'numpy.' + NPMETH_CANON.get(name, name)
            if name == 'copy' and not args:
                r = mkcall('numpy.array', [dr], {})
                o = self.newobj('arr', r)
                self.ev('extcall', node, f, callee='numpy.array', args=[recv], kws={}, result=o)
                return o
            if name == 'reshape' and len(da) > 1:
                da = [mk('tuple', *da)]
            if name == 'transpose' and not da:
                return mk('attr', dr, 'T')
            r = mkcall(nm, [dr] + da, dk)
            self.ev('extcall', node, f, callee=nm, args=[recv] + args, kws=kws, result=r)
            return r
        a, k = mkargs(da, dk)
        r = mk('mcall', dr, name, a, k)
        self.ev('extmcall', node, f, recv=recv, callee=name, args=args, kws=kws, result=r)
        return r

    def apply(self, fn, args, kws, node, f):
        fn = self.simp(fn)
        if fn.op == 'bound':
            return self.apply(fn.a[1], [fn.a[0]] + args, kws, node, f)
        if fn.op in ('fn', 'func'):
            func, fr = self.closures[fn]
            return self.callfunc(func, args, kws, node, f, closure=fr)
        if fn.op == 'class':
            return self.construct(self.closures[fn][0], args, kws, node, f)
        if fn.op == 'ext':
            return self.extcall(fn.a[0], args, kws, node, f)
        if fn.op == 'ite':
            base = len(self.guards)
            h0, out, states = self.heap, [], []
            for x, pol in ((fn.a[1], True), (fn.a[2], False)):
                if x in (NONE, UNDEF):
                    continue
                self.heap = dict(h0)
                self.push(fn.a[0], pol)
                out.append(self.apply(x, args, kws, node, f))
                states.append((tuple(self.guards), f.env, self.heap))
                del self.guards[base:]
            if not out:
                return UNDEF
            self.join_states(states, base, f)
            return out[0] if len(out) == 1 else mkite(fn.a[0], *out)
        # table[key](...) with a dictionary of functions and an unknown key
        a, k = mkargs([self.deref(x) for x in args], {n: self.deref(v) for n, v in kws.items()})
        r = mk('call', fn, a, k)
        self.ev('dyncall', node, f, callee=fn, args=args, kws=kws, result=r)
        return r

    # ---- repository functions
    def bind(self, func, args, kws, node, f, closure=None):
        a = func.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        extra = []
        starred = None
        for i, v in enumerate(args):
            if v.op == 'star':
                starred = (i, v)
                break
            if i < len(pos):
                env[pos[i]] = v
            else:
                extra.append(v)
        if starred is not None:
            i, v = starred
            rest = args[i + 1:]
            j = 0
            for p in pos[i:]:
                if p not in kws and not rest:
                    env[p] = mk('idx', v.a[0], const(j))
                    j += 1
            if a.vararg:
                extra.append(v)
        given = set(env)
        kwextra = []
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kws.items():
            if k == '**':
                continue
            if k in names:
                env[k] = v
                given.add(k)
            else:
                kwextra.append(mk('kv', const(k), v))
        defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in list(pos) + [x.arg for x in a.kwonlyargs]:
            if p in env:
                continue
            if '**' in kws:
                env[p] = mk('kwget', kws['**'], p, self.default(func, p, defs[p], closure)) if p in defs else mk('idx', kws['**'], const(p))
                given.add(p)
            elif p in defs:
                env[p] = self.default(func, p, defs[p], closure)
            else:
                env[p] = UNDEF
        if a.vararg:
            env[a.vararg.arg] = mk('tuple', *extra)
        if a.kwarg:
            if '**' in kws:
                kwextra.append(mk('star', kws['**']))
            env[a.kwarg.arg] = self.newobj('dict', mk('dict', *kwextra))
        bad = [mk('kv', const(k), v) for k, v in kws.items() if k != '**' and k not in names] if not a.kwarg else []
        return env, given, bad

    def default(self, func, p, e, closure=None):
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp)):
            t = mk('defobj', func.qual, p)
            if (t, '$c') not in self.heap:
                fr = Frame(None, func.module, {}, closure)
                self.suppress += 1
                try:
                    v = self.expr(e, fr)
                finally:
                    self.suppress -= 1
                if v.op == 'obj' and self.info[v].kind == 'inst':
                    return v
                self.heap[(t, '$c')] = self.deref(v)
            return t
        fr = Frame(None, func.module, {}, closure)
        if func.cls is not None and isinstance(e, ast.Name) and e.id in func.cls.consts:
            e = func.cls.consts[e.id]
        return self.expr(e, fr)

    def callfunc(self, func, args, kws, node, f, closure=None, want_state=False):
        env, given, bad = self.bind(func, args, kws, node, f, closure)
        qual = func.qual
        names = [p for p in func.all_params()]
        ev = self.ev('call', node, f, callee=qual, func=func, bound=dict(env), given=given, args=args, kws=kws, bad=bad)
        if not self.suppress and isinstance(func.node, (ast.FunctionDef, ast.Lambda)):
            pass
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(func.node)) if not isinstance(func.node, ast.Lambda) else False
        if gen or self.stack.count(qual) >= self.recursion or len(self.stack) >= self.maxdepth or not self.inline(func):
            # opaque
            r = mk('rcall', qual, mk('kws', *[mk('kw', p, self.shallow(env[p])) for p in names if p in env] +
                                     ([mk('kw', '*', env[func.node.args.vararg.arg])] if func.node.args.vararg else []) +
                                     ([mk('kw', '**', self.deref(env[func.node.args.kwarg.arg]))] if func.node.args.kwarg else [])))
            if ev is not None:
                ev.d['result'] = r
                ev.d['opaque'] = True
            return r
        r = self.run(func, env, closure)
        if ev is not None:
            ev.d['result'] = r
        return r

    def shallow(self, t):
        if t.op == 'obj' and self.info[t].kind == 'inst':
            return t
        return self.deref(t)

    def run(self, func, env, closure=None):
        """Evaluate the body; returns the joined return value."""
        self.visited_funcs.add(func.qual)
        fr = Frame(func, func.module, env, closure)
        base = len(self.guards)
        fr.base = base
        ld, self.loopdepth = self.loopdepth, self.loopdepth
        self.stack.append(func.qual)
        try:
            if isinstance(func.node, ast.Lambda):
                return self.expr(func.node.body, fr)
            ok = self.block(func.node.body, fr)
            if ok:
                fr.returns.append((tuple(self.guards), NONE, self.heap))
        finally:
            self.stack.pop()
            self.loopdepth = ld
        del self.guards[base:]
        self.last_frame = fr
        if not fr.returns:
            return mk('noreturn', func.qual)
        if len(fr.returns) == 1:
            self.heap = dict(fr.returns[0][2])
            return fr.returns[0][1]
        dummy = Frame(func, func.module, {}, None)
        self.join_states([(g, {'$r': v}, h) for g, v, h in fr.returns], base, dummy)
        v = dummy.env['$r']
        # containers created on different branches: merge contents
        return v

    def construct(self, cls, args, kws, node, f):
        init = cls.lookup('__init__')
        o = self.newobj('inst', cls=cls, node=node)
        if init is None:
            fields = [n for c in reversed(cls.mro()) for n in c.consts] if (cls.is_dataclass or cls.is_namedtuple()) else []
            b = {}
            for n, v in zip(fields, args):
                b[n] = v
            for k, v in kws.items():
                b[k] = v
            for n in fields:
                if n not in b:
                    for c in cls.mro():
                        if n in c.consts and c.consts[n] is not None:
                            e = c.consts[n]
                            fr = Frame(None, c.module, {})
                            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'field':
                                for kw in e.keywords:
                                    if kw.arg == 'default':
                                        b[n] = self.expr(kw.value, fr)
                                    elif kw.arg == 'default_factory':
                                        b[n] = self.apply(self.expr(kw.value, fr), [], {}, node, f)
                            else:
                                b[n] = self.expr(e, fr)
            for k, v in b.items():
                self.heap[(o, k)] = v
            self.ev('new', node, f, cls=cls, bound=b, given=set(b), result=o, args=args, kws=kws, bad=[])
            return o
        init = init[1]
        env, given, bad = self.bind(init, [o] + args, kws, node, f)
        b = {k: v for k, v in env.items() if k != init.params()[0]}
        snap = {k: self.shallow(v) for k, v in b.items()}
        hdr = None
        self.ev('new', node, f, cls=cls, bound=b, snap=snap, given=given, result=o, args=args, kws=kws, bad=bad, heap=self.heap_view(b))
        self.info[o].bound = b
        if cls.qual in self.opaque_init or self.stack.count(init.qual) >= 1 or len(self.stack) >= self.maxdepth or not self.inline(init):
            self.info[o].opaque = True
            return o
        self.run(init, env)
        return o

    def heap_view(self, b):
        """attribute values of the objects passed, as seen at this point"""
        out = {}
        for v in b.values():
            for (o, a), x in self.heap.items():
                if o is v and a != '$c':
                    out[(o, a)] = x
        return out

    # ---- external calls
    def extcall(self, name, args, kws, node, f):
        da = [self.deref(a) for a in args]
        dk = {k: self.deref(v) for k, v in kws.items()}
        if name in self.extmodel:
            r = self.extmodel[name](self, args, kws, node)
            if r is not None:
                return r
        r = self.builtin(name, args, kws, da, dk, node, f)
        if r is not None:
            return r
        if name in BINFN and len(da) == 2 and not dk:
            return mkbin(BINFN[name], da[0], da[1])
        if name in CMPFN and len(da) == 2 and not dk:
            return mkcmp(CMPFN[name], da[0], da[1])
        if name == 'numpy.negative' and len(da) == 1:
            return mk('un', '-', da[0])
        if name == 'numpy.square' and len(da) == 1:
            return mkbin('**', da[0], const(2))
        if name == 'numpy.matmul' and len(da) == 2:
            return mkbin('@', da[0], da[1])
        if name == 'numpy.reshape' and len(da) == 2:
            pass
        if name == 'numpy.transpose' and len(da) == 1 and not dk:
            return mk('attr', da[0], 'T')
        if name == 'numpy.shape' and len(da) == 1:
            return mk('attr', da[0], 'shape')
        if name == 'numpy.reshape' and len(da) > 2:
            da = [da[0], mk('tuple', *da[1:])]
        if 'out' in dk:
            self.ev('mutcall', node, f, obj=kws['out'], method='out=', args=args, kws=kws)
        r = mkcall(name, da, dk)
        if name in ('numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.fill_diagonal', 'numpy.random.shuffle', 'random.shuffle'):
            self.ev('mutcall', node, f, obj=args[0], method=name, args=args, kws=kws)
            self.heap[(args[0], '$c')] = mk('mut', da[0], name, *mkargs(da, dk))
        if name in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.full_like', 'numpy.empty_like', 'numpy.array', 'numpy.tile', 'numpy.repeat', 'numpy.linspace', 'numpy.arange') and 'out' not in dk:
            r = self.newobj('arr', r, node=node)
        if name == 'copy.deepcopy' and len(args) == 1:
            r = self.deepcopy(args[0])
        elif name == 'copy.copy' and len(args) == 1:
            r = self.shallowcopy(args[0])
        self.ev('extcall', node, f, callee=name, args=args, kws=kws, result=r)
        return r

    def deepcopy(self, t, memo=None):
        memo = {} if memo is None else memo
        if t in memo:
            return memo[t]
        if t.op in ('tuple', 'list', 'dict', 'kv'):
            return mk(t.op, *[self.deepcopy(x, memo) if isinstance(x, T) else x for x in t.a])
        if is_const(t) or t.op in ('bin', 'cmp', 'un', 'ext', 'func', 'class', 'fn', 'module'):
            return t
        cls = self.class_of(t)
        if t.op == 'defobj' and self.content(t).op in ('list', 'dict'):
            o = memo[t] = self.objects(self.content(t))
            return o
        if t.op == 'obj' and self.info[t].kind != 'inst':
            o = self.newobj(self.info[t].kind)
            memo[t] = o
            self.heap[(o, '$c')] = self.deepcopy(self.content(t), memo)
            return o
        if cls is not None or t.op == 'obj':
            o = self.newobj('inst', cls=cls, copyof=t)
            memo[t] = o
            self.heap[(o, '$copyof')] = t
            for (x, a), v in list(self.heap.items()):
                if x is t and not a.startswith('$'):
                    self.heap[(o, a)] = self.deepcopy(v, memo)
            # attributes not written so far are copied from the initial object
            self.info[o].lazy = t
            return o
        o = self.newobj('arr', mkcall('copy.deepcopy', [self.deref(t)], {}))
        memo[t] = o
        return o

    def objects(self, t):
        """literal lists and dictionaries as objects of their own"""
        if t.op in ('list', 'dict'):
            return self.newobj(t.op, mk(t.op, *[mk('kv', x.a[0], self.objects(x.a[1])) if x.op == 'kv' else self.objects(x) for x in t.a]))
        return t

    def shallowcopy(self, t):
        if t.op == 'obj' and self.info[t].kind != 'inst':
            return self.newobj(self.info[t].kind, self.content(t))
        cls = self.class_of(t)
        if cls is not None or t.op == 'obj':
            o = self.newobj('inst', cls=cls, copyof=t)
            for (x, a), v in list(self.heap.items()):
                if x is t and not a.startswith('$'):
                    self.heap[(o, a)] = v
            self.info[o].lazy = t
            return o
        return self.newobj('arr', mkcall('copy.copy', [self.deref(t)], {}))

    def builtin(self, name, args, kws, da, dk, node, f):
        if name == 'len' and len(da) == 1:
            c = self.simp(da[0])
            if self.text:
                r = text.length(self, c)
                if r is not None:
                    return r
            if c.op in ('tuple', 'list', 'dict', 'set') and not any(x.op == 'star' for x in c.a):
                return const(len(c.a))
            if is_const(c) and isinstance(cval(c), str):
                return const(len(cval(c)))
            cls = self.class_of(args[0])
            return mkcall('len', [c])
        if name == 'dict.fromkeys' and da and len(da) <= 2 and not dk:
            k = self.known_elems(self.content(args[0]) if args[0].op in ('obj', 'tuple', 'list') else da[0])
            u = []
            for x in k or ():
                e = [y is x or (None if not (is_const(x) and is_const(y)) and not self.strict else not (is_const(x) and is_const(y)) and self.decided(mkcmp('==', x, y))) for y in u]
                if None in e and True not in e:
                    return None
                if True not in e:
                    u.append(x)
            if k is not None:
                return self.newobj('dict', mk('dict', *[mk('kv', x, da[1] if len(da) > 1 else NONE) for x in u]))
        if name in ('list', 'tuple', 'set') and len(da) <= 1 and not dk:
            if not da:
                return self.newobj(name, mk(name)) if name != 'tuple' else mk('tuple')
            k = self.known_elems(da[0])
            if args[0].op == 'obj' or args[0].op in ('tuple', 'list'):
                k2 = self.known_elems(self.content(args[0]))
                if k2 is not None:
                    k = k2
            if k is not None and name == 'set' and self.strict:
                u = []
                for x in k:
                    e = [y is x or (not (is_const(x) and is_const(y)) and self.decided(mkcmp('==', x, y))) for y in u]
                    if None in e and True not in e:
                        raise Undecided(name)
                    if True not in e:
                        u.append(x)
                k = u
            if k is not None:
                return mk('tuple', *k) if name == 'tuple' else self.newobj(name, mk(name, *k))
            if da[0].op == 'comp' and da[0].a[0] == 'list' and name == 'list':
                return self.newobj('list', da[0])
            return self.newobj(name, mkcall(name, da)) if name != 'tuple' else mkcall('tuple', da)
        if name in ('dict', 'collections.OrderedDict'):
            if not args:
                if '**' in kws:
                    return self.newobj('dict', mk('dict', *[mk('kv', const(k), v) for k, v in kws.items() if k != '**'], mk('star', kws['**'])))
                return self.newobj('dict', mk('dict', *[mk('kv', const(k), v) for k, v in kws.items()]))
            d = self.deref_dict(args[0])
            if d is None:
                el = self.known_elems(da[0])
                if el is not None and all(x.op == 'tuple' and len(x.a) == 2 for x in el):
                    d = [mk('kv', self.deref(x.a[0]), x.a[1]) for x in el]
            if d is not None and '**' not in kws:
                add = [mk('kv', const(k), v) for k, v in kws.items()]
                ks = {x.a[0] for x in add}
                return self.newobj('dict', mk('dict', *([x for x in d if x.a[0] not in ks] + add)))
            return self.newobj('dict', mkcall('dict', da, dk))
        if name == 'getattr' and len(args) >= 2 and da[1] is not None:
            if is_const(da[1]):
                r = self.getattr(args[0], cval(da[1]), node, f)
                return r
            if da[1].op == 'ite' and (is_const(da[1].a[1]) or is_const(da[1].a[2])):
                c = da[1]
                r = [self.getattr(args[0], cval(x), node, f) if is_const(x) else mk('attrdyn', args[0], x) for x in c.a[1:]]
                return mkite(c.a[0], *r)
            return mk('attrdyn', args[0], da[1])
        if name == 'setattr' and len(args) == 3:
            if is_const(da[1]):
                self.setattr(args[0], cval(da[1]), args[2], node, f)
            else:
                self.ev('setattrdyn', node, f, obj=args[0], attr=da[1], value=args[2])
            return NONE
        if name == 'hasattr' and len(args) == 2 and is_const(da[1]):
            o = self.simp(args[0])
            if (o, cval(da[1])) in self.heap:
                return TRUE
            if o.op == 'obj' and self.info[o].kind == 'inst' and not getattr(self.info[o], 'opaque', False):
                cls = self.class_of(o)
                if cls and cls.lookup(cval(da[1])):
                    return TRUE
                if self.strict and not self.info[o].__dict__.get('lazy'):
                    return FALSE
            return mkcall('hasattr', [o, da[1]])
        if name == 'isinstance' and len(args) == 2:
            o = self.simp(args[0])
            c = da[1]
            cs = list(c.a) if c.op == 'tuple' else [c]
            nm = [x.a[0] for x in cs if x.op in ('ext', 'class')]
            if len(nm) == len(cs):
                if is_const(o):
                    v = cval(o)
                    tn = type(v).__name__
                    if v is None or isinstance(v, (str, bool, int, float)):
                        return const(tn in nm or (tn == 'bool' and 'int' in nm))
                if o.op == 'obj':
                    i = self.info[o]
                    if i.kind in ('list', 'dict', 'set'):
                        return const(i.kind in nm)
                    if i.kind == 'arr' :
                        return const('numpy.ndarray' in nm)
                    if i.kind == 'inst' and i.cls is not None:
                        return const(any(b.qual in nm for b in i.cls.mro()))
                if o.op == 'tuple':
                    return const('tuple' in nm)
                if o.op in ('list', 'dict', 'set'):
                    return const(o.op in nm)
                if o in self.extclass:
                    return const(any(b in nm for b in self.extclass[o]))
            return mkcall('isinstance', [o if (o.op == 'obj') else self.deref(o), c])
        if name in ('int', 'float', 'str', 'bool') and len(da) == 1 and not dk:
            c = da[0]
            if self.text:
                if name in ('int', 'float'):
                    r = text.number(c, name)
                    if r is not None:
                        return r
                if name == 'str':
                    return const(str(cval(c))) if is_const(c) else c if c in self.words or c in self.texts or text.pieces(c) is not None else mk('fmt', c, '')
            if name == 'bool' and c.op in ('dict', 'list', 'tuple', 'set') and not any(x.op == 'star' for x in c.a):
                return const(len(c.a) > 0)
            if is_const(c):
                try:
                    if name == 'str' and isinstance(cval(c), (str, int)):
                        return const(str(cval(c)))
                    if name in ('int', 'float') and isinstance(cval(c), (int, float)) and not isinstance(cval(c), bool):
                        return const(int(cval(c)) if name == 'int' else float(cval(c)))
                    if name == 'bool':
                        return const(bool(cval(c)))
                except Exception:
                    pass
            return mkcall(name, da)
        if name == 'abs' and len(da) == 1:
            return mkcall('numpy.absolute', da)
        if name == 'pow' and len(da) == 2:
            return mkbin('**', da[0], da[1])
        if name in ('numpy.deg2rad', 'numpy.radians', 'numpy.degrees') and len(da) == 1:
            return mkcall(name, da, dk)
        if name == 'range':
            return mkcall('range', da)
        if name == 'next' and node is not None and getattr(node, 'args', None) and isinstance(node.args[0], ast.GeneratorExp) and not dk:
            k = self.known_elems(da[0])
            if k:
                return k[0]
            if k is not None and len(da) > 1:
                return da[1]
        if name in ('zip', 'enumerate', 'reversed', 'sorted', 'map', 'filter', 'iter', 'next'):
            if name == 'map' and len(args) == 2 and args[0].op in ('fn', 'func', 'bound', 'class', 'ext'):
                k = self.known_elems(da[1])
                if k is not None and len(k) <= self.unroll:
                    return mk('list', *[self.apply(args[0], [x], {}, node, f) for x in k])
                self.loopdepth += 1
                r = self.apply(args[0], [mk('elem', da[1], self.loopdepth)], {}, node, f)
                self.loopdepth -= 1
                return mk('comp', 'list', r if (r.op == 'obj' and self.info[r].kind == 'inst') else self.deref(r), da[1], TRUE)
            # element identities are kept
            a2 = [(self.content(a) if a.op == 'obj' and self.info[a].kind in ('list', 'dict') else a if a.op in ('tuple', 'list') else d) for a, d in zip(args, da)]
            t = mkcall(name, a2, dk)
            k = self.known_elems(t)
            if k is None and name == 'sorted' and set(dk) <= {'key', 'reverse'} and is_const(dk.get('reverse', FALSE)):
                k = self.known_elems(a2[0])
                if k is not None and len(k) > 1:
                    ks = [self.deref(self.apply(dk['key'], [x], {}, node, f)) if dk.get('key', NONE) is not NONE else x for x in k]
                    r = [self.rankof(x) for x in ks]
                    if all(is_const(x) and isinstance(cval(x), str) for x in ks):
                        r = [cval(x) for x in ks]
                    k = [x for _, x in sorted(zip(r, k), key=lambda p: p[0], reverse=bool(cval(dk.get('reverse', FALSE))))] if None not in r else None
            if k is not None:
                return mk('list', *k)
            self.ev('extcall', node, f, callee=name, args=args, kws=kws, result=t)
            return t
        if name in ('max', 'min') and len(da) > 1 and not dk and self.rank:
            r = [self.rankof(x) for x in da]
            if None not in r:
                return da[r.index(max(r) if name == 'max' else min(r))]
        if name in ('sum', 'max', 'min', 'any', 'all') and len(da) == 1 and not dk:
            k = self.known_elems(da[0])
            if k is not None and name == 'sum' and k:
                r = k[0]
                for x in k[1:]:
                    r = mkbin('+', r, x)
                return r
            if k is not None and name in ('max', 'min') and self.rank:
                r = [self.rankof(x) for x in k]
                if None not in r and r:
                    return k[r.index(max(r) if name == 'max' else min(r))]
            if k is not None and name in ('any', 'all'):
                k = [self.deref(x) if x.op == 'obj' and self.info[x].kind != 'inst' else x for x in k]
                k = [x if self._boolish(x) else const(bool(cval(x))) if is_const(x) else mkcall('bool', [x]) for x in k]
                return mkor(k) if name == 'any' else mkand(k)
            return None
        if name == 'super':
            return mk('ext', 'super()')
        if name == 'type' and len(args) == 1:
            o = self.simp(args[0])
            if o in self.extclass:
                return mk('ext', self.extclass[o][0])
            if o.op == 'obj' and self.info[o].kind == 'inst' and getattr(self.info[o], 'cls', None) is not None:
                return self.wrap(self.info[o].cls)
            return mk('call', 'type', *mkargs([args[0] if args[0].op == 'obj' else da[0]], {}))
        if name == 'vars' and len(args) == 1:
            return mk('attr', args[0], '__dict__')
        return None

    # ---------------------------------------------------------------- entry
    def root(self, qual, params=None, self_term=None, defaults=False):
        """Evaluate function `qual` with unknown parameters. Returns (value, env-bindings)."""
        fn = self.prog.need(qual) if isinstance(qual, str) else qual
        if not isinstance(fn, Func):
            raise AnalysisBroken(f'{qual} is not a function any more')
        a = fn.node.args
        params = params or {}
        env = {}
        names = fn.all_params()
        pos = fn.params()
        defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for i, p in enumerate(names):
            if p in params:
                env[p] = params[p]
            elif i == 0 and fn.cls is not None and not fn.is_static and not fn.is_classm:
                t = self_term or sym('self')
                self.hints.setdefault(t, fn.cls)
                env[p] = t
            elif defaults and p in defs:
                env[p] = self.default(fn, p, defs[p])
            else:
                env[p] = sym(p)
        for k in params:
            if k not in names and k not in ((a.kwarg.arg if a.kwarg else None), (a.vararg.arg if a.vararg else None)):
                raise AnalysisBroken(f'{fn.qual} has no parameter {k} any more')
        if a.vararg:
            env[a.vararg.arg] = params.get(a.vararg.arg, sym('*' + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = params.get(a.kwarg.arg, sym('**' + a.kwarg.arg))
        self.bindings = dict(env)
        r = self.run(fn, env)
        return r

    def full(self, t):
        """deref, also through instances' contents (for reporting and comparison)"""
        return self.deref(t)
