"""Ownership: which objects may a value be, and which may be reached from it.

Every value is (own, parts): the objects it may itself be, and the objects its parts may be.  Objects are named by where
they came from: a parameter of the function under analysis ('p', name), a part of one ('p*', name), an attribute of the
receiver ('a', attr) / ('a*', attr), module-level state ('m', module, name), state kept on a class ('c', class, attr).
Objects made by the code under analysis have no name.  A summary of a function says which of its parameters (or their
parts), which module-level objects and which attributes of its receiver it changes, what it stores where, and what its
result may be; summaries are iterated to a fixpoint over the call graph."""
import ast, re
from .loader import Func, Cls, Ext, Module, GlobalVar

E0 = frozenset()
LEVELS = 6
CAP = LEVELS - 1         # parts of parts ... that are told apart
NOTHING = (E0,) * LEVELS
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', 'fill', 'resize', 'itemset', 'put', 'partition',
            'move_to_end', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'appendleft', 'popleft', 'setflags', 'byteswap', '__setitem__', '__setattr__', '__delitem__', '__iadd__'}
VIEWS_M = {'reshape', 'ravel', 'squeeze', 'view', 'swapaxes', 'transpose', 'diagonal', '__iter__'}
PARTS_M = {'get', 'values', 'items', 'pop', 'setdefault', 'popitem', '__getitem__', '__next__'}
VIEWS_F = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'squeeze', 'transpose', 'moveaxis', 'rollaxis', 'swapaxes', 'expand_dims', 'broadcast_to', 'ascontiguousarray', 'asfortranarray',
           'diagonal', 'require', 'permute_dims'}
PARTS_F = {'split', 'array_split', 'hsplit', 'vsplit', 'broadcast_arrays', 'nditer'}
SHALLOW = {'list', 'tuple', 'dict', 'set', 'sorted', 'reversed', 'zip', 'enumerate', 'iter', 'filter', 'map', 'frozenset', 'OrderedDict', 'defaultdict', 'deque', 'SimpleNamespace', 'chain', 'product', 'islice'}
WRITERS = {'numpy.copyto': 0, 'numpy.fill_diagonal': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.put_along_axis': 0, 'random.shuffle': 0, 'numpy.random.shuffle': 0,
           'heapq.heappush': 0, 'heapq.heapify': 0, 'heapq.heappop': 0, 'bisect.insort': 0, 'operator.setitem': 0, 'operator.iadd': 0}
SCALAR = {'int', 'float', 'str', 'bool', 'bytes', 'complex', 'None'}


def star(b):
    if b == ('self',):
        return ('a*', '?')
    if not b[0].endswith('*'):
        return (b[0] + '*',) + b[1:] + (1,)
    return b[:-1] + (min(b[-1] + 1, CAP),) if isinstance(b[-1], int) else b


def part(v, b):
    """what ('x*', name, d) is, where v is the value of the name: the parts at depth d (at the cap: all from there on)"""
    d = b[-1] if isinstance(b[-1], int) else 1
    for _ in range(d - 1):
        v = element(v)
    return deepparts(v) if d >= CAP or not isinstance(b[-1], int) else element(v)


def deepparts(v):
    o = frozenset(star(b) for b in v[0]).union(*v[1:])
    return (o,) * LEVELS


def union(*vs):
    return tuple(frozenset().union(*[v[i] for v in vs]) if vs else E0 for i in range(LEVELS))


def whole(*bases):
    """an object of that name, with everything reachable from it"""
    out = [frozenset(bases)]
    for _ in range(LEVELS - 1):
        out.append(frozenset(star(b) for b in out[-1]))
    return tuple(out)


def element(v):
    st = frozenset(star(b) for b in v[0])
    return tuple(v[i + 1] | (st if i == 0 else E0) for i in range(LEVELS - 1)) + (v[-1],)


def shallow(v):
    return (E0, v[1] | frozenset(star(b) for b in v[0])) + v[2:]


def held(*vs):
    """a new container of these"""
    u = union(*vs)
    return (E0,) + u[:LEVELS - 2] + (u[-1] | u[-2],)


def put(v, x):
    """v after x was put into it"""
    h = held(x)
    return (v[0],) + tuple(a | b for a, b in zip(v[1:], h[1:]))


SELF = (frozenset([('self',)]), frozenset([('a*', '?')])) + (frozenset([('a*', '?')]),) * (LEVELS - 2)


class Event:
    def __init__(self, base, node, how, func, sure, via=()):
        self.base, self.node, self.how, self.func, self.sure, self.via = base, node, how, func, sure, via

    def key(self):
        return self.base, self.sure


class Summary:
    def __init__(self):
        self.events = {}        # (base, sure) -> Event
        self.ret = NOTHING
        self.stores = {}        # attr -> value at the end (in terms of params)
        self.rets = set()       # classes returned

    def sig(self):
        return frozenset(self.events), self.ret, frozenset(self.stores.items())


class Owner:
    def __init__(self, prog, only=None):
        self.prog = prog
        self.funcs = [f for f in prog.all_functions()]
        self.byname = {}
        for c in prog.all_classes():
            for n in c.methods:
                self.byname.setdefault(n, []).append(c.methods[n])
        self.sum = {}
        self.classof = {}       # (class, attr) -> class of the objects kept there
        self.work()

    def work(self):
        top = [f for f in self.funcs if f.parent is None]
        for f in top:
            self.sum[f.node] = Summary()
        for k in range(12):
            change = False
            for f in top:
                old = self.sum[f.node].sig()
                nc = len(self.classof)
                s = Walk(self, f).go()
                self.sum[f.node] = s
                if s.sig() != old or len(self.classof) != nc:
                    change = True
            if not change:
                break
        self.rounds = k + 1

    def attr_values(self, cls):
        """what the attributes of an object of the class may be, over its constructor and public methods (attr -> [(value, func)])"""
        out = {}
        for c in cls.mro():
            for f in c.all_functions():
                if f.name.startswith('_') and f.name != '__init__':
                    continue
                for a, v in self.sum[f.node].stores.items():
                    out.setdefault(a, []).append((v, f))
        return out


class Walk:
    def __init__(self, own, f, env=None, cls=None, outer=None):
        self.own, self.f, self.m = own, f, f.module
        self.cls = f.cls
        self.s = outer.s if outer else Summary()
        self.env = dict(env or {})
        self.types = dict(outer.types) if outer else {}
        self.self_name = None
        self.outer = outer
        ps = f.params()
        if f.cls is not None and f.parent is None and ps and not f.is_static and not f.is_classm:
            self.self_name = ps[0]
        elif outer:
            self.self_name = outer.self_name
        self.clsname = ps[0] if f.is_classm and ps else None
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.kinds = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            if x.arg in (self.self_name, self.clsname) and outer is None:
                continue
            if outer is None:
                if a.vararg is x or a.kwarg is x:
                    self.env[x.arg] = (E0,) + whole(('p', x.arg))[1:]       # a new tuple or dict of the caller's objects
                else:
                    self.env[x.arg] = whole(('p', x.arg))
            else:
                self.env[x.arg] = NOTHING
            if x.annotation is not None:
                c = self.annotated(x.annotation)
                if c is not None:
                    self.types[x.arg] = c
                elif ast.unparse(x.annotation).strip('"\'') in SCALAR:
                    self.kinds[x.arg] = 'scalar'
        ds = list(zip(reversed([x.arg for x in a.posonlyargs + a.args]), reversed(a.defaults))) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in ds:
            if isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str)) and n not in self.kinds:
                self.kinds[n] = 'scalar?'
        self.dead = False
        self.rets = []
        self.loop = 0
        self.attrs_out = []

    def annotated(self, e):
        for x in ast.walk(e):
            r = self.m.resolve_expr(x) if isinstance(x, (ast.Name, ast.Attribute)) else None
            if isinstance(r, Cls):
                return r
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                r = self.m.resolve(x.value)
                if isinstance(r, Cls):
                    return r
        return None

    def go(self):
        self.body(self.f.node.body)
        if not self.dead:
            self.attrs_out.append({k: v for k, v in self.env.items() if k.startswith('self.')})
        self.s.ret = union(*self.rets) if self.rets else NOTHING
        keys = set().union(*[set(o) for o in self.attrs_out]) if self.attrs_out else set()
        for k in keys:
            vs = [o.get(k) for o in self.attrs_out]
            self.s.stores[k[5:]] = union(*[v for v in vs if v is not None])
        return self.s

    # ---- values
    def v(self, e):
        if e is None or isinstance(e, ast.Constant):
            return NOTHING
        m = getattr(self, 'v_' + e.__class__.__name__, None)
        if m is not None:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.v(c)
        return NOTHING

    def v_Name(self, e):
        n = e.id
        if n == self.self_name:
            return SELF
        if n in self.env:
            return self.env[n]
        if n == self.clsname:
            return NOTHING
        if self.outer is not None and n in self.outer.env:
            return self.outer.env[n]
        r = self.m.resolve(n)
        if isinstance(r, GlobalVar):
            return self.globalvar(r)
        return NOTHING

    def globalvar(self, r):
        b = ('m', r.module.short, r.name)
        vals = [x[0] for x in r.values]
        if vals and all(x is not None and not mutable(x) for x in vals):
            return NOTHING
        if vals and all(x is not None and flat(x) for x in vals):
            return (frozenset([b]),) + (E0,) * (LEVELS - 1)
        return whole(b)

    def attr_of_self(self, a):
        k = 'self.' + a
        if k in self.env:
            return self.env[k]
        if self.cls is not None:
            l = self.cls.lookup(a)
            if l is not None and l[0] == 'prop':
                f = l[1]
                s = self.own.sum.get(f.node)
                if s is not None:
                    self.apply(s, f, [], {}, e=None, recv=SELF, node=None)
                    return self.translate(s.ret, {}, self_recv=True)
                return NOTHING
            if l is not None and l[0] == 'const' and l[1][1] is None:
                return whole(('a', a))
            if l is not None and l[0] == 'const' and not self.assigned_in_class(a):
                if not mutable(l[1][1]):
                    return NOTHING
                return whole(('c', self.cls.qual, a))
            if l is not None and l[0] in ('method', 'class'):
                return NOTHING
        return whole(('a', a))

    def assigned_in_class(self, a):
        for c in self.cls.mro():
            for f in c.all_functions():
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == a and isinstance(x.value, ast.Name) and x.value.id == (f.params() or [''])[0]:
                        return True
        return False

    def v_Attribute(self, e):
        if isinstance(e.value, ast.Name) and e.value.id == self.self_name and self.self_name is not None:
            return self.attr_of_self(e.attr)
        if isinstance(e.value, ast.Name) and (e.value.id not in self.env):
            r = self.m.resolve_expr(e)
            if isinstance(r, GlobalVar):
                return self.globalvar(r)
            b = self.m.resolve_expr(e.value)
            if isinstance(b, Cls) or e.value.id == self.clsname:
                c = b if isinstance(b, Cls) else self.f.cls
                l = c.lookup(e.attr)
                if l is not None and l[0] == 'const' and mutable(l[1][1]):
                    return whole(('c', c.qual, e.attr))
                return NOTHING
            if r is not None or b is not None:
                return NOTHING
        if isinstance(e.value, ast.Name) and e.value.id + '.' in self.env:
            k = e.value.id + '.' + e.attr
            if k in self.env:
                return self.env[k]
        v = self.v(e.value)
        if e.attr in ('T', 'real', 'imag', 'flat', '__dict__', 'base'):
            return v
        if e.attr in ('shape', 'size', 'ndim', 'dtype', '__class__', '__name__'):
            return NOTHING
        c = self.type(e.value)
        if c is not None:
            l = c.lookup(e.attr)
            if l is not None and l[0] == 'prop' and l[1].node in self.own.sum:
                s = self.own.sum[l[1].node]
                self.apply(s, l[1], [], {}, e=e, recv=v, node=e)
                return self.translate(s.ret, {}, recv=v)
            if l is not None and l[0] in ('method', 'class'):
                return NOTHING
        return element(v)

    def v_Subscript(self, e):
        v = self.v(e.value)
        self.v(e.slice)
        if fancy(e.slice):
            return NOTHING
        if isinstance(e.slice, ast.Slice) or isinstance(e.slice, ast.Tuple):
            return union(element(v), v) if isinstance(e.slice, ast.Slice) else element(v)
        return element(v)

    def v_Starred(self, e):
        return self.v(e.value)

    def v_List(self, e):
        return held(*[element(self.v(x.value)) if isinstance(x, ast.Starred) else self.v(x) for x in e.elts])

    v_Tuple = v_List
    v_Set = v_List

    def v_Dict(self, e):
        vs = []
        for k, x in zip(e.keys, e.values):
            if k is None:
                vs.append(element(self.v(x)))
            else:
                self.v(k)
                vs.append(self.v(x))
        return held(*vs)

    def v_IfExp(self, e):
        self.v(e.test)
        return union(self.v(e.body), self.v(e.orelse))

    def v_BoolOp(self, e):
        return union(*[self.v(x) for x in e.values])

    def v_BinOp(self, e):
        a, b = self.v(e.left), self.v(e.right)
        if isinstance(e.op, (ast.Add, ast.BitOr)) and (listy(e.left) or listy(e.right)):
            return held(element(a), element(b))
        return NOTHING

    def v_NamedExpr(self, e):
        v = self.v(e.value)
        self.env[e.target.id] = v
        return v

    def v_Await(self, e):
        return self.v(e.value)

    def v_Lambda(self, e):
        old = dict(self.env)
        for a in e.args.args + e.args.kwonlyargs:
            self.env[a.arg] = NOTHING
        v = self.v(e.body)
        self.env = old
        return NOTHING

    def comp(self, e, elts):
        old = dict(self.env)
        for g in e.generators:
            self.bind(g.target, element(self.v(g.iter)), None)
            for c in g.ifs:
                self.v(c)
        vs = [self.v(x) for x in elts]
        self.env = old
        return held(*vs)

    def v_ListComp(self, e):
        return self.comp(e, [e.elt])

    v_SetComp = v_GeneratorExp = v_ListComp

    def v_DictComp(self, e):
        return self.comp(e, [e.key, e.value])

    def v_Yield(self, e):
        v = self.v(e.value)
        self.rets.append(held(v))
        return NOTHING

    # ---- types of receivers
    def type(self, e):
        if isinstance(e, ast.Name):
            if e.id == self.self_name:
                return self.cls
            return self.types.get(e.id)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.self_name and self.cls is not None:
                t = self.types.get('self.' + e.attr)
                if t is not None:
                    return t
                for c in self.cls.mro():
                    t = self.own.classof.get((c.node, e.attr))
                    if t is not None:
                        return t
            else:
                t = self.type(e.value)
                if t is not None:
                    for c in t.mro():
                        r = self.own.classof.get((c.node, e.attr))
                        if r is not None:
                            return r
            return None
        if isinstance(e, ast.Call):
            r = self.m.resolve_expr(e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) and not (isinstance(e.func, ast.Name) and e.func.id in self.env) else None
            if isinstance(r, Cls):
                return r
            n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', '')
            if n in ('copy', 'deepcopy') and len(e.args) == 1:
                return self.type(e.args[0])
        if isinstance(e, ast.IfExp):
            return self.type(e.body) or self.type(e.orelse)
        return None

    # ---- calls
    def v_Call(self, e):
        fn = e.func
        args, stars = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                stars.append(element(self.v(a.value)))
            else:
                args.append(self.v(a))
        kws, dstars = {}, []
        for k in e.keywords:
            x = self.v(k.value)
            if k.arg is None:
                dstars.append(element(x))
            else:
                kws[k.arg] = x
        if 'out' in kws:
            self.mutate(kws['out'], e, 'out= of a call', True)
        every = args + list(kws.values())
        r = None
        local = isinstance(fn, ast.Name) and (fn.id in self.env or self.outer is not None and fn.id in self.outer.env)
        if isinstance(fn, ast.Name):
            if not local:
                r = self.m.resolve(fn.id)
            name = fn.id
        elif isinstance(fn, ast.Attribute):
            root = fn
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in self.env and root.id != self.self_name:
                r = self.m.resolve_expr(fn)
            name = fn.attr
        else:
            self.v(fn)
            return held(*every) if False else NOTHING
        if isinstance(r, Func):
            return self.call_func(r, args, kws, e, None, stars, dstars)
        if isinstance(r, Cls):
            return self.construct(r, args, kws, e, stars, dstars)
        if isinstance(r, Ext) or r is None and isinstance(fn, ast.Name) and not local:
            return self.external(r.name if isinstance(r, Ext) else name, name, args, kws, e, stars, dstars)
        if isinstance(fn, ast.Name):
            return NOTHING
        # a method
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and self.cls is not None:
            for c in self.cls.mro()[1:]:
                if name in c.methods:
                    return self.call_func(c.methods[name], args, kws, e, SELF, stars, dstars)
            return NOTHING
        if isinstance(fn.value, ast.Name) and fn.value.id == self.self_name and self.self_name is not None:
            l = self.cls.lookup(name) if self.cls is not None else None
            if l is not None and l[0] == 'method':
                return self.call_func(l[1], args, kws, e, SELF, stars, dstars)
            if l is None:
                return NOTHING
        recv = self.v(fn.value)
        t = self.type(fn.value)
        g = None
        if t is not None:
            l = t.lookup(name)
            if l is not None and l[0] == 'method':
                g = l[1]
        if g is None and name not in MUTATORS and name not in VIEWS_M and name not in PARTS_M and name not in ('copy', 'items', 'keys', 'index', 'count', 'join', 'split', 'format', 'strip'):
            c = self.own.byname.get(name, [])
            if len(c) == 1:
                g = c[0]
        if g is not None:
            return self.call_func(g, args, kws, e, recv, stars, dstars)
        if name in MUTATORS and t is None:
            if not (name in ('add', 'update', 'remove', 'put', 'pop', 'insert') and not recv[0]):
                sure = name not in ('add', 'update', 'remove', 'insert', 'put', 'resize') or True
                self.mutate(recv, e, f'.{name}(...)', sure)
            # what is put into it becomes part of it
            if name in ('append', 'add', 'insert', 'setdefault', 'extend', 'update', 'appendleft'):
                x = union(*[element(a) if name in ('extend', 'update') else a for a in every]) if every else NOTHING
                self.absorb(fn.value, x)
        if name == 'copy':
            return shallow(recv)
        if name in VIEWS_M:
            return recv
        if name == 'items':
            return held(held(element(recv)))
        if name in ('values', 'popitem'):
            return held(element(recv))
        if name in PARTS_M:
            return union(element(recv), *args[1:2])
        if name in ('at',) and isinstance(fn.value, ast.Attribute) and args:        # np.add.at
            self.mutate(args[0], e, '.at(...)', True)
        return NOTHING

    def absorb(self, target, x):
        if isinstance(target, ast.Name) and target.id in self.env:
            self.env[target.id] = put(self.env[target.id], x)
        elif isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == self.self_name:
            k = 'self.' + target.attr
            if k in self.env:
                self.env[k] = put(self.env[k], x)

    def external(self, full, name, args, kws, e, stars, dstars):
        every = args + list(kws.values()) + stars + dstars
        if full in WRITERS and args:
            self.mutate(args[WRITERS[full]], e, f'{full}(...)', True)
            return NOTHING
        if name == 'setattr' and args:
            self.mutate(args[0], e, 'setattr(...)', True)
            return NOTHING
        if name == 'delattr' and args:
            self.mutate(args[0], e, 'delattr(...)', True)
            return NOTHING
        if name == 'getattr' and args:
            return union(element(args[0]), *args[2:3])
        if name == 'vars' and args:
            return args[0]
        if full in ('copy.copy', 'copy') and args:
            return shallow(args[0])
        if full in ('copy.deepcopy', 'deepcopy'):
            return NOTHING
        if full.endswith('dataclasses.replace') and args:
            return union(shallow(args[0]), held(*kws.values()))
        if full.startswith('numpy.'):
            if name in VIEWS_F and args:
                return args[0]
            if name == 'array' and args and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value in (False, None) for k in e.keywords):
                return args[0]
            if name in PARTS_F and args:
                return held(args[0])
            if name == 'nan_to_num' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                self.mutate(args[0], e, 'numpy.nan_to_num(copy=False)', True)
            return NOTHING
        if name in SHALLOW:
            if name in ('zip', 'enumerate', 'map', 'filter', 'product', 'chain'):
                return held(*[held(element(x)) for x in every]) if name in ('zip', 'enumerate') else held(*[element(x) for x in every])
            if name in ('dict', 'OrderedDict') and len(args) == 1 and e.args and pairs(e.args[0]):
                return held(element(element(args[0])), *kws.values(), *[element(x) for x in dstars])
            if name == 'SimpleNamespace' or name in ('dict', 'OrderedDict'):
                return held(*([element(x) for x in args + stars + dstars] + list(kws.values())))
            return held(*[element(x) for x in args + stars + dstars])
        if name in ('next', 'max', 'min') and args:
            return element(args[0]) if len(args) == 1 or name == 'next' else NOTHING
        return NOTHING

    def bindargs(self, f, args, kws, stars, dstars, skip):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        got = {}
        rest = []
        for i, x in enumerate(args):
            if i < len(names):
                got[names[i]] = x
            else:
                rest.append(x)
        allnames = names + [x.arg for x in a.kwonlyargs]
        for k, x in kws.items():
            if k in allnames:
                got[k] = x
            else:
                rest.append(x)
        for x in stars + dstars:
            for n in allnames:
                if n not in got:
                    got[n] = x
            rest.append(x)
        extra = held(*rest) if rest else NOTHING
        if a.vararg:
            got[a.vararg.arg] = extra
        if a.kwarg:
            got[a.kwarg.arg] = extra
        return got

    def call_func(self, f, args, kws, e, recv, stars, dstars):
        s = self.own.sum.get(f.node)
        if s is None:
            return NOTHING
        skip = 0 if f.cls is None or f.is_static or recv is None and not f.is_classm else 1
        if f.cls is not None and recv is None and not f.is_static and not f.is_classm:
            recv = args[0] if args else NOTHING
            skip, args = 1, args[1:]
        got = self.bindargs(f, args, kws, stars, dstars, skip)
        pre = self.prefix(e.func.value) if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) else None
        self.apply(s, f, got, kws, e, recv, e, prefix=pre)
        return self.translate(s.ret, got, recv=recv, self_recv=True if recv is not None and ('self',) in recv[0] else pre)

    def prefix(self, e):
        """the name of an object made here whose fields are followed"""
        return e.id if isinstance(e, ast.Name) and e.id + '.' in self.env else None

    def construct(self, c, args, kws, e, stars, dstars):
        init = None
        for k in c.mro():
            if '__init__' in k.methods:
                init = k.methods['__init__']
                break
        if init is None:
            return held(*(args + list(kws.values()) + stars + dstars)) if c.is_dataclass or c.is_namedtuple() or any(k.is_dataclass for k in c.mro()) else NOTHING
        s = self.own.sum.get(init.node)
        if s is None:
            return NOTHING
        got = self.bindargs(init, args, kws, stars, dstars, 1)
        self.apply(s, init, got, kws, e, NOTHING, e, constructing=True)
        self.made = {a: self.translate(v, got, recv=NOTHING) for a, v in s.stores.items()}
        return held(*self.made.values())

    def base(self, b, got, recv, self_recv):
        """what a name of the callee is here"""
        if b[0] == 'p':
            return got.get(b[1], NOTHING)
        if b[0] == 'p*':
            return part(got.get(b[1], NOTHING), b)
        if b[0] in ('m', 'm*', 'c', 'c*'):
            return whole(b)
        if b[0] == 'self':
            return SELF if self_recv is True else recv or NOTHING
        if self_recv:
            k = ('self.' if self_recv is True else self_recv + '.') + b[1]
            if k in self.env:
                return self.env[k] if b[0] == 'a' else part(self.env[k], b)
            if self_recv is True:
                return whole(b)
            if b[1] == '?':
                return deepparts(recv) if recv is not None else NOTHING
            return NOTHING           # made by the constructor of an object made here
        return deepparts(recv) if recv is not None else NOTHING

    def translate(self, v, got, recv=None, self_recv=False):
        out = [set() for _ in range(LEVELS)]
        for i, s in enumerate(v):
            for b in s:
                x = self.base(b, got, recv, self_recv)
                if i == 0:
                    for j in range(LEVELS):
                        out[j] |= x[j]
                else:
                    out[i] |= x[0]
                    for j in range(i + 1, LEVELS):
                        out[j] |= x[j - i]
        return tuple(frozenset(x) for x in out)

    def apply(self, s, f, got, kws, e, recv, node, constructing=False, prefix=None):
        """the callee's effects, in terms of the caller's objects"""
        self_recv = True if recv is not None and ('self',) in recv[0] else prefix
        for (b, sure), ev in list(s.events.items()):
            if b[0] in ('m', 'm*', 'c', 'c*') or b[0] in ('a', 'a*', 'self') and constructing:
                continue         # module-level state is reported where it is changed
            bases = self.base(b, got, recv, self_recv)[0]
            for x in bases:
                self.event(Event(x, node if node is not None else ev.node, ev.how, self.f, sure, ((f.qual, ev.node),) + ev.via))
        if self_recv:
            new = {('self.' if self_recv is True else self_recv + '.') + a: self.translate(v, got, recv=recv, self_recv=self_recv) for a, v in s.stores.items()}
            self.env.update(new)

    # ---- effects
    def mutate(self, v, node, how, sure):
        for b in v[0]:
            self.event(Event(b, node, how, self.f, sure))

    def event(self, ev):
        self.s.events.setdefault(ev.key(), ev)

    # ---- statements
    def body(self, ss):
        for s in ss:
            if self.dead:
                # unreachable, but keep going: nothing after it runs
                return
            getattr(self, 's_' + s.__class__.__name__, self.generic)(s)

    def generic(self, s):
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.v(c)

    def s_Expr(self, s):
        self.v(s.value)

    def s_Return(self, s):
        self.rets.append(self.v(s.value))
        self.attrs_out.append({k: v for k, v in self.env.items() if k.startswith('self.')})
        self.dead = True

    def s_Raise(self, s):
        if s.exc is not None:
            self.v(s.exc)
        self.dead = True

    def s_Continue(self, s):
        self.dead = True

    s_Break = s_Continue

    def s_Assert(self, s):
        self.v(s.test)

    def s_Assign(self, s):
        self.made = None
        v = self.v(s.value)
        made = self.made if isinstance(s.value, ast.Call) and isinstance(self.m.resolve_expr(s.value.func) if isinstance(s.value.func, (ast.Name, ast.Attribute)) else None, Cls) else None
        t = self.type(s.value)
        for x in s.targets:
            if isinstance(x, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(x.elts) == len(s.value.elts) and not any(isinstance(y, ast.Starred) for y in x.elts + s.value.elts):
                vs = [self.v(y) for y in s.value.elts]
                for y, w, z in zip(x.elts, vs, s.value.elts):
                    self.bind(y, w, s, self.type(z))
            else:
                self.bind(x, v, s, t)
            if made is not None and isinstance(x, ast.Name):
                self.env[x.id + '.'] = NOTHING
                for a, w in made.items():
                    self.env[x.id + '.' + a] = w

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.bind(s.target, self.v(s.value), s, self.type(s.value))

    def s_AugAssign(self, s):
        v = self.v(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            x = self.v_Name(ast.Name(t.id, ast.Load()))
            if x[0]:
                self.mutate(x, s, f'{t.id} {opname(s.op)}= ... in place', self.aug_sure(t.id, s))
            if t.id not in self.env:
                self.env[t.id] = x
        elif isinstance(t, ast.Attribute):
            x = self.v(ast.Attribute(t.value, t.attr, ast.Load()))
            if isinstance(t.value, ast.Name) and t.value.id == self.self_name:
                if x[0]:
                    self.mutate(x, s, f'self.{t.attr} {opname(s.op)}= ... in place', listy(s.value))
            else:
                o = self.v(t.value)
                self.mutate(o, s, f'.{t.attr} {opname(s.op)}= ...', True)
        elif isinstance(t, ast.Subscript):
            self.v(t.slice)
            self.mutate(self.v(t.value), s, f'[...] {opname(s.op)}= ...', True)

    def aug_sure(self, name, s):
        """is the object certainly a mutable one?  evidence: it is indexed, measured or iterated in the function, or a list is added"""
        if self.kinds.get(name) in ('scalar', 'scalar?'):
            return False
        if listy(s.value):
            return True
        doc = ast.get_docstring(self.f.node) or (ast.get_docstring(self.f.cls.node) if self.f.cls is not None else '') or ''
        if re.search(r'\b%s\s*:[^\n]*(array|list|sequence|\(n\b)' % re.escape(name), doc):
            return True
        for a in self.f.node.args.posonlyargs + self.f.node.args.args + self.f.node.args.kwonlyargs:
            if a.arg == name and a.annotation is not None and re.search(r'NDArray|ndarray|ArrayLike|[Ll]ist|Sequence', ast.unparse(a.annotation)):
                return True
        for x in ast.walk(self.f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('diff', 'cumsum', 'stack', 'vstack', 'hstack', 'concatenate', 'column_stack', 'einsum', 'append', 'insert', 'zeros_like', 'array', 'asarray') \
                    and isinstance(x.func.value, ast.Name) and x.func.value.id in ('np', 'numpy') and any(isinstance(y, ast.Name) and y.id == name for a in x.args for y in ast.walk(a)):
                return True
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == name:
                return True
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == name and x.attr in ('shape', 'T', 'reshape', 'ndim', 'size', 'dot', 'copy', 'astype', 'sum', 'mean', 'max', 'min'):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len', 'zip', 'enumerate', 'list', 'sorted') and any(isinstance(a, ast.Name) and a.id == name for a in x.args):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('norm', 'cross', 'dot') and any(isinstance(a, ast.Name) and a.id == name for a in x.args):
                return True
            if isinstance(x, ast.For) and isinstance(x.iter, ast.Name) and x.iter.id == name:
                return True
        return False

    def bind(self, t, v, s, cls=None):
        if isinstance(t, ast.Name):
            if self.global_decl(t.id):
                self.event(Event(('m', self.m.short, t.id), t, f'global {t.id} = ...', self.f, True))
                return
            for k in [k for k in self.env if k.startswith(t.id + '.') and t.id != self.self_name]:
                del self.env[k]
            self.env[t.id] = v
            if cls is not None:
                self.types[t.id] = cls
            else:
                self.types.pop(t.id, None)
            self.kinds.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, element(v), s)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.self_name and self.self_name is not None:
                l = self.cls.lookup(t.attr) if self.cls is not None else None
                if l is not None and l[0] == 'prop':
                    for c in self.cls.mro():
                        if t.attr in c.setters:
                            self.call_func(c.setters[t.attr], [v], {}, t, SELF, [], [])
                    return
                self.event(Event(('self',), t, f'self.{t.attr} = ...', self.f, True))
                self.env['self.' + t.attr] = v
                if cls is not None and self.cls is not None:
                    self.own.classof.setdefault((self.cls.node, t.attr), cls)
                    self.types['self.' + t.attr] = cls
                return
            r = self.m.resolve_expr(t.value) if isinstance(t.value, (ast.Name, ast.Attribute)) and not (isinstance(t.value, ast.Name) and t.value.id in self.env) else None
            if isinstance(r, Module):
                self.event(Event(('m', r.short, t.attr), t, f'{t.attr} of a module is set', self.f, True))
                return
            if isinstance(r, Cls) or isinstance(t.value, ast.Name) and t.value.id == self.clsname and self.clsname:
                c = r if isinstance(r, Cls) else self.f.cls
                self.event(Event(('c', c.qual, t.attr), t, f'{t.attr} of a class is set', self.f, True))
                return
            if isinstance(r, Func):
                self.event(Event(('m', r.module.short, r.name + '.' + t.attr), t, 'an attribute of a function is set', self.f, True))
                return
            self.mutate(self.v(t.value), t, f'.{t.attr} = ...', True)
            self.absorb(t.value, v)
            if isinstance(t.value, ast.Name) and t.value.id + '.' in self.env:
                self.env[t.value.id + '.' + t.attr] = v
        elif isinstance(t, ast.Subscript):
            self.v(t.slice)
            self.mutate(self.v(t.value), t, '[...] = ...', True)
            self.absorb(t.value, v)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, s)

    def global_decl(self, n):
        for x in ast.walk(self.f.node):
            if isinstance(x, ast.Global) and n in x.names:
                return True
        return False

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.mutate(self.v(t.value), t, 'del [...]', True)
            elif isinstance(t, ast.Attribute):
                if isinstance(t.value, ast.Name) and t.value.id == self.self_name:
                    self.event(Event(('self',), t, f'del self.{t.attr}', self.f, True))
                else:
                    self.mutate(self.v(t.value), t, f'del .{t.attr}', True)

    def fork(self, *bodies):
        start, dead0 = dict(self.env), self.dead
        types0 = dict(self.types)
        outs, touts = [], []
        for b in bodies:
            self.env, self.dead, self.types = dict(start), dead0, dict(types0)
            self.body(b)
            if not self.dead:
                outs.append(self.env)
                touts.append(self.types)
        if not outs:
            self.dead = True
            self.env = start
            return
        self.dead = dead0
        env = {}
        for k in set().union(*outs):
            vs = [o[k] if k in o else (self.fallback(k)) for o in outs]
            env[k] = union(*vs)
        self.env = env
        self.types = {k: v for k, v in touts[0].items() if all(t.get(k) is v for t in touts)}

    def fallback(self, k):
        if k.startswith('self.'):
            a = k[5:]
            return whole(('a', a))
        return NOTHING

    def s_If(self, s):
        self.v(s.test)
        n = none_test(s.test)
        if n is not None:
            # where a parameter is None there is no object of the caller's
            name, isnone = n
            start = self.env.get(name)
            if start is not None:
                def run(b, none):
                    return [('bindnone', name)] if none else []
                return self.fork_none(s, name, isnone)
        self.fork(s.body, s.orelse)

    def fork_none(self, s, name, isnone):
        start, types0 = dict(self.env), dict(self.types)
        outs, touts = [], []
        for b, none in ((s.body, isnone), (s.orelse, not isnone)):
            self.env, self.dead, self.types = dict(start), False, dict(types0)
            if none:
                self.env[name] = NOTHING
            self.body(b)
            if not self.dead:
                outs.append(self.env)
                touts.append(self.types)
        if not outs:
            self.dead = True
            self.env = start
            return
        self.dead = False
        self.env = {k: union(*[o[k] if k in o else self.fallback(k) for o in outs]) for k in set().union(*outs)}
        self.types = {k: v for k, v in touts[0].items() if all(t.get(k) is v for t in touts)}

    def s_For(self, s):
        it = element(self.v(s.iter))
        for _ in range(2):
            start = dict(self.env)
            self.bind(s.target, it, s)
            self.body(s.body)
            self.dead = False
            self.env = {k: union(start.get(k, self.fallback(k)), v) for k, v in self.env.items()}
        self.body(s.orelse)

    s_AsyncFor = s_For

    def s_While(self, s):
        for _ in range(2):
            self.v(s.test)
            start = dict(self.env)
            self.body(s.body)
            self.dead = False
            self.env = {k: union(start.get(k, self.fallback(k)), v) for k, v in self.env.items()}
        self.body(s.orelse)

    def s_With(self, s):
        for i in s.items:
            v = self.v(i.context_expr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, NOTHING, s)
        self.body(s.body)

    def s_Try(self, s):
        start = dict(self.env)
        self.body(s.body)
        after, dead = dict(self.env), self.dead
        mid = {k: union(start.get(k, self.fallback(k)), after.get(k, NOTHING)) for k in set(start) | set(after)}
        outs = []
        if not dead:
            self.body(s.orelse)
            if not self.dead:
                outs.append(dict(self.env))
        for h in s.handlers:
            self.env, self.dead = dict(mid), False
            self.body(h.body)
            if not self.dead:
                outs.append(dict(self.env))
        if outs:
            self.dead = False
            self.env = {k: union(*[o[k] if k in o else self.fallback(k) for o in outs]) for k in set().union(*outs)}
        else:
            self.dead = True
        if s.finalbody:
            d, self.dead = self.dead, False
            self.body(s.finalbody)
            self.dead = d or self.dead

    def s_FunctionDef(self, s):
        w = Walk(self.own, Func(s.name, s, self.m, cls=self.f.cls, parent=self.f), env=self.env, outer=self)
        w.body(s.body)
        self.env[s.name] = NOTHING

    def s_ClassDef(self, s):
        pass

    def s_Match(self, s):
        self.v(s.subject)
        self.fork(*([c.body for c in s.cases] + [[]]))


def mutable(e):
    """may the value be an object that can change?"""
    if e is None:
        return False
    if isinstance(e, ast.Constant):
        return False
    if isinstance(e, ast.Tuple):
        return any(mutable(x) for x in e.elts)
    if isinstance(e, (ast.UnaryOp, ast.BinOp, ast.Compare, ast.JoinedStr)):
        return False
    return True


def flat(e):
    """a display whose elements cannot change"""
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return not any(mutable(x) for x in e.elts)
    if isinstance(e, ast.Dict):
        return not any(x is None for x in e.keys) and not any(mutable(x) for x in e.values)
    if isinstance(e, ast.Call) and getattr(e.func, 'id', '') in ('frozenset', 'set') and len(e.args) == 1:
        return flat(e.args[0])
    return False


def none_test(e):
    """(name, True) for `name is None`, (name, False) for `name is not None`"""
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
        if isinstance(e.ops[0], (ast.Is, ast.Eq)):
            return e.left.id, True
        if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
            return e.left.id, False
    return None


def listy(e):
    return isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.DictComp)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'dict')


def pairs(e):
    """is this evidently an iterable of (key, value)"""
    if isinstance(e, ast.Call):
        n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
        return n in ('zip', 'enumerate', 'items') or n in ('sorted', 'reversed', 'list', 'tuple', 'filter') and bool(e.args) and pairs(e.args[-1])
    return isinstance(e, (ast.GeneratorExp, ast.ListComp)) and isinstance(e.elt, ast.Tuple) or isinstance(e, (ast.List, ast.Tuple)) and bool(e.elts) and all(isinstance(x, ast.Tuple) for x in e.elts)


def fancy(s):
    """an index that certainly makes a new array: a comparison, or a list of indices"""
    xs = s.elts if isinstance(s, ast.Tuple) else [s]
    return any(isinstance(x, (ast.Compare, ast.List, ast.ListComp)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('where', 'argsort', 'nonzero', 'flatnonzero') or isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Invert) for x in xs)


def opname(op):
    return {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/'}.get(op.__class__.__name__, op.__class__.__name__)
