"""Which attributes of an object are set where its methods read them.

Every constructor is followed path by path (bound.py: names bound so far, facts its branches established, attributes
included), own methods and properties it uses are followed where they are called; each way a construction can end is then a
state in which every public method may be called. A read of an attribute that such a state leaves unset is reported, with
the branch that skipped the store."""
import ast
from .bound import Bound, St, Overflow, own, const, key, stored_deep, params, names_in
from .loader import Func, Cls

MAXSTATES = 160
WIDE = {'Exception', 'BaseException', 'AttributeError'}


class Attrs(Bound):
    def __init__(self, types, cls, report, budget=60000, light=False, loose=False):
        self.light = light
        self.T, self.cls = types, cls
        self.maynone = types.maynone
        self.rep = report
        self.track = set()
        self.memo, self.stack = {}, []
        self.silent = 0
        self.steps, self.budget = 0, budget
        self.report = lambda *a: None
        self.locals = set()
        self.mw = {}
        self.loops = []
        for a in types.allstores(cls):
            if cls.lookup(a) is None and (loose or a not in types.loose) and any(f.cls in cls.mro() for f, _ in types.stores(cls, a)):
                self.track.add(a)

    # names of attributes are kept as 'me.attr' whatever the first parameter is called
    def isself(self, e):
        return isinstance(e, ast.Name) and self.stack and e.id == self.stack[-1][1]

    def method(self, a):
        look = self.cls.lookup(a)
        if look is not None and isinstance(look[1], Func):
            return look[0], look[1]
        return None

    def maywrite(self, f, seen=None):
        seen = set() if seen is None else seen
        if f.node in seen:
            return set()
        if f.node in self.mw and not seen:
            return self.mw[f.node]
        top = not seen
        seen.add(f.node)
        out = set()
        me = self.T.me(f) or 'self'
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                if isinstance(x.ctx, ast.Store):
                    out.add(x.attr)
                m = self.method(x.attr)
                if m:
                    out |= self.maywrite(m[1], seen)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == 'super':
                for k in (f.cls.mro()[1:] if f.cls else []):
                    if x.func.attr in k.methods:
                        out |= self.maywrite(k.methods[x.func.attr], seen)
                        break
            if isinstance(x, ast.Call):
                g = self.bybase(x, f.cls)
                if g is not None:
                    out |= self.maywrite(g, seen)
                if isinstance(x.func, ast.Name) and x.func.id == 'setattr' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == me:
                    w = self.named(x, f.node)
                    out |= self.track if w is None else w
                    continue
            if isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == me for a in list(x.args) + [k.value for k in x.keywords]):
                # handed on to something that may store on it
                out |= {a for a in self.T.loose}
        if top:
            self.mw[f.node] = out
        return out

    def bybase(self, e, c):
        """Base.method(self, ...) -> method"""
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, (ast.Name, ast.Attribute)) and e.args and isinstance(e.args[0], ast.Name) and c is not None:
            k = c.module.resolve_expr(e.func.value)
            if isinstance(k, Cls) and k in self.cls.mro():
                look = k.lookup(e.func.attr)
                if look is not None and isinstance(look[1], Func) and look[0] == 'method' and not look[1].is_static:
                    return look[1]
        return None

    def named(self, call, n):
        """names that a setattr(self, name, ...) in the function may write: those of a constant collection that is iterated,
        none for names that the caller hands over, None where they are not evident"""
        if len(call.args) < 2:
            return None
        e = call.args[1]
        if isinstance(e, ast.Constant):
            return {e.value}
        if not isinstance(e, ast.Name):
            return None
        kw = n.args.kwarg.arg if n.args.kwarg else None
        for x in ast.walk(n):
            it = tg = None
            if isinstance(x, (ast.For, ast.comprehension)):
                it, tg = x.iter, x.target
            if it is None or e.id not in {y.id for y in ast.walk(tg) if isinstance(y, ast.Name)}:
                continue
            if kw and kw in names_in(it):
                return set()
            cs = {y.value for y in ast.walk(it) if isinstance(y, ast.Constant) and isinstance(y.value, str)}
            cs |= {k.arg for y in ast.walk(it) if isinstance(y, ast.Call) for k in y.keywords if k.arg}
            if cs and isinstance(it, (ast.Tuple, ast.List, ast.Set, ast.Dict, ast.Call)):
                return cs
            return None
        return None

    tests = None

    def conditions(self):
        """conditions worth remembering: those of branches that store or read a tracked attribute or leave the block"""
        self.tests = {}
        done = set()
        for c in self.T.family(self.cls):
            for f in c.all_functions():
                if f.node in done:
                    continue
                done.add(f.node)
                me = self.T.me(f) or 'self'
                for x in ast.walk(f.node):
                    if not isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                        continue
                    if isinstance(x, (ast.If, ast.While)) and not (self.track & self.touched(x)) and not any(isinstance(y, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for y in ast.walk(x)):
                        # a flag set to a constant matters as much as a store
                        if not any(isinstance(y, ast.Assign) and const(y.value) is not None for y in ast.walk(x)):
                            continue
                    for k in {ast.unparse(y).replace(me + '.', '') for y in ast.walk(x.test) if isinstance(y, (ast.Name, ast.Attribute, ast.Call, ast.Compare, ast.Subscript))}:
                        self.tests[k] = self.tests.get(k, 0) + 1

    def touched(self, n):
        return self.storedin(n) | {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute)}

    def run(self, f, states):
        if self.tests is None:
            self.conditions()
        self.loops = []
        me = self.T.me(f)
        return self.enter(f, states, None, me)

    def enter(self, f, states, call, me):
        """states at the call -> states after it"""
        out = []
        if len(self.stack) > 12 or any(g is f.node for g, _ in self.stack):
            w = self.maywrite(f)
            return [self.bindattrs(s, w) for s in states]
        for s in states:
            facts = {k: v for k, v in s.facts.items() if k.startswith('me.') or self.mentions(k) <= {'me'}}
            facts.update(self.argfacts(f, call, s))
            kk = (f.node, s.names, frozenset(facts.items()), self.silent > 0)
            if kk not in self.memo:
                self.stack.append((f.node, me))
                keep = self.node, self.loops
                self.node = f.node
                self.loops = [x for x in own(f.node) if isinstance(x, (ast.For, ast.While, ast.AsyncFor))]
                self.rets = []
                keepr = self.rets
                outer = getattr(self, 'cur', None)
                self.cur = []
                try:
                    ends = self.block(f.node.body, [St(s.names, facts, s.why)], None) + self.cur
                finally:
                    self.cur = outer
                    self.stack.pop()
                    self.node, self.loops = keep
                self.memo[kk] = self.dedupe([St(x.names, self.outfacts(x, f), x.why) for x in ends])
            base = {k: v for k, v in s.facts.items() if not (k.startswith('me.') or self.mentions(k) <= {'me'})}
            for x in self.memo[kk]:
                nf = dict(x.facts)
                nf.update(base)
                out.append(St(x.names, nf, x.why))
        return self.dedupe(out)

    node = None

    def argfacts(self, f, call, s):
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        given = {}
        ds = dict(zip(reversed(ps), reversed(a.defaults)))
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        if call is None:
            return {}
        if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return {}
        off = 1 if self.T.me(f) else 0
        for p, v in zip(ps[off:], call.args):
            given[p] = v
        for k in call.keywords:
            given[k.arg] = k.value
        for p, d in ds.items():
            given.setdefault(p, d)
        out = {}
        for p, v in given.items():
            c = const(v)
            if c is not None:
                out[p] = ('t', c[0]) if isinstance(c[0], bool) else ('=', c[0])
            else:
                d = s.facts.get(self.norm(key(v)))
                if d is not None:
                    out[p] = d
                if isinstance(v, (ast.Name, ast.Attribute)) and self.norm(key(v)).startswith('me.'):
                    out['alias ' + p] = ('@', self.norm(key(v)))
        return out

    def outfacts(self, s, f):
        """facts that outlive the call: those about attributes, and about parameters that an attribute keeps"""
        out = {}
        al = {k[6:]: v[1] for k, v in s.facts.items() if k.startswith('alias ')}
        for k, v in s.facts.items():
            if k.startswith('alias '):
                continue
            m = self.mentions(k)
            if m <= {'me'}:
                out[k] = v
            elif k in al:
                out.setdefault(al[k], v)
            elif len(m) == 1 and next(iter(m)) in al:
                p = next(iter(m))
                try:
                    t = ast.parse(k, mode='eval').body
                except SyntaxError:
                    continue
                out.setdefault(ast.unparse(Sub(p, al[p]).visit(t)), v)
        return out

    cachem = {}

    def mentions(self, k):
        if k.startswith('alias '):
            return {k[6:]} | Bound.mentions(self, self.dummy(k))
        return Bound.mentions(self, k)

    def dummy(self, k):
        return 'me'

    def norm(self, k):
        me = self.stack[-1][1] if self.stack else None
        if me and me != 'me' and me in k:
            try:
                t = ast.parse(k, mode='eval').body
            except SyntaxError:
                return k
            return ast.unparse(Sub(me, 'me').visit(t))
        return k

    # facts are kept with the object called 'me'
    def know(self, s, kk, v):
        if kk.startswith('alias '):
            return self.put(s, kk, v)
        if self.simple:
            return s
        kk = self.norm(kk)
        if self.light and not kk.startswith('me.'):
            return s
        b = kk.replace('me.', '')
        if not any(self.tests.get(x, 0) >= (1 if v[0] in ('=', 'min', 'nn') else 2) for x in {b} | {ast.unparse(y) for y in self.parts(b)}):
            return s
        return self.put(s, kk, v)

    def put(self, s, kk, v):
        try:
            hash(v)
        except TypeError:
            return s
        f = dict(s.facts)
        f[kk] = v
        return St(s.names, f, s.why)

    pcache = {}

    def parts(self, k):
        if k not in self.pcache:
            try:
                self.pcache[k] = [y for y in ast.walk(ast.parse(k, mode='eval').body) if isinstance(y, (ast.Attribute, ast.Call, ast.Subscript))] if ' ' in k else []
            except SyntaxError:
                self.pcache[k] = []
        return self.pcache[k]

    def fact(self, kk, s, b):
        return Bound.fact(self, self.norm(kk), s, b)

    def domain(self, kk, s, vals, b):
        kk = self.norm(kk)
        # an attribute that keeps a parameter
        return Bound.domain(self, kk, s, vals, b)

    def assume(self, e, s, b):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'hasattr' and len(e.args) == 2 and self.isself(e.args[0]) and isinstance(e.args[1], ast.Constant):
            a = 'me.' + e.args[1].value
            if a in s.names:
                return [s] if b else []
            if e.args[1].value in self.track:
                return [] if b else [s]
            return [s]
        me = self.stack[-1][1] if self.stack else None
        if me and isinstance(e, (ast.Name, ast.Attribute, ast.Compare, ast.Call, ast.Subscript)):
            # parameters kept by an attribute are spelt as the attribute
            al = {k[6:]: v[1] for k, v in s.facts.items() if k.startswith('alias ')}
            e2 = e
            if al and names_in(e) & set(al) or me != 'me' and me in names_in(e):
                e2 = ast.parse(ast.unparse(e), mode='eval').body
                for p, t in al.items():
                    e2 = Sub(p, t).visit(e2)
                e2 = Sub(me, 'me').visit(e2)
                if type(e2) is not type(e) and not isinstance(e2, (ast.Name, ast.Attribute, ast.Compare, ast.Call, ast.Subscript)):
                    e2 = e
            return Bound.assume(self, e2, s, b)
        return Bound.assume(self, e, s, b)

    def bindattrs(self, s, names):
        add = {'me.' + a for a in names if a in self.track}
        f = {k: v for k, v in s.facts.items() if not any('.' + a in k for a in names)} if names else s.facts
        return St(s.names | add, f, s.why)

    def bind(self, s, names, value=None):
        t = self.bind0(s, names, value)
        return St(s.names, t.facts, t.why)

    # --- reads -----------------------------------------------------------------------------------------------------
    def reads(self, e, s):
        if isinstance(e, ast.Attribute) and self.isself(e.value):
            if isinstance(e.ctx, ast.Load) and e.attr in self.track and 'me.' + e.attr not in s.names:
                if not self.silent and not self.shielded(e):
                    self.rep(self.cls, e.attr, self.stack[-1][0], e, self.verdict(e.attr, s.why), s)
                s = St(s.names | {'me.' + e.attr}, s.facts, s.why)
            return s
        return Bound.reads(self, e, s)

    def shielded(self, e):
        for t in own(self.node):
            if isinstance(t, ast.Try) and any(x is e for b in t.body for x in ast.walk(b)):
                for h in t.handlers:
                    ns = {'BaseException'} if h.type is None else {ast.unparse(x).rsplit('.', 1)[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
                    if ns & WIDE:
                        return True
        return False

    def verdict(self, a, why):
        rel = [(n, t) for n, t in why if a in self.storedin(n)]
        if any(t in ('enum', 'loop') for n, t in rel):
            return 'unknown'
        return 'bad' if rel else 'never'

    def storedin(self, n):
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(x.attr)
            if isinstance(x, ast.Attribute):
                m = self.method(x.attr)
                if m:
                    out |= self.maywrite(m[1])
        return out

    # --- statements ------------------------------------------------------------------------------------------------
    def heads(self, n):
        """expressions a statement evaluates itself"""
        if isinstance(n, (ast.If, ast.While)):
            return [n.test]
        if isinstance(n, (ast.For, ast.AsyncFor)):
            return [n.iter]
        if isinstance(n, (ast.With, ast.AsyncWith)):
            return [i.context_expr for i in n.items]
        if isinstance(n, (ast.Try, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return []
        return [n]

    def uses(self, e, sure=True):
        """(node, func, call or None, sure) of own methods called and properties read, inner first"""
        out = []
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return [(x, f, c, False) for x, f, c, _ in self.uses(e.body, False)] if isinstance(e, ast.Lambda) else []
        kids = list(ast.iter_child_nodes(e))
        if isinstance(e, ast.BoolOp):
            for i, v in enumerate(e.values):
                out += self.uses(v, sure and i == 0)
        elif isinstance(e, ast.IfExp):
            out += self.uses(e.test, sure) + self.uses(e.body, False) + self.uses(e.orelse, False)
        elif isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            out += self.uses(e.generators[0].iter, sure)
            for x in kids:
                out += self.uses(x, False) if x is not e.generators[0] else [u for y in [e.generators[0].target] + e.generators[0].ifs for u in self.uses(y, False)]
        elif isinstance(e, ast.Call):
            fn = e.func
            sup = isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super'
            g = self.bybase(e, self.owner())
            if g is not None and self.isself(e.args[0]):
                for x in list(e.args[1:]) + [k.value for k in e.keywords]:
                    out += self.uses(x, sure)
                out.append((e, g, ast.copy_location(ast.Call(e.func, e.args[1:], e.keywords), e), sure))
            elif isinstance(fn, ast.Attribute) and (self.isself(fn.value) or sup):
                for x in list(e.args) + [k.value for k in e.keywords]:
                    out += self.uses(x, sure)
                if sup:
                    g = None
                    cur = self.owner()
                    for k in (cur.mro()[1:] if cur else []):
                        if fn.attr in k.methods:
                            g = k.methods[fn.attr]
                            break
                    if g is not None:
                        out.append((e, g, e, sure))
                else:
                    m = self.method(fn.attr)
                    if m and m[0] == 'method':
                        out.append((e, m[1], e, sure))
                    elif m:
                        out.append((fn, m[1], None, sure))
            elif any(self.isself(x) for x in list(e.args) + [k.value for k in e.keywords]) and not (isinstance(fn, ast.Name) and fn.id in ('hasattr', 'getattr', 'isinstance', 'type', 'id', 'vars', 'deepcopy', 'copy')):
                for x in kids:
                    out += self.uses(x, sure)
                out.append((e, None, e, sure))
            else:
                for x in kids:
                    out += self.uses(x, sure)
        elif isinstance(e, ast.Attribute) and self.isself(e.value):
            if isinstance(e.ctx, ast.Load):
                m = self.method(e.attr)
                if m and m[0] == 'prop':
                    out.append((e, m[1], None, sure))
                elif m and not m[1].is_static:
                    out.append((e, m[1], None, False))      # handed on as a value
            if e.attr == '__dict__':
                out.append((e, None, None, sure))
        else:
            for x in kids:
                out += self.uses(x, sure)
        return out

    def owner(self):
        for k in self.T.family(self.cls):
            if any(f.node is self.node for f in k.all_functions()):
                return k
        return None

    def stmt(self, n, s, loop):
        self.steps += 1
        if self.steps > self.budget:
            raise Overflow
        states = [s]
        for h in self.heads(n):
            for node, g, call, sure in self.uses(h):
                if g is None:
                    # the object is handed on, or its dictionary used: anything may be stored
                    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'setattr' and self.isself(node.args[0]):
                        w = self.named(node, self.node)
                        states = [self.bindattrs(self.handed(x), self.track if w is None else w) for x in states]
                        continue
                    states = [self.bindattrs(x, self.track) if node is not None and isinstance(node, ast.Attribute) else self.handed(x) for x in states]
                elif sure and not self.shielded(node):
                    states = self.enter(g, states, call, self.T.me(g))
                else:
                    w = self.maywrite(g)
                    states = [self.bindattrs(x, w) for x in states]
        out = []
        for x in states:
            out += self.stmt1(n, x, loop)
        return out

    def handed(self, s):
        return St(s.names | {'me.' + a for a in self.track & self.T.loose}, {k: v for k, v in s.facts.items() if 'me' not in self.mentions(k) or k.startswith('alias ')}, s.why)

    def stmt1(self, n, s, loop):
        t = type(n)
        if t is ast.Return:
            if n.value is not None:
                s = self.reads(n.value, s)
            if self.cur is not None:
                self.cur.append(s)
            return []
        if t in (ast.Assign, ast.AnnAssign, ast.AugAssign) and n.value is not None:
            if t is ast.AugAssign and isinstance(n.target, ast.Attribute) and self.isself(n.target.value):
                s = self.reads(ast.copy_location(ast.Attribute(n.target.value, n.target.attr, ast.Load()), n.target), s)
            outs = Bound.stmt(self, n, s, loop)
            res = []
            for y in outs:
                tg = n.targets if t is ast.Assign else [n.target]
                for x in tg:
                    for z in ast.walk(x):
                        if isinstance(z, ast.Attribute) and isinstance(z.ctx, ast.Store) and self.isself(z.value):
                            a = 'me.' + z.attr
                            f = {k: v for k, v in y.facts.items() if not (k.startswith('alias ') and v[1] == a)}
                            y = St(y.names | {a}, f, y.why)
                    if isinstance(x, ast.Attribute) and self.isself(x.value) and isinstance(n.value, ast.Name) and t is ast.Assign:
                        p = n.value.id
                        f = dict(y.facts)
                        if p in f:
                            f['me.' + x.attr] = f[p]
                        f['alias ' + p] = ('@', 'me.' + x.attr)
                        y = St(y.names, f, y.why)
                res.append(y)
            return res
        if t is ast.Delete:
            for x in n.targets:
                if isinstance(x, ast.Attribute) and self.isself(x.value):
                    s = St(s.names - {'me.' + x.attr}, s.facts, s.why)
            return Bound.stmt(self, n, s, loop)
        if t is ast.Call:
            return [s]
        if t is ast.Try:
            return self.dotry(n, s, loop)
        return Bound.stmt(self, n, s, loop)

    def reads_setattr(self, e, s):
        return s

    def dedupe(self, states):
        # only attributes that may be unset, and facts, tell states apart
        out = Bound.dedupe(self, states)
        if len(out) > MAXSTATES:
            groups = {}
            for s in out:
                groups.setdefault(s.names, []).append(s)
            out = []
            for nm, l in groups.items():
                common = {a: b for a, b in l[0].facts.items() if all(x.facts.get(a) == b for x in l)}
                out.append(St(nm, common, l[0].why))
            if len(out) > MAXSTATES:
                raise Overflow
            self.lossy = True
        return out


class Sub(ast.NodeTransformer):
    def __init__(self, name, text):
        self.name, self.new = name, text

    def visit_Name(self, n):
        if n.id == self.name:
            return ast.parse(self.new, mode='eval').body
        return n
