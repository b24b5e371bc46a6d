"""Which names are bound where they are read: a path-sensitive definite-assignment analysis.

A state is the set of names bound on a path and what the path's branches have established about plain conditions (texts of
conditions over names not stored since, with equality to constants, membership and None understood). A branch that these
facts decide is followed one way only, so that a name bound under a condition and read under the same condition is bound."""
import ast, builtins

LIMIT = 400


# what these give may be None
MAYBE = {'get', 'pop', 'getattr', 'next', 'match', 'search', 'fullmatch', 'find', 'max', 'min', 'item', 'setdefault', 'update', 'append', 'sort', 'copy', 'deepcopy', 'eval'}


class Overflow(Exception):
    pass


class St:
    __slots__ = ('names', 'facts', 'why')

    def __init__(self, names, facts, why=()):
        self.names, self.facts, self.why = names, facts, why

    def key(self):
        return (self.names, frozenset(self.facts.items()))


def names_in(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def stored(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def stored_deep(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {(a.asname or a.name).split('.')[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names} | {
        x.name for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.ClassDef))}


def own(n):
    """nodes of a function, nested scopes left out"""
    st = list(ast.iter_child_nodes(n))
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        st.extend(ast.iter_child_nodes(x))


def local_names(f):
    out = set()
    glob = set()
    for x in own(f):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            glob |= set(x.names)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in x.names if a.name != '*'}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, ast.NamedExpr):
            out.add(x.target.id)
        elif isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            out |= {y.target.id for y in ast.walk(x) if isinstance(y, ast.NamedExpr)}
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
    return out - glob, glob


def params(f):
    a = f.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])}


def key(e):
    return ast.unparse(e)


def const(e):
    if isinstance(e, ast.Constant):
        return (e.value,)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        try:
            return (-e.operand.value,)
        except TypeError:
            return None
    return None


class Bound:
    """report(name, node, path) of each read that some path reaches with the name unbound"""

    def __init__(self, f, report):
        self.node, self.report = f, report
        self.locals, _ = local_names(f)
        self.locals -= params(f)
        self.loops = [x for x in own(f) if isinstance(x, (ast.For, ast.While, ast.AsyncFor))]

    def run(self):
        real, found = self.report, []
        self.report = lambda *a: found.append(a)
        self.simple = True
        self.go()
        self.simple = False
        self.report = real
        if not found:
            return
        # the names in question, and the conditions that are tested more than once
        self.locals &= {a[0] for a in found}
        self.seen = {}
        for x in own(self.node):
            if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                for k in {key(y) for y in ast.walk(x.test) if isinstance(y, (ast.Name, ast.Attribute, ast.Call, ast.Compare, ast.Subscript))}:
                    self.seen[k] = self.seen.get(k, 0) + 1
            elif isinstance(x, ast.Assign) and isinstance(x.value, (ast.Compare, ast.BoolOp)):
                for k in {key(y) for y in ast.walk(x.value) if isinstance(y, (ast.Name, ast.Attribute, ast.Call, ast.Compare, ast.Subscript))}:
                    self.seen[k] = self.seen.get(k, 0) + 1
        self.go()

    seen = None

    def bind(self, s, names, value=None):
        t = self.bind0(s, names, value)
        return t if self.seen is None else St(t.names & self.keepnames(), t.facts, t.why)

    def keepnames(self):
        return self.locals

    def go(self):
        s = St(frozenset(params(self.node)), {})
        body = self.node.body
        self.block(body, [s], None)

    # ----------------------------------------------------------------------------------------------------------------
    def block(self, stmts, states, loop):
        """-> states that fall through; loop = (breaks, continues) lists; trys = states at each point for handlers"""
        for n in stmts:
            if not states:
                return []
            states = self.dedupe([y for s in states for y in self.stmt(n, s, loop)])
        return states

    simple = False

    def dedupe(self, states):
        if self.simple and states:
            nm = states[0].names
            for s in states[1:]:
                nm = nm & s.names
            return [St(nm, {}, states[0].why)]
        seen, out = set(), []
        for s in states:
            kk = s.key()
            if kk not in seen:
                seen.add(kk)
                out.append(s)
        if len(out) > LIMIT:
            # facts dropped where the bound names agree, then the smallest sets only
            seen, o2 = {}, []
            for s in out:
                seen.setdefault(s.names, []).append(s)
            if len(seen) > LIMIT:
                raise Overflow
            for nm, l in seen.items():
                common = {a: b for a, b in l[0].facts.items() if all(x.facts.get(a) == b for x in l)}
                o2.append(St(nm, common, l[0].why))
            # without the facts a correlation may be lost
            self.lossy = True
            return o2
        return out

    lossy = False

    def bind0(self, s, names, value=None):
        if not names:
            return s
        f = {k: v for k, v in s.facts.items() if not (names & self.mentions(k))}
        if value is not None and len(names) == 1:
            c = const(value)
            if c is not None:
                f[next(iter(names))] = ('=', c[0]) if not isinstance(c[0], bool) else ('t', c[0])
            elif not self.simple and self.something(value):
                return self.know(St(s.names | names, f, s.why), next(iter(names)), ('nn', None))
        return St(s.names | names, f, s.why)

    def something(self, e):
        """the value of the expression is not None"""
        if isinstance(e, (ast.BinOp, ast.Compare, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.JoinedStr, ast.Lambda)):
            return True
        if isinstance(e, ast.IfExp):
            return self.something(e.body) and self.something(e.orelse)
        if isinstance(e, ast.Call):
            a = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
            return a is not None and a not in MAYBE and not (self.maynone is not None and self.maynone(e))
        return False

    maynone = None
    cache = {}

    def mentions(self, k):
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = names_in(ast.parse(k, mode='eval'))
        return r

    def unbind(self, s, names):
        return St(s.names - names, {k: v for k, v in s.facts.items() if not (names & self.mentions(k))}, s.why)

    # --- reads -----------------------------------------------------------------------------------------------------
    def reads(self, e, s):
        """checks reads in evaluation order roughly; -> state (walrus binds)"""
        if e is None:
            return s
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in s.names:
                self.report(e.id, e, self.verdict(e.id, s.why), self.lossy)
                s = St(s.names | {e.id}, s.facts, s.why)     # once
            return s
        if isinstance(e, ast.NamedExpr):
            s = self.reads(e.value, s)
            return self.bind(s, {e.target.id}, e.value)
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            for d in list(e.args.defaults) + [x for x in e.args.kw_defaults if x is not None]:
                s = self.reads(d, s)
            return s
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = set().union(*[stored(g.target) for g in e.generators])
            s = self.reads(e.generators[0].iter, s)
            t = St(s.names | inner, s.facts, s.why)
            for i, g in enumerate(e.generators):
                if i:
                    t = self.reads(g.iter, t)
                for c in g.ifs:
                    t = self.reads(c, t)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                t = self.reads(x, t)
            return s
        if isinstance(e, ast.BoolOp):
            t = s
            first = None
            for i, x in enumerate(e.values):
                t = self.reads(x, t)
                if first is None:
                    first = t
                ok = [y for y in self.assume(x, t, isinstance(e.op, ast.And))]
                if not ok:
                    break
                t = ok[0] if len(ok) == 1 else t
            return first
        if isinstance(e, ast.IfExp):
            s = self.reads(e.test, s)
            for b, x in ((True, e.body), (False, e.orelse)):
                for y in self.assume(e.test, s, b):
                    self.reads(x, y)
            return s
        for c in ast.iter_child_nodes(e):
            s = self.reads(c, s)
        return s

    # --- conditions ------------------------------------------------------------------------------------------------
    def assume(self, e, s, b):
        """states in which e is b (possibly none)"""
        if isinstance(e, ast.Constant):
            return [s] if bool(e.value) == b else []
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, s, not b)
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            if isand == b:
                out = [s]
                for x in e.values:
                    out = [z for y in out for z in self.assume(x, y, b)]
                return out
            out, live = [], [s]
            for x in e.values:
                for y in live:
                    out += self.assume(x, y, b)
                live = [z for y in live for z in self.assume(x, y, not b)]
            return self.dedupe(out)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], (ast.Tuple, ast.List)) and e.args[0].elts:
            return self.assume(ast.BoolOp(ast.Or() if e.func.id == 'any' else ast.And(), e.args[0].elts), s, b)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1:
            return self.assume(e.args[0], s, b)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, l, r = e.ops[0], e.left, e.comparators[0]
            if const(l) is not None and const(r) is None and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                l, r = r, l
            c = const(r)
            if isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn)):
                b = not b
            if c is not None and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                return self.domain(key(l), s, {c[0]}, b)
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, (ast.Tuple, ast.List, ast.Set)) and r.elts and all(const(x) is not None for x in r.elts):
                return self.domain(key(l), s, {const(x)[0] for x in r.elts}, b)
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                x, cc, o = (l, const(r), type(op)) if const(r) is not None else (r, const(l), {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(op)])
                d = s.facts.get(key(x)) if cc is not None else None
                if d is not None and d[0] in ('=', 'min') and isinstance(d[1], (int, float)) and isinstance(cc[0], (int, float)):
                    if d[0] == '=':
                        v = {ast.Lt: d[1] < cc[0], ast.LtE: d[1] <= cc[0], ast.Gt: d[1] > cc[0], ast.GtE: d[1] >= cc[0]}[o]
                        return [s] if v == b else []
                    if o in (ast.Gt, ast.GtE) and (d[1] > cc[0] or o is ast.GtE and d[1] >= cc[0]):
                        return [s] if b else []
                    if o in (ast.Lt, ast.LtE) and (d[1] > cc[0] or o is ast.Lt and d[1] >= cc[0]):
                        return [] if b else [s]
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, (ast.Name, ast.Attribute)) and isinstance(l, (ast.Name, ast.Attribute)) and b and key(l) not in s.facts:
                # a member of a collection of names is not None
                s = self.know(s, key(l), ('t', True))
            flip = {ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Lt: ast.GtE, ast.GtE: ast.Lt}
            pos = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}
            o = type(op)
            if o in pos:
                o = pos[o]
            elif o in (ast.LtE, ast.GtE):
                o = flip[o]
                b = not b
            swap = o is ast.Lt
            if swap:
                l, r, o = r, l, ast.Gt
            return self.fact(f'{key(l)} {"==" if o is ast.Eq else "is" if o is ast.Is else "in" if o is ast.In else ">"} {key(r)}' if isinstance(l, (ast.Name, ast.Attribute, ast.Call, ast.Subscript, ast.Constant)) and isinstance(r, (ast.Name, ast.Attribute, ast.Call, ast.Subscript, ast.Constant))
                             else f'({key(l)}) {"==" if o is ast.Eq else "is" if o is ast.Is else "in" if o is ast.In else ">"} ({key(r)})', s, b)
        # plain truth
        kk = key(e)
        d = s.facts.get(kk)
        if d is not None:
            if d[0] == 't':
                return [s] if d[1] == b else []
            if d[0] == '=':
                return [s] if bool(d[1]) == b else []
            if d[0] == 'min' and d[1] > 0:
                return [s] if b else []
            if d[0] == 'in' and len({bool(x) for x in d[1]}) == 1:
                return [s] if bool(next(iter(d[1]))) == b else []
            if d[0] == 'nn':
                return [self.know(s, kk, ('t', b))] if b else [s]
            return [s]
        return [self.know(s, kk, ('t', b))]

    pk = {}

    def partkeys(self, kk):
        if kk not in self.pk:
            try:
                self.pk[kk] = [key(y) for y in ast.walk(ast.parse(kk, mode='eval').body) if isinstance(y, (ast.Attribute, ast.Call, ast.Subscript))] if ' ' in kk else []
            except SyntaxError:
                self.pk[kk] = []
        return self.pk[kk]

    def fact(self, kk, s, b):
        d = s.facts.get(kk)
        if d is not None:
            return [s] if d[1] == b else []
        return [self.know(s, kk, ('t', b))]

    def know(self, s, kk, v):
        if self.simple:
            return s
        if self.seen is not None and not any(self.seen.get(x, 0) >= (1 if v[0] in ('=', 'min', 'nn') else 2) for x in {kk} | set(self.partkeys(kk))):
            return s
        try:
            hash(v)
        except TypeError:
            return s
        f = dict(s.facts)
        f[kk] = v
        return St(s.names, f, s.why)

    def domain(self, kk, s, vals, b):
        try:
            vals = frozenset(vals)
        except TypeError:
            return [s]
        d = s.facts.get(kk)
        if d is None:
            return [self.know(s, kk, ('in' if b else 'out', vals))]
        if d[0] == 't':
            keep = [v for v in vals if bool(v) == d[1]]
            if b and not keep:
                return []
            if b:
                return [self.know(s, kk, ('in', frozenset(keep)))]
            if isinstance(d[1], bool) and d[1] in vals and any(v is d[1] for v in vals):
                return []
            return [s]
        if d[0] == '=':
            isin = any(v == d[1] and type(v) is type(d[1]) for v in vals)
            return [s] if isin == b else []
        if d[0] == 'nn':
            if vals == {None}:
                return [] if b else [s]
            return [self.know(s, kk, ('in', vals - {None}))] if b and vals - {None} else [] if b else [s]
        if d[0] == 'min':
            if all(isinstance(v, (int, float)) and v < d[1] for v in vals):
                return [] if b else [s]
            return [s]
        if d[0] == 'in':
            new = d[1] & vals if b else d[1] - vals
            return [self.know(s, kk, ('in', new))] if new else []
        if d[0] == 'out':
            if b:
                new = vals - d[1]
                return [self.know(s, kk, ('in', new))] if new else []
            return [self.know(s, kk, ('out', d[1] | vals))]
        return [s]

    # --- statements ------------------------------------------------------------------------------------------------
    def stmt(self, n, s, loop):
        t = type(n)
        if t in (ast.Assign, ast.AnnAssign, ast.AugAssign):
            if t is ast.AugAssign and isinstance(n.target, ast.Name):
                if n.target.id in self.locals and n.target.id not in s.names:
                    self.report(n.target.id, n, self.verdict(n.target.id, s.why), self.lossy)
            if n.value is None:
                return [s]
            s = self.reads(n.value, s)
            tg = n.targets if t is ast.Assign else [n.target]
            for x in tg:
                s = self.reads(x, s)
                nm = stored(x)
                s = self.bind(s, nm, n.value if isinstance(x, ast.Name) and t is not ast.AugAssign else None)
                # facts about attributes and items that are stored
                if not isinstance(x, (ast.Name, ast.Tuple, ast.List)) or isinstance(x, (ast.Tuple, ast.List)):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                            a = y.attr
                            s = St(s.names, {k: v for k, v in s.facts.items() if '.' + a not in k}, s.why)
                    if isinstance(x, ast.Attribute) and const(n.value) is not None and t is not ast.AugAssign:
                        cc = const(n.value)[0]
                        s = self.know(s, key(x), ('=', cc) if not isinstance(cc, bool) else ('t', cc))
                    elif isinstance(x, ast.Attribute) and t is not ast.AugAssign and not self.simple and self.something(n.value):
                        s = self.know(s, key(x), ('nn', None))
                elif isinstance(x, ast.Name) and isinstance(n.value, (ast.Compare, ast.BoolOp)) and t is ast.Assign and x.id not in names_in(n.value):
                    # a named condition
                    out = []
                    for b in (True, False):
                        for y in self.assume(n.value, s, b):
                            out.append(self.know(y, x.id, ('t', b)))
                    if out and len(tg) == 1 and len(out) <= 4:
                        return out
            return [s]
        if t is ast.Expr:
            return [self.reads(n.value, s)]
        if t is ast.Return:
            self.reads(n.value, s)
            return []
        if t is ast.Raise:
            self.reads(n.exc, s)
            return []
        if t is ast.Assert:
            s = self.reads(n.test, s)
            return self.assume(n.test, s, True)
        if t is ast.If:
            s = self.reads(n.test, s)
            out = []
            y = self.assume(n.test, s, True)
            out += self.block(n.body, [St(x.names, x.facts, x.why) for x in y], loop)
            z = self.assume(n.test, s, False)
            if not n.orelse:
                z = [St(x.names, x.facts, x.why + ((n, 'enum' if self.enum(n.test) else 'loop' if loop is not None else 'fall'),)) for x in z]
            out += self.block(n.orelse, z, loop) if n.orelse else z
            return self.dedupe(out)
        if t in (ast.For, ast.AsyncFor):
            s = self.reads(n.iter, s)
            return self.dofor(n, s)
        if t is ast.While:
            return self.dowhile(n, s)
        if t in (ast.With, ast.AsyncWith):
            for i in n.items:
                s = self.reads(i.context_expr, s)
                if i.optional_vars is not None:
                    s = self.bind(s, stored(i.optional_vars))
            return self.block(n.body, [s], loop)
        if t is ast.Try or t.__name__ == 'TryStar':
            return self.dotry(n, s, loop)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            for d in n.decorator_list:
                s = self.reads(d, s)
            s = self.reads(n, s)
            return [self.bind(s, {n.name})]
        if t is ast.ClassDef:
            return [self.bind(s, {n.name})]
        if t in (ast.Import, ast.ImportFrom):
            return [self.bind(s, {(a.asname or a.name).split('.')[0] for a in n.names})]
        if t is ast.Delete:
            for x in n.targets:
                if isinstance(x, ast.Name):
                    s = self.unbind(s, {x.id})
            return [s]
        if t is ast.Break:
            if loop is not None:
                loop[0].append(s)
            return []
        if t is ast.Continue:
            if loop is not None:
                loop[1].append(s)
            return []
        if t.__name__ == 'Match':
            s = self.reads(n.subject, s)
            out = [s]
            for c in n.cases:
                nm = {x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
                out += self.block(c.body, [self.bind(s, nm)], loop)
            return self.dedupe(out)
        return [s]

    def enum(self, e):
        """a choice among named alternatives"""
        return any(isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Eq, ast.In)) and any(isinstance(y, ast.Constant) and isinstance(y.value, str) for c in x.comparators + [x.left] for y in ast.walk(c))
                   for x in ast.walk(e))

    def index(self, n):
        """(name, first value) of a loop's counter"""
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == 'enumerate' and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
                st = it.args[1] if len(it.args) > 1 else next((k.value for k in it.keywords if k.arg == 'start'), ast.Constant(0))
                v = const(st)
                return (n.target.elts[0].id, v[0]) if v and isinstance(v[0], int) else None
            if it.func.id == 'range' and isinstance(n.target, ast.Name) and len(it.args) < 3:
                v = const(it.args[0]) if len(it.args) == 2 else (0,)
                return (n.target.id, v[0]) if v and isinstance(v[0], int) else None
        return None

    def verdict(self, name, why):
        """'bad' when the path that leaves the name unbound is an ordinary one"""
        rel = [(n, t) for n, t in why if name in stored_deep(n)]
        if any(t in ('enum', 'loop') for n, t in rel):
            return 'unknown'
        if not rel and self.inloop(name):
            return 'unknown'
        return 'bad'

    def inloop(self, name):
        return all(any(x is y for l in self.loops for y in ast.walk(l)) for x in ast.walk(self.node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store))

    def dofor(self, n, s):
        """the body runs at least once"""
        brk, states = [], [s]
        seen = set()
        ends = []
        ix = self.index(n)
        rnd = 0
        while states:
            nx = []
            cont = []
            for x in states:
                if (x.key(), min(rnd, 2)) in seen:
                    continue
                seen.add((x.key(), min(rnd, 2)))
                b = self.bind(x, stored(n.target))
                if ix:
                    b = self.know(b, ix[0], ('=', ix[1] + rnd) if rnd < 2 else ('min', ix[1] + 2))
                nx += self.block(n.body, [b], (brk, cont))
            states = self.dedupe(nx + cont)
            ends += states
            rnd += 1
            if len(seen) > LIMIT:
                raise Overflow
        out = self.dedupe(ends)
        if n.orelse:
            out = self.block(n.orelse, out, None)
        return self.dedupe(out + brk)

    def dowhile(self, n, s):
        brk, states, seen, ends = [], [s], set(), []
        once = True
        while states:
            nx, cont = [], []
            for x in states:
                if x.key() in seen:
                    continue
                seen.add(x.key())
                x = self.reads(n.test, x)
                t = self.assume(n.test, x, True)
                if not once or not t:
                    ends += self.assume(n.test, x, False)
                nx += self.block(n.body, t, (brk, cont))
            once = False
            states = self.dedupe(nx + cont)
            if len(seen) > LIMIT:
                raise Overflow
        out = self.dedupe(ends)
        if n.orelse:
            out = self.block(n.orelse, out, None)
        return self.dedupe(out + brk)

    def dotry(self, n, s, loop):
        live, pre = [s], [s]
        rep, self.report = self.report, lambda *a: None
        # states from which the body may raise: before each of its statements that can
        try:
            for i, st in enumerate(n.body):
                live = self.dedupe([y for x in live for y in self.stmt(st, x, ([], []))])
                if i < len(n.body) - 1:
                    pre += live
        finally:
            self.report = rep
        outs = self.block(n.body, [s], loop)
        if n.orelse:
            outs = self.block(n.orelse, outs, loop)
        for h in n.handlers:
            es = [St(x.names | ({h.name} if h.name else set()), x.facts, x.why + ((n, 'except'),)) for x in self.dedupe(pre)]
            es = self.block(h.body, es, loop)
            outs += [self.unbind(x, {h.name}) if h.name else x for x in es]
        if n.finalbody:
            outs = self.block(n.finalbody, self.dedupe(outs), loop)
        return self.dedupe(outs)
