"""Disjunctive dataflow over small abstract values.

A state maps the names of a function and the attributes of one object to abstract values: a constant (None, booleans,
texts, numbers and tuples of them), a tuple of abstract values, a function, a snapshot of attributes, "some object, not
None" or "anything". Branches whose condition the values decide are followed one way, others both ways; equal states are
merged. Calls of the object's own methods, and of repository functions that receive the object or a None, are entered.

Every attribute carries a tag (what wrote it last), so that the same run also answers which of several attempts a value
comes from."""
import ast
from .loader import Func, Cls, Ext, GlobalVar, AnalysisBroken

NUMERIC = {'numpy.' + x for x in (
    'cross dot linalg.norm full tile sqrt sin cos tan arccos arcsin arctan arctan2 radians degrees deg2rad rad2deg abs absolute add subtract multiply divide isnan diff cumsum '
    'sum mean allclose isclose concatenate vstack hstack stack exp log power around round inner outer matmul einsum').split()} | {
    'math.' + x for x in 'sqrt sin cos tan acos asin atan atan2 radians degrees isnan exp log floor ceil'.split()}
NN = ('nn',)
ANY = ('any',)
UNSET = ('unset',)
ME = ('me',)
NONE = ('k', None)


def k(x):
    return ('k', x)


def isk(v):
    return v[0] == 'k'


def mayNone(v):
    return v == NONE or v[0] == 'any'


class TooMany(Exception):
    pass


class State:
    __slots__ = ('env', 'attrs')

    def __init__(self, env=None, attrs=None):
        self.env, self.attrs = env or {}, attrs or {}

    def copy(self):
        return State(dict(self.env), dict(self.attrs))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.attrs.items()))


def dedupe(outs):
    seen, r = set(), []
    for s, sig in outs:
        kk = (s.key(), sig)
        try:
            if kk in seen:
                continue
            seen.add(kk)
        except TypeError:
            pass
        r.append((s, sig))
    return r


class States:
    """interpreter; on_issue(kind, node, func, text) is told of a use of None or of an attribute that was never set"""

    def __init__(self, prog, on_issue=None, limit=4000, opaque=(), tag=None, at_least_once=True, writes=None):
        self.prog = prog
        self.issue = on_issue or (lambda *a: None)
        self.limit, self.opaque = limit, set(opaque)
        self.tag = tag                     # tag given to stores; None: 0
        self.stack = []
        self.steps = 0
        self.entered = set()
        self.retnone = {}
        self.writes = writes               # function for a callee that is summarised: func -> attrs it may write, or None to enter
        self.objs = {}
        self.memo, self.rels = {}, {}

    # --- running ---------------------------------------------------------------------------------------------------
    def run(self, f, env, attrs, cls=None):
        """[(state, outcome)] outcome: ('return', value) | ('raise', node)"""
        st = State(dict(env), dict(attrs))
        return self.call_body(f, st)

    def call_body(self, f, st):
        self.stack.append(f)
        self.entered.add(f.qual)
        if len(self.stack) > 40:
            raise TooMany('calls nested too deep')
        try:
            outs = self.block(f.node.body, [st])
        finally:
            self.stack.pop()
        r = []
        for s, sig in outs:
            if sig is None:
                r.append((s, ('return', NONE)))
            elif sig[0] in ('return', 'raise'):
                r.append((s, sig))
        return dedupe(r)

    @property
    def f(self):
        return self.stack[-1]

    def block(self, stmts, states):
        """[(state, signal)]; signal None: goes on"""
        live = [s for s in states]
        done = []
        for st in stmts:
            if not live:
                break
            nxt = []
            for s in live:
                self.steps += 1
                for s2, sig in self.stmt(st, s):
                    (nxt if sig is None else done).append((s2, sig))
            nxt = dedupe(nxt)
            if len(nxt) > self.limit:
                raise TooMany(f'{len(nxt)} states at line {st.lineno} of {self.f.qual}')
            live = [s for s, _ in nxt]
        return dedupe(done + [(s, None) for s in live])

    def stmt(self, n, s):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            return [(s, None)]
        return m(n, s)

    def s_Expr(self, n, s):
        return [(s2, self.sig(v)) for v, s2 in self.ev(n.value, s)]

    def sig(self, v):
        return v if v[0] == 'raise' else None

    def s_Pass(self, n, s):
        return [(s, None)]

    def s_Return(self, n, s):
        if n.value is None:
            return [(s, ('return', NONE))]
        return [(s2, v if v[0] == 'raise' else ('return', v)) for v, s2 in self.ev(n.value, s)]

    def s_Raise(self, n, s):
        return [(s, ('raise', 'stated', f'{self.f.qual}'))]

    def s_Break(self, n, s):
        return [(s, ('break',))]

    def s_Continue(self, n, s):
        return [(s, ('continue',))]

    def s_Assert(self, n, s):
        out = []
        for v, s2 in self.cond(n.test, s):
            if v[0] == 'raise':
                out.append((s2, v))
            elif v == k(True):
                out.append((s2, None))
            else:
                out.append((s2, ('raise', 'stated' if n.msg is not None else 'bare', self.f.qual)))
        return out

    def s_If(self, n, s):
        out = []
        for v, s2 in self.cond(n.test, s):
            if v[0] == 'raise':
                out.append((s2, v))
            else:
                out += self.block(n.body if v == k(True) else n.orelse, [s2])
        return dedupe(out)

    def s_With(self, n, s):
        sts = [s]
        out = []
        for it in n.items:
            nx = []
            for x in sts:
                for v, s2 in self.ev(it.context_expr, x):
                    if v[0] == 'raise':
                        out.append((s2, v))
                        continue
                    nx += self.store(it.optional_vars, NN, s2) if it.optional_vars is not None else [s2]
            sts = nx
        return out + self.block(n.body, sts)

    def s_Assign(self, n, s):
        out = []
        for v, s2 in self.ev(n.value, s):
            if v[0] == 'raise':
                out.append((s2, v))
                continue
            sts = [s2]
            for t in n.targets:
                sts = [y for x in sts for y in self.store(t, v, x)]
            out += [(x, None) for x in sts]
        return out

    def s_AnnAssign(self, n, s):
        if n.value is None:
            return [(s, None)]
        return [(x, None) if v[0] != 'raise' else (s2, v) for v, s2 in self.ev(n.value, s) for x in (self.store(n.target, v, s2) if v[0] != 'raise' else [s2])]

    def s_AugAssign(self, n, s):
        load = ast.copy_location({ast.Name: lambda t: ast.Name(t.id, ast.Load()), ast.Attribute: lambda t: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda t: ast.Subscript(t.value, t.slice, ast.Load())}[type(n.target)](n.target), n.target)
        e = ast.copy_location(ast.BinOp(load, n.op, n.value), n)
        out = []
        for v, s2 in self.ev(e, s):
            if v[0] == 'raise':
                out.append((s2, v))
            else:
                out += [(x, None) for x in self.store(n.target, v, s2)]
        return out

    def s_Delete(self, n, s):
        s = s.copy()
        for t in n.targets:
            if isinstance(t, ast.Name):
                s.env[t.id] = UNSET
            elif isinstance(t, ast.Attribute) and self.isme(t.value, s):
                s.attrs[t.attr] = (UNSET, 0)
        return [(s, None)]

    def s_FunctionDef(self, n, s):
        s = s.copy()
        s.env[n.name] = NN
        return [(s, None)]

    def s_Import(self, n, s):
        s = s.copy()
        for a in n.names:
            s.env[a.asname or a.name.split('.')[0]] = NN
        return [(s, None)]

    s_ImportFrom = s_Import

    def s_Try(self, n, s):
        outs = []
        pre = [s]
        live = [s]
        raised = []
        for st in n.body:
            nx = []
            for x in live:
                for s2, sig in self.stmt(st, x):
                    if sig is None:
                        nx.append(s2)
                    elif sig[0] == 'raise':
                        raised.append(s2)
                    else:
                        outs.append((s2, sig))
            live = [x for x, _ in dedupe([(y, None) for y in nx])]
            pre += live
        entries = [x for x, _ in dedupe([(y, None) for y in pre[:-len(live)] or pre] + [(y, None) for y in raised])]
        for h in n.handlers:
            es = []
            for e in entries:
                e = e.copy()
                if h.name:
                    e.env[h.name] = NN
                es.append(e)
            outs += self.block(h.body, es)
        outs += self.block(n.orelse, live) if n.orelse else [(x, None) for x in live]
        if n.finalbody:
            res = []
            for x, sig in outs:
                for y, sg in self.block(n.finalbody, [x]):
                    res.append((y, sg if sg is not None else sig))
            outs = res
        return dedupe(outs)

    def loop(self, n, first, enter, test=None):
        """states at entry -> [(state, signal)]; enter(state) binds the loop variable, test splits on a while condition"""
        out, after, seen = [], [], set()
        work = list(first)
        rounds = 0
        while work:
            rounds += 1
            if rounds > 60:
                raise TooMany(f'loop at line {n.lineno} of {self.f.qual} does not settle')
            nx = []
            bodies = []
            for s in work:
                kk = s.key()
                if kk in seen:
                    continue
                seen.add(kk)
                bodies += enter(s)
            if len(seen) > self.limit:
                raise TooMany(f'loop at line {n.lineno} of {self.f.qual}')
            for b in bodies:
                go = [(b, True)]
                if test is not None:
                    go = []
                    for v, s2 in self.cond(test, b):
                        if v[0] == 'raise':
                            out.append((s2, v))
                        elif v == k(True):
                            go.append((s2, True))
                        else:
                            after.append((s2, 'end'))
                for s2, _ in go:
                    for s3, sig in self.block(n.body, [s2]):
                        if sig is None or sig[0] == 'continue':
                            nx.append(s3)
                            if test is None:
                                after.append((s3, 'end'))
                        elif sig[0] == 'break':
                            after.append((s3, 'break'))
                        else:
                            out.append((s3, sig))
            work = [x for x, _ in dedupe([(y, None) for y in nx])]
        ended = [s for s, w in dedupe(after) if w == 'end']
        broke = [s for s, w in dedupe(after) if w == 'break']
        out += self.block(n.orelse, ended) if n.orelse else [(s, None) for s in ended]
        out += [(s, None) for s in broke]
        return dedupe(out)

    def s_For(self, n, s):
        out = []
        for it, s2 in self.ev(n.iter, s):
            if it[0] == 'raise':
                out.append((s2, it))
                continue
            if it == NONE:
                out += self.fail('none', n.iter, s2, f'iterates over {ast.unparse(n.iter)}, which is None')
                continue
            elems = self.elements(it)
            if elems is not None and len(elems) <= 40:
                live = [s2]
                done = []
                for e in elems:
                    nx = []
                    for x in live:
                        for y in self.store(n.target, e, x):
                            for z, sig in self.block(n.body, [y]):
                                if sig is None or sig[0] == 'continue':
                                    nx.append(z)
                                elif sig[0] == 'break':
                                    done.append((z, None))
                                else:
                                    out.append((z, sig))
                    live = [x for x, _ in dedupe([(y, None) for y in nx])]
                ended = self.block(n.orelse, live) if n.orelse else [(x, None) for x in live]
                out += done + ended
                continue
            once = isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' or isinstance(n.iter, (ast.Tuple, ast.List)) and n.iter.elts
            r = self.loop(n, [s2], lambda x: self.store(n.target, self.element_of(it), x))
            if not once:
                r += [(s2, None)]
            out += r
        return dedupe(out)

    def elements(self, v):
        if v[0] == 'tup':
            return list(v[1])
        if v[0] == 'k' and isinstance(v[1], (tuple, str)):
            return [k(x) for x in v[1]]
        if v[0] == 'items':
            return [('tup', (k(a), w)) for a, w in v[1]]
        if v[0] == 'snap':
            return [k(a) for a, _ in v[1]]
        return None

    def element_of(self, v):
        return NN if v[0] in ('nn',) else ANY if v[0] == 'any' else NN

    def s_While(self, n, s):
        return self.loop(n, [s], lambda x: [x], n.test)

    # --- stores ----------------------------------------------------------------------------------------------------
    def isme(self, e, s):
        return isinstance(e, ast.Name) and s.env.get(e.id) == ME

    def setattr(self, s, a, v, tag=None):
        s = s.copy()
        s.attrs[a] = (v, self.tag if tag is None and self.tag is not None else tag or 0)
        return s

    def store(self, t, v, s):
        if v[0] == 'k' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
            v = NN                         # numbers are not followed
        if isinstance(t, ast.Name):
            s = s.copy()
            s.env[t.id] = v
            return [s]
        if isinstance(t, ast.Attribute):
            if self.isme(t.value, s):
                cls = self.mycls
                kind = cls.lookup(t.attr) if cls is not None else None
                if kind and kind[0] == 'prop':
                    return [s]
                return [self.restore(s, t.attr, v)]
            r = []
            for o, s2 in self.ev(t.value, s):
                r.append(s2)
            return r
        if isinstance(t, ast.Subscript):
            r = []
            for o, s2 in self.ev(t.value, s):
                if o[0] == 'raise':
                    continue
                if isinstance(t.value, ast.Name) and o[0] in ('snap', 'dict'):
                    # a snapshot filled one key at a time
                    for i, s3 in self.ev(t.slice, s2):
                        s3 = s3.copy()
                        if isk(i) and o[0] in ('snap', 'dict') and isinstance(i[1], str):
                            d = dict(o[1])
                            d[i[1]] = v if o[0] == 'dict' and v[0] != 'from' else v
                            s3.env[t.value.id] = (o[0], tuple(sorted(d.items())))
                        else:
                            s3.env[t.value.id] = NN
                        r.append(s3)
                    continue
                r.append(s2)
            return r
        if isinstance(t, (ast.Tuple, ast.List)):
            el = self.elements(v)
            if v == NONE:
                return []
            if el is None or len(el) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                el = [NN if v[0] != 'any' else NN] * len(t.elts)
            sts = [s]
            for x, w in zip(t.elts, el):
                sts = [y for z in sts for y in self.store(x, w, z)]
            return sts
        if isinstance(t, ast.Starred):
            return self.store(t.value, NN, s)
        return [s]

    # --- expressions: [(value, state)] -----------------------------------------------------------------------------
    def ev(self, e, s):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.generic(e, s)
        return m(e, s)

    def generic(self, e, s):
        vs = [(NN, s)]
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                vs = [(w if w[0] == 'raise' else NN, s3) for v, s2 in vs for w, s3 in ([(v, s2)] if v[0] == 'raise' else self.ev(c, s2))]
                vs = self.merge(vs)
        return vs

    def merge(self, vs):
        seen, r = set(), []
        for v, s in vs:
            kk = (v, s.key())
            if kk not in seen:
                seen.add(kk)
                r.append((v, s))
        return r

    def seq(self, es, s):
        """[( [values], state )] or ('raise', state)"""
        outs = [([], s)]
        for e in es:
            nx = []
            for vs, st in outs:
                if vs and vs[-1][0] == 'raise':
                    nx.append((vs, st))
                    continue
                for v, s2 in self.ev(e, st):
                    nx.append((vs + [v], s2))
            outs = nx
            if len(outs) > self.limit:
                raise TooMany(f'expression at line {getattr(e, "lineno", 0)}')
        return outs

    def fail(self, kind, node, s, text):
        self.issue(kind, node, self.f, text)
        return [(s, ('raise', kind, text))]

    def failv(self, kind, node, s, text):
        self.issue(kind, node, self.f, text)
        return [(('raise', kind, text), s)]

    def e_Constant(self, e, s):
        v = e.value
        return [(k(v) if v is None or isinstance(v, (bool, str, int, float)) else NN, s)]

    def e_Name(self, e, s):
        if e.id in s.env:
            v = s.env[e.id]
            if v == UNSET:
                return self.failv('unbound', e, s, f'{e.id} is not bound')
            return [(v, s)]
        r = self.f.module.resolve(e.id)
        return [(self.globalval(r), s)]

    def globalval(self, r):
        if isinstance(r, Func):
            return ('fn', r.qual)
        if isinstance(r, Cls):
            return ('cls', r.qual)
        if isinstance(r, GlobalVar) and len(r.values) == 1 and isinstance(r.values[0][0], ast.AST):
            v = self.constant(r.values[0][0])
            if v is not None:
                return v
        return NN

    def constant(self, n):
        if isinstance(n, ast.Constant) and (n.value is None or isinstance(n.value, (bool, str, int, float))):
            return k(n.value)
        if isinstance(n, (ast.Tuple, ast.List)):
            el = [self.constant(x) for x in n.elts]
            if all(x is not None for x in el):
                return k(tuple(x[1] for x in el)) if all(isk(x) for x in el) else ('tup', tuple(el))
        if isinstance(n, ast.Dict) and n.keys and all(isinstance(x, ast.Constant) for x in n.keys if x is not None) and None not in n.keys:
            vals = [self.constant(x) for x in n.values]
            if all(v is not None for v in vals):
                return ('dict', tuple(sorted(((x.value, v) for x, v in zip(n.keys, vals)), key=lambda t: str(t[0]))))
        return None

    def e_Attribute(self, e, s):
        if self.isme(e.value, s):
            return self.attr(e, e.attr, s)
        out = []
        for v, s2 in self.ev(e.value, s):
            if v[0] == 'raise':
                out.append((v, s2))
            elif v == NONE:
                out += self.failv('none', e, s2, f'{ast.unparse(e)} where {ast.unparse(e.value)} is None')
            elif v == ME:
                out += self.attr(e, e.attr, s2)
            elif v[0] == 'cls':
                c = self.prog.find(v[1])
                kk = c.lookup(e.attr) if c is not None else None
                out.append((('fn', kk[1].qual) if kk and isinstance(kk[1], Func) else NN, s2))
            elif v[0] == 'from' and e.attr == 'copy':
                out.append((('bm', v, 'copy'), s2))
            elif v[0] == 'k' or v[0] in ('tup', 'dict', 'items', 'snap', 'mydict'):
                out.append((('bm', v, e.attr), s2))
            else:
                out.append((NN, s2))
        return out

    def attr(self, e, a, s):
        if a == '__dict__':
            return [(('mydict',), s)]
        if a in s.attrs:
            v = s.attrs[a][0]
            if v == UNSET:
                return self.failv('unset', e, s, f'{ast.unparse(e)} is read where it was never set')
            if v[0] in ('nn', 'any'):
                return [(('from', a, s.attrs[a][1]) if v[0] == 'nn' and self.tag is not None else v, s)]
            return [(v, s)]
        kk = self.mycls.lookup(a) if self.mycls is not None else None
        if kk is not None:
            if kk[0] == 'const':
                v = self.constant(kk[1]) if isinstance(kk[1], ast.AST) else None
                return [(v or NN, s)]
            if isinstance(kk[1], Func) and kk[0] != 'prop':
                return [(('meth', kk[1].qual), s)]
            if isinstance(kk[1], Func):
                return self.enter(kk[1], [ME], {}, e, s)
            return [(NN, s)]
        if a.startswith('__') and a.endswith('__'):
            return [(NN, s)]
        return self.failv('unset', e, s, f'{ast.unparse(e)} is read where it was never set')

    mycls = None
    anyparts = {}

    def e_Tuple(self, e, s):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.generic(e, s)
        r = []
        for vs, s2 in self.seq(e.elts, s):
            if vs and vs[-1][0] == 'raise':
                r.append((vs[-1], s2))
            elif all(isk(v) and not isinstance(v[1], tuple) for v in vs):
                r.append((k(tuple(v[1] for v in vs)), s2))
            else:
                r.append((('tup', tuple(vs)), s2))
        return r

    e_List = e_Tuple

    def e_Set(self, e, s):
        return self.e_Tuple(e, s)

    def e_Dict(self, e, s):
        if None in e.keys:
            return self.generic(e, s)
        r = []
        for vs, s2 in self.seq([x for p in zip(e.keys, e.values) for x in p], s):
            if vs and vs[-1][0] == 'raise':
                r.append((vs[-1], s2))
                continue
            ks, ws = vs[::2], vs[1::2]
            if all(isk(x) for x in ks):
                r.append((('dict', tuple(sorted(((x[1], w) for x, w in zip(ks, ws)), key=lambda t: str(t[0])))), s2))
            else:
                r.append((NN, s2))
        return r

    def e_JoinedStr(self, e, s):
        out = []
        for vs, s2 in self.seq([v.value if isinstance(v, ast.FormattedValue) else v for v in e.values], s):
            if vs and vs[-1][0] == 'raise':
                out.append((vs[-1], s2))
            elif all(isk(v) for v in vs) and all(not isinstance(v, ast.FormattedValue) or v.format_spec is None and v.conversion == -1 for v in e.values):
                out.append((k(''.join(str(v[1]) for v in vs)), s2))
            else:
                out.append((NN, s2))
        return out

    def e_IfExp(self, e, s):
        out = []
        for v, s2 in self.cond(e.test, s):
            if v[0] == 'raise':
                out.append((v, s2))
            else:
                out += self.ev(e.body if v == k(True) else e.orelse, s2)
        return self.merge(out)

    def e_BoolOp(self, e, s):
        isand = isinstance(e.op, ast.And)
        outs, live = [], [s]
        for i, x in enumerate(e.values):
            nx = []
            for st in live:
                for v, s2 in self.ev(x, st):
                    if v[0] == 'raise' or i == len(e.values) - 1:
                        outs.append((v, s2))
                        continue
                    t = self.truth(v)
                    if t is None:
                        for b, s3 in self.split(x, s2):
                            if b == (not isand):
                                outs.append((v if v[0] not in ('any',) or isand else NN, s3))
                            else:
                                nx.append(s3)
                    elif t == (not isand):
                        outs.append((v, s2))
                    else:
                        nx.append(s2)
            live = nx
        return self.merge(outs)

    def e_UnaryOp(self, e, s):
        if isinstance(e.op, ast.Not):
            return [(v if v[0] == 'raise' else k(not v[1]), s2) for v, s2 in self.cond(e.operand, s)]
        out = []
        for v, s2 in self.ev(e.operand, s):
            if v[0] == 'raise':
                out.append((v, s2))
            elif v == NONE:
                out += self.failv('none', e, s2, f'{ast.unparse(e)} where {ast.unparse(e.operand)} is None')
            elif isk(v) and isinstance(v[1], (int, float)) and isinstance(e.op, ast.USub):
                out.append((k(-v[1]), s2))
            else:
                out.append((NN, s2))
        return out

    def e_BinOp(self, e, s):
        out = []
        for vs, s2 in self.seq([e.left, e.right], s):
            if vs[-1][0] == 'raise':
                out.append((vs[-1], s2))
                continue
            a, b = vs
            bad = e.left if a == NONE else e.right if b == NONE else None
            if bad is not None and not (isinstance(e.op, ast.Mod) and isk(a) and isinstance(a[1], str)):
                out += self.failv('none', e, s2, f'{ast.unparse(e)} where {ast.unparse(bad)} is None')
            elif isk(a) and isk(b) and isinstance(a[1], str) and isinstance(b[1], str) and isinstance(e.op, ast.Add):
                out.append((k(a[1] + b[1]), s2))
            elif isk(a) and isk(b) and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) \
                    and not self.stack_loop:
                out.append((k({ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y}[type(e.op)](a[1], b[1])), s2))
            elif a[0] in ('tup',) and b[0] in ('tup',) and isinstance(e.op, ast.Add):
                out.append((('tup', a[1] + b[1]), s2))
            elif isk(a) and isk(b) and isinstance(a[1], tuple) and isinstance(b[1], tuple) and isinstance(e.op, ast.Add):
                out.append((k(a[1] + b[1]), s2))
            else:
                out.append((NN, s2))
        return out

    stack_loop = True        # numbers are not counted: loops must settle

    def e_Compare(self, e, s):
        return self.cond(e, s) if self.decidable(e) else self.generic(e, s)

    def decidable(self, e):
        return len(e.ops) == 1

    def e_Subscript(self, e, s):
        out = []
        if isinstance(e.slice, ast.Slice):
            parts = [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]
            for vs, s2 in self.seq([e.value] + parts, s):
                if vs[-1][0] == 'raise':
                    out.append((vs[-1], s2))
                elif vs[0] == NONE:
                    out += self.failv('none', e, s2, f'{ast.unparse(e)} where {ast.unparse(e.value)} is None')
                elif isk(vs[0]) and isinstance(vs[0][1], (str, tuple)) and all(isk(v) and (v[1] is None or isinstance(v[1], int)) for v in vs[1:]):
                    it = iter(vs[1:])
                    sl = slice(*[next(it)[1] if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)])
                    out.append((k(vs[0][1][sl]), s2))
                else:
                    out.append((NN, s2))
            return out
        for vs, s2 in self.seq([e.value, e.slice], s):
            if vs[-1][0] == 'raise':
                out.append((vs[-1], s2))
                continue
            a, i = vs
            if a == NONE:
                out += self.failv('none', e, s2, f'{ast.unparse(e)} where {ast.unparse(e.value)} is None')
            elif a[0] in ('dict', 'snap') and isk(i):
                d = dict(a[1])
                if i[1] in d:
                    out.append((d[i[1]], s2))
                elif a[0] == 'dict':
                    out += self.failv('key', e, s2, f'{ast.unparse(e)}: there is no entry {i[1]!r}')
                else:
                    out.append((NN, s2))
            elif a[0] == 'mydict' and isk(i):
                out += self.attr(e, i[1], s2)
            elif a[0] == 'tup' and isk(i) and isinstance(i[1], int) and -len(a[1]) <= i[1] < len(a[1]):
                out.append((a[1][i[1]], s2))
            elif isk(a) and isinstance(a[1], (tuple, str)) and isk(i) and isinstance(i[1], int) and -len(a[1]) <= i[1] < len(a[1]):
                out.append((k(a[1][i[1]]), s2))
            elif a[0] == 'dict':
                vals = [w for _, w in a[1]]
                out += [(w, s2) for w in dict.fromkeys(vals)]
            else:
                out.append((NN, s2))
        return out

    def comp(self, e, s, elt):
        """a comprehension over known elements; otherwise an object"""
        if len(e.generators) == 1 and not e.generators[0].is_async:
            g = e.generators[0]
            outs = []
            for it, s2 in self.ev(g.iter, s):
                if it[0] == 'raise':
                    outs.append((it, s2))
                    continue
                if it == NONE:
                    outs += self.failv('none', g.iter, s2, f'iterates over {ast.unparse(g.iter)}, which is None')
                    continue
                el = self.elements(it)
                if el is None:
                    # one pass for what it reads
                    for st in self.store(g.target, self.element_of(it), s2):
                        for x in list(g.ifs) + elt:
                            self.ev(x, st)
                    outs.append((NN, s2))
                    continue
                acc = [((), s2)]
                for x in el:
                    nx = []
                    for vals, st in acc:
                        for st2 in self.store(g.target, x, st):
                            keep = [(True, st2)]
                            for c in g.ifs:
                                keep = [(b == k(True) and kp, s4) for kp, s3 in keep for b, s4 in (self.cond(c, s3) if kp else [(k(False), s3)])]
                            for kp, s3 in keep:
                                if not kp:
                                    nx.append((vals, s3))
                                    continue
                                for vs, s4 in self.seq(elt, s3):
                                    nx.append((vals + (tuple(vs),), s4))
                    acc = nx
                outs += acc_out(acc)
            return outs
        return [(NN, s)]

    def nested(self, e, elt, s):
        """several generators: what the inner ones read and raise, the collected value unknown"""
        inner = ast.copy_location(ast.ListComp(elt[0] if len(elt) == 1 else ast.copy_location(ast.Tuple(elt, ast.Load()), e), e.generators[1:]), e)
        outer = ast.copy_location(ast.ListComp(inner, e.generators[:1]), e)
        return [(v if v[0] == 'raise' else NN, s2) for v, s2 in self.e_ListComp(outer, s)]

    def e_ListComp(self, e, s):
        if len(e.generators) > 1:
            return self.nested(e, [e.elt], s)
        r = []
        for v, s2 in self.comp(e, s, [e.elt]):
            if isinstance(v, tuple) and v and v[0] == 'acc':
                bad = next((x[-1] for x in v[1] if x[-1][0] == 'raise'), None)
                if bad:
                    r.append((bad, s2))
                elif all(isk(x[0]) and not isinstance(x[0][1], tuple) for x in v[1]):
                    r.append((k(tuple(x[0][1] for x in v[1])), s2))
                else:
                    r.append((('tup', tuple(x[0] for x in v[1])), s2))
            else:
                r.append((v, s2))
        return r

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, s):
        if len(e.generators) > 1:
            return self.nested(e, [e.key, e.value], s)
        r = []
        for v, s2 in self.comp(e, s, [e.key, e.value]):
            if isinstance(v, tuple) and v and v[0] == 'acc':
                bad = next((x[-1] for x in v[1] if x[-1][0] == 'raise'), None)
                if bad:
                    r.append((bad, s2))
                elif all(isk(x[0]) for x in v[1]):
                    r.append((('dict', tuple(sorted(((x[0][1], x[1]) for x in v[1]), key=lambda t: str(t[0])))), s2))
                else:
                    r.append((NN, s2))
            else:
                r.append((v, s2))
        return r

    def e_Lambda(self, e, s):
        return [(NN, s)]

    def e_NamedExpr(self, e, s):
        return [(v, x) for v, s2 in self.ev(e.value, s) for x in (self.store(e.target, v, s2) if v[0] != 'raise' else [s2])]

    def e_Starred(self, e, s):
        return self.ev(e.value, s)

    # --- conditions: [(k(True)|k(False)|raise, state)] -------------------------------------------------------------
    def truth(self, v):
        if isk(v):
            return bool(v[1])
        if v[0] == 'tup':
            return bool(v[1])
        if v[0] in ('fn', 'cls', 'meth', 'me'):
            return True
        return None

    def split(self, e, s):
        """both outcomes of an undecided condition, with what each tells about names compared with None"""
        out = []
        for b in (True, False):
            s2 = self.refine(e, s, b)
            if s2 is not None:
                out.append((b, s2))
        return out

    def refine(self, e, s, b):
        if isinstance(e, (ast.Name, ast.Attribute)) and b:
            return self.assume(e, NN, s)
        return s

    def assume(self, e, v, s):
        """what a test tells about a name or an attribute"""
        if isinstance(e, ast.Name) and s.env.get(e.id) == ANY:
            s = s.copy()
            s.env[e.id] = v
        elif isinstance(e, ast.Attribute) and self.isme(e.value, s) and s.attrs.get(e.attr, (None,))[0] == ANY:
            s = s.copy()
            s.attrs[e.attr] = (v, s.attrs[e.attr][1])
        return s

    def cond(self, e, s):
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            out = []
            for vs, s2 in self.seq([e.left, e.comparators[0]], s):
                if vs[-1][0] == 'raise':
                    out.append((vs[-1], s2))
                    continue
                a, b = vs
                r = self.compare(op, a, b)
                if r is None and isinstance(e.left, ast.Call) and isinstance(e.left.func, ast.Name) and e.left.func.id == 'type' and a[0] == 'typeof' \
                        and isinstance(e.comparators[0], ast.Name) and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    t = self.kind(a[1], e.comparators[0].id)
                    if t is not None:
                        r = t == isinstance(op, (ast.Is, ast.Eq))
                if r is None and isinstance(op, (ast.Is, ast.IsNot)) and b == NONE:
                    yes = self.assume(e.left, NONE, s2)
                    no = self.assume(e.left, NN, s2)
                    out += [(k(isinstance(op, ast.Is)), yes), (k(not isinstance(op, ast.Is)), no)]
                elif r is None:
                    if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and NONE in (a, b):
                        bad = e.left if a == NONE else e.comparators[0]
                        out += self.failv('none', e, s2, f'{ast.unparse(e)} where {ast.unparse(bad)} is None')
                    else:
                        out += [(k(True), s2), (k(False), s2)]
                else:
                    out.append((k(r), s2))
            return self.merge(out)
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            outs, live = [], [s]
            for x in e.values:
                nx = []
                for st in live:
                    for v, s2 in self.cond(x, st):
                        if v[0] == 'raise' or v[1] == (not isand):
                            outs.append((v, s2))
                        else:
                            nx.append(s2)
                live = nx
            return self.merge(outs + [(k(isand), x) for x in live])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(v if v[0] == 'raise' else k(not v[1]), s2) for v, s2 in self.cond(e.operand, s)]
        out = []
        for v, s2 in self.ev(e, s):
            if v[0] == 'raise':
                out.append((v, s2))
                continue
            t = self.truth(v)
            if t is None:
                out += [(k(b), s3) for b, s3 in self.split(e, s2)]
            else:
                out.append((k(t), s2))
        return self.merge(out)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            pos = isinstance(op, ast.Is)
            if b == NONE or a == NONE:
                o = a if b == NONE else b
                if o == NONE:
                    return pos
                if o[0] == 'any':
                    return None
                return not pos
            if isk(a) and isk(b):
                return (a[1] is b[1]) == pos
            return None
        if isinstance(op, (ast.Eq, ast.NotEq)):
            pos = isinstance(op, ast.Eq)
            if isk(a) and isk(b):
                return (a[1] == b[1]) == pos
            if NONE in (a, b):
                o = a if b == NONE else b
                return None if o[0] == 'any' else not pos
            return None
        if isinstance(op, (ast.In, ast.NotIn)):
            pos = isinstance(op, ast.In)
            if isk(a) and isk(b) and isinstance(b[1], (tuple, str)):
                try:
                    return (a[1] in b[1]) == pos
                except TypeError:
                    return None
            if isk(a) and b[0] in ('dict', 'snap'):
                return (a[1] in dict(b[1])) == pos
            if isk(a) and b[0] == 'tup' and all(isk(x) or a[1] is None and x[0] != 'any' for x in b[1]):
                return any(x == a for x in b[1]) == pos
            return None
        if isk(a) and isk(b) and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            return {ast.Lt: a[1] < b[1], ast.LtE: a[1] <= b[1], ast.Gt: a[1] > b[1], ast.GtE: a[1] >= b[1]}[type(op)]
        return None

    # --- calls -----------------------------------------------------------------------------------------------------
    def e_Call(self, e, s):
        # arguments first
        if isinstance(e.func, ast.Name) and e.func.id not in s.env:
            h = getattr(self, 'b_' + e.func.id, None)
            if h is not None and self.f.module.resolve(e.func.id) is None or h is not None and isinstance(self.f.module.resolve(e.func.id), Ext):
                r = h(e, s)
                if r is not None:
                    return r
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id not in s.env and e.args:
            x = self.f.module.resolve_expr(e.func)
            if isinstance(x, Ext) and x.name in ('copy.copy', 'copy.deepcopy', 'numpy.copy', 'numpy.array', 'numpy.asarray'):
                r = [(v, s2) if v[0] in ('from', 'raise') or x.name.startswith('copy') and v != ME else (NN, s2) for v, s2 in self.ev(e.args[0], s)]
                for a in e.args[1:] + [q.value for q in e.keywords]:
                    r = [(v, s3) for v, s2 in r for _, s3 in self.ev(a, s2)]
                return r
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and s.env.get(e.func.value.id, NN)[0] == 'dict' and e.func.attr in ('update', 'pop', 'clear', 'popitem', 'setdefault'):
            nm = e.func.value.id
            r = []
            for vs, s2 in self.seq(list(e.args) + [x.value for x in e.keywords], s):
                if vs and vs[-1][0] == 'raise':
                    r.append((vs[-1], s2))
                    continue
                s2 = s2.copy()
                if e.func.attr == 'update' and all(v[0] == 'dict' for v in vs[:len(e.args)]) and all(x.arg for x in e.keywords):
                    d = dict(s2.env[nm][1])
                    for v in vs[:len(e.args)]:
                        d.update(dict(v[1]))
                    d.update({x.arg: v for x, v in zip(e.keywords, vs[len(e.args):])})
                    s2.env[nm] = ('dict', tuple(sorted(d.items(), key=lambda t: str(t[0]))))
                    r.append((NONE, s2))
                else:
                    s2.env[nm] = NN
                    r.append((NN, s2))
            return r
        out = []
        for fv, s1 in self.ev(e.func, s):
            if fv[0] == 'raise':
                out.append((fv, s1))
                continue
            if fv == NONE:
                out += self.failv('none', e, s1, f'{ast.unparse(e.func)} is None and is called')
                continue
            plain = [a for a in e.args if not isinstance(a, ast.Starred)]
            stars = [a.value for a in e.args if isinstance(a, ast.Starred)]
            kws = [x for x in e.keywords if x.arg is not None]
            dst = [x.value for x in e.keywords if x.arg is None]
            for vs, s2 in self.seq(plain + stars + [x.value for x in kws] + dst, s1):
                if vs and vs[-1][0] == 'raise':
                    out.append((vs[-1], s2))
                    continue
                args = vs[:len(plain)]
                sv = vs[len(plain):len(plain) + len(stars)]
                kv = {x.arg: v for x, v in zip(kws, vs[len(plain) + len(stars):])}
                for v in sv:
                    el = self.elements(v)
                    args = args + el if el is not None else None
                    if args is None:
                        break
                if dst:
                    for v in vs[len(plain) + len(stars) + len(kws):]:
                        if v[0] == 'dict':
                            kv.update({a: b for a, b in v[1]})
                        else:
                            args = None
                if args and NONE in args and fv == NN and isinstance(e.func, (ast.Attribute, ast.Name)):
                    x = self.f.module.resolve_expr(e.func)
                    if isinstance(x, Ext) and x.name in NUMERIC:
                        out += self.failv('none', e, s2, f'{ast.unparse(e)[:80]} where {ast.unparse(plain[args.index(NONE)]) if args.index(NONE) < len(plain) else "an argument"} is None')
                        continue
                out += self.call(fv, args, kv, e, s2)
        return self.merge(out)

    def call(self, fv, args, kws, e, s):
        if fv[0] == 'bm':
            return self.boundbuiltin(fv[1], fv[2], args, kws, e, s)
        if fv[0] == 'meth':
            f = self.prog.find(fv[1])
            if f.is_static:
                return self.enter(f, args, kws, e, s)
            return self.enter(f, None if args is None else [ME] + args, kws, e, s)
        if fv[0] == 'fn':
            f = self.prog.find(fv[1])
            if f is not None and f.qual not in self.opaque and args is not None and any(self.matters(x) for x in list(args) + list(kws.values())) \
                    and f not in self.stack:
                return self.enter(f, args, kws, e, s)
            if f is not None and f.qual in self.anyparts:
                return [(('tup', (ANY,) * self.anyparts[f.qual]), s)]
            return [(ANY if f is None or self.returns_none(f) else NN, s)]
        if fv[0] == 'cls':
            return [(NN, s)]
        # an unknown callee that is given the object may set anything: only reads are assumed
        return [(NN, s)]

    def matters(self, v):
        return v in (ME, NONE) or v[0] == 'tup' and any(self.matters(x) for x in v[1])

    def returns_none(self, f):
        if f.node not in self.retnone:
            self.retnone[f.node] = any(isinstance(x, ast.Return) and (x.value is None or isinstance(x.value, ast.Constant) and x.value.value is None) for x in ast.walk(f.node)) \
                or not any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))
        return self.retnone[f.node]

    def boundbuiltin(self, o, name, args, kws, e, s):
        if args is not None and isk(o) and isinstance(o[1], str):
            if name == 'join' and len(args) == 1:
                el = self.elements(args[0])
                if el is not None and all(isk(x) and isinstance(x[1], str) for x in el):
                    return [(k(o[1].join(x[1] for x in el)), s)]
            elif name in ('endswith', 'startswith', 'replace', 'removesuffix', 'removeprefix', 'lower', 'upper', 'strip', 'split', 'rsplit', 'partition', 'rpartition', 'format', 'rstrip', 'lstrip') \
                    and all(isk(a) for a in args) and not kws:
                try:
                    r = getattr(o[1], name)(*[a[1] for a in args])
                except Exception:
                    return [(NN, s)]
                return [(k(tuple(r) if isinstance(r, (list, tuple)) else r), s)]
            return [(NN, s)]
        if o[0] in ('dict', 'snap'):
            if name == 'items' and not args:
                return [(('items', o[1]), s)]
            if name == 'keys' and not args:
                return [(k(tuple(a for a, _ in o[1])), s)]
            if name == 'values' and not args:
                return [(('tup', tuple(b for _, b in o[1])), s)]
            if name == 'get' and args and isk(args[0]):
                d = dict(o[1])
                return [(d.get(args[0][1], args[1] if len(args) > 1 else NONE), s)]
            if name == 'copy':
                return [(o, s)]
            return [(NN, s)]
        if o[0] == 'mydict':
            if name == 'update' and args and len(args) == 1:
                v = args[0]
                if v[0] in ('dict', 'snap'):
                    for a, w in v[1]:
                        s = self.restore(s, a, w)
                    return [(NONE, s)]
            if name in ('copy',):
                return [(self.snapshot(s), s)]
            if name == 'items':
                return [(('items', self.snapshot(s)[1]), s)]
            if name == 'get' and args and isk(args[0]):
                if args[0][1] in s.attrs:
                    return [(s.attrs[args[0][1]][0], s)]
                return [(args[1] if len(args) > 1 else NONE, s)]
            return [(NN, s)]
        if o[0] == 'from':
            return [(o, s)]
        if o[0] == 'tup' or isk(o) and isinstance(o[1], tuple):
            return [(NN, s)]
        return [(NN, s)]

    def snapshot(self, s):
        return ('dict', tuple(sorted((a, ('from', a, t) if v[0] == 'nn' and self.tag is not None else v) for a, (v, t) in s.attrs.items() if v != UNSET)))

    def restore(self, s, a, w):
        """an attribute set to a value of known origin keeps the tag of that origin"""
        if w[0] == 'from':
            return self.setattr(s, a, NN, tag=w[2] if w[1] == a else None)
        return self.setattr(s, a, w)

    def enter(self, f, args, kws, e, s):
        if f.qual in self.opaque or f in self.stack or args is None:
            return self.summarised(f, s, e)
        if self.writes is not None:
            w = self.writes(f)
            if w is not None:
                for a in w:
                    s = self.setattr(s, a, NN)
                return [(ANY if self.returns_none(f) else NN, s)]
        env, bad = self.bind(f, args, kws)
        if bad:
            return self.summarised(f, s, e)
        rel = self.relevant(f)
        inner = State(env, dict(s.attrs) if rel is None else {a: v for a, v in s.attrs.items() if a in rel or a[0] == '#'})
        rest = {} if rel is None else {a: v for a, v in s.attrs.items() if a not in rel and a[0] != '#'}
        mk = (f.qual, self.tag, inner.key())
        outs = self.memo.get(mk)
        if outs is None:
            outs = self.memo[mk] = self.call_body(f, inner)
        out = []
        for s2, sig in outs:
            back = State(s.env, {**rest, **s2.attrs})
            out.append((sig if sig[0] == 'raise' else sig[1], back))
        return self.merge(out)

    def relevant(self, f):
        """names a function and what it calls could use as attributes; None where they are not evident"""
        if f.node not in self.rels:
            seen, work, out = {f.node}, [f], set()
            while work and out is not None:
                g = work.pop()
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Attribute):
                        if x.attr == '__dict__':
                            out = None
                            break
                        out.add(x.attr)
                        kk = self.mycls.lookup(x.attr) if self.mycls is not None else None
                        if kk is not None and isinstance(kk[1], Func) and kk[1].node not in seen:
                            seen.add(kk[1].node)
                            work.append(kk[1])
                    elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                        out.add(x.value)
                    elif isinstance(x, ast.Name):
                        if x.id == 'vars':
                            out = None
                            break
                        r = g.module.resolve(x.id)
                        if isinstance(r, Func) and r.node not in seen:
                            seen.add(r.node)
                            work.append(r)
                        elif isinstance(r, GlobalVar):
                            for v, _ in r.values:
                                if isinstance(v, ast.AST):
                                    out |= {y.value for y in ast.walk(v) if isinstance(y, ast.Constant) and isinstance(y.value, str)}
            self.rels[f.node] = out
        return self.rels[f.node]

    def summarised(self, f, s, e):
        s = s.copy()
        for a in self.maywrite(f):
            s.attrs[a] = (ANY, self.tag or 0)
        return [(ANY, s)]

    def maywrite(self, f, seen=None):
        """attributes of its first argument (or of the object handed on) a function may set, over its calls"""
        return may_write(self.prog, f, self.mycls)

    def bind(self, f, args, kws):
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(ps):
            if a.vararg is None:
                return None, True
            env[a.vararg.arg] = ('tup', tuple(args[len(ps):]))
        elif a.vararg is not None:
            env[a.vararg.arg] = ('tup', ())
        for p, v in zip(ps, args):
            env[p] = v
        extra = {}
        allp = set(ps) | {x.arg for x in a.kwonlyargs}
        for n_, v in kws.items():
            if n_ in allp:
                env[n_] = v
            elif a.kwarg is not None:
                extra[n_] = v
            else:
                return None, True
        if a.kwarg is not None:
            env[a.kwarg.arg] = ('dict', tuple(sorted(extra.items())))
        ds = dict(zip(reversed(ps), reversed(a.defaults)))
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in allp:
            if p not in env:
                if p not in ds:
                    return None, True
                env[p] = self.constant(ds[p]) or NN
        return env, False

    # builtins that the values decide
    def b_hasattr(self, e, s):
        if len(e.args) == 2 and self.isme(e.args[0], s):
            r = []
            for v, s2 in self.ev(e.args[1], s):
                if isk(v):
                    a = v[1]
                    if a in s2.attrs:
                        r.append((k(s2.attrs[a][0] != UNSET), s2))
                    else:
                        r.append((k(self.mycls is not None and self.mycls.lookup(a) is not None), s2))
                else:
                    r.append((NN, s2))
            return r
        return None

    def b_getattr(self, e, s):
        if len(e.args) in (2, 3) and self.isme(e.args[0], s):
            r = []
            for v, s2 in self.ev(e.args[1], s):
                if not isk(v):
                    r.append((ANY, s2))
                elif len(e.args) == 3 and (v[1] not in s2.attrs or s2.attrs[v[1]][0] == UNSET) and (self.mycls is None or self.mycls.lookup(v[1]) is None):
                    r += self.ev(e.args[2], s2)
                else:
                    r += self.attr(e, v[1], s2)
            return r
        return None

    def b_setattr(self, e, s):
        if len(e.args) == 3 and self.isme(e.args[0], s):
            r = []
            for vs, s2 in self.seq(e.args[1:], s):
                if vs[-1][0] == 'raise':
                    r.append((vs[-1], s2))
                elif isk(vs[0]):
                    r.append((NONE, self.restore(s2, vs[0][1], vs[1])))
                else:
                    r.append((NONE, s2))
            return r
        return None

    def b_vars(self, e, s):
        if len(e.args) == 1 and self.isme(e.args[0], s):
            return [(('mydict',), s)]
        return None

    def b_deepcopy(self, e, s):
        if len(e.args) >= 1:
            return [(v if v != ME else NN, s2) for v, s2 in self.ev(e.args[0], s)]
        return None

    b_copy = b_deepcopy

    def b_dict(self, e, s):
        if not e.args and all(x.arg is not None for x in e.keywords):
            r = []
            for vs, s2 in self.seq([x.value for x in e.keywords], s):
                if vs and vs[-1][0] == 'raise':
                    r.append((vs[-1], s2))
                else:
                    r.append((('dict', tuple(sorted(zip([x.arg for x in e.keywords], vs)))), s2))
            return r
        if len(e.args) == 1 and not e.keywords:
            return [(('dict', v[1]) if v[0] in ('dict', 'items', 'snap') else self.snapshot(s2) if v[0] == 'mydict' else v if v[0] == 'raise' else NN, s2) for v, s2 in self.ev(e.args[0], s)]
        return None

    def b_list(self, e, s):
        if len(e.args) == 1 and not e.keywords:
            r = []
            for v, s2 in self.ev(e.args[0], s):
                el = self.elements(v)
                r.append((v if v[0] in ('raise',) or el is not None and v[0] == 'tup' else ('tup', tuple(el)) if el is not None and not all(isk(x) for x in el) else k(tuple(x[1] for x in el)) if el is not None else NN, s2))
            return r
        return None

    b_tuple = b_list

    def b_len(self, e, s):
        if len(e.args) == 1:
            r = []
            for v, s2 in self.ev(e.args[0], s):
                if v == NONE:
                    r += self.failv('none', e, s2, f'{ast.unparse(e)} where {ast.unparse(e.args[0])} is None')
                else:
                    r.append((v if v[0] == 'raise' else NN, s2))
            return r
        return None

    def quantified(self, e, s, isall):
        if len(e.args) != 1:
            return None
        r = []
        for v, s2 in self.ev(e.args[0], s):
            if v[0] == 'raise':
                r.append((v, s2))
                continue
            el = self.elements(v)
            ts = [self.truth(x) for x in el] if el is not None else [None]
            if isall:
                t = False if False in ts else None if None in ts else True
            else:
                t = True if True in ts else None if None in ts else False
            r.append((k(t) if t is not None else NN, s2))
        return r

    def b_all(self, e, s):
        return self.quantified(e, s, True)

    def b_any(self, e, s):
        return self.quantified(e, s, False)

    def b_zip(self, e, s):
        r = []
        for vs, s2 in self.seq(e.args, s):
            if vs and vs[-1][0] == 'raise':
                r.append((vs[-1], s2))
                continue
            els = [self.elements(v) for v in vs]
            if els and all(x is not None for x in els):
                r.append((('tup', tuple(('tup', t) for t in zip(*els))), s2))
            else:
                r.append((NN, s2))
        return r

    def b_isinstance(self, e, s):
        r = []
        for v, s2 in self.ev(e.args[0], s):
            ts = e.args[1].elts if len(e.args) == 2 and isinstance(e.args[1], (ast.Tuple, ast.List)) else e.args[1:]
            kinds = [self.kind(v, t.id) if isinstance(t, ast.Name) else None for t in ts]
            t = True if True in kinds else None if None in kinds else False
            r.append((v if v[0] == 'raise' else k(False) if v == NONE else k(t) if t is not None else NN, s2))
        return r

    def kind(self, v, name):
        if v[0] == 'tup':
            return {'list': True, 'tuple': None}.get(name, False)
        if v == ME:
            return True if self.mycls is not None and name == self.mycls.name else False if name in ('list', 'tuple', 'dict', 'str', 'int', 'float') else None
        return None

    def b_type(self, e, s):
        return [(('typeof', v) if v[0] != 'raise' else v, s2) for v, s2 in self.seq1(e.args, s)]

    def seq1(self, es, s):
        return [(vs[-1] if vs else NN, s2) for vs, s2 in self.seq(es, s)]


def acc_out(acc):
    return [(('acc', vals), st) for vals, st in acc]


_mw = {}


def may_write(prog, f, cls, seen=None):
    """attributes of the object that a method (or a function that is handed the object) may set, over calls"""
    key = (f.node, cls.qual if cls is not None else None)
    if seen is None:
        if key in _mw:
            return _mw[key]
        seen = set()
    if f.node in seen:
        return set()
    seen.add(f.node)
    out = set()
    me = f.params()[0] if f.params() else None
    names = {me} if f.cls is not None and not f.is_static else set()
    if not names:
        # a function: the parameters whose attributes it sets
        names = {x.value.id for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in f.all_params()}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in names:
            out.add(x.attr)
        elif isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in names and cls is not None:
                kk = cls.lookup(x.func.attr)
                if kk and isinstance(kk[1], Func):
                    out |= may_write(prog, kk[1], cls, seen)
            elif isinstance(x.func, ast.Name) and any(isinstance(a, ast.Name) and a.id in names for a in x.args + [q.value for q in x.keywords]):
                r = f.module.resolve(x.func.id)
                if isinstance(r, Func):
                    out |= may_write(prog, r, cls, seen)
    return out
