"""C16 A rejected connector retry leaves no trace in the solution.

Which attempt each attribute comes from is followed through every method that keeps a copy of the solution while it
tries another: an attempt numbers all it may write, a copy keeps the numbers, writing the copy back restores them. At
every way out, the attributes from which the path is interpolated must all carry one number."""
import ast
from .common import *
from ..states import States, NN, NONE, ME, k, TooMany, may_write

MIX = 'the published path is never a mixture of two attempts'
BACK = 'a rejected attempt can be undone'
CAP = 3


class Reads(States):
    """attributes the interpolation of one method reads"""
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.read = set()

    def attr(self, e, a, s):
        if a not in s.attrs and (self.mycls.lookup(a) is None) and not a.startswith('__'):
            s = s.copy()
            s.attrs[a] = (NN, 0)
        self.read.add(a)
        return super().attr(e, a, s)

    def relevant(self, f):
        return None


def interpolated(chk, cls):
    """what interpolation and the end nodes of a curve-hold-curve solution read"""
    out = set()
    for nm, extra in (('interpolate', {'step': NN}), ('_get_nodes', {})):
        kk = cls.lookup(nm)
        if kk is None:
            if nm[0] != '_':
                raise AnalysisBroken(f'Connector.{nm}')
            continue
        st = Reads(chk.prog)
        st.mycls = cls
        env, bad = st.bind(kk[1], [ME], {})
        env.update({p: v for p, v in extra.items() if p in env})
        st.run(kk[1], env, {'method': (k('curve_hold_curve'), 0)})
        out |= st.read
    return out - {'method'}


def restores(f):
    """writes attributes back from a copy: setattr by a computed name, an update of __dict__, or saved values"""
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) == 3 and not isinstance(x.args[1], ast.Constant):
                return True
            if isinstance(x.func, ast.Attribute) and x.func.attr == 'update' and '__dict__' in ast.unparse(x.func.value):
                return True
    return False


def copies(f):
    """keeps copies of the object's attributes"""
    me = f.params()[0] if f.params() else None
    n = 0
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'getattr' and len(x.args) > 1 and not isinstance(x.args[1], ast.Constant):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) in ('deepcopy', 'copy', 'vars', 'dict') \
                and any('__dict__' in ast.unparse(a) or isinstance(a, ast.Name) and a.id == me and (x.func.id if isinstance(x.func, ast.Name) else '') == 'vars' for a in x.args + [x.func]):
            return True
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == 'deepcopy' and x.value.args \
                and isinstance(x.value.args[0], ast.Attribute) and isinstance(x.value.args[0].value, ast.Name) and x.value.args[0].value.id == me:
            n += 1
    return n >= 4


def reach(prog, cls, f):
    seen, work = {}, [f]
    while work:
        g = work.pop()
        if g.node in seen:
            continue
        seen[g.node] = g
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call):
                r = None
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                    kk = cls.lookup(x.func.attr)
                    r = kk[1] if kk and isinstance(kk[1], Func) else None
                elif isinstance(x.func, ast.Name):
                    r = g.module.resolve(x.func.id)
                if isinstance(r, Func) and (r.cls is cls or any(isinstance(a, ast.Name) for a in x.args)):
                    work.append(r)
    return list(seen.values())


class Retry(States):
    """tags: 0 the solution on entry, n a completed attempt, ('p', n) an unfinished one, '?' a value put in by hand"""
    def __init__(self, prog, cls, R, attempt):
        super().__init__(prog, limit=3000)
        self.mycls, self.R, self.attempt = cls, R, attempt
        self.tag = '?'
        self.partial = set()
        self.attempts = set()
        self.copied = set()

    def relevant(self, f):
        return None

    def gen(self, s):
        return s.attrs['#gen'][0][1]

    def restore(self, s, a, w):
        if w[0] == 'from' and a in self.R and w[1] == a:
            s = self.setattr(s, a, NN, tag=w[2])
            s.attrs['#back'] = (k(True), 0)
            return s
        return super().restore(s, a, w)

    def cond(self, e, s):
        out = super().cond(e, s)
        r = []
        for v, s2 in out:
            if v[0] == 'k' and self.gen(s2) == 1 and len(out) > 1:
                s2 = s2.copy()
                s2.attrs['#sig'] = (k(s2.attrs.get('#sig', (k(()),))[0][1] + ((e.lineno, e.col_offset, v[1]),)), 0)
            r.append((v, s2))
        return r

    def lost(self, s):
        s = s.copy()
        for a in self.R:
            if a in s.attrs:
                s.attrs[a] = (NN, '?')
        s.attrs['#lost'] = (k(True), 0)
        return s

    def b_setattr(self, e, s):
        r = super().b_setattr(e, s)
        if r is None:
            return None
        out = []
        for v, s2 in r:
            if len(e.args) == 3 and not any(w[0] == 'k' for w, _ in self.ev(e.args[1], s)):
                s2 = self.lost(s2)
            out.append((v, s2))
        return out

    def boundbuiltin(self, o, name, args, kws, e, s):
        if o[0] == 'mydict' and name in ('update', 'clear', 'pop', 'setdefault') and not (name == 'update' and args and args[0][0] in ('dict', 'snap')):
            return [(NN, self.lost(s))]
        return super().boundbuiltin(o, name, args, kws, e, s)

    def setattr(self, s, a, v, tag=None):
        if a in self.R:
            v = NN
        else:
            v, tag = (v if v[0] in ('k', 'dict', 'tup', 'fn') and v != NONE else NN), 0
        s = s.copy()
        s.attrs[a] = (v, '?' if tag is None else tag)
        return s

    def attr(self, e, a, s):
        if a not in s.attrs and self.mycls.lookup(a) is None and not a.startswith('__'):
            return [(NN, s)]
        return super().attr(e, a, s)

    def call(self, fv, args, kws, e, s):
        if fv[0] in ('fn', 'meth'):
            f = self.prog.find(fv[1])
            given = args is None or ME in (args or []) or ME in kws.values() or fv[0] == 'meth'
            if f is not None and given and not f.is_static:
                w = may_write(self.prog, f, self.mycls) & self.R
                kind = self.attempt(f, w)
                if kind:
                    g = min(self.gen(s) + 1, CAP)
                    s = s.copy()
                    self.attempts.add(f.qual)
                    for a in w:
                        s.attrs[a] = (NN, g if kind == 'whole' else ('p', g))
                    if kind == 'whole':
                        for a, (v, t) in list(s.attrs.items()):
                            if t == '?' and a in self.R or isinstance(t, tuple) and t == ('p', g):
                                s.attrs[a] = (NN, g)
                        s.attrs['#gen'] = (k(g), 0)
                    return [(NN, s)]
        return super().call(fv, args, kws, e, s)


def retries(chk):
    cls = chk.need('connector.Connector')
    reads = interpolated(chk, cls)
    methods = [f for f in cls.all_functions()]
    keep = []
    for f in methods:
        fs = reach(chk.prog, cls, f)
        own = [g for g in fs if restores(g)]
        if (restores(f) or copies(f)):
            keep.append(f)
    # a method that copies or restores on behalf of another is entered from that one
    called = {g.node for f in keep for g in reach(chk.prog, cls, f) if g.node is not f.node}
    writes = {f.node: may_write(chk.prog, f, cls) & reads for f in methods}
    size = max((len(w) for w in writes.values()), default=0)
    guarded = {f.node for f in methods if any(g in keep for g in reach(chk.prog, cls, f))}

    def attempt(f, w):
        """None: not an attempt; 'part' or 'whole'"""
        if f.node in guarded or any(g.node in guarded for g in reach(chk.prog, cls, f)):
            return None
        if len(w) < 5:
            return None
        return 'whole' if {'md2', 'md3', 'md_target'} <= w else 'part'
    roots = []
    for f in methods:
        fs = reach(chk.prog, cls, f)
        calls = [g for g in fs if g.node is not f.node and attempt(g, may_write(chk.prog, g, cls) & reads) == 'whole']
        if any(g in keep for g in fs) and calls:
            roots.append(f)
    # the smallest methods that hold both the attempt and the copy
    small = [f for f in roots if not any(g in roots for g in reach(chk.prog, cls, f) if g.node is not f.node)]
    if not small:
        chk.unknown(MIX, 'connector', 'no method keeps a copy of the solution while it tries another')
    for f in small:
        one(chk, cls, f, reads, attempt)


def one(chk, cls, f, reads, attempt):
    st = Retry(chk.prog, cls, reads, attempt)
    env, bad = st.bind(f, [ME], {})
    if bad:
        chk.unknown(MIX, f.qual, 'takes arguments')
        return
    attrs = {a: (NN, 0) for a in reads}
    attrs['#gen'] = (k(0), 0)
    try:
        outs = st.run(f, env, attrs)
    except TooMany as e:
        chk.unknown(MIX, f.qual, str(e))
        return
    chk.count('retry methods')
    chk.count('ways out of a retry', len(outs))
    touched = set()
    for q in st.attempts:
        touched |= may_write(chk.prog, chk.prog.find(q), cls) & reads
    for s, o in outs:
        for a, (v, t) in s.attrs.items():
            if a in reads and t not in (0, '?'):
                touched.add(a)
    chk.count('attributes followed', len(touched))
    worst = None
    undone = kept = lost = False
    sigs = {}
    for s, o in outs:
        if o[0] == 'raise':
            continue
        tags = {a: s.attrs[a][1] for a in sorted(touched) if a in s.attrs and s.attrs[a][1] != '?'}
        vals = set(tags.values())
        tried = s.attrs['#gen'][0][1] > 0
        if tried and s.attrs.get('#back', (None,))[0] == k(True):
            undone = True
        if tried:
            kept = True
            sigs.setdefault(s.attrs.get('#sig', (k(()),))[0][1], set()).update(vals)
        lost = lost or '#lost' in s.attrs
        if len(vals) > 1:
            by = {}
            for a, t in tags.items():
                by.setdefault(t, []).append(a)
            small = sorted(by.items(), key=lambda kv: len(kv[1]))
            if worst is None or len(small[0][1]) < len(worst[0][1]):
                worst = small
    if worst:
        def nm(t):
            return 'before the attempt' if t == 0 else f'attempt {t}' if isinstance(t, int) else f'unfinished attempt {t[1]}'
        chk.bad(MIX, f.qual, f'a way out publishes {", ".join(worst[0][1])} from {nm(worst[0][0])} with {", ".join(worst[1][1][:4])}{"…" if len(worst[1][1]) > 4 else ""} from {nm(worst[1][0])}', f.loc)
    elif lost:
        chk.unknown(MIX, f.qual, 'what is written back is not evident')
    else:
        chk.ok(MIX, f.qual, f'{len(outs)} ways out, {len(touched)} attributes', f.loc)
    if kept and lost:
        chk.unknown(BACK, f.qual, 'what is written back is not evident')
    elif kept and undone and not worst and all(1 in v for v in sigs.values()):
        chk.bad(BACK, f.qual, 'whatever the comparison with the kept copy says, the first attempt can end up published', f.loc)
    elif kept and not undone:
        chk.bad(BACK, f.qual, 'a copy of the solution is kept while another is tried, and is never written back', f.loc)
    elif kept:
        chk.ok(BACK, f.qual, '', f.loc)


def run(chk):
    chk.explanation = 'dataflow of which attempt each attribute comes from, through every connector method that keeps a copy of the solution while it tries another'
    chk.group(retries)


MINIMUM = 1
