"""Compares what a function of the library computes with a specification formula.

Specifications are Python functions in /verif/spec; both sides are evaluated to terms by the same
evaluator, lowered to scalar components, and decided by nf.compare."""
import os, ast
from .loader import Module, Func, Cls, AnalysisBroken
from .terms import *
from .aeval import Evaluator, Budget, mkcall, mkcmp, mkite
from .lower import Lower, Unsup, A, indices
from .nf import compare, MODELLED

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


def spec_module(prog, name):
    key = 'spec.' + name
    m = prog.__dict__.setdefault('_spec', {}).get(key)
    if m is None:
        m = Module(prog, key, os.path.join(SPEC, name + '.py'))
        star = m.imports.pop('*', None)
        if star is not None:
            for k, f in spec_module(prog, star[1].split('.')[-1]).funcs.items():
                m.funcs.setdefault(k, f)
        prog._spec[key] = m
    return m


def spec_func(prog, name):
    m, f = name.rsplit('.', 1)
    return spec_module(prog, m).funcs[f]


def evaluator(chk, **kw):
    return Evaluator(chk.prog, **kw)


def spec_term(chk, name, params=None, **kw):
    """value of specification function `name` with its parameters bound to terms (or symbols of their own names)"""
    ev = Evaluator(chk.prog, **kw)
    f = spec_func(chk.prog, name)
    r = ev.root(f, params={k: v for k, v in (params or {}).items() if k in f.all_params()}, defaults=True)
    return ev.deref(r)


# values the evaluator does not know precisely: a difference that rests on one of them proves nothing
IMPRECISE = {'phi', 'loopout', 'unknown', 'opaque', 'mut', 'loopidx', 'inloop', 'undef', 'exc', 'excval', 'mcall', 'rcall', 'yielded', 'attrdyn', 'kwget', 'dyn', 'elemval', 'elemkey',
             'mapstore', 'comp', 'sumover', 'noreturn', 'star', 'fn', 'defobj', 'enter', 'obj'}
_VOCAB = None


def vocab():
    global _VOCAB
    if _VOCAB is None:
        with open(os.path.join(SPEC, 'attributes.txt')) as f:
            _VOCAB = set(f.read().split())
    return _VOCAB


def foreign(code, spec):
    """a construct in the code's value that the specification does not share and that the analysis cannot read"""
    have = set(subterms(spec))
    todo, seen = [code], set()
    while todo:
        x = todo.pop()
        if x in seen or x in have:
            continue
        seen.add(x)
        if x.op in IMPRECISE:
            return f'rests on {show(x, 4)[:120]}'
        if x.op == 'call' and isinstance(x.a[0], str) and x.a[0] not in MODELLED:
            return f'rests on {x.a[0]}'
        if x.op == 'attr' and x.a[1] not in vocab():
            return f'rests on attribute {x.a[1]}'
        todo.extend(y for y in x.a if isinstance(y, T))
    return None


def _whole_turns(t):
    """without reduction to a full turn"""
    turn = lambda x: is_const(x) is False and x.op == 'bin' and x.a[0] == '*' and {PI, const(2)} >= set(x.a[1:])
    while t.op == 'bin' and (t.a[0] == '%' or t.a[0] == '+') and turn(t.a[2]):
        t = t.a[1]
    return t


def resolve(t, angles=(), lengths=(), ranges=None):
    """arctan2(p sin z, p cos z) is z and sqrt(l**2) is l, for the angles z and lengths l of a direction known to be regular"""
    mul = lambda x, y: mk('bin', '*', x, y)

    def f(x):
        if x.op == 'call' and x.a[0] == 'numpy.arctan2' and len(x.a[1].a) == 2:
            y, c = x.a[1].a
            for z in angles:
                s, k = mkcall('numpy.sin', [z]), mkcall('numpy.cos', [z])
                if compare(mul(y, k), mul(c, s), ranges=ranges)[0] == 'equal' and compare(x, z, ranges=ranges)[0] != 'differ':
                    return z
                # the other way round half a turn
                if compare(mul(y, k), mul(c, s), ranges=ranges)[0] == 'equal' and all(compare(mkcall(g, [x]), h, ranges=ranges)[0] != 'differ' for g, h in (('numpy.sin', s), ('numpy.cos', k))):
                    return z
        if x.op == 'call' and x.a[0] in ('numpy.sqrt', 'numpy.hypot') or x.op == 'bin' and x.a[0] == '**' and is_const(x.a[2]) and cval(x.a[2]) == 0.5:
            a = x.a[1].a if x.op == 'call' else (x.a[1],)
            q = a[0] if len(a) == 1 else mk('bin', '+', mul(a[0], a[0]), mul(a[1], a[1]))
            for l in lengths:
                if compare(q, mul(l, l), ranges=ranges)[0] == 'equal':
                    return l
        return None
    return rebuild(t, f)


def decide(chk, rule, construct, code, spec, lower, ranges=None, special=(), loc='', shape=True, comps=None, maxconds=9, angle=None, alt=(), known=None, points=24):
    """one obligation: term (or A) `code` equals term (or A) `spec` (or one of `alt`) component by component"""
    if alt:
        sub = []
        for sp in (spec,) + tuple(alt):
            c = type(chk)(chk.pid, chk.tier)
            c._prog = chk.prog
            sub.append((decide(c, rule, construct, code, sp, lower, ranges, special, loc, shape, comps, maxconds, angle, known=known), c.obs))
            if sub[-1][0]:
                break
        best = next((o for r, o in sub if r), None) or next((o for r, o in sub if r is None), None) or sub[0][1]
        for o in best:
            chk.add(*o)
        chk.count('components compared')
        return sub[-1][0]
    if isinstance(code, T) and code is spec:
        chk.ok(rule, construct, 'identical terms', loc)
        return True
    try:
        a = code if isinstance(code, A) else lower(code)
        b = spec if isinstance(spec, A) else lower(spec)
        if known:
            a = A(a.shape, {k: resolve(v, *known, ranges=ranges) for k, v in a.d.items()})
    except Unsup as e:
        chk.unknown(rule, construct, f'not expressible: {e}', loc)
        return None
    sa = tuple(d for d in a.shape if d != 1) if shape else a.shape
    sb = tuple(d for d in b.shape if d != 1) if shape else b.shape
    if sa != sb:
        chk.unknown(rule, construct, f'shape {a.shape} where {b.shape} is specified', loc)
        return None
    ia = [ix for ix in indices(a.shape)]
    ib = [ix for ix in indices(b.shape)]
    worst = True
    for x, y in zip(ia, ib):
        if comps is not None and y not in comps:
            continue
        chk.count('components compared')
        if chk.tier == 'thorough':
            maxconds = max(maxconds, 12)
        st, info = compare(a.d[x], b.d[y], ranges=ranges, special=special, maxconds=maxconds, points=points if chk.tier == 'quick' else 4 * points)
        if st != 'equal' and angle:
            # angles: equal when their sines and cosines are
            w = (lambda u: u) if angle == 'rad' else (lambda u: mkcall('numpy.radians', [u]))
            rs = [compare(mkcall(f, [w(a.d[x])]), mkcall(f, [w(b.d[y])]), ranges=ranges, special=special, maxconds=maxconds)[0] for f in ('numpy.sin', 'numpy.cos')]
            if 'differ' not in rs:
                ends = [_whole_turns(a.d[x]), _whole_turns(b.d[y])]
                if rs != ['equal', 'equal'] and all(u.op == 'call' and u.a[0] == 'numpy.arctan2' for u in ends) and \
                        all(compare(u, v, ranges=ranges, special=special, maxconds=maxconds)[0] == 'equal' for u, v in zip(ends[0].a[1].a, ends[1].a[1].a)):
                    rs = ['equal', 'equal']
                st, info = ('equal', None) if rs == ['equal', 'equal'] else ('unknown', 'differ by a whole turn at most') if st == 'differ' else (st, info)
        if st == 'differ':
            why = foreign(a.d[x], b.d[y])
            if why:
                chk.unknown(rule, construct, f'component {y}: {why}', loc)
                worst = None
                continue
            conds, u, v, vals = info
            on = (' when ' + ', '.join(conds)) if conds else ''
            chk.bad(rule, construct, f'component {y}{on}: computes {show(u, 12)[:600]}, specified {show(v, 12)[:600]} (e.g. {vals[0]!r} against {vals[1]!r})', loc)
            return False
        if st == 'unknown':
            chk.unknown(rule, construct, f'component {y}: {info}', loc)
            worst = None
    if worst:
        chk.ok(rule, construct, '', loc)
    return worst


def evaluate(chk, qual, params=None, self_term=None, defaults=False, before=None, given=(), assume=(), **kw):
    """-> (evaluator, return term) or (None, reason)"""
    fn = chk.prog.need(qual)
    if not isinstance(fn, Func):
        raise AnalysisBroken(f'{qual} is not a function any more')
    ev = Evaluator(chk.prog, **kw)
    for g in given:
        ev.guards.append((mk('cmp', 'is', g, NONE), False))
    for c, b in assume:
        ev.guards.append((c, b))
    if before:
        before(ev)
    p = dict(params or {})
    a = fn.node.args
    names = set(fn.all_params()) | {a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None}
    missing = [k for k in p if k not in names]
    for k in missing:
        p.pop(k)
    try:
        r = ev.root(fn, params=p, self_term=self_term, defaults=defaults)
    except Budget:
        return None, 'evaluation budget exhausted'
    except RecursionError:
        return None, 'recursion'
    chk.count('functions evaluated')
    return ev, r


def formula(chk, rule, qual, spec, out=None, params=None, shapes=None, specparams=None, specout=None, ranges=None, special=(), facts=None, lower_kw=None, self_term=None, defaults=False, construct=None, before=None, comps=None, maxconds=9, angle=None, known=None, **kw):
    """rule instance: the value of `qual` (or out(ev, ret)) equals spec function `spec`"""
    construct = construct or qual
    fn = chk.prog.find(qual)
    if fn is None:
        if qual.rsplit('.', 1)[-1].startswith('_') and not qual.endswith('__'):
            chk.unknown(rule, construct, 'this internal function is gone')
            return None
        raise AnalysisBroken(f'{qual} vanished')
    loc = fn.loc if isinstance(fn, Func) else ''
    ev, r = evaluate(chk, qual, params, self_term, defaults, before=before, **kw)
    if ev is None:
        chk.unknown(rule, construct, r, loc)
        return None
    code = out(ev, r) if out else r
    if code is None:
        chk.unknown(rule, construct, 'result not found', loc)
        return None
    if isinstance(code, T):
        code = ev.deref(code)
    sp = dict(params or {})
    sp.update(specparams or {})
    st = spec_term(chk, spec, sp)
    if specout:
        st = specout(st)
    L = Lower(shapes or {}, facts=facts, **(lower_kw or {}))
    return decide(chk, rule, construct, code, st, L, ranges, special, loc, comps=comps, maxconds=maxconds, angle=angle, known=known)


def attr(name, of=None):
    def f(ev, r):
        return ev.heap.get((of or sym('self'), name))
    return f


def part(i):
    def f(ev, r):
        r = ev.deref(r)
        if r.op in ('tuple', 'list') and i < len(r.a):
            return r.a[i]
        return None
    return f
