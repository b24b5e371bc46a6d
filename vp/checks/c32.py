"""C32 Conversion helpers are exact and undo each other: decimal degrees, degrees-minutes-seconds, their printed text, covariance components, scalings and volumes."""
import math

from ..fold import Cannot, Raises, folds
from .common import *
from .c29 import kwarg

RULE = 'conversion'
MINIMUM = 4
# one representative of every sign and range class: zero, below one minute, below one degree, above, with and without minutes and seconds
ANGLES = (0.0, 0.005, -0.005, 0.5, -0.5, 0.7575, -0.7575, 1.0, -1.0, 4.25, -4.25, 52.078663, -52.078663, -0.999, 178.9876, -178.9876)
FIELDS = ((52, 4, 43.1868), (4, 17, 19.5), (0, 0, 0.25), (0, 30, 0.0), (-4, 15, 3.5), (-0.0, 30, 0.0), (52.0, 4.0, 43.1868), (-4.0, 15.0, 3.5), (178, 59, 15.36), (4, 5, 7.5e-12))


def tup(*a):
    return mk('tuple', *a)


def result(chk, q, params=None, **kw):
    ev, r = evaluate(chk, q, params or {}, inline=lambda f: f.module.name.endswith('utils'), **kw)
    return ev, ev.deref(r) if ev and r is not None else None


def judge(chk, c, fn, t, cases, good, what):
    """`good(value, case)` for every case, in at least one way the exceptions can go"""
    n, bad, why = 0, None, None
    for env, case in cases:
        try:
            vs = folds(t, env)
        except Cannot as e:
            why = why or f'{e}'
            continue
        if any(not isinstance(v, (Raises, Cannot)) and good(v, case) for v in vs):
            n += 1
        elif any(isinstance(v, Cannot) for v in vs):
            why = why or next(v for v in vs if isinstance(v, Cannot))
        else:
            n += 1
            bad = bad or (case, vs[0])
    chk.count('representatives folded', n)
    if bad:
        chk.bad(RULE, c, f'{what}: {bad[0]!r} gives {bad[1]!r}'[:200], fn.loc)
    elif why or not n:
        chk.unknown(RULE, c, f'not expressible: {why}', fn.loc)
    else:
        chk.ok(RULE, c, f'{what}; {n} representatives', fn.loc)


def num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def near(a, b):
    return num(a) and num(b) and abs(a - b) < 1e-9


def signed(a, b):
    return near(a, b) and (math.copysign(1, a) == math.copysign(1, b) or abs(b) > 1e-9)


def dms(chk):
    q = 'utils._decimal2dms'
    fn = chk.prog.find(q)
    back = chk.prog.find('utils._dms2decimal')
    if fn is None or back is None:
        chk.unknown(RULE, 'utils.decimal2dms', 'the internal conversions are gone')
        return
    x, d, nd = sym('x'), sym('direction'), sym('ndigits')
    p, pb = fn.params()[0], back.params()[0]
    f = {}
    for tag, arg, k in (('plain', x, 3), ('with direction', tup(x, d), 4)):
        ev, t = result(chk, q, {p: arg, 'ndigits': NONE})
        f[tag] = t
        b3 = [sym(f'f{i}') for i in range(k)]
        ev, u = result(chk, 'utils._dms2decimal', {pb: tup(*b3), 'ndigits': NONE})
        c = f'decimal to DMS[{tag}]'
        if t is None or u is None:
            chk.unknown(RULE, c, 'no result', fn.loc)
            continue
        cases = [({x: a, d: 'N'}, a) for a in ANGLES]

        def comps(v, a):
            if not (isinstance(v, (tuple, list)) and len(v) == k and all(num(y) for y in v[:3])):
                return False
            return v[0] == math.trunc(a) and v[1] == int(v[1]) and 0 <= v[1] < 60 and 0 <= v[2] < 60 + 1e-9 and near(abs(v[0]) + v[1] / 60 + v[2] / 3600, abs(a)) and (k == 3 or v[3] == 'N')
        judge(chk, c, fn, t, cases, comps, 'whole degrees, whole minutes, remaining seconds')
        cases = [({**dict(zip(b3, v)), b3[-1]: 'N'} if k == 4 else dict(zip(b3, v)), v) for v in FIELDS]

        def dec(v, a):
            w = v[0] if isinstance(v, (tuple, list)) and len(v) == k - 2 else None
            return signed(w, math.copysign(abs(a[0]) + a[1] / 60 + a[2] / 3600, a[0])) and (k == 3 or v[1] == 'N')
        judge(chk, f'DMS to decimal[{tag}]', back, u, cases, dec, 'degrees + minutes/60 + seconds/3600 with the sign of the degrees')
        # there and back
        n, bad, why = 0, None, None
        for a in ANGLES:
            try:
                ok = False
                vs = folds(t, {x: a, d: 'N'})
                for v in vs:
                    if isinstance(v, (tuple, list)) and len(v) == k:
                        ok = ok or any(isinstance(w, (tuple, list)) and w and signed(w[0], a) for w in folds(u, dict(zip(b3, v))))
                if not ok and any(isinstance(v, Cannot) for v in vs):
                    raise next(v for v in vs if isinstance(v, Cannot))
                n += 1
                if not ok and bad is None:
                    bad = a
            except Cannot as e:
                why = e
        c = f'decimal to DMS and back[{tag}]'
        if bad is not None:
            chk.bad('round trip', c, f'{bad} does not come back', fn.loc)
        elif why or not n:
            chk.unknown('round trip', c, f'not expressible: {why}', fn.loc)
        else:
            chk.ok('round trip', c, f'{n} representatives', fn.loc)


def texts(chk):
    q, g = 'utils.pprint_dms', 'utils.dms_from_string'
    fn, fg = chk.need(q), chk.need(g)
    p = fn.params()[0]
    ev, u = result(chk, g)
    s = sym(fg.params()[0])
    for k in (3, 4):
        b = [sym(f'f{i}') for i in range(k)]
        for style in (TRUE, FALSE):
            c = f'DMS text and back[{"symbols" if style is TRUE else "words"}{", with direction" if k == 4 else ""}]'
            ev, t = result(chk, q, {p: tup(*b), 'symbols': style, 'return_data': TRUE})
            if t is None or u is None:
                chk.unknown('round trip', c, 'no result', fn.loc)
                continue
            n, bad, why = 0, None, None
            for f in FIELDS:
                f = f + (('N',) if k == 4 else ())
                try:
                    ok, dim = False, None
                    for text in folds(t, dict(zip(b, f))):
                        if not isinstance(text, str):
                            dim = text if isinstance(text, Cannot) else dim
                            continue
                        for v in folds(u, {s: text}):
                            dim = v if isinstance(v, Cannot) else dim
                            ok = ok or isinstance(v, (tuple, list)) and len(v) == k and all(signed(i, j) if num(j) else i == j for i, j in zip(v, f))
                    if not ok and dim:
                        raise dim
                    n += 1
                    if not ok and bad is None:
                        bad = f
                except Cannot as e:
                    why = e
            if bad is not None:
                chk.bad('round trip', c, f'{bad} does not come back', fg.loc)
            elif why or not n:
                chk.unknown('round trip', c, f'not expressible: {why}', fg.loc)
            else:
                chk.ok('round trip', c, f'{n} representatives', fg.loc)


def wrappers(chk):
    """the array versions apply the scalar conversion with the caller's digits"""
    for q, inner in (('utils.decimal2dms', 'utils._decimal2dms'), ('utils.dms2decimal', 'utils._dms2decimal')):
        fn = chk.need(q)
        if chk.prog.find(inner) is None:
            chk.unknown(RULE, f'{q} digits', 'the internal conversion is gone', fn.loc)
            continue
        ev, r = evaluate(chk, q, {}, inline=lambda f: f.qual == q, defaults=False)
        n = 0
        for e in ev.events if ev else ():
            nd, axis = None, None
            if e.kind == 'call' and e.d['callee'] == inner:
                nd = e.d['bound'].get('ndigits')
            elif e.kind == 'extcall' and e.d['callee'] == 'numpy.apply_along_axis' and e.d['args'] and inner in show(ev.deref(e.d['args'][0]), 3):
                a = [ev.deref(y) for y in e.d['args']]
                k = {y: ev.deref(v) for y, v in dict(e.d['kws']).items()} if isinstance(e.d['kws'], (dict, list, tuple)) else {}
                nd = a[3] if len(a) > 3 else k.get('ndigits', NONE)
            else:
                continue
            n += 1
            nd = ev.deref(nd) if nd is not None else NONE
            c = f'{q} digits[{n}]'
            (chk.ok if nd is sym('ndigits') else chk.bad if is_const(nd) else chk.unknown)(RULE, c, show(nd, 3)[:80], f'{e.rel}:{e.line}')
        if not n:
            chk.unknown(RULE, f'{q} digits', 'not recognised', fn.loc)


def rounding(chk):
    """digits asked for round the last figure, and only that"""
    for q, tag in (('utils._decimal2dms', 'decimal to DMS'), ('utils._dms2decimal', 'DMS to decimal')):
        fn = chk.prog.find(q)
        if fn is None:
            continue
        x, f = sym('x'), [sym(f'f{i}') for i in range(3)]
        dec = 'decimal2dms' in q
        for nd in (0, 2, 6):
            ev, t = result(chk, q, {fn.params()[0]: x if dec else tup(*f), 'ndigits': const(nd)})
            if t is None:
                chk.unknown(RULE, f'{tag}, {nd} digits', 'no result', fn.loc)
                continue
            cases = [({x: a}, a) for a in ANGLES] if dec else [(dict(zip(f, v)), math.copysign(abs(v[0]) + v[1] / 60 + v[2] / 3600, v[0])) for v in FIELDS]

            def good(v, a, nd=nd, dec=dec):
                if dec:
                    if not (isinstance(v, (tuple, list)) and len(v) == 3 and all(num(y) for y in v)):
                        return False
                    return abs(abs(v[0]) + v[1] / 60 + v[2] / 3600 - abs(a)) <= 0.51 * 10. ** -nd / 3600 + 1e-9
                w = v[0] if isinstance(v, (tuple, list)) and len(v) == 1 else v
                return num(w) and abs(w - a) <= 0.51 * 10. ** -nd
            judge(chk, f'{tag}, {nd} digits', fn, t, cases, good, 'the same angle to the digits asked for')


def scaling(chk):
    q = 'utils.linear_convert'
    fn = chk.need(q)
    d, k = fn.params()[:2]
    for tag, v, w in (('number', const(2.0), 6.0), ('nothing', NONE, None), ('list', mk('list', const(2.0), NONE), [6.0, None]), ('empty list', mk('list'), [])):
        ev, t = result(chk, q, {d: v, k: const(3.0)})
        if t is None:
            chk.unknown(RULE, f'{q} of a {tag}', 'no result', fn.loc)
        else:
            judge(chk, f'{q} of a {tag}', fn, t, [({}, w)], lambda v, c: v == c and isinstance(v, list) == isinstance(c, list), 'a value for a value, a list for a list')
    ev, t = result(chk, q)
    x, k = sym(fn.params()[0]), sym(fn.params()[1])
    if t is None:
        chk.unknown(RULE, q, 'no result', fn.loc)
    else:
        # the per-element conversion, whatever the wrapping
        bodies = {y.a[1] for y in subterms(t) if y.op == 'comp' and len(y.a) > 1 and any(z.op == 'elem' for z in subterms(y.a[1]))}
        for i, b in enumerate(sorted(bodies)):
            el = sorted({z for z in subterms(b) if z.op == 'elem'})
            if len(el) != 1:
                chk.unknown(RULE, f'{q} element', show(b, 4)[:100], fn.loc)
                continue
            cases = [({el[0]: v, k: f}, (v, f)) for v in (None, 0.0, 0, 1.5, -2.0, 1e6) for f in (0.3048, 2.0, 1)]
            judge(chk, f'{q} element', fn, b, cases, lambda v, c: v is None if c[0] is None else near(v, c[0] * c[1]), 'the element times the factor, None kept')
        if not bodies:
            chk.unknown(RULE, f'{q} element', 'not recognised', fn.loc)
    q = 'utils.annular_volume'
    fn = chk.need(q)
    od, i, l = sym('od'), sym('id'), sym('length')
    R4 = ranges(od=(0.2, 0.9), id=(0.05, 0.19), length=(1., 100.))
    for tag, par in (('annulus', {}), ('disc', {'id': NONE}), ('unit length', {'length': NONE}), ('area', {'id': NONE, 'length': NONE}), ('no length', {'length': const(0)}), ('no bore', {'id': const(0)})):
        ev, t = result(chk, q, {**par}, defaults=False)
        c = f'{q}[{tag}]'
        if t is None:
            chk.unknown(RULE, c, 'no result', fn.loc)
            continue
        t = rebuild(t, lambda y: mkite(*y.a) if y.op == 'ite' else FALSE if y.op == 'cmp' and y.a[0] == 'is' and y.a[2] is NONE and y.a[1] in (od, i, l) else y)
        decide(chk, RULE, c, t, spec_term(chk, 'formulas_misc.annulus', {'id': const(0) if 'id' in par else i, 'length': l if 'length' not in par else const(1) if par['length'] is NONE else par['length']}), Lower({}), R4, loc=fn.loc)


NAMES = {'nn': (0, 0), 'ne': (0, 1), 'nv': (0, 2), 'ee': (1, 1), 'ev': (1, 2), 'vv': (2, 2)}


def components(chk):
    """covariance elements are unpacked under, and packed into, their own places"""
    q = 'utils.errors_from_cov'
    fn = chk.need(q)
    cov = sym(fn.params()[0])
    sh = {cov: ('n', 3, 3)}
    for tag, par in (('list', FALSE), ('dictionary', TRUE)):
        ev, t = result(chk, q, {'data': par})
        if t is None:
            chk.unknown(RULE, f'{q}[{tag}]', 'no result', fn.loc)
            continue
        if par is FALSE:
            decide(chk, RULE, f'{q}[{tag}]', t, spec_term(chk, 'formulas_misc.elements'), Lower(sh), loc=fn.loc)
            continue
        seen = {}
        for y in subterms(t):
            if y.op == 'dict':
                for kv in y.a:
                    if kv.op == 'kv':
                        kk = kv.a[0] if not isinstance(kv.a[0], T) else cval(kv.a[0]) if is_const(kv.a[0]) else None
                        if kk in NAMES:
                            seen[kk] = kv.a[1]
        for name, (i, j) in NAMES.items():
            c = f"{q}[{tag}] '{name}'"
            v = seen.get(name)
            v = v.a[0] if v is not None and v.op == 'elem' else None
            if v is None:
                chk.unknown(RULE, c, 'not recognised', fn.loc)
                continue
            decide(chk, RULE, c, v, spec_term(chk, 'formulas_misc.element', {'i': const(i), 'j': const(j)}), Lower(sh), loc=fn.loc, alt=() if i == j else (spec_term(chk, 'formulas_misc.element', {'i': const(j), 'j': const(i)}),))
    for q, tag, par, spec in (('utils.get_sigmas', 'long', {'long': TRUE}, 'long_sigmas'), ('utils.get_sigmas', 'short', {'long': FALSE}, 'sigmas'), ('utils.make_long_cov', 'packed', {}, 'packed')):
        fn = chk.need(q)
        ev, t = result(chk, q, par)
        c = f'{q}[{tag}]'
        if t is None:
            chk.unknown(RULE, c, 'no result', fn.loc)
            continue
        if t.op in ('tuple', 'list'):
            for i, v in enumerate(t.a):
                decide(chk, RULE, f'{c} item {i}', v, spec_term(chk, f'formulas_misc.{spec}', {'k': const(i)}), Lower({sym('cov'): ('n', 3, 3)}), ranges(cov=(0.5, 2.)), loc=fn.loc,
                       alt=(spec_term(chk, f'formulas_misc.{spec}_t', {'k': const(i)}),))
        else:
            decide(chk, RULE, c, t, spec_term(chk, f'formulas_misc.{spec}'), Lower({sym('arr'): ('n', 6)}), loc=fn.loc)


def run(chk):
    chk.explanation = ('value numbering of the conversion helpers; scalar conversions are constant-folded for one representative of every sign and range class, and composed with their inverse; '
                       'printed text is followed through the parser\'s regular expression; component layouts and volumes are compared by normal form')
    for f in (dms, texts, wrappers, rounding, scaling, components):
        chk.group(f)
