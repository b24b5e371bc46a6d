"""C13 The separation factor is the ISCWSA ratio of its stated ingredients."""
from .common import *
from ..aeval import addends as terms_of_sum

ME = sym('self')
REF, OFF = mk('attr', ME, 'ref'), mk('attr', ME, 'off')
NEAR = sym('nearest_radius')
ARGS = ('reference', 'offset', 'k', 'sigma_pa', 'Sm', 'Rr', 'Ro', 'kop_depth')
RULE = 'separation factor ingredient'
R = ranges(distance_above=(1., 9.), distance_below=(1., 9.), other_radius=(0.6, 0.9), n=(-300., 300.), e=(-300., 300.), tvd=(100., 900.), inc_rad=(0.2, 2.8), azi_grid_rad=(0.1, 6.1), radius=(0.1, 0.5), nearest_radius=(0.1, 0.5), cov_nev=(0.5, 4.), k=(2., 4.), sigma_pa=(0.2, 1.), Sm=(0.1, 0.5),
           ref_cov=(0.5, 4.), off_cov=(0.5, 4.), u=(-1., 1.), distance=(5., 50.), ref_radius=(0.1, 0.5), off_radius=(0.1, 0.5), x=(1., 9.), md=(100., 900.))


def clearance(chk, inline_skip=('_get_closest_points', 'get_sf_mins', '_get_ref'), minimize=FALSE):
    cls = chk.need('survey.Survey')
    fn = chk.need('clearance.IscwsaClearance.__init__')

    def before(ev):
        for s in ('reference', 'offset'):
            ev.hints[sym(s)] = cls
    p = {'minimize_sf': minimize}
    a = fn.node.args
    if a.vararg is not None:
        p[a.vararg.arg] = mk('tuple', *[sym(x) for x in ARGS[:2]])
        p[a.kwarg.arg] = mk('dict', *[mk('kv', const(x), sym(x)) for x in ARGS[2:]])
    return fn, evaluate(chk, 'clearance.IscwsaClearance.__init__', p, before=before, inline=lambda f: f.name not in inline_skip)


def exact(t):
    """rounding to a fixed number of decimals is part of how a value is shown, not of what it is"""
    return rebuild(t, lambda x: x.a[1].a[0] if x.op == 'call' and x.a[0] in ('numpy.around', 'numpy.round') and x.a[1].a else None)


def known_radius(c):
    if c.op == 'cmp' and c.a[0] in ('is', '==') and NONE in c.a[1:] and any(x.op == 'attr' and x.a[1] == 'radius' for x in c.a[1:]):
        return False
    return None


def is_survey_attr(t, name):
    return t.op == 'attr' and t.a[1] == name


def station_values(chk):
    fn, (ev, r) = clearance(chk)
    if ev is None:
        chk.unknown(RULE, fn.qual, r, fn.loc)
        return
    L = Lower(S(nearest_radius=n, other_radius=n), facts=known_radius, atoms=SurveyModel(REF, SurveyModel(OFF)))
    idx = ev.heap.get((ME, 'idx'))
    idx = ev.deref(idx) if idx is not None else None
    off = sym('offset')
    # which offset station is the nearest
    if idx is None or not (idx.op == 'call' and idx.a[0] == 'numpy.argmin'):
        chk.unknown('nearest station', 'idx', show(idx, 3)[:120] if idx is not None else 'not set', fn.loc)
    else:
        d = idx.a[1].a[0]
        ax = next((k.a[1] for k in idx.a[2].a if k.a[0] == 'axis'), idx.a[1].a[1] if len(idx.a[1].a) > 1 else None) if len(idx.a) > 2 else None
        if d.op == 'call' and d.a[0] == 'scipy.spatial.distance.cdist' and ax is not None and is_const(ax) and len(d.a[1].a) >= 2:
            a, b = d.a[1].a[:2]
            if cval(ax) == 0:
                a, b = b, a
            La = Lower({}, atoms=SurveyModel(REF, SurveyModel(off)))
            decide(chk, 'nearest station', 'from the reference stations', a, spec_term(chk, 'clearance.nev', {'s': REF}), La, R, loc=fn.loc)
            decide(chk, 'nearest station', 'among the offset stations', b, spec_term(chk, 'clearance.nev', {'s': off}), La, R, loc=fn.loc)
        else:
            chk.unknown('nearest station', 'idx', show(idx, 4)[:160], fn.loc)

    def nearest(t):
        def f(x):
            if x.op == 'idx' and (x.a[1] is idx):
                y = x.a[0]
                while y.op == 'ite' and known_radius(y.a[0]) is not None:
                    y = y.a[1] if known_radius(y.a[0]) else y.a[2]
                if y.op == 'attr' and y.a[1] == 'radius' and y.a[0] is off:
                    return NEAR
                if y.op == 'attr' and y.a[1] == 'radius':
                    return sym('other_radius')
            return None
        return rebuild(t, f) if idx is not None else t
    sp = {'ref': REF, 'off': OFF}
    for a, s, ang in (('ref_nevs', 'nev', None), ('off_nevs', 'nev', None), ('distance_cc', 'distance', None), ('ref_delta_nevs', 'direction', None), ('off_delta_nevs', 'direction_back', None), ('ref_delta_hlas', 'direction_hla', None),
                      ('off_delta_hlas', 'direction_back_hla', None), ('hoz_bearing', 'bearing', 'rad'), ('hoz_bearing_deg', 'bearing_deg', 'deg'), ('toolface_bearing', 'toolface', 'rad'), ('toolface_bearing_deg', 'toolface_deg', 'deg'),
                      ('ref_pcr', 'ref_pcr', None), ('off_pcr', 'off_pcr', None), ('sigmaS', 'sigma', None), ('calc_hole', 'hole', None), ('wellbore_separation', 'separation', None), ('eou_boundary', 'boundary', None),
                      ('eou_separation', 'eou_separation', None), ('masd', 'allowable', None), ('sf', 'factor', None)):
        t = ev.heap.get((ME, a))
        if t is None:
            chk.unknown(RULE, a, 'not set in the constructor', fn.loc)
            continue
        q = dict(sp)
        if s == 'nev':
            q['s'] = REF if a == 'ref_nevs' else OFF
        decide(chk, RULE, a, exact(nearest(ev.deref(t))), spec_term(chk, 'clearance.' + s, q), L, R, loc=fn.loc, angle=ang)
    # the radii a well without its own takes
    for a in ('Rr', 'Ro'):
        t = ev.heap.get((ME, a))
        if t is None:
            continue
        u = rebuild(ev.deref(t), lambda x: (x.a[1] if known_radius(x.a[0]) is False else x.a[2]) if x.op == 'ite' and known_radius(x.a[0]) is not None else None)
        if u.op == 'call' and u.a[0] == 'numpy.full' and len(u.a[1].a) == 2:
            decide(chk, RULE, f'{a} of a well without radii', u.a[1].a[1], sym(a), Lower({}), ranges(Rr=(0.1, 0.3), Ro=(0.4, 0.6)), loc=fn.loc)
        else:
            chk.unknown(RULE, f'{a} of a well without radii', show(u, 4)[:100], fn.loc)
    # the travelling cylinder is drawn against the reference's azimuth at the same stations
    t = ev.heap.get((ME, 'trav_cyl_azi_deg'))
    tf = ev.heap.get((ME, 'toolface_bearing_deg'))
    ki = ev.heap.get((ME, 'kop_index'))
    if t is not None and tf is not None and ki is not None:
        tf, ki = ev.deref(tf), ev.deref(ki)

        def plain(x):
            if x is tf:
                return mk('attr', sym('self_tf'), 'md')
            if x.op == 'idx' and x.a[0].op == 'attr' and x.a[0].a[0] is sym('reference') and x.a[0].a[1].startswith('azi_') and x.a[1].op == 'slice' and x.a[1].a[0] is ki:
                y = x.a[0].a[1]
                return mkcall('numpy.degrees', [mk('attr', REF, y[:-3] + 'rad')]) if y.endswith('_deg') else mk('attr', REF, y)
            return None
        c = rebuild(ev.deref(t), plain)
        sp = mk('bin', '%', mk('bin', '+', mkcall('numpy.degrees', [mk('attr', REF, 'azi_grid_rad')]), mk('attr', sym('self_tf'), 'md')), const(360))
        decide(chk, RULE, 'trav_cyl_azi_deg', c, sp, Lower({mk('attr', sym('self_tf'), 'md'): n}, atoms=SurveyModel(REF)), R, loc=fn.loc, angle='deg')


# ---------------------------------------------------------------- between stations
def scalar_x(t, x):
    """the optimiser hands its variable over as a one-element array"""
    def strip(y):
        while y.op == 'call' and y.a[0] in ('float', 'numpy.asarray', 'numpy.ravel', 'numpy.array', 'numpy.float64') and y.a[1].a or y.op == 'idx' and y.a[1] is const(0) or y.op == 'mcall' and y.a[1] in ('item', 'ravel', 'flatten'):
            y = y.a[1].a[0] if y.op == 'call' else y.a[0]
        return y
    return rebuild(t, lambda y: x if y is not x and strip(y) is x else None)


def winners(t):
    """a best-so-far variable after its loop holds the value of the iteration that won"""
    def f(y):
        if y.op == 'loopout' and len(y.a) >= 4:
            u = y.a[2]
            if u.op == 'ite':
                for a, b in ((u.a[1], u.a[2]), (u.a[2], u.a[1])):
                    if b.op == 'phi' and a.op != 'phi':
                        return a
        return None
    return rebuild(t, f)


def kwd(t, name):
    return next((ev for k in t.a[1].a for kk, ev in [(k.a[0], k.a[1])] if kk == name), None)


def minimiser(t):
    return t.op == 'call' and isinstance(t.a[0], str) and t.a[0].startswith('scipy.optimize.minimize')


def between_stations(chk):
    qual = 'clearance.IscwsaClearance._get_sf_min'
    fn = chk.prog.find(qual)
    if fn is None:
        chk.unknown('factor between stations', qual, 'this internal function is gone')
        return
    x, i, dmd = sym('x'), sym('i'), sym('delta_md')
    ev, r = evaluate(chk, qual, {}, inline=lambda f: f.name != '_interpolate_pos_nev')
    if ev is None:
        chk.unknown('factor between stations', qual, r, fn.loc)
        return
    t = scalar_x(ev.deref(r), x)
    # the three stations themselves
    for side, at, row in (('at the station', const(0.0), i), ('at the station above', mk('un', '-', mk('idx', dmd, const(0))), mk('bin', '-', i, const(1))), ('at the station below', mk('idx', dmd, const(1)), mk('bin', '+', i, const(1)))):
        y = t
        hit = None
        while y.op == 'ite':
            c = y.a[0]
            if c.op == 'cmp' and c.a[0] == '==' and x in c.a[1:] and (at in c.a[1:] or is_const(at) and any(is_const(z) and cval(z) == 0 for z in c.a[1:])):
                hit = y.a[1]
                break
            y = y.a[2]
        if hit is None:
            chk.unknown('factor between stations', side, 'not singled out', fn.loc)
        elif hit.op == 'idx' and hit.a[0] is mk('attr', ME, 'sf'):
            decide(chk, 'factor between stations', side, hit.a[1], row, Lower({}), loc=fn.loc)
        else:
            chk.unknown('factor between stations', side, show(hit, 3)[:100], fn.loc)
    while t.op == 'ite':
        t = t.a[2]
    t = winners(t)
    off = mk('attr', ME, 'offset')
    mins = [y for y in subterms(t) if y.op == 'attr' and y.a[1] == 'fun' and minimiser(y.a[0])]
    if len(set(mins)) != 1:
        chk.unknown('factor between stations', 'closest point', 'search not recognised', fn.loc)
        return
    res = mins[0].a[0]
    T_ = sym('t')
    base = mk('attr', res, 'x')
    t = rebuild(t, lambda y: sym('distance') if y is mins[0] else T_ if y.op == 'idx' and y.a[0] is base and y.a[1] is const(0) else None)
    for above in (True, False):
        tag = 'above the station' if above else 'below the station'

        def facts(c, above=above):
            if c.op == 'cmp' and x in c.a[1:] and any(is_const(z) and cval(z) == 0 for z in c.a[1:]):
                lt = c.a[0] in ('<', '<=') and c.a[1] is x or c.a[0] in ('>', '>=') and c.a[2] is x
                return above if lt else (not above)
            return None

        def arm(y):
            if y.op == 'ite':
                f = facts(y.a[0])
                if f is not None:
                    return y.a[1] if f else y.a[2]
                # an interval without length has no inner points
                if y.a[2].op == 'const' and y.a[0].op == 'cmp' and any(is_const(z) and cval(z) == 0 for z in y.a[0].a[1:]):
                    return y.a[1]
            return None
        v = rebuild(t, arm)
        calls = [y for y in subterms(v) if y.op == 'rcall' and str(y.a[0]).endswith('_interpolate_pos_nev')]
        rc = [y for y in calls if kwd(y, 'survey') is mk('attr', ME, 'ref')]
        oc = [y for y in calls if kwd(y, 'survey') is off]
        if len(rc) != 1 or len(oc) != 1:
            chk.unknown('factor between stations', tag, 'positions not recognised', fn.loc)
            continue
        row = mk('bin', '-', i, const(1)) if above else i
        nxt = i if above else mk('bin', '+', i, const(1))
        at = mk('bin', '+', mk('idx', dmd, const(0)), x) if above else x
        frac = mk('bin', '/', at, mk('idx', dmd, const(0 if above else 1)))
        o = kwd(oc[0], 'index')
        o1 = mk('bin', '+', o, const(1))
        L = Lower({})
        decide(chk, 'factor between stations', tag + ': reference interval', kwd(rc[0], 'index'), row, L, R, loc=fn.loc)
        decide(chk, 'factor between stations', tag + ': reference depth', kwd(rc[0], 'x'), at, L, R, loc=fn.loc)
        decide(chk, 'factor between stations', tag + ': offset depth', kwd(oc[0], 'x'), T_, L, R, loc=fn.loc)
        v = rebuild(v, lambda y: sym('ref_pos') if y is rc[0] else sym('off_pos') if y is oc[0] else None)
        md = lambda k: mk('idx', mk('attr', off, 'md'), k)
        bound = mk('bin', '-', md(o1), md(o))
        p = {'k': mk('attr', ME, 'k'), 'sigma_pa': mk('attr', ME, 'sigma_pa'), 'ref_radius': sym('ref_radius'), 's': frac, 't': mk('bin', '/', T_, bound)}
        names = {}

        def name(y, nm):
            names[y] = sym(nm)
        for nm, arr, k in (('ref_radius', mk('attr', ME, 'Rr'), nxt), ('Ro0', mk('attr', ME, 'Ro'), o), ('Ro1', mk('attr', ME, 'Ro'), o1), ('ref_cov0', mk('attr', mk('attr', ME, 'ref'), 'cov_nev'), row), ('ref_cov1', mk('attr', mk('attr', ME, 'ref'), 'cov_nev'), nxt),
                           ('off_cov0', mk('attr', off, 'cov_nev'), o), ('off_cov1', mk('attr', off, 'cov_nev'), o1)):
            name(mk('idx', arr, k), nm)

        def canon(y):
            # (i - 1) + 1 is i
            if y.op == 'bin' and y.a[0] == '+' and is_const(y.a[2]) and y.a[1].op == 'bin' and y.a[1].a[0] in '+-' and is_const(y.a[1].a[2]):
                k = cval(y.a[2]) + (cval(y.a[1].a[2]) if y.a[1].a[0] == '+' else -cval(y.a[1].a[2]))
                return y.a[1].a[1] if k == 0 else mk('bin', '+' if k > 0 else '-', y.a[1].a[1], const(abs(k)))
            return None
        v = rebuild(rebuild(v, canon), lambda y: names.get(y))
        sh = S(ref_pos=(3,), off_pos=(3,), u=(3,))
        for nm in ('ref_cov0', 'ref_cov1', 'off_cov0', 'off_cov1'):
            sh[sym(nm)] = (3, 3)
        # covariances are symmetric
        for nm in ('ref_cov0', 'ref_cov1', 'off_cov0', 'off_cov1'):
            sh[sym(nm)] = A((3, 3), {(a, b): mk('comp_of', sym(nm), min(a, b), max(a, b)) for a in range(3) for b in range(3)})
        rg = ranges(ref_cov0=(0.5, 1.), ref_cov1=(2., 4.), off_cov0=(0.4, 2.), off_cov1=(2., 5.), ref_pos=(1., 9.), off_pos=(11., 19.), distance=(5., 50.), Ro0=(0.1, 0.3), Ro1=(0.3, 0.6), ref_radius=(0.1, 0.5), x=(-5., -1.) if above else (1., 5.), delta_md=(8., 12.), t=(1., 5.), md=(100., 900.))
        decide(chk, 'factor between stations', tag, v, spec_term(chk, 'clearance.minimum_between_clipped', p), Lower(sh), rg, loc=fn.loc, alt=(spec_term(chk, 'clearance.minimum_between', p),))


# ---------------------------------------------------------------- the closest points on the offset
FIELD = {'md': 'md', 'inc': 'inc_rad', 'azi': 'azi_grid_rad', 'n': 'n', 'e': 'e', 'tvd': 'tvd'}


def inner_arm(t):
    """an arm without a value cannot be the one that is read"""
    def f(y):
        if y.op == 'ite':
            for a, b in ((y.a[1], y.a[2]), (y.a[2], y.a[1])):
                if (b is FALSE or b is UNDEF or b.op == 'undef') and a.op in ('call', 'tuple', 'bin'):
                    return a
        return None
    return rebuild(t, f)


def canon_index(t):
    def f(y):
        if y.op == 'bin' and y.a[0] in '+-' and is_const(y.a[2]) and y.a[1].op == 'bin' and y.a[1].a[0] in '+-' and is_const(y.a[1].a[2]) and isinstance(cval(y.a[2]), int) and isinstance(cval(y.a[1].a[2]), int):
            k = (cval(y.a[2]) if y.a[0] == '+' else -cval(y.a[2])) + (cval(y.a[1].a[2]) if y.a[1].a[0] == '+' else -cval(y.a[1].a[2]))
            return y.a[1].a[1] if k == 0 else mk('bin', '+' if k > 0 else '-', y.a[1].a[1], const(abs(k)))
        return None
    return rebuild(t, f)


def appended(t):
    """items appended to a list in one pass of its loop"""
    out = []

    def go(y):
        if y.op == 'ite':
            go(y.a[1])
            go(y.a[2])
        elif y.op == 'append':
            out.extend(y.a[1:])
            go(y.a[0])
    if t.op == 'loopout':
        go(t.a[2])
    return out


def nearer(chk, cl, items, fn):
    """of the two intervals beside a station, the one whose point is nearer is taken"""
    up, down = sym('distance_above'), sym('distance_below')

    def of(y):
        """the distance found in an interval"""
        if y.op == 'attr' and y.a[1] == 'fun' and minimiser(y.a[0]):
            a = {k.a[0]: k.a[1] for k in y.a[0].a[2].a}.get('args')
            if a is not None and a.op == 'tuple' and len(a.a) == 3:
                k = canon_index(a.a[1])
                return up if k.op == 'bin' else down
        return None

    def value(t):
        if t.op == 'ite':
            return mk('ite', t.a[0], value(t.a[1]), value(t.a[2]))
        if t.op == 'append':
            it = canon_index(inner_arm(t.a[1]))
            rs = {of(y) for y in subterms(it) if of(y) is not None} or {of(mk('attr', y, 'fun')) for y in subterms(it) if minimiser(y)}
            return rs.pop() if len(rs) == 1 else UNDEF
        return UNDEF

    plain = lambda y: TRUE if minimiser(y) or y.op == 'obj' else None
    c = 'the nearer of both intervals'
    if cl.op != 'loopout' or len(items) != 2:
        chk.unknown('closest point', c, 'selection not recognised', fn.loc)
        return
    t = value(cl.a[2])
    if any(y is UNDEF for y in subterms(t)):
        chk.unknown('closest point', c, show(t, 4)[:120], fn.loc)
        return
    t = both(rebuild(rebuild(inner_arm(t), of), plain))
    decide(chk, 'closest point', c, t, mkcall('numpy.minimum', [up, down]), Lower({}), R, loc=fn.loc)


def both(t):
    """conditions for a station with an interval on either side: what asks for the neighbour holds"""
    OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}

    def f(y):
        if y.op == 'elem':
            return const(5)
        if y.op == 'call' and y.a[0] == 'len':
            return const(10)
        if y.op == 'bin' and is_const(y.a[1]) and is_const(y.a[2]) and y.a[0] in '+-':
            return const(cval(y.a[1]) + (cval(y.a[2]) if y.a[0] == '+' else -cval(y.a[2])))
        if y.op == 'cmp' and is_const(y.a[1]) and is_const(y.a[2]):
            if y.a[0] in OPS and not isinstance(cval(y.a[1]), (bool, type(None))) and not isinstance(cval(y.a[2]), (bool, type(None))):
                return const(OPS[y.a[0]](cval(y.a[1]), cval(y.a[2])))
            if y.a[0] in ('is', '==', 'is not', '!='):
                return const((y.a[1] is y.a[2]) == (y.a[0] in ('is', '==')))
        if y.op == 'not' and y.a[0] in (TRUE, FALSE):
            return FALSE if y.a[0] is TRUE else TRUE
        if y.op == 'ite' and y.a[0] in (TRUE, FALSE):
            return y.a[1] if y.a[0] is TRUE else y.a[2]
        if y.op in ('and', 'or'):
            keep = [z for z in y.a if z is not (TRUE if y.op == 'and' else FALSE)]
            if (FALSE if y.op == 'and' else TRUE) in keep:
                return FALSE if y.op == 'and' else TRUE
            if len(keep) < len(y.a):
                return keep[0] if len(keep) == 1 else mk(y.op, *keep) if keep else (TRUE if y.op == 'and' else FALSE)
        return None
    return rebuild(t, f)


def closest_points(chk):
    qual = 'clearance.IscwsaClearance._get_closest_points'
    fn = chk.prog.find(qual)
    if fn is None:
        chk.unknown('closest point', qual, 'this internal function is gone')
        return
    cls = chk.need('survey.Survey')
    off = mk('attr', ME, 'offset')

    def before(ev):
        ev.hints[off] = cls
        ev.heap[(ME, '_off_cov_nev_corrected')] = NONE
        ev.heap[(ME, '_off_cov_hla_corrected')] = NONE
    ev, r = evaluate(chk, qual, {}, before=before, inline=lambda f: f.name not in ('_interpolate_pos_nev', '_interpolate_survey', '__init__'))
    if ev is None:
        chk.unknown('closest point', qual, r, fn.loc)
        return
    cl = ev.heap.get((ME, 'closest'))
    if cl is None:
        chk.unknown('closest point', qual, 'closest not set', fn.loc)
        return
    cl = ev.deref(cl)
    items = [canon_index(inner_arm(x)) for x in appended(cl)]
    if not items or any(x.op != 'tuple' for x in items):
        chk.unknown('closest point', qual, show(cl, 3)[:120], fn.loc)
        return
    new = next((e for e in ev.events if e.kind == 'new' and getattr(e.d['cls'], 'name', '') == 'Survey'), None)
    seen = set()
    nearer(chk, cl, items, fn)
    for it in items:
        its = [y for y in subterms(it) if y.op == 'rcall' and str(y.a[0]).endswith('_interpolate_survey')]
        if len(set(its)) != 1:
            chk.unknown('closest point', 'interpolation', 'not recognised', fn.loc)
            continue
        rc = its[0]
        K, X = kwd(rc, 'index'), kwd(rc, 'x')
        tag = f'in interval {show(K, 3)}'
        tag = 'in the interval ' + ('above' if K.op == 'bin' else 'below')
        if tag in seen:
            continue
        seen.add(tag)
        if kwd(rc, 'survey') is not off:
            chk.unknown('closest point', tag, f'interpolates {show(kwd(rc, "survey"), 3)}', fn.loc)
            continue
        res = X.a[0].a[0] if X.op == 'idx' and X.a[1] is const(0) and X.a[0].op == 'attr' and X.a[0].a[1] == 'x' else None
        if res is None or not minimiser(res):
            chk.unknown('closest point', tag, 'search not recognised', fn.loc)
            continue
        kws = {k.a[0]: k.a[1] for k in res.a[2].a}
        md = lambda k: mk('idx', mk('attr', off, 'md'), k)
        K1 = canon_index(mk('bin', '+', K, const(1)))
        length = mk('bin', '-', md(K1), md(K))
        a, b = kws.get('args'), kws.get('bounds')
        if a is not None and a.op == 'tuple' and len(a.a) == 3:
            decide(chk, 'closest point', tag + ': searched in the interval it is taken from', a.a[1], K, Lower({}), loc=fn.loc)
            (chk.ok if a.a[0] is off else chk.unknown)('closest point', tag + ': searched on the offset', show(a.a[0], 3), fn.loc)
        else:
            chk.unknown('closest point', tag + ': searched in the interval it is taken from', 'arguments not recognised', fn.loc)
        if b is not None and b.op in ('list', 'tuple') and len(b.a) == 1 and b.a[0].op in ('list', 'tuple') and len(b.a[0].a) == 2:
            decide(chk, 'closest point', tag + ': search starts at the station', b.a[0].a[0], const(0), Lower({}), R, loc=fn.loc)
            decide(chk, 'closest point', tag + ': search ends at the next station', b.a[0].a[1], length, Lower({}), R, loc=fn.loc)
        else:
            chk.unknown('closest point', tag + ': search bounds', 'not recognised', fn.loc)
        if new is None:
            chk.unknown('closest point', 'offset survey', 'not built here', fn.loc)
            continue
        # the survey of closest points reads each field from the interpolated station
        frac = mk('bin', '/', sym('x'), length)

        def elem_is(t):
            def f(y):
                if y.op == 'elem' and y.a[0] is cl:
                    return it
                if y.op == 'idx' and y.a[0].op in ('tuple', 'list') and is_const(y.a[1]) and isinstance(cval(y.a[1]), int) and -len(y.a[0].a) <= cval(y.a[1]) < len(y.a[0].a):
                    return y.a[0].a[cval(y.a[1])]
                return None
            t = rebuild(t, f)
            return canon_index(inner_arm(t))

        def rows(t):
            """per-station value of a field built from the list of closest points"""
            t = ev.deref(t)
            col = None
            if t.op == 'idx' and is_const(t.a[1]) and t.a[0].op == 'attr' and t.a[0].a[1] == 'T':
                col, t = cval(t.a[1]), t.a[0].a[0]
            elif t.op == 'idx' and t.a[1].op == 'tuple' and len(t.a[1].a) == 2 and is_const(t.a[1].a[1]):
                col, t = cval(t.a[1].a[1]), t.a[0]
            if t.op == 'call' and t.a[0] in ('numpy.array', 'numpy.asarray') and t.a[1].a:
                t = t.a[1].a[0]
            if t.op != 'comp':
                return None
            y = ev.deref(t.a[1])
            if col is not None:
                if y.op not in ('list', 'tuple') or not isinstance(col, int) or col >= len(y.a):
                    return None
                y = y.a[col]
            if y.op in ('list', 'tuple') and len(y.a) == 1:
                y = y.a[0]
            return elem_is(y)
        for f, w in FIELD.items():
            v = rows(new.d['bound'].get(f, NONE))
            c = f'{tag}: {f}'
            if v is None or not (v.op == 'idx' and v.a[0].op == 'attr' and v.a[0].a[0] is rc and is_const(v.a[1])):
                chk.unknown('closest point', c, 'field not recognised' if v is None else show(v, 3)[:100], fn.loc)
            elif v.a[0].a[1] == w and cval(v.a[1]) in (1, -2):
                chk.ok('closest point', c)
            elif v.a[0].a[1] in vocab() and isinstance(cval(v.a[1]), int):
                chk.bad('closest point', c, f'takes {v.a[0].a[1]}[{cval(v.a[1])}] of the interpolated piece, specified {w}[1]', fn.loc)
            else:
                chk.unknown('closest point', c, show(v, 3)[:100], fn.loc)
        for f in ('cov_nev', 'cov_hla'):
            v = rows(new.d['bound'].get(f, NONE))
            c = f'{tag}: {f}'
            if v is None:
                chk.unknown('closest point', c, 'field not recognised', fn.loc)
                continue
            v = rebuild(v, lambda y: sym('x') if y is X else None)
            index = next((y for y in terms_of_sum(K) if not is_const(y)), None)
            named = lambda z: rebuild(z, lambda y: sym('index') if y is index else None)
            src = mk('attr', off, f)
            other = mk('attr', off, 'cov_hla' if f == 'cov_nev' else 'cov_nev')
            p = {'a': mk('idx', src, named(K)), 'b': mk('idx', src, named(K1)), 't': named(frac)}
            decide(chk, 'closest point', c, named(v), spec_term(chk, 'clearance.between', p), Lower({}), R, loc=fn.loc)
    ev, r = evaluate(chk, 'clearance.IscwsaClearance._fun', {}, inline=lambda f: f.name != '_interpolate_pos_nev') if chk.prog.find('clearance.IscwsaClearance._fun') else (None, None)
    if ev is not None:
        for y in subterms(ev.deref(r)):
            if y.op == 'rcall' and str(y.a[0]).endswith('_interpolate_pos_nev'):
                s = kwd(y, 'survey')
                if s in (sym('survey'), off):
                    chk.ok('closest point', 'distance to the offset well')
                elif s in (REF, mk('attr', ME, 'reference')):
                    chk.bad('closest point', 'distance to the offset well', f'measures to {show(s)}', fn.loc)
    formula(chk, 'closest point', 'clearance.IscwsaClearance._fun', 'clearance.fun', construct='distance minimised', inline=lambda f: f.name != '_interpolate_pos_nev', out=lambda ev, r: rebuild(ev.deref(r), lambda y: sym('pos') if y.op == 'rcall' and str(y.a[0]).endswith('_interpolate_pos_nev') and
            kwd(y, 'survey') is sym('survey') and kwd(y, 'index') is sym('index') and kwd(y, 'x') is mk('idx', sym('x'), const(0)) else None), shapes=S(pos=(3,), station=(3,)), specparams={'pos': sym('pos'), 'station': sym('station')})


# ---------------------------------------------------------------- below the kick-off point
def below_kop(chk, judge=None):
    from .c10 import with_mode, addends
    qual = 'clearance.Clearance._get_ref_cov_below_kop'
    fn = chk.prog.find(qual)
    if fn is None:
        chk.unknown('covariance below kick-off', qual, 'this internal function is gone')
        return
    ev, r = evaluate(chk, qual, {})
    t = ev.deref(r) if ev else None
    if t is None or t.op != 'loopout':
        chk.unknown('covariance below kick-off', qual, show(t, 3)[:100] if t is not None else r, fn.loc)
        return
    ki = mk('attr', ME, 'kop_index')

    def offset(k):
        """k = kick-off index + constant"""
        k = canon_index(k)
        if k is ki:
            return 0
        if k.op == 'bin' and k.a[0] in '+-' and k.a[1] is ki and is_const(k.a[2]) and isinstance(cval(k.a[2]), int):
            return cval(k.a[2]) * (1 if k.a[0] == '+' else -1)
        return None

    named = {0: ''}

    def rows(y):
        if y.op == 'idx' and y.a[0].op == 'attr' and y.a[0].a[1] in ('sigma_e_NEV', 'cov_NEV'):
            nm = 'sigma' if y.a[0].a[1] == 'sigma_e_NEV' else 'cov'
            k = y.a[1]
            if k.op == 'slice':
                lo, hi = offset(k.a[0]), offset(k.a[1])
                if lo is None or k.a[2] is not NONE:
                    return None
                at = named.setdefault(lo, f'_{lo}'.replace('-', 'm'))
                if k.a[1] is NONE:
                    return sym(nm + at)
                if hi == lo + 1:
                    return mk('idx', sym(nm + '_kop' + at), NONE)
                return None
            lo = offset(k)
            if lo is not None:
                return sym(nm + '_kop' + named.setdefault(lo, f'_{lo}'.replace('-', 'm')))
        return None
    z = ev.deref(t.a[3]) if len(t.a) > 3 and isinstance(t.a[3], T) else None
    if z is not None:
        while z.op == 'call' and z.a[0] in ('numpy.array', 'numpy.asarray', 'numpy.copy') and z.a[1].a:
            z = z.a[1].a[0]
        if z.op == 'call' and z.a[0] in ('numpy.zeros', 'numpy.zeros_like') or is_const(z) and cval(z) == 0:
            chk.ok('covariance below kick-off', 'starts from zero')
        elif z.op == 'call' and z.a[0] in ('numpy.ones', 'numpy.ones_like', 'numpy.eye') or is_const(z):
            chk.bad('covariance below kick-off', 'starts from zero', f'starts from {show(z, 3)}', fn.loc)
        else:
            chk.unknown('covariance below kick-off', 'starts from zero', show(z, 3)[:80], fn.loc)
    for mode in ('random', 'systematic', 'global', 'within_pad'):
        for depth in (True, False):
            def arm(y):
                if y.op == 'ite' and any(z.op == 'attr' and z.a[1] == 'e_DIA' for z in subterms(y.a[0])):
                    if y.a[1] in (TRUE, FALSE) or y.a[2] in (TRUE, FALSE):
                        return TRUE if depth else FALSE
                    return y.a[1] if depth else y.a[2]
                if y.op == 'ite' and y.a[0] in (TRUE, FALSE):
                    return y.a[1] if y.a[0] is TRUE else y.a[2]
                return None
            tag = mode + (' depth-only' if depth else '')
            u = rebuild(rebuild(with_mode(t.a[2], mode), arm), arm)
            if u.op == 'phi':
                chk.bad('covariance below kick-off', tag, f'{mode} terms are not counted below the kick-off point', fn.loc)
                continue
            ad = addends(u)
            ph = [y for y in ad if y.op == 'phi']
            if u.op != 'loopout' and not any(y.op in ('phi', 'loopout') for y in subterms(u)) and any(y.op == 'attr' and y.a[1] in ('sigma_e_NEV', 'cov_NEV') for y in subterms(u)):
                chk.bad('covariance below kick-off', tag, 'a term replaces what the terms before it added', fn.loc)
                continue
            if len(ph) != 1 or len(ad) != 2:
                chk.unknown('covariance below kick-off', tag, show(u, 4)[:150], fn.loc)
                continue
            v = rebuild(next(y for y in ad if y.op != 'phi'), rows)
            spec = 'clearance.kop_' + ('random' if mode == 'random' else 'correlated') + ('_depth' if depth else '')
            sh, rg = {}, {}
            for x in named.values():
                sh.update({'sigma' + x: ('n', 3), 'sigma_kop' + x: (3,), 'cov' + x: ('n', 3, 3), 'cov_kop' + x: (3, 3)})
                rg.update({'sigma' + x: (1., 4.), 'sigma_kop' + x: (0.2, 0.9), 'cov' + x: (1., 4.), 'cov_kop' + x: (0.2, 0.9)})
            if judge:
                judge(tag, v, spec_term(chk, spec), sh, rg, fn.loc)
                continue
            decide(chk, 'covariance below kick-off', tag, v, spec_term(chk, spec), Lower(S(**sh)), ranges(**rg), loc=fn.loc)


SLICED = {'md': 'md', 'inc': 'inc_rad', 'azi': 'azi_grid_rad', 'n': 'n', 'e': 'e', 'tvd': 'tvd', 'vec': 'vec_nev', 'radius': 'radius'}


def section_below_kop(chk):
    qual = 'clearance.Clearance._get_ref'
    fn = chk.prog.find(qual)
    if fn is None:
        chk.unknown('section below kick-off', qual, 'this internal function is gone')
        return
    ev, r = evaluate(chk, qual, {}, inline=lambda f: f.name not in ('_get_ref_cov_below_kop', '__init__', 'NEV_to_HLA'))
    new = next((e for e in ev.events if e.kind == 'new' and getattr(e.d['cls'], 'name', '') == 'Survey'), None) if ev else None
    if new is None:
        chk.unknown('section below kick-off', qual, 'survey construction not found', fn.loc)
        return
    ref, ki = mk('attr', ME, 'reference'), mk('attr', ME, 'kop_index')
    whole = mk('slice', ki, NONE, NONE)
    for f, w in SLICED.items():
        v = ev.deref(new.d['bound'].get(f, NONE))
        if v.op == 'idx' and v.a[0].op == 'attr' and v.a[0].a[0] is ref and v.a[1].op == 'slice':
            if v.a[0].a[1] == w and v.a[1] is whole:
                chk.ok('section below kick-off', f)
            elif v.a[0].a[1] != w and v.a[0].a[1] in vocab() or v.a[1].a[0] is not ki and v.a[1].a[0].op in ('bin', 'const') or v.a[1].a[1] is not NONE:
                chk.bad('section below kick-off', f, f'passes {show(v, 5)}, specified {w} from the kick-off station on', fn.loc)
            else:
                chk.unknown('section below kick-off', f, show(v, 4)[:100], fn.loc)
        elif v is NONE and f in ('n', 'e', 'tvd', 'vec'):
            chk.ok('section below kick-off', f, 'derived from the stations')
        else:
            chk.unknown('section below kick-off', f, show(v, 4)[:100], fn.loc)
    for f, ws in (('start_nev', ('n', 'e', 'tvd')), ('start_xyz', ('x', 'y', 'z'))):
        v = ev.deref(new.d['bound'].get(f, NONE))
        want = mk('list', *[mk('idx', mk('attr', ref, w), ki) for w in ws])
        decide(chk, 'section below kick-off', f, v, want, Lower({}), R, loc=fn.loc)
    for y in subterms(ev.deref(new.d['bound'].get('cov_hla', NONE))):
        if y.op == 'rcall' and str(y.a[0]).endswith('NEV_to_HLA'):
            v = kwd(y, 'survey')
            good = v is not None and v.op == 'idx' and v.a[0] is mk('attr', ref, 'survey_rad') and v.a[1] is whole
            bad = v is not None and v.op == 'idx' and v.a[0].op == 'attr' and v.a[0].a[0] is ref and (v.a[0].a[1] == 'survey_deg' or v.a[0].a[1] == 'survey_rad' and v.a[1].op == 'slice' and v.a[1].a[0] is not ki)
            (chk.ok if good else chk.bad if bad else chk.unknown)('section below kick-off', 'stations the covariance is turned by', show(v, 4) if v is not None else '', fn.loc)
    # where the section starts
    c = evaluate(chk, 'clearance.Clearance._get_kop_index', {})[0] if chk.prog.find('clearance.Clearance._get_kop_index') else None
    v = c.heap.get((ME, 'kop_index')) if c else None
    if v is not None:
        v = c.deref(v)
        if v.op == 'call' and v.a[0] == 'numpy.searchsorted' and v.a[1].a[:2] == (mk('attr', ref, 'md'), sym('kop_depth')):
            side = next((k.a[1] for k in v.a[2].a if k.a[0] == 'side'), v.a[1].a[2] if len(v.a[1].a) > 2 else const('left'))
            (chk.ok if side is const('left') else chk.bad if is_const(side) else chk.unknown)('section below kick-off', 'kick-off station', f'side {show(side)}: a station at the kick-off depth is dropped', fn.loc)
        else:
            chk.unknown('section below kick-off', 'kick-off station', show(v, 4)[:120], fn.loc)


INSERTED = {'md': ('md', 'md'), 'inc': ('inc_rad', 'inc_rad'), 'azi': ('azi_grid_rad', 'azi_rad'), 'cov_nev': ('cov_nev', 'cov_nev')}


def inserted_station(chk):
    """stations inserted at separation-factor minima keep every column aligned and every option of the calculation"""
    qual = 'clearance.IscwsaClearance.get_sf_mins'
    fn = chk.prog.find(qual)
    if fn is None:
        chk.unknown('inserted minimum', qual, 'function gone')
        return
    ref, off = mk('attr', ME, 'ref'), mk('attr', ME, 'offset')

    def before(ev):
        ev.hints[ref] = chk.need('survey.Survey')
    ev, r = evaluate(chk, qual, {}, before=before, inline=lambda f: f.name not in ('_get_sf_min', '__init__', 'interpolate_md'))
    if ev is None:
        chk.unknown('inserted minimum', qual, r, fn.loc)
        return
    for e in ev.events:
        if e.kind != 'new':
            continue
        b = e.d['bound'] or {}
        if getattr(e.d['cls'], 'name', '') == 'Survey':
            ins = {f: ev.deref(b.get(f, NONE)) for f in list(INSERTED) + ['radius']}
            ok = {f: v for f, v in ins.items() if v.op == 'call' and v.a[0] == 'numpy.insert' and len(v.a[1].a) == 3}
            if 'md' not in ok:
                chk.unknown('inserted minimum', 'survey', 'insertion not recognised', fn.loc)
                continue
            pos = ok['md'].a[1].a[1]
            for f, v in ok.items():
                base, p, x = v.a[1].a
                if p is not pos:
                    decide(chk, 'inserted minimum', f'{f} at the same row', p, pos, Lower({}), loc=fn.loc)
                else:
                    chk.ok('inserted minimum', f'{f} at the same row')
                if f in INSERTED and base.op == 'attr' and x.op == 'attr':
                    got, want = (base.a[1], x.a[1]), INSERTED[f]
                    if got == want:
                        chk.ok('inserted minimum', f'{f} from the interpolated station')
                    elif got[0] in vocab() and got[1] in vocab() | {'azi_rad', 'inc_rad', 'azi_deg', 'inc_deg', 'md'}:
                        chk.bad('inserted minimum', f'{f} from the interpolated station', f'inserts node.{got[1]} into {got[0]}, specified node.{want[1]} into {want[0]}', fn.loc)
                    else:
                        chk.unknown('inserted minimum', f'{f} from the interpolated station', str(got), fn.loc)
            if pos.op == 'call' and pos.a[0] == 'numpy.searchsorted':
                (chk.ok if pos.a[1].a[0].op == 'attr' and pos.a[1].a[0].a[1] == 'md' else chk.unknown)('inserted minimum', 'row found by measured depth', show(pos, 3), fn.loc)
        elif 'Clearance' in getattr(e.d['cls'], 'name', ''):
            a, k = ev.deref(b.get('clearance_args', NONE)), ev.deref(b.get('clearance_kwargs', NONE))
            kv = {cval(x.a[0]): ev.deref(x.a[1]) for x in k.a if x.op == 'kv' and is_const(x.a[0])} if k.op == 'dict' else None
            if kv is None:
                chk.unknown('inserted minimum', 'recalculation', 'options not recognised', fn.loc)
                continue
            pos = dict(zip(ARGS, a.a)) if a.op == 'tuple' else {}
            kv.update({x: ev.deref(y) for x, y in pos.items()})
            for x in ('k', 'sigma_pa', 'Sm', 'Rr', 'Ro', 'kop_depth'):
                v = kv.get(x)
                if v is None:
                    chk.bad('inserted minimum', f'recalculation passes on {x}', 'falls back to the default', fn.loc)
                elif v is mk('attr', ME, x):
                    chk.ok('inserted minimum', f'recalculation passes on {x}')
                elif v.op == 'attr' and v.a[0] is ME and v.a[1] in ('k', 'sigma_pa', 'Sm', 'Rr', 'Ro', 'kop_depth') or is_const(v):
                    chk.bad('inserted minimum', f'recalculation passes on {x}', f'passes {show(v)}', fn.loc)
                else:
                    chk.unknown('inserted minimum', f'recalculation passes on {x}', show(v, 3)[:80], fn.loc)
            v = kv.get('offset')
            (chk.ok if v is off else chk.unknown)('inserted minimum', 'recalculation against the same offset', show(v, 3)[:80] if v is not None else '', fn.loc)


def run(chk):
    chk.explanation = 'every published ingredient of the separation factor is value-numbered from the constructor (helpers inlined) and compared with the ISCWSA separation rule; so are the interpolated minimum, the closest points and the covariance below a kick-off point'
    for g in (station_values, between_stations, closest_points, below_kop, section_below_kop, inserted_station):
        chk.group(g)


MINIMUM = 6
