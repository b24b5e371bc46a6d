"""C01 One minimum-curvature law everywhere a position is computed."""
from .common import *
from ..formula import foreign, IMPRECISE

same = coincide(('inc', 'inc1', 'inc2', 'inc_rad'), ('azi', 'azi1', 'azi2', 'azi_grid_rad'))


def survey_positions(chk, rule):
    ev, r = survey_init(chk, skip=('_get_errors', '_get_vertical_section', '_get_toolface_and_rates'))
    fn = chk.need('survey.Survey.__init__')
    L = Lower(SURVEY_SHAPES)
    for a in ('n', 'e', 'tvd', 'x', 'y', 'z'):
        t = ev.heap.get((sym('self'), a)) if ev else None
        if t is None:
            chk.unknown(rule, f'Survey.{a}', 'not set', fn.loc)
            continue
        decide(chk, rule, f'Survey.{a}', ev.deref(t), spec_term(chk, f'survey.surv_{a}'), L, special=[same], loc=fn.loc)


def new_survey(ev, cls='survey.Survey', pick=-1):
    es = [e for e in ev.events if e.kind == 'new' and e.d['cls'].qual == cls]
    return es[pick] if es else None


def handed(chk, qual, inline):
    """what `qual` hands the station interpolation: (event, distance, index)"""
    ev, r = evaluate(chk, qual, inline=inline, opaque_init=('survey.Survey',))
    es = [e for e in ev.events if e.kind == 'call' and e.d['callee'].endswith('._interpolate_survey')] if ev else []
    if not es:
        return None
    b = es[-1].d['bound']
    pick = lambda names: next((ev.deref(b[p]) for p in names if p in b), None)
    x, i = pick(('x',)), pick(('index', 'idx'))
    nodes = [e for e in ev.events if e.kind == 'call' and e.d['callee'].endswith('.get_node')]
    return (es[-1], x, i, nodes) if x is not None and i is not None else None


def settled(t, K, of, value, chk, rule, construct, loc):
    """the term with the searched station named K, an interval inside the survey, no origin node"""
    wrong = []

    def go(x):
        if x.op == 'call' and x.a[0] == 'numpy.searchsorted':
            a = list(x.a[1].a)
            if len(a) >= 2:
                if a[0].op == 'attr' and a[0].a[0] is sym('survey') and a[0].a[1] != of and a[1] is value:
                    wrong.append(a[0].a[1])
                return mk('bin', '+', K, const(1))
        if x.op == 'bin' and x.a[0] == '-' and x.a[2] is const(1) and x.a[1].op == 'bin' and x.a[1].a[0] == '+' and x.a[1].a[2] is const(1):
            return x.a[1].a[1]
        if x.op == 'cmp':
            if x.a[0] == '==' and any(y is K or y.op == 'bin' and y.a[1] is K and is_const(y.a[2]) for y in x.a[1:]):
                return FALSE
            if x.a[0] in ('<', '>', '<=', '>=') and any(y is const(0) or y is const(-1) for y in x.a[1:]) and K in x.a[1:]:
                inside = {'<': x.a[2] is K, '<=': x.a[2] is K, '>': x.a[1] is K, '>=': x.a[1] is K}[x.a[0]]
                return TRUE if inside else FALSE
            return mkcmp(*x.a)
        if x.op == 'mcall' and any(y is const('node_origin') for y in subterms(x)):
            return NONE
        if x.op == 'ite':
            return x.a[2] if x.a[0] is NONE else mkite(*x.a)
        if x.op == 'idx' and x.a[0].op == 'idx' and x.a[0].a[1].op == 'slice' and is_const(x.a[1]) and x.a[0].a[1].a[2] is NONE:
            a, j = x.a[0].a[1].a[0], cval(x.a[1])
            return mk('idx', x.a[0].a[0], a if j == 0 else mk('bin', '+', a, const(j)))
        return None
    t = rebuild(t, lambda x: go(x) or x)
    for a in wrong:
        chk.bad(rule, construct, f'the station is searched in survey.{a}, not in survey.{of}', loc)
    return t


def folded(y):
    if y.op == 'idx' and is_const(y.a[1]) and y.a[0].op == 'attr' and y.a[0].a[1] == 'T' and y.a[0].a[0].op == 'call' and y.a[0].a[0].a[0] == 'numpy.array':
        rows = y.a[0].a[0].a[1].a[0]        # one station of stacked arrays
        if rows.op in ('list', 'tuple'):
            return mk(rows.op, *[mk('idx', r, y.a[1]) for r in rows.a])
    if y.op == 'bin' and y.a[0] == '-' and y.a[1].op == 'call' and y.a[1].a[0] == 'numpy.array' and y.a[2].op == 'list' and y.a[1].a[1].a[0].op == 'list' and len(y.a[2].a) == len(y.a[1].a[1].a[0].a):
        return mkcall('numpy.array', [mk('list', *[mk('bin', '-', p, q) for p, q in zip(y.a[1].a[1].a[0].a, y.a[2].a)])])
    if y.op == 'bin' and y.a[0] in ('+', '-') and all(is_const(z) and isinstance(cval(z), int) for z in y.a[1:]):
        return const(cval(y.a[1]) + cval(y.a[2]) if y.a[0] == '+' else cval(y.a[1]) - cval(y.a[2]))
    return y


def interpolators(chk):
    """the distance along the interval, and the interval, each interpolation hands to the station interpolation"""
    rule = 'interpolation'
    for qual, of, v, spec in (('survey.interpolate_md', 'md', 'md', 'interp_md_x'), ('survey.interpolate_tvd', 'tvd', 'tvd', 'interp_tvd_x')):
        fn = chk.need(qual)
        c = f'{qual} distance'
        own = fn.name
        h = handed(chk, qual, lambda f: f.name != '_interpolate_survey' and f.name != 'get_node')
        if h is None:
            chk.unknown(rule, c, 'no station interpolation seen', fn.loc)
            continue
        e, x, i, nodes = h
        K = sym('K')
        loc = f'{e.rel}:{e.line}'
        for n in nodes:
            chk.count('nodes taken from an interpolation')
            j = n.d['bound'].get('idx')
            if j is None or not is_const(j):
                chk.unknown(rule, f'{qual} node', f'station {show(j, 4)[:80] if j is not None else "?"}', loc)
            elif cval(j) in (1, -1):
                chk.ok(rule, f'{qual} node', 'the interpolated station', loc)
            else:
                chk.bad(rule, f'{qual} node', f'takes station {cval(j)} of the interpolated survey, the interpolated one is 1', loc)
        if of == 'md':
            # at or before the first station
            first = lambda t: rebuild(t, lambda y: const(-1) if y.op == 'bin' and y.a[0] == '-' and y.a[2] is const(1) and y.a[1].op == 'call' and y.a[1].a[0] == 'numpy.searchsorted'
                                      else mkcmp(*y.a) if y.op == 'cmp' else mkite(*y.a) if y.op == 'ite' else y)
            for what, t in (('distance', first(x)), ('station', first(i))):
                if is_const(t) and cval(t) == 0:
                    chk.ok(rule, f'{qual} {what} at the first station', '0', loc)
                elif foreign(t, const(0)) or t.op in IMPRECISE or any(y.op == 'call' and y.a[0] == 'numpy.searchsorted' for y in subterms(t)):
                    chk.unknown(rule, f'{qual} {what} at the first station', show(t, 4)[:100], loc)
                else:
                    chk.bad(rule, f'{qual} {what} at the first station', f'{show(t, 5)[:200]}, 0 is meant', loc)
        x, i = [settled(t, K, of, sym(v), chk, rule, c, loc) for t in (x, i)]
        put = lambda t: rebuild(t, lambda y: const(3) if y is K else folded(y))
        x, i = put(x), put(i)
        if i is const(3):
            chk.ok(rule, f'{qual} station', 'the interval that holds the requested depth', loc)
        elif i.op == 'bin' and i.a[0] in ('+', '-') and i.a[1] is const(3) and is_const(i.a[2]) or is_const(i):
            chk.bad(rule, f'{qual} station', f'interpolates in the interval {show(i, 4)[:100]} (the searched one is 3)', loc)
        else:
            chk.unknown(rule, f'{qual} station', f'interval {show(i, 4)[:200]}', loc)
        L = Lower({}, atoms=SurveyModel())
        want = spec_term(chk, 'survey.' + spec, {'index': const(3)})
        if of == 'tvd':
            # a straight interval on its own: there the general solution is undefined
            turn = mk('idx', mk('attr', sym('survey'), 'dogleg'), const(4))
            arm = lambda t, v: rebuild(t, lambda y: v if y.op == 'cmp' and y.a[0] == '==' and turn in y.a[1:] and any(is_const(z) and cval(z) == 0 for z in y.a[1:]) else mkite(*y.a) if y.op == 'ite' else y)
            t = arm(x, TRUE)
            if t is not x and turn not in set(subterms(t)):
                decide(chk, rule, f'{qual} distance along a tangent', t, arm(want, TRUE), L, SURVEY_RANGES, loc=loc)
                # somewhere in the interval the depth is reached
                reached = spec_term(chk, 'survey.tvd_reached', {'index': const(3)})
                x, want = [mkite(reached, arm(y, FALSE), const(0.0)) for y in (x, want)]
        decide(chk, rule, c, x, want, L, ranges(md=(100., 900.), inc_rad=(0.15, 2.9), azi_grid_rad=(0.1, 6.1), tvd=(100., 130.)), loc=loc, points=200)


def station_of(t):
    """elem(X[a:b]) read while walking intervals: (X, 1 for the interval's end, 0 for its start)"""
    if t.op == 'elem' and t.a[0].op == 'idx' and t.a[0].a[1].op == 'slice':
        lo, hi, st = t.a[0].a[1].a
        if st is NONE and (lo is const(1) and hi is NONE):
            return t.a[0].a[0], 1
        if st is NONE and (lo is NONE or lo is const(0)) and hi is const(-1):
            return t.a[0].a[0], 0
        if lo is NONE and hi is NONE:
            return t.a[0].a[0], 2
    return None


def maximum_curvature(chk):
    """each interval starts with half an arc of the effective curvature, from its own first station"""
    rule, q = 'maximum curvature', 'survey.Survey.maximum_curvature'
    fn = chk.need(q)
    me = sym('self')
    ev, r = evaluate(chk, q, {}, inline=lambda f: f.name == 'radius_from_dls', opaque_init=('survey.Survey',))
    calls = [e for e in ev.events if e.kind == 'call' and e.d['callee'] == 'utils.get_arc'] if ev else []
    if len(calls) != 1:
        chk.unknown(rule, q, f'{len(calls)} arcs seen', fn.loc)
        return
    loc = f'{calls[0].rel}:{calls[0].line}'
    got = {}
    for p, off, name in (('dogleg', 1, None), ('radius', 1, None), ('toolface', 0, 'toolface'), ('vec', 0, 'vec_nev')):
        c = f'{q} {p}'
        chk.count('arc arguments')
        k = station_of(ev.deref(calls[0].d['bound'][p]))
        if k is None:
            chk.unknown(rule, c, 'station not recognised', loc)
            continue
        got[p] = k[0]
        if k[1] != off:
            chk.bad(rule, c, f"taken at the interval's {'start' if k[1] == 0 else 'end' if k[1] == 1 else 'own row'}: the arc leaves the first station of the interval it spans ({p} belongs to its {'end' if off else 'start'})", loc)
        elif name and k[0] is not mk('attr', me, name):
            other = k[0].op == 'attr' and k[0].a[0] is me
            (chk.bad if other else chk.unknown)(rule, c, f'{show(k[0], 3)[:100]}, survey.{name} is meant', loc)
        else:
            chk.ok(rule, c, "the interval's " + ('end' if off else 'start'), loc)
    if 'dogleg' in got and 'radius' in got:
        d, rad = got['dogleg'], got['radius']
        # up to half a turn the arc covers half of the interval
        short = lambda t: rebuild(t, lambda y: y.a[1].a[2] if y.op == 'call' and y.a[0] == 'numpy.where' and len(y.a[1].a) == 3 and PI in set(subterms(y.a[1].a[0])) and d in set(subterms(y.a[1].a[0])) else y)
        L = Lower({mk('attr', me, 'dls'): n, mk('attr', me, 'delta_md'): n}, facts=lambda c: False if c.op == 'cmp' and c.a[0] == '==' and any(is_const(y) and cval(y) == 0 for y in c.a[1:]) else None)
        decide(chk, rule, f'{q} half an interval', mk('bin', '*', d, short(rad)), mk('bin', '/', mk('attr', me, 'delta_md'), const(2)), L, ranges(dls=(0.1, 5.), dls_noise=(0.2, 2.), delta_md=(5., 60.)), loc=loc)
    for e in ev.events:
        if e.kind == 'call' and e.d['callee'] == 'utils.get_angles':
            v = e.d['bound'].get('nev')
            w = f'{e.rel}:{e.line}'
            (chk.ok if v is TRUE else chk.bad if v is FALSE else chk.unknown)(rule, f'{q} direction of the arc end', 'north, east, vertical' if v is TRUE else 'vec_nev arcs read as x, y, z' if v is FALSE else 'components not recognised', w)
    # added stations: md of the interval's start plus the arc's length, angles in the unit the new survey reads
    new = new_survey(ev)
    deg = new.d['bound'].get('deg') if new else None
    for e in ev.events:
        if e.kind != 'setitem':
            continue
        v = ev.deref(e.d['value'])
        if v.op != 'bin' or v.a[0] != '+' or v.a[2].op != 'idx' or v.a[2].a[0].op != 'attr' or v.a[2].a[0].a[0] is not me:
            continue
        w = f'{e.rel}:{e.line}'
        k = station_of(mk('elem', v.a[2], 0))
        name = v.a[2].a[0].a[1]
        if k is None:
            chk.unknown(rule, f'{q} added depth', show(v.a[2], 4)[:100], w)
        elif name != 'md' or k[1] != 0:
            chk.bad(rule, f'{q} added depth', f"the arc's length is added to {show(v.a[2], 4)[:80]}, not to the md of the interval's first station", w)
        else:
            chk.ok(rule, f'{q} added depth', "md of the interval's first station plus the arc's length", w)
        for x in subterms(v):
            if x.op == 'list' and len(x.a) == 2 and x.a[1].op == 'star' and x.a[0].op == 'idx':
                part_, ang = x.a[0].a[1], x.a[1].a[0]
                c = f'{q} arc length'
                if is_const(part_) and cval(part_) in (-1, 2):
                    chk.ok(rule, c, "the arc's third result", w)
                elif is_const(part_):
                    chk.bad(rule, c, f"the arc's result {cval(part_)} is taken for its length", w)
                degrees = any(y.op == 'call' and y.a[0] == 'numpy.degrees' for y in subterms(ang) if any(z.op == 'rcall' and z.a[0] == 'utils.get_angles' for z in subterms(y)))
                if deg is TRUE and ang.op == 'idx' and ang.a[0].op == 'rcall' and not degrees:
                    chk.bad(rule, f'{q} angles', 'radians among stations read as degrees', w)
                elif deg is TRUE and degrees:
                    chk.ok(rule, f'{q} angles', 'degrees', w)
                break



def curve_hold_curve(chk):
    """the reference path: arc, straight along the first arc's end direction, arc; each arc from where the last piece ended"""
    q = 'utils.make_clc_path'
    fn = chk.need(q)
    RULE = 'arc end'
    ev, r = evaluate(chk, q, {}, inline=lambda f: f.qual == q, given=[sym('pos0'), sym('vec0')], defaults=False)
    calls = [e for e in ev.events if e.kind == 'call' and e.d['callee'] == 'utils.get_arc'] if ev and r is not None else []
    if len(calls) != 2:
        chk.unknown(RULE, q, 'not two arcs', fn.loc)
        return
    name = {}

    def plain(t):
        def f(x):
            if x.op == 'mcall' and x.a[1] == 'copy' and not x.a[2].a:
                return x.a[0]
            if x.op == 'call' and x.a[0] in ('numpy.asarray', 'numpy.array', 'numpy.copy', 'numpy.astype') and x.a[1].a:
                return x.a[1].a[0]
            if x.op == 'ite' and x.a[0].op == 'cmp' and x.a[0].a[0] == 'is' and x.a[0].a[2] is NONE and x.a[0].a[1].op == 'sym':
                return x.a[2]
            return name.get(x, x)
        return rebuild(ev.deref(t), f)
    for k, e in ((1, calls[0]), (3, calls[1])):
        t = plain(e.d['result'])
        for i, n in enumerate((f'pos{k}', f'vec{k}', f'dist_curve{1 if k == 1 else 2}')):
            name[mk('idx', t, const(i))] = sym(n)
    three = {sym(n): (3,) for n in ('pos0', 'vec0', 'pos1', 'vec1', 'pos3', 'vec3')}
    hold = spec_term(chk, 'core.along', {})
    want = [{'dogleg': sym('dogleg1'), 'radius': sym('radius'), 'toolface': sym('toolface1'), 'pos': sym('pos0'), 'vec': sym('vec0')},
            {'dogleg': sym('dogleg2'), 'radius': sym('radius'), 'toolface': sym('toolface2'), 'pos': hold, 'vec': sym('vec1')}]
    for i, (e, w) in enumerate(zip(calls, want)):
        for p, v in w.items():
            if p in e.d['bound']:
                decide(chk, RULE, f'{q} arc {i + 1} {p}', plain(e.d['bound'][p]), v, Lower(three), loc=f'{e.rel}:{e.line}')
    out = {}
    for x in subterms(ev.deref(r)):
        if x.op == 'dict':
            for kv in x.a:
                if kv.op == 'kv' and (kv.a[0] if not isinstance(kv.a[0], T) else cval(kv.a[0]) if is_const(kv.a[0]) else None) is not None:
                    out[kv.a[0] if not isinstance(kv.a[0], T) else cval(kv.a[0])] = kv.a[1]
    for k, v in dict(pos1=sym('pos1'), vec1=sym('vec1'), dist_curve1=sym('dist_curve1'), pos2=hold, vec2=sym('vec1'), pos3=sym('pos3'), vec3=sym('vec3'), dist_curve2=sym('dist_curve2')).items():
        if k in out:
            decide(chk, RULE, f"{q} '{k}'", plain(out[k]), v, Lower(three), loc=fn.loc)
        elif len(out) >= 4 and ev.deref(r).op == 'dict' and all(isinstance(x, str) for x in out):
            chk.bad('arc end', f"{q} '{k}'", f'the result has no {k}: {", ".join(sorted(out))}', fn.loc)


def run(chk):
    chk.explanation = ('value numbering of each position routine (helpers inlined) and of the minimum-curvature law written in spec/core.py; '
                       'components compared by algebraic normal form')
    st = S(md=n, inc=n, azi=n, start_xyz=(3,))
    formula(chk, 'ratio factor', 'utils.get_rf', 'core.rf', shapes=S(dogleg=n), special=[lambda t: 0.0], construct='utils.get_rf[array]')
    formula(chk, 'ratio factor', 'utils.get_rf', 'core.rf', special=[lambda t: 0.0], construct='utils.get_rf[scalar]')
    formula(chk, 'ratio factor', 'connector.shape_factor', 'core.rf', special=[lambda t: 0.0])
    v = S(delta_md=n, inc1=n, inc2=n, azi1=n, azi2=n, rf=n)
    formula(chk, 'displacement', 'utils.min_curve_step', 'core.step', params={'rf': NONE}, shapes=v, special=[same], construct='utils.min_curve_step[rf computed]')
    formula(chk, 'displacement', 'utils.min_curve_step', 'core.step', params={'rf': sym('rf')}, shapes=v, given=[sym('rf')], construct='utils.min_curve_step[rf given]')
    formula(chk, 'displacement', 'utils.min_curve_step', 'core.step', params={'rf': NONE}, construct='utils.min_curve_step[scalar]', special=[same])
    for name, spec in (('dogleg', 'station_dogleg'), ('rf', 'station_rf'), ('delta_y', 'delta_n'), ('delta_x', 'delta_e'), ('delta_z', 'delta_v'), ('poss', 'positions_xyz')):
        formula(chk, 'trajectory', 'utils.MinCurve.__init__', 'core.' + spec, out=attr(name), shapes=st, special=[same], construct=f'utils.MinCurve.{name}')
    survey_positions(chk, 'trajectory')
    # interpolation
    kw = dict(lower_kw={'atoms': SurveyModel()}, ranges=SURVEY_RANGES, defaults=False, special=[same])
    formula(chk, 'interpolation', 'survey._interpolate_pos_nev', 'survey.interp_pos', **kw)
    fn = chk.need('survey._interpolate_survey')
    K = const(3)        # an arbitrary station; the distance a plain number
    nd = mk('ext', 'numpy.ndarray')
    ev, r = evaluate(chk, 'survey._interpolate_survey', params={'index': K}, assume=[(mkcall('isinstance', [sym('x'), nd]), False)], opaque_init=('survey.Survey',))
    e = new_survey(ev) if ev else None
    if e is None:
        chk.unknown('interpolation', 'survey._interpolate_survey', 'no survey built', fn.loc)
    else:
        L = Lower({}, atoms=SurveyModel())
        x, i = [sym(p) for p in fn.params()[1:3]]
        for p, spec in (('md', 'interp_md'), ('inc', 'interp_inc'), ('azi', 'interp_azi'), ('start_nev', 'interp_start_nev'), ('start_xyz', 'interp_start_xyz')):
            decide(chk, 'interpolation', f'survey._interpolate_survey.{p}', ev.deref(e.d['bound'][p]), spec_term(chk, 'survey.' + spec, {'index': K}), L, SURVEY_RANGES, [same], loc=f'{e.rel}:{e.line}', angle='rad' if p == 'azi' else None)
    chk.group(interpolators)
    chk.group(maximum_curvature)
    # arcs
    v3 = S(pos1=(3,), vec1=(3,), vec2=(3,), pos=(3,), vec=(3,))
    formula(chk, 'arc end', 'connector.get_pos', 'core.get_pos', shapes=v3)
    formula(chk, 'arc end', 'utils.Arc.__init__', 'core.arc_pos', out=attr('pos'), construct='utils.Arc.pos')
    formula(chk, 'arc end', 'utils.Arc.__init__', 'core.arc_vec', out=attr('vec'), construct='utils.Arc.vec')
    formula(chk, 'arc end', 'utils.Arc.__init__', 'core.arc_length', out=attr('delta_md'), construct='utils.Arc.delta_md')
    ar = dict(params={'target': FALSE}, given=[sym('pos'), sym('vec')], shapes=v3, ranges=ranges(vec=(-1., 1.)))
    formula(chk, 'arc end', 'utils.get_arc', 'core.arc_end', out=part(0), construct='utils.get_arc position', **ar)
    formula(chk, 'arc end', 'utils.get_arc', 'core.arc_end_vec', out=part(1), construct='utils.get_arc direction', **ar)
    formula(chk, 'arc end', 'utils.get_arc', 'core.arc_length', out=part(2), construct='utils.get_arc length', **ar)
    ar = dict(params={'target': TRUE}, given=[sym('pos'), sym('vec')], shapes=v3, ranges=ranges(vec=(-1., 1.)))
    formula(chk, 'arc end', 'utils.get_arc', 'core.arc_back', out=part(0), construct='utils.get_arc position[from the target]', **ar)
    formula(chk, 'arc end', 'utils.get_arc', 'core.arc_back_vec', out=part(1), construct='utils.get_arc direction[from the target]', **ar)
    chk.group(curve_hold_curve)
