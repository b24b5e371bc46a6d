"""C30 Difficulty and tortuosity indices, and the centres of a survey's arcs, follow their definitions."""
from .common import *

RULE = 'index definition'
FT = 0.3048


def lengths(t, unit):
    """quantities with a length unit, converted to feet, as plain numbers"""
    def factor(u):
        if not any(w in show(u, 6) for w in ('pint', 'units.')):
            return None
        if u.op == 'attr' and isinstance(u.a[1], str):
            return {'meters': 1 / FT, 'meter': 1 / FT, 'm': 1 / FT, 'metre': 1 / FT, 'metres': 1 / FT, 'feet': 1.0, 'foot': 1.0, 'ft': 1.0}.get(u.a[1])
        if u.op != 'bin':
            for x in subterms(u):
                if is_const(x) and isinstance(cval(x), str):
                    f = {'meters': 1 / FT, 'meter': 1 / FT, 'm': 1 / FT, 'feet': 1.0, 'foot': 1.0, 'ft': 1.0}.get(cval(x))
                    if f:
                        return f
        return None

    def f(x):
        if x.op != 'attr' or x.a[1] not in ('m', 'magnitude') or x.a[0].op != 'mcall' or x.a[0].a[1] != 'to':
            return x
        q, to = x.a[0].a[0], [cval(y) for y in subterms(x.a[0].a[2]) if is_const(y)]
        if q.op != 'bin' or q.a[0] != '*' or len(to) != 1:
            return x
        back = {'ft': 1.0, 'feet': 1.0, 'foot': 1.0, 'm': FT, 'meters': FT, 'meter': FT}.get(to[0])
        for a, b in ((q.a[1], q.a[2]), (q.a[2], q.a[1])):
            k = factor(b)
            if k is not None and back is not None:
                return a if k * back == 1 else mk('bin', '*', a, sym('feet_per_metre') if k * back == 1 / FT else const(k * back))
        return x
    return rebuild(t, f)


def difficulty(chk):
    q = 'survey.directional_difficulty_index'
    fn = chk.need(q)
    s = sym('survey')
    for u in ('meters', 'feet'):
        ev, r = evaluate(chk, q, {}, defaults=False, before=lambda ev: ev.heap.__setitem__((s, 'unit'), const(u)))
        c = f'{q}[{u}]'
        if ev is None or r is None:
            chk.unknown(RULE, c, 'no result', fn.loc)
            continue
        t = lengths(ev.deref(r), u)
        sh = {mk('attr', s, a): n for a in ('md', 'n', 'e', 'tvd', 'dogleg')}
        decide(chk, RULE, c, t, spec_term(chk, 'survey.difficulty', {'unit': const(u), 'f': sym('feet_per_metre')}), Lower(sh), ranges(md=(100., 900.), n=(10., 900.), e=(10., 900.), tvd=(50., 900.), dogleg=(0.01, 0.2)), loc=fn.loc)


def centres(chk):
    q = 'survey.get_circle_radius'
    fn = chk.need(q)
    s = sym('survey')
    ev, r = evaluate(chk, q, {}, defaults=False)
    r = ev.deref(r) if ev else UNDEF
    rows = []
    for x in (r.a if r.op == 'tuple' else ()):
        x = ev.deref(x)
        ok = x.op == 'call' and x.a[0] in ('numpy.vstack', 'numpy.concatenate') and len(x.a[1].a) >= 1
        rows.append([ev.deref(y) for y in ev.deref(x.a[1].a[0]).a] if ok else None)
    if len(rows) != 2 or None in rows or [len(x) for x in rows] != [2, 2]:
        chk.unknown(RULE, q, 'centres and ends not recognised', fn.loc)
        return
    at = {p: mk('attr', s, a) for p, a in (('md', 'md'), ('inc', 'inc_rad'), ('azi', 'azi_grid_rad'))}
    nrm = Lower({x: n for x in at.values()})(spec_term(chk, 'survey.interval_normal', at))

    def extra(t):
        if t is mk('attr', s, 'normals'):
            return nrm
        if t is mk('attr', s, 'curve_radius'):
            return A(('n',), {(0,): mk('el', t, 0)})
    L = Lower({}, atoms=SurveyModel(extra=extra))
    R = ranges(md=(100., 900.), inc_rad=(0.3, 1.4), azi_grid_rad=(0.3, 2.9), curve_radius=(200., 900.))
    for k, end in enumerate(('first', 'second')):
        decide(chk, RULE, f"{q} centre from the interval's {end} station", rows[0][k], spec_term(chk, f'survey.centre_{end}'), L, R, loc=fn.loc)
        decide(chk, RULE, f"{q} {end} station", rows[1][k], spec_term(chk, f'survey.interval_{end}'), L, R, loc=fn.loc)


def tortuosity(chk):
    s = sym('survey')
    J, SM, SP, AC = sym('section'), sym('section_md'), sym('section_pos'), sym('total')
    for q, spec in (('survey.tortuosity_index', 'ti'), ('survey.modified_tortuosity_index', 'mti')):
        fn = chk.need(q)
        ev, r = evaluate(chk, q, {'data': FALSE}, inline=lambda f: f.name != '_get_ti_data', defaults=False)
        if ev is None or r is None:
            chk.unknown(RULE, q, 'no result', fn.loc)
            continue
        r = ev.deref(r)
        data = next((x for x in subterms(r) if x.op == 'rcall' and x.a[0] == 'survey._get_ti_data'), None)
        if data is None:
            chk.unknown(RULE, q, 'sections not recognised', fn.loc)
            continue
        mine = lambda x, i: x.op == 'idx' and x.a[0] is data and x.a[1] is const(i)
        prev = lambda x: x.op == 'bin' and x.a[0] == '-' and x.a[1] is J and x.a[2] is const(1)

        def name(x):
            if mine(x, 5):
                return J
            if x.op == 'idx' and prev(x.a[1]):
                y = x.a[0]
                while y.op == 'call' and y.a[0] in ('numpy.array', 'numpy.asarray'):
                    y = y.a[1].a[0]
                if mine(y, 2):
                    return SM
                if mine(y, 3):
                    return SP
            if x.op == 'mcall' and x.a[1] == 'get' and x.a[0] is sym('**kwargs'):
                k = cval(x.a[2].a[0]) if is_const(x.a[2].a[0]) else None
                if k in ('coeff', 'kapa', 'kappa'):
                    return sym('coeff' if k == 'coeff' else 'kappa')
            return x
        sh = S(section=n, section_md=n, section_pos=('n', 3), total=n)
        sh.update({mk('attr', s, 'md'): n, mk('attr', s, 'pos_nev'): ('n', 3)})
        R = ranges(md=(100., 900.), section_md=(10., 90.), coeff=(0.3, 2.), kappa=(1., 5.), section=(1., 9.), total=(0.1, 2.), pos_nev=(10., 900.), section_pos=(10., 900.))
        L = Lower(sh)
        for x in sorted({x for e in ev.events for v in [e.d.get('args') and e.d['args'][0], e.d.get('value')] if v is not None and hasattr(v, 'op') for x in subterms(ev.deref(v))} | set(subterms(r)), key=lambda x: x.id):
            if x.op == 'idx' and x.a[1].op == 'bin' and x.a[1].a[0] in ('-', '+') and mine(x.a[1].a[1], 5) and is_const(x.a[1].a[2]):
                k = cval(x.a[1].a[2]) * (1 if x.a[1].a[0] == '+' else -1)
                y = x.a[0]
                while y.op == 'call' and y.a[0] in ('numpy.array', 'numpy.asarray'):
                    y = y.a[1].a[0]
                for i, what in ((2, 'depths'), (3, 'positions')):
                    if mine(y, i):
                        (chk.ok if k == -1 else chk.bad)(RULE, f'{q} section {what}', f"read at the section's number {k:+d}" + ('' if k == -1 else ', sections are numbered from 1'), fn.loc)
        ext = [e for e in ev.events if e.kind == 'mutcall' and e.d['method'] == 'extend']
        if len(ext) == 1 and ext[0].d['args']:
            v = rebuild(ev.deref(ext[0].d['args'][0]), name)
            loc = f'{ext[0].rel}:{ext[0].line}'
            if v.op == 'bin' and v.a[0] == '+' and v.a[1].op == 'idx' and v.a[2].op == 'phi' and v.a[1].a[1].op == 'cmp':
                m = v.a[1].a[1]
                decide(chk, RULE, f'{q} section term', v.a[1].a[0], spec_term(chk, f'survey.{spec}_term'), L, R, loc=loc)
                good = m.a[0] == '==' and J in m.a[1:] and any(y.op == 'elem' and mine(y.a[0], 4) for y in m.a[1:])
                (chk.ok if good else chk.unknown)(RULE, f'{q} sections', 'stations of the section' if good else show(m, 4)[:120], loc)
                if v.a[2].a[-1] is const(0) or is_const(v.a[2].a[-1]) and cval(v.a[2].a[-1]) == 0:
                    chk.ok(RULE, f'{q} start of the sum', '0', loc)
                elif is_const(v.a[2].a[-1]):
                    chk.bad(RULE, f'{q} start of the sum', f'starts at {cval(v.a[2].a[-1])}', loc)
            else:
                chk.unknown(RULE, f'{q} section term', show(v, 4)[:200], loc)
        else:
            chk.unknown(RULE, f'{q} section term', 'accumulation not recognised', fn.loc)
        if r.op == 'call' and r.a[0] == 'numpy.hstack':
            parts = ev.deref(r.a[1].a[0]).a
            acc = lambda x: AC if x.op == 'call' and x.a[0] == 'numpy.array' and any(y.op == 'sumover' for y in subterms(x)) else name(x)
            if len(parts) == 2:
                decide(chk, RULE, f'{q} index', rebuild(ev.deref(parts[1]), acc), spec_term(chk, f'survey.{spec}_index'), L, R, loc=fn.loc)
                continue
        chk.unknown(RULE, f'{q} index', 'result not recognised', fn.loc)


def sections(chk):
    """where the sections of the tortuosity indices start"""
    q = 'survey._get_ti_data'
    fn = chk.prog.find(q)
    if fn is None:
        chk.unknown(RULE, q, 'this internal function is gone')
        return
    ev, r = evaluate(chk, q, {'dls_tol': NONE}, defaults=False)
    r = ev.deref(r) if ev else UNDEF
    if r.op != 'tuple' or len(r.a) != 6:
        chk.unknown(RULE, q, 'result not recognised', fn.loc)
        return
    s = sym('survey')
    cont, starts, mds, locs, ns, nsa = [ev.deref(x) for x in r.a]
    for what, t, a in (('depths', mds, 'md'), ('positions', locs, 'pos_nev')):
        c = f'{q} {what}'
        if t.op == 'idx' and t.a[0].op == 'attr' and t.a[0].a[0] is s:
            same = t.a[1] is starts
            if t.a[0].a[1] != a:
                chk.bad(RULE, c, f'section starts are read from survey.{t.a[0].a[1]}, not survey.{a}', fn.loc)
            elif same:
                chk.ok(RULE, c, f'survey.{a} at the section starts', fn.loc)
            else:
                chk.unknown(RULE, c, show(t.a[1], 5)[:200], fn.loc)
        else:
            chk.unknown(RULE, c, show(t, 5)[:200], fn.loc)
    # the sections begin at the first station and after each discontinuity: the interval's own first station
    adds = [x for x in subterms(starts) if x.op == 'bin' and x.a[0] in ('+', '-') and is_const(x.a[2]) and x.a[1].op == 'idx' and x.a[1].a[0].op == 'call' and x.a[1].a[0].a[0] in ('numpy.where', 'numpy.nonzero')]
    bare = [x for x in subterms(starts) if x.op == 'idx' and x.a[0].op == 'call' and x.a[0].a[0] in ('numpy.where', 'numpy.nonzero')]
    c = f'{q} starts'
    if len(adds) == 1:
        k = cval(adds[0].a[2]) * (1 if adds[0].a[0] == '+' else -1)
        (chk.ok if k == 1 else chk.bad)(RULE, c, f'a discontinuity between intervals j and j+1 starts a section at station j+{k}' + ('' if k == 1 else ', the station between them is j+1'), fn.loc)
        cond = adds[0].a[1].a[0].a[1].a[0]
        neg = cond.op == 'cmp' and cond.a[0] == '==' and FALSE in cond.a[1:] or cond.op == 'not' or cond.op == 'call' and cond.a[0] in ('numpy.logical_not', 'numpy.invert')
        if neg:
            chk.ok(RULE, f'{q} discontinuities', 'where the intervals are not continuous', fn.loc)
        elif cond is cont or cond.op == 'cmp' and cond.a[0] == '==' and TRUE in cond.a[1:]:
            chk.bad(RULE, f'{q} discontinuities', 'sections start where the intervals are continuous', fn.loc)
        else:
            chk.unknown(RULE, f'{q} discontinuities', show(cond, 4)[:120], fn.loc)
    elif len(bare) == 1:
        chk.bad(RULE, c, 'a discontinuity between intervals j and j+1 starts a section at station j, the station between them is j+1', fn.loc)
    else:
        chk.unknown(RULE, c, show(starts, 5)[:200], fn.loc)
    # the section a station belongs to: counted from 1, a section's own start still belongs to the previous one
    c = f'{q} section of a station'
    side = next((cval(x.a[1]) for x in subterms(nsa) if x.op == 'kw' and x.a[0] == 'side' and is_const(x.a[1])), 'left')
    if nsa.op == 'call' and nsa.a[0] == 'numpy.searchsorted':
        a = nsa.a[1].a
        right = a[0] is mds and a[1] is mk('idx', mk('attr', s, 'md'), mk('slice', const(1), NONE, NONE))
        if right and side == 'left':
            chk.ok(RULE, c, 'number of section starts above it', fn.loc)
        elif right:
            chk.bad(RULE, c, "a section's start is counted to the section it starts: its course length there is 0", fn.loc)
        elif a[0] is mds and a[1].op == 'idx' and a[1].a[0] is mk('attr', s, 'md') and a[1].a[1] is mk('slice', NONE, const(-1), NONE):
            chk.bad(RULE, c, 'read at the station that starts the interval: the term of a station is formed with the section of the station above', fn.loc)
        else:
            chk.unknown(RULE, c, show(nsa, 5)[:200], fn.loc)
    else:
        chk.unknown(RULE, c, show(nsa, 5)[:200], fn.loc)
    # the sections are numbered from 1 and every one of them is visited
    c = f'{q} numbering'
    t = ns
    if t.op == 'call' and t.a[0] == 'numpy.arange' and (len(t.a[1].a) == 2 or len(t.a[1].a) == 3 and t.a[1].a[2] is const(1)):
        lo, hi = t.a[1].a[:2]
        size = lambda x: x.op == 'call' and x.a[0] == 'len' and x.a[1].a[0] in (starts, mds, locs)
        k = None
        if size(hi):
            k = 0
        elif hi.op == 'bin' and hi.a[0] in ('+', '-') and size(hi.a[1]) and is_const(hi.a[2]):
            k = cval(hi.a[2]) * (1 if hi.a[0] == '+' else -1)
        if is_const(lo) and k is not None:
            good = cval(lo) == 1 and k == 1
            (chk.ok if good else chk.bad)(RULE, c, f'numbers {cval(lo)} to the number of sections{k - 1:+d}' + ('' if good else ', sections are numbered 1 to their number'), fn.loc)
        else:
            chk.unknown(RULE, c, show(t, 5)[:200], fn.loc)
    else:
        chk.unknown(RULE, c, show(t, 5)[:200], fn.loc)


def run(chk):
    chk.explanation = ('value numbering of the index functions (unit conversions replaced by their factors, for each length unit) and of the arc centres; '
                       'terms compared by algebraic normal form with the published definitions in spec/survey.py')
    for f in (difficulty, centres, tortuosity, sections):
        chk.group(f)
